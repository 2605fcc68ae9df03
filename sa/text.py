"""The value of string terms for a given text: the rules about text processing compare the value every path computes
with the documented one for texts of every relevant form."""
import re
from engine import strip_targs

NPOS = 2 ** 64 - 1
SPACE = ' \t\n\v\f\r'


class Unknown(Exception):
    pass


class Fails(Exception):
    """the path would raise an exception for this text"""


def last(q):
    return strip_targs(q or '').split('::')[-1]


def strip(s):
    return s.strip(SPACE)


class Text(object):
    """env: term -> value (str, int, bool); regex: object term -> pattern"""

    def __init__(self, env, regex=None, engine=None):
        self.env = env
        self.engine = engine
        self.regex = regex or (lambda t: None)

    def val(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k in ('s', 'c'):
            return t[1]
        if k == 'cat':
            return ''.join(self.char(x) for x in t[1:])
        if k in ('substr',):
            return self.substr(self.val(t[1]), self.val(t[2]), self.val(t[3]) if len(t) > 3 else NPOS)
        if k == 'mut':
            return self.mut(t[1], self.val(t[2]), t[3])
        if k == 'empty':
            return self.val(t[1]) == ''
        if k == 'size':
            return len(self.val(t[1]))
        if k == 'prefix':
            return self.val(t[1]).startswith(self.val(t[2]))
        if k == 'nz':
            v = self.val(t[1])
            return bool(v)
        if k in ('at', 'idx') and len(t) == 3:
            s = self.val(t[1])
            i = self.val(t[2])
            if not isinstance(s, str):
                raise Unknown(t)
            return ord(s[i]) if i < len(s) else 0
        if k in ('front', 'back') and len(t) == 2:
            s = self.val(t[1])
            if not s:
                raise Unknown(t)
            return ord(s[0 if k == 'front' else -1])
        if k == 'op':
            return self.op(t)
        if k == 'cond' and len(t) == 4:
            return self.val(t[2] if self.val(t[1]) else t[3])
        if k in ('pcall', 'call'):
            return self.call(t)
        raise Unknown(t)

    def char(self, t):
        v = self.val(t)
        return chr(v) if isinstance(v, int) else v

    def substr(self, s, p, n):
        if p > len(s):
            raise Fails()
        return s[p:p + n]

    def op(self, t):
        o = t[1]
        if len(t) == 3:
            v = self.val(t[2])
            return {'!': lambda: not v, '-': lambda: -v}.get(o, lambda: self.no(t))()
        if o in ('&&', '||'):
            a = self.val(t[2])
            return (bool(a) and bool(self.val(t[3]))) if o == '&&' else (bool(a) or bool(self.val(t[3])))
        a, b = self.val(t[2]), self.val(t[3])
        if isinstance(a, str) != isinstance(b, str):
            raise Unknown(t)
        f = {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}
        if not isinstance(a, str):
            f.update({'+': lambda: (a + b) % 2 ** 64, '-': lambda: (a - b) % 2 ** 64})
        return f.get(o, lambda: self.no(t))()

    def no(self, t):
        raise Unknown(t)

    def call(self, t):
        n = last(t[1])
        if n == 'isspace' and len(t[3]) == 1:
            return chr(self.val(t[3][0])) in SPACE
        if t[1].startswith('std::') and n in ('find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'find', 'rfind') and t[2] is not None:
            s = self.val(t[2])
            if not isinstance(s, str):
                raise Unknown(t)
            a = self.char(t[3][0])
            p = self.val(t[3][1]) if len(t[3]) > 1 else (NPOS if n in ('rfind', 'find_last_of', 'find_last_not_of') else 0)
            if n == 'find':
                i = s.find(a, min(p, len(s) + 1))
            elif n == 'rfind':
                i = s.rfind(a, 0, p + len(a))
            else:
                want = (lambda c: c in a) if 'not' not in n else (lambda c: c not in a)
                js = [j for j, c in enumerate(s) if want(c) and (j <= p if '_last_' in n else j >= p)]
                i = (js[-1 if '_last_' in n else 0]) if js else -1
            return i if i >= 0 else NPOS
        if n == 'compare' and t[2] is not None and len(t[3]) == 3:
            s, p, c, a = self.val(t[2]), self.val(t[3][0]), self.val(t[3][1]), self.val(t[3][2])
            x = self.substr(s, p, c)
            return (x > a) - (x < a)
        if 'RegularExpression' in t[1] and n in ('match', 'end', 'start') and t[2] is not None and t[2][0] == 'out':
            m = self.search(t[2][3])
            g = self.val(t[3][0]) if t[3] else 0
            if not m or g > m.re.groups:
                return '' if n == 'match' else 0
            return m.group(g) if n == 'match' else m.end(g) if n == 'end' else m.start(g)
        if 'RegularExpression' in t[1] and n == 'find' and len(t[3]) == 1:
            return self.search(t) is not None
        raise Unknown(t)

    def search(self, call):
        """the match of an opaque RegularExpression::find"""
        if call[0] not in ('call', 'pcall') or last(call[1]) != 'find':
            raise Unknown(call)
        pat = self.regex(call[2])
        if pat is None:
            raise Unknown(call)
        return re.search(pat, self.val(call[3][0]))

    # positions inside the string that is being changed
    def pos(self, a, s):
        if a[0] == 'begin':
            return 0
        if a[0] == 'end':
            return len(s)
        if a[0] in ('pcall', 'call') and last(a[1]) == 'base':
            return len(s) - self.rpos(a[2], s)
        if a[0] in ('pcall', 'call') and last(a[1]) in ('find_if', 'find_if_not'):
            if self.pos(a[3][0], s) != 0 or self.pos(a[3][1], s) != len(s):
                raise Unknown(a)
            for i, c in enumerate(s):
                if self.pred(a[3][2], c) != (last(a[1]) == 'find_if_not'):
                    return i
            return len(s)
        if a[0] == 'op' and a[1] in ('+', '-') and len(a) == 4:
            p = self.pos(a[2], s)
            return p + self.val(a[3]) if a[1] == '+' else p - self.val(a[3])
        raise Unknown(a)

    def rpos(self, a, s):
        if a is None:
            raise Unknown(a)
        if a[0] in ('last', 'rbegin'):
            return 0
        if a[0] == 'rend':
            return len(s)
        if a[0] in ('pcall', 'call') and last(a[1]) in ('find_if', 'find_if_not'):
            if self.rpos(a[3][0], s) != 0 or self.rpos(a[3][1], s) != len(s):
                raise Unknown(a)
            for i, c in enumerate(reversed(s)):
                if self.pred(a[3][2], c) != (last(a[1]) == 'find_if_not'):
                    return i
            return len(s)
        raise Unknown(a)

    def pred(self, p, c):
        if p[0] == 'notf':
            return not self.pred(p[1], c)
        if p[0] == 'fn' and last(p[1]) == 'isspace':
            return c in SPACE
        if p[0] == 'lambda' and self.engine is not None and p in self.engine.lambdas:
            lam, fr0 = self.engine.lambdas[p]
            arg = ('sym', 'element')
            T = Text({arg: ord(c)}, self.regex, self.engine)
            for st, v in self.engine.enter_lambda(lam, fr0, self.engine.blank(), [arg], [None]):
                ok, und = T.fits(st.facts)
                if ok:
                    if und:
                        raise Unknown(und[0])
                    return bool(T.val(v))
        raise Unknown(p)

    def mut(self, n, s, args):
        if not isinstance(s, str):
            raise Unknown(n)
        if n == 'clear':
            return ''
        if n == 'erase':
            try:
                xs = [self.val(a) for a in args]
                if any(not isinstance(x, int) or isinstance(x, bool) for x in xs):
                    raise Unknown(args)
                p, c = xs[0] if xs else 0, xs[1] if len(xs) > 1 else NPOS
                if p > len(s):
                    raise Fails()
                return s[:p] + s[p + c:]
            except Unknown:
                xs = [self.pos(a, s) for a in args]
                if len(xs) != 2 or xs[0] > xs[1]:
                    raise Unknown(args)
                return s[:xs[0]] + s[xs[1]:]
        if n == 'resize' and len(args) == 1:
            x = self.val(args[0])
            if x > len(s):
                raise Unknown(args)
            return s[:x]
        if n == 'pop_back':
            return s[:-1]
        if n in ('push_back', 'append', 'operator+=') and len(args) == 1:
            return s + self.char(args[0])
        raise Unknown(n)

    def fits(self, facts):
        """(no fact contradicts the text, the facts that could not be decided)"""
        und = []
        for k, v in facts.items():
            try:
                if bool(self.val(k)) != v:
                    return False, []
            except Unknown:
                und.append(k)
            except Fails:
                und.append(k)
        return True, und
