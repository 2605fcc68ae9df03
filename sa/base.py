"""Reporting and helpers shared by the rules."""
import json
import os
import sys
import time

from engine import *            # noqa
from engine import Engine, show, strip_targs, C, St, Out
from facts import Broken, rel, walk, calls, VERIF
import facts

THIS = ('P', ('this',))


class Rep(object):
    def __init__(self, prop):
        self.prop = prop
        self.obs = []           # (id, ok, text, where)
        self.functions = set()
        self.paths = 0
        self.sites = 0
        self.rules = []
        self.notes = []

    def rule(self, text):
        self.rules.append(text)

    def ob(self, oid, ok, text, where='', detail=''):
        self.obs.append((oid, bool(ok), text, where, detail))
        return ok

    def count(self, prefix):
        return len([o for o in self.obs if o[0].startswith(prefix)])

    def saw(self, fn, outs=None):
        self.functions.add('%s (%s:%s)' % (fn['q'], rel(fn['file']), fn['l']))
        if outs is not None:
            self.paths += len(outs)


def where(fn, line=None):
    return '%s:%s %s' % (rel(fn['file']), line or fn['l'], fn['q'])


def TF(name):
    """location of this->name"""
    return ('F', THIS, name)


def mutations(o, obj=THIS, nested=True):
    """modifications of fields of obj along the path o, normalised"""
    out = []
    for e in (o.flat() if nested else o.events):
        if e[0] == 'write' or e[0] == 'init':
            loc, v, line = e[1], e[2], e[3]
            path = []
            l = loc
            while l[0] in ('F', 'I') and l != obj:
                path.append(l)
                l = l[1]
            if l != obj or not path:
                if loc == obj:
                    out.append(('*', 'assign', None, v, line))
                continue
            f = path[-1][2]
            rest = list(reversed(path[:-1]))
            if not rest:
                out.append((f, 'assign', None, v, line))
            elif rest[0][0] == 'I':
                key = rest[0][2]
                if len(rest) == 1 or (len(rest) == 2 and rest[1][2] == 'second'):
                    out.append((f, 'put', key, v, line))
                else:
                    out.append((f, 'putsub', key, v, line))
            else:
                out.append((f, 'putsub', None, v, line))
        elif e[0] == 'cmut':
            loc, name, args, line = e[1], e[2], e[3], e[4]
            l = loc
            f = None
            while l[0] in ('F', 'I') and l != obj:
                f = l[2] if l[0] == 'F' else f
                l = l[1]
            if l != obj or f is None:
                continue
            if name in ('insert', 'emplace') and len(args) == 1 and args[0][0] == 'pair':
                out.append((f, 'put?', args[0][1], args[0][2], line))
            elif name in ('insert', 'emplace', 'push_back', 'emplace_back'):
                out.append((f, 'add', args[0] if len(args) == 1 else None, args, line))
            elif name == 'erase' and len(args) == 1:
                a = args[0]
                out.append((f, 'del', a[2] if a[0] == 'find' else a, None, line))
            else:
                out.append((f, name, None, args, line))
        elif e[0] == 'call':
            # opaque call that may modify a field
            q, v = e[1], e[4]
            for loc, val in o.st.store.items():
                if val and val[0] == 'out' and val[3] == v:
                    l = loc
                    f = None
                    while l[0] in ('F', 'I') and l != obj:
                        f = l[2] if l[0] == 'F' else f
                        l = l[1]
                    if l == obj and f is not None:
                        out.append((f, 'opaque', None, val, e[5]))
    return out


def known(eng, o, term):
    return eng.truth(o.st, term)


def key_in(container, key):
    return ('in', container, key)


def fmt_path(o):
    return o.describe()[:1200]


def extractions(val):
    """terms inside val that were read from a stream -> the extraction calls"""
    out = []
    for t in subterms(val):
        if t and t[0] == 'out' and len(t) == 4 and t[2] != -1 and isinstance(t[3], tuple) and t[3][0] == 'call' \
                and strip_targs(t[3][1]).split('::')[-1] in ('operator>>', 'get', 'getline', 'read'):
            if t[3] not in out:
                out.append(t[3])
    return out


def stream_checked(eng, o, call):
    """the path established that the stream is still good at or after the extraction"""
    for k, v in o.facts.items():
        if k[0] == 'nz' and v and k[1][0] == 'stream' and contains(k[1], call):
            return True
    return False


def stream_failed(o):
    return [k for k, v in o.facts.items() if k[0] == 'nz' and not v and k[1][0] == 'stream']


def cval(t, env):
    """integer value of a term once its leaves are fixed by env; None when it depends on anything else"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1] if isinstance(t[1], (int, float)) else None
    if k == 'nz':
        v = cval(t[1], env)
        return None if v is None else int(v != 0)
    if k == 'ite' and len(t) == 4:
        c = cval(t[1], env)
        return None if c is None else cval(t[2] if c else t[3], env)
    if k in ('call', 'pcall') and t[1].split('<')[0] in ('std::min', 'std::max') and len(t[3]) == 2:
        xs = [cval(x[1] if x[0] == 'ref' else x, env) for x in t[3]]
        return None if None in xs else (min if 'min' in t[1] else max)(xs)
    if k == 'op':
        if t[1] == '?:' and len(t) == 5:
            c = cval(t[2], env)
            return None if c is None else cval(t[3] if c else t[4], env)
        xs = [cval(x, env) for x in t[2:]]
        if t[1] == '&&' and 0 in xs:
            return 0
        if t[1] == '||' and any(x for x in xs if x is not None):
            return 1
        if any(x is None for x in xs):
            return None
        if t[1] == '&&':
            return int(all(xs))
        if t[1] == '||':
            return int(any(xs))
        if t[1] == '!':
            return int(not xs[0])
        if t[1] == 'neg':
            return -xs[0]
        if len(xs) == 2:
            a, b = xs
            f = {'<': lambda: int(a < b), '==': lambda: int(a == b), '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b),
                 '!=': lambda: int(a != b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}.get(t[1])
            return f() if f else None
    return None


def fits(facts, env):
    """no fact contradicts the assignment"""
    for k, v in facts.items():
        x = cval(k, env)
        if x is not None and bool(x) != v:
            return False
    return True


def selection(o, term):
    """a container filled by one loop that starts empty: (loop space, [(facts, appended value or None)]) or a reason"""
    if term == ('ilist', ()) :
        return 'nothing is ever added'
    if term[0] != 'loopv':
        return 'not filled by a loop: %s' % show(term)[:120]
    ev = [e for e in o.flat() if e[0] == 'loop' and e[1] == term[1]]
    if not ev:
        return 'loop not on the path'
    e = ev[0]
    if left_early(o, e[1]):
        return 'the loop is left early'
    if dict(e[4]).get(term[2]) != ('ilist', ()):
        return 'does not start empty'
    out = []
    for f, b, u in e[3]:
        v = dict(u).get(term[2], term)
        facts = dict(o.facts)
        facts.update(dict(f))
        if v == term:
            out.append((facts, None))
        elif v[0] == 'mut' and v[1] in ('push_back', 'emplace_back', 'insert', 'emplace') and v[2] == term and len(v[3]) == 1:
            out.append((facts, v[3][0]))
        elif v[0] == 'loopv' and v[2] == term[2] and adds_all(b, v, term) is not None:
            out.append((facts, ('rangeof', adds_all(b, v, term))))
        else:
            return 'changed otherwise: %s' % show(v)[:120]
    return e[2], out, e[1]


def adds_all(events, term, start=None):
    """term is the contents of a container after a loop that adds every element of a range: that range"""
    for e in events:
        if e[0] != 'loop' or e[1] != term[1] or e[2][0] != 'range' or len(e[3]) != 1:
            continue
        if any(x[0] in ('brk', 'iter') and x[1] == e[1] for x in events):
            return None
        facts, evs, upd = e[3][0]
        v = dict(upd).get(term[2])
        if start is not None and dict(e[4]).get(term[2], start) != start:
            return None
        facts = [k for k, x in tuple(facts) if not (k[0] == 'op' and k[1] == '==' and not x and any(y[0] == 'end' for y in k[2:]) and any(y[:2] == ('it', e[1]) for y in k[2:]))]
        if not facts and v is not None and v[0] == 'mut' and v[1] in ('push_back', 'emplace_back', 'insert', 'emplace') and v[2] == term and \
                len(v[3]) == 1 and v[3][0] in (('at', e[2][1], ('it', e[1])), ('deref', ('at', e[2][1], ('it', e[1])))):
            return e[2][1]
    return None


def left_early(o, lid):
    """the path leaves the loop from the middle (break or return) instead of running it to its end"""
    return any(e[0] in ('brk', 'iter') and e[1] == lid for e in o.flat())


def runs_through(o, lp):
    """the loop visits everything its condition allows; a loop without condition has to be left from the middle"""
    return lp[2][0] == 'forever' or not left_early(o, lp[1])


def and3(*xs):
    if any(x is False for x in xs):
        return False
    return True if all(x is True for x in xs) else None


def or3(*xs):
    if any(x is True for x in xs):
        return True
    return False if all(x is False for x in xs) else None


def not3(x):
    return None if x is None else not x


def prefixes(E, facts, pfx):
    """[(x, bool)] for the strings of which the path knows whether they begin with pfx"""
    size = E.sizeterm(pfx)
    res = []
    longer = {}
    for k, v in facts.items():
        if k[0] != 'op':
            continue
        if k[1] == '<' and k[2][0] == 'size' and k[3] == size:
            longer[k[2][1]] = not v
        elif k[1] == '<' and k[3][0] == 'size' and k[2] == size and v:
            longer[k[3][1]] = True
        elif k[1] == '<=' and k[2] == size and k[3][0] == 'size':
            longer[k[3][1]] = v
    for k, v in facts.items():
        t = k[1] if k[0] == 'nz' else k
        if t[0] == 'prefix' and t[2] == pfx:
            res.append((t[1], v))
        elif t[0] == 'startswith' and t[2] == pfx:
            # compares as many characters as pfx has, whether there or not
            if not v:
                res.append((t[1], False))
            elif longer.get(t[1]):
                res.append((t[1], True))
        elif t[0] == 'op' and t[1] == '==' and pfx in t[2:]:
            x = t[3] if t[2] == pfx else t[2]
            if x[0] == 'substr' and x[2:] == (('c', 0), size):
                res.append((x[1], v))
    res += [(x, False) for x, v in longer.items() if not v]
    return res
