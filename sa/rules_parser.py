"""rules about the configuration file parser"""
import re
import text
from base import *

NS = 'kwiver::vital::'
PR = NS + 'config_parser::priv'


def last(q):
    return strip_targs(q).split('::')[-1]


class Parser(object):
    def __init__(self, P):
        self.P = P
        self.cls = P.klass(PR)
        f = {x['n']: x['t'] for x in self.cls['fields']}
        bools = [n for n, t in f.items() if t == 'bool']
        blocks = [n for n, t in f.items() if t.startswith('std::vector<') and 'block_context' in t]
        conf = [n for n, t in f.items() if t.startswith('std::shared_ptr<') and 'config_block' in t]
        if len(bools) != 1 or len(blocks) != 1 or len(conf) != 1:
            raise Broken('parser fields not recognised: %r' % f)
        self.latch, self.blocks, self.conf = bools[0], blocks[0], conf[0]
        self.fields = f
        toks = [m for m in P.methods(PR) if any('token_t' in p['t'] and p['m'] == 'r' for p in m['p'])
                and any('istream' in p['t'] for p in m['p'])]
        us = {m['u'] for m in toks}
        toks = [m for m in toks if not any(c.get('u') in us for c in calls(m))]       # the others read through it
        if len(toks) != 1:
            raise Broken('token reader not identified')
        self.get_token = toks[0]
        proc = [m for m in P.methods(PR) if any('basic_ifstream' in str(c.get('q')) or c.get('u') == self.get_token['u'] for c in calls(m))
                and m['u'] not in us]
        proc = [m for m in proc if any(c.get('u') == m['u'] for c in calls(m))]
        if len(proc) != 1:
            raise Broken('file processor not identified')
        self.process = proc[0]
        # the text not yet read and the position in the file: what reading a token changes
        done, todo, ch = set(), [self.get_token], set()
        while todo:
            m = todo.pop()
            if m['u'] in done or m.get('body') is None:
                continue
            done.add(m['u'])
            for x in walk(m['body']):
                if x.get('k') == 'mem' and x.get('q', '').startswith(PR + '::') and x['q'].split('::')[-1] in f:
                    ch.add(x['q'].split('::')[-1])
            for c in calls(m):
                todo += [g for g in P.methods(PR) if g['u'] == c.get('u')]
        self.position = sorted(n for n in ch if n != self.latch and (f[n] == 'int' or is_str_type(f[n])))

    def rest(self):
        """the field that holds what is left of the line"""
        g = self.get_token
        E = Engine(self.P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or last(q) == 'get_line')
        E.keepobj = lambda q: True
        r = set()
        for o in E.run(g):
            for k in o.facts:
                if k[0] == 'empty' and k[1][0] == 'fld' and k[1][1] == ('deref', ('this',)) and k[1][2] in self.position:
                    r.add(k[1][2])
        if len(r) != 1:
            raise Broken('text not yet read not identified: %s' % sorted(r))
        return r.pop()

    def engine(self, **kw):
        P = self.P
        gt, pf = self.get_token['u'], self.process['u']
        gq, pq = self.get_token['q'], self.process['q']

        def opaque(q, fn, e):
            return e.get('u') in (gt, pf) or q.startswith(NS + 'config_block::') or q.startswith(NS + 'token_') \
                or q.startswith('kwiversys::') or last(q) == 'resolve_file_name'
        E = Engine(P, opaque=opaque, **kw)
        E.keepobj = lambda q: q.startswith(PR + '::') or q.startswith(NS + 'token_expander')
        E.changes = lambda q: self.position if q in (gq, pq) else ()
        return E


def is_tok(t, field):
    """term is the kind / text of the token delivered by some reader call -> id of that call"""
    if t[0] == 'fld' and t[2] == field and t[1][0] == 'out' and t[1][1] == 'get_token':
        return t[1][3][-1]
    if t[0] == 'fld' and t[2] == field and t[1][0] == 'loopv' and t[1][2][0] == 'L':
        return t[1][1:]
    return None


def fldname(loc):
    return loc[2] if loc[0] == 'F' and loc[1] == THIS else None


def initial(t, name):
    """term is the value of this->name at the start of the path or of the loop iteration"""
    if not isinstance(t, tuple) or len(t) < 3:
        return False
    return t == ('fld', ('deref', ('this',)), name) or (t[0] == 'loopv' and (t[2] == TF(name) or t[2] == THIS)) \
        or (t[0] == 'fld' and t[2] == name and t[1][0] == 'loopv')


def rooted(t, name):
    """value of this->name possibly modified along the path"""
    while isinstance(t, tuple) and len(t) > 2 and t[0] in ('mut', 'upd'):
        t = t[2] if t[0] == 'mut' else t[1]
    return initial(t, name)


def check_parse_errors(P, rep):
    R = Parser(P)
    rep.rule('every path through one round of the parsing loop either performs exactly one directive (include, open block, close block, '
             'store an entry, define a symbol), or latches the error flag, or leaves by exception or at end of file; the flag is never '
             'cleared; the main file is only accepted when no block is open and the flag is clear')
    f = R.process
    E = R.engine()
    outs = E.run(f)
    rep.saw(f, outs)
    EOF = enum_value(P, 'TK_EOF')
    WORD = enum_value(P, 'TK_WORD')
    nbody = nret = 0
    latchloc = TF(R.latch)
    # --- where the flag is written
    for m in P.methods(PR):
        for x in Engine_writes(P, m, R.latch):
            rep.ob('C05:latch-only-set:%s' % m['n'], x is True, 'outside construction the error flag is only ever set, never cleared', where(m))
    kinds = {}
    flagpol = {}
    for o in [s for x in outs for s in x.segments()]:
        acts = actions(R, o)
        if o.kind == 'body':
            if not any(e[0] == 'call' and e[1] == R.get_token['q'] for e in o.events):
                continue        # an inner loop that reads nothing
            if not any(e[0] == 'ctor' and last(e[1]) == 'token_t' for e in o.events):
                # attribute loop: one attribute, then the next token
                er = any(e[0] == 'write' and e[1] == latchloc and e[2] == C(1) for e in o.events)
                pol = {v for k, v in o.facts.items() if ('s', '[RO]') in subterms(k)}
                rep.ob('C05:flag-handled', len(pol) == 1 and len([e for e in o.events if e[0] == 'call' and e[1] == R.get_token['q']]) == 1,
                       'every attribute is compared with the supported one', where(f), fmt_path(o))
                flagpol.setdefault(er, set()).update(pol)
                continue
            nbody += 1
            err = [e for e in o.events if e[0] == 'write' and e[1] == latchloc and e[2] == C(1)]
            # the inner attribute loop may have latched as well, which is fine
            rep.ob('C05:round:accounted', (len(acts) == 1) != bool(err), 'a line is either acted upon once or recorded as an error', where(f),
                   '%s / %d error records | %s' % ([a[0] for a in acts], len(err), fmt_path(o)))
            for a in acts:
                kinds[a[0]] = kinds.get(a[0], 0) + 1
        elif o.kind == 'ret':
            nret += 1
            eof = any(v and k[0] == 'op' and k[1] == '==' and k[3] == C(EOF) and is_tok(k[2], 'type') for k, v in o.facts.items())
            rep.ob('C05:end:eof', eof, 'parsing of a file ends normally only at end of file', where(f, o.line), fmt_path(o))
            depth = None
            for n in int_fields(R):
                w = [e for e in o.events if e[0] == 'write' and e[1] == TF(n)]
                fv = ('fld', ('deref', ('this',)), n)
                if len(w) >= 2 and w[0][2] == E.binop('+', fv, C(1)) and (w[-1][2] == fv or w[-1][2][:2] == ('op', '-') and w[-1][2][3] == C(1)):
                    depth = w[-1][2]
            ok = depth is not None
            rep.ob('C05:end:depth', ok, 'the nesting depth is raised when a file is opened and lowered when it ends', where(f, o.line), fmt_path(o))
            if ok:
                main = E.truth(o.st, ('op', '==', depth, C(0)))
                if main is not False:
                    rep.ob('C05:end:flag', main is True and any(k[0] == 'nz' and not v and initial(k[1], R.latch) for k, v in o.facts.items()),
                           'the main file is accepted only when the error flag is clear', where(f, o.line), fmt_path(o))
                    rep.ob('C05:end:blocks', any(k[0] == 'empty' and v and rooted(k[1], R.blocks) for k, v in o.facts.items()),
                           'the main file is accepted only when every block was closed', where(f, o.line), fmt_path(o))
        elif o.kind == 'throw':
            rep.ob('C05:throws', o.val[0] in (NS + 'config_file_not_parsed_exception', NS + 'config_file_not_found_exception'),
                   'failures surface as the documented configuration errors', where(f, o.line), '%s %s' % (o.val[0], fmt_path(o)))
    rep.ob('C05:rejects:flag', any(o.kind == 'throw' and o.val[0].endswith('config_file_not_parsed_exception') and
                                   any(k[0] == 'nz' and v and initial(k[1], R.latch) for k, v in o.facts.items()) for o in outs),
           'a latched error makes the main file fail', where(f))
    rep.ob('C05:flag-unknown', len(flagpol) == 2 and len(flagpol[True]) == 1 and len(flagpol[False]) == 1 and flagpol[True] != flagpol[False],
           'an attribute that is not the supported one is recorded as an error', where(f), str(flagpol))
    # opening
    rep.ob('C05:open', any(o.kind == 'throw' and o.val[0].endswith('config_file_not_found_exception') and
                           any(k[0] == 'nz' and not v and k[1][0] == 'stream' for k, v in o.facts.items()) for o in outs) and
           all(any(k[0] == 'nz' and v and k[1][0] == 'stream' for k, v in o.facts.items()) for o in outs if o.kind == 'ret'),
           'a file that cannot be opened is an error', where(f))
    rep.notes.append('directives seen: %s' % sorted(kinds.items()))
    if nbody < 8 or nret < 2 or set(kinds) != {'include', 'open', 'close', 'entry', 'symbol'}:
        raise Broken('parsing loop not understood: %d rounds, %d ends, %s' % (nbody, nret, kinds))
    # unknown text
    g = R.get_token
    E2 = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or last(q) == 'get_line')
    E2.keepobj = lambda q: True
    outs = E2.run(g)
    rep.saw(g, outs)
    ERR = enum_value(P, 'TK_ERROR')
    seen = {}
    for o in outs:
        if o.kind != 'ret':
            rep.ob('C05:token:noexcept', False, 'reading a token does not fail', where(g, o.line), fmt_path(o))
            continue
        ty = [e for e in o.events if e[0] == 'write' and e[1][0] == 'F' and e[1][2] == 'type']
        ok = len(ty) == 1 and ty[0][2][0] == 'c'
        rep.ob('C05:token:one', ok, 'every call classifies exactly one token', where(g, o.line), fmt_path(o))
        if not ok:
            continue
        t = ty[0][2][1]
        seen[t] = seen.get(t, 0) + 1
        er = any(e[0] == 'write' and e[1] == latchloc and e[2] == C(1) for e in o.events)
        rep.ob('C05:token:error', er == (t == ERR), 'unrecognisable text, and nothing else, is recorded as an error', where(g, o.line), fmt_path(o))
    if len(seen) < 6:
        raise Broken('token kinds %s' % seen)


def int_fields(R):
    return [n for n, t in R.fields.items() if t == 'int']


def enum_value(P, name):
    for e in P.enums.values():
        for n, v in e['e']:
            if n == name:
                return int(v)
    raise Broken('enumerator %s not found' % name)


def Engine_writes(P, m, field):
    """constant values assigned to this->field in method m (syntactic); None for anything else"""
    res = []
    if m.get('ctor') or m.get('body') is None:
        return res
    for x in walk(m['body']):
        if x.get('k') == 'asg' and x['L'].get('k') == 'mem' and x['L'].get('q', '').endswith('::' + field):
            v = x['R'].get('cv', x['R'].get('v') if x['R'].get('k') in ('bool', 'int') else None)
            res.append(True if v is not None and str(v) in ('1', 'True', 'true') and x['op'] in ('=', '|=') else None)
    return res


def actions(R, o):
    acts = []
    for e in o.events:
        if e[0] == 'call':
            n = last(e[1])
            if e[1] == R.process['q']:
                acts.append(('include', e))
            elif e[1].startswith(NS + 'config_block::') and n in ('set_value', 'i_set_value'):
                acts.append(('entry', e))
            elif n == 'add_entry':
                acts.append(('symbol', e))
        elif e[0] == 'cmut' and fldname(e[1]) == R.blocks:
            if e[2] in ('push_back', 'emplace_back'):
                acts.append(('open', e))
            elif e[2] == 'pop_back':
                acts.append(('close', e))
    return acts


# ---------------------------------------------------------------------- C06
def check_directives(P, rep):
    """what each directive does"""
    R = Parser(P)
    f = R.process
    E = R.engine()
    outs = E.run(f)
    rep.saw(f, outs)
    rep.rule('in every round that stores an entry the key is the current block context followed by the name on the line, the value is the '
             'macro-expanded text (below the directory of the file for a relative path), its location is recorded for the same key and it is '
             'marked read-only exactly when the attribute was given; opening a block saves the context and appends name and separator, closing '
             'restores it; an include is expanded, resolved, checked to be an existing regular file and then processed')
    ctxs = [n for n, t in R.fields.items() if is_str_type(t)]
    n = {}
    # the context field is the one saved when a block is opened and restored when it is closed
    for o in [s for x in outs for s in x.segments()]:
        if o.kind != 'body' or not any(e[0] == 'ctor' and last(e[1]) == 'token_t' for e in o.events):
            continue
        for kind, e in actions(R, o):
            n[kind] = n.get(kind, 0) + 1
            if kind == 'open':
                w = [x for x in o.events if x[0] == 'write' and fldname(x[1]) in ctxs and x[2][0] == 'cat']
                blk = e[3][0] if e[3] else ('?',)
                ok = False
                for x in w:
                    ctx = fldname(x[1])
                    v = x[2]
                    if len(v) == 4 and initial(v[1], ctx) and is_tok(v[2], 'value') and v[3] == ('glob', NS + 'config_block::block_sep'):
                        sub = list(subterms(blk))
                        saved = any(initial(t, ctx) for t in sub)
                        named = v[2] in sub
                        if blk[0] == 'upd':
                            exact = [pth[-1][-1] for pth, pv in blk[2] if initial(pv, ctx)]
                            saved = len(exact) == 1
                            n.setdefault('savedin', set()).update(exact)
                        if saved and named:
                            ok = True
                        if named:
                            n['ctx'] = ctx
                rep.ob('C06:open', ok, 'opening a block remembers the enclosing context and extends it by the block name and the separator',
                       where(f, e[5]), fmt_path(o))
    ctx = n.get('ctx')
    if ctx is None:
        raise Broken('block context field not identified')
    for o in [s for x in outs for s in x.segments()]:
        if o.kind != 'body' or not any(e[0] == 'ctor' and last(e[1]) == 'token_t' for e in o.events):
            # attribute loop etc.
            continue
        for kind, e in actions(R, o):
            if kind == 'close':
                w = [x for x in o.events if x[0] == 'write' and x[1] == TF(ctx)]
                saved = w[0][2] if len(w) == 1 else ('?',)
                if saved[0] == 'fld' and n.get('savedin'):
                    rep.ob('C06:close:field', {saved[2]} == n['savedin'], 'the restored context is the one that was saved', where(f, e[5]), '%s, saved in %s' % (show(saved), sorted(n['savedin'])))
                ok = saved[0] == 'fld' and saved[1][0] in ('back', 'pcall', 'call', 'fld', 'at', 'it') or \
                    (saved[0] == 'fld' and any(rooted(t, R.blocks) for t in subterms(saved)))
                rep.ob('C06:close', ok and any(rooted(t, R.blocks) for t in subterms(saved)), 'closing a block restores the context saved by the innermost open block', where(f, e[5]),
                       '%s | %s' % (show(saved), fmt_path(o)))
                rep.ob('C06:close:open', any(k[0] == 'empty' and not v and rooted(k[1], R.blocks) for k, v in o.facts.items()),
                       'a block is closed only when one is open', where(f, e[5]), fmt_path(o))
            if kind == 'entry':
                key, val = e[3][0], e[3][1]
                ok = key[0] == 'cat' and len(key) == 3 and initial(key[1], ctx) and is_tok(key[2], 'value') is not None
                rep.ob('C06:entry:key', ok, 'the key is the context followed by the name', where(f, e[5]), show(key))
                name_id = is_tok(key[2], 'value') if ok else None
                exp = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'expand_token']
                ok = len(exp) == 1 and is_tok(exp[0][3][0], 'value') not in (None, name_id)
                rep.ob('C06:entry:expanded', ok, 'the text after the assignment is macro-expanded once', where(f, e[5]), fmt_path(o))
                rel = [v for k, v in o.facts.items() if k[0] == 'op' and k[1] == '==' and k[3] == ('s', 'relativepath')]
                if ok:
                    if rel == [True]:
                        good = val[0] == 'cat' and val[-1] == exp[0][4]
                        pre = val[1:-1]
                        dirs = lambda t: isinstance(t, tuple) and t[0] in ('pcall', 'call') and last(str(t[1])) == 'GetFilenamePath' \
                            and t[3] and t[3][0] == ('deref', ('ref', f['p'][0]['n']))
                        good = good and (pre == (('s', './'),) or (len(pre) == 2 and dirs(pre[0]) and pre[1] == ('s', '/')))
                        rep.ob('C06:entry:relative', good, 'a relative path is placed below the directory of the file', where(f, e[5]), show(val))
                    else:
                        rep.ob('C06:entry:value', val == exp[0][4] and rel == [False], 'the expanded text is stored', where(f, e[5]), show(val))
                loc = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'set_location']
                rep.ob('C06:entry:location', len(loc) == 1 and loc[0][3][0] == key, 'the location is recorded for the same key', where(f, e[5]), fmt_path(o))
                mk = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'mark_read_only']
                ro = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] == 'loopv' and k[1][2][0] == 'L']
                rep.ob('C06:entry:readonly', (len(mk) == 1 and mk[0][3][0] == key and ro == [True]) or (not mk and ro == [False]),
                       'exactly the entries with the attribute are marked read-only', where(f, e[5]), '%s %s' % (ro, fmt_path(o)))
                order = [x for x in o.events if x in (e, ) or (mk and x == mk[0])]
                rep.ob('C06:entry:order', not mk or order[0] == e, 'the value is stored before the key is marked', where(f, e[5]), fmt_path(o))
            if kind == 'symbol':
                exp = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'expand_token']
                ok = len(exp) == 1 and e[3][1] == exp[0][4] and is_tok(e[3][0], 'value') not in (None, is_tok(exp[0][3][0], 'value'))
                rep.ob('C06:symbol', ok, 'a local symbol is defined with its expanded text', where(f, e[5]), fmt_path(o))
            if kind == 'include':
                res = e[3][0]
                ex = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'expand_token']
                ok = res[0] in ('call', 'pcall') and last(res[1]) == 'resolve_file_name' and len(ex) == 1 and ex[0][4] in res[3]
                rep.ob('C06:include:resolved', ok, 'the included file is the resolved, macro-expanded name', where(f, e[5]), show(res))
                t = {}
                for k, v in o.facts.items():
                    if k[0] == 'nz' and k[1][0] in ('pcall', 'call') and k[1][3] and k[1][3][0] == res:
                        t[last(k[1][1])] = v
                    if k == ('empty', res) or (k[0] == 'op' and k[1] == '==' and k[2] == res and k[3] == ('s', '')):
                        t['empty'] = v
                rep.ob('C06:include:checked', t.get('FileExists') is True and t.get('FileIsDirectory') is False and t.get('empty') is False,
                       'only an existing file that is not a directory is included', where(f, e[5]), '%s %s' % (t, fmt_path(o)))
                cf = [x for x in o.events if x[0] == 'write' and x[2] == ('deref', ('ref', f['p'][0]['n']))]
                rep.ob('C06:include:restored', bool(cf), 'the current file is restored after the include', where(f, e[5]), fmt_path(o))
    check_rounds(P, R, rep, E, outs)
    # every constructor in the failing include cases
    for what, atom in (('FileExists', False), ('FileIsDirectory', True)):
        t = [o for o in outs if o.kind == 'throw' and any(k[0] == 'nz' and k[1][0] in ('pcall', 'call') and last(k[1][1]) == what and v is atom
                                                        for k, v in o.facts.items())]
        rep.ob('C06:include:%s' % what, t and all(o.val[0].endswith('config_file_not_found_exception') for o in t),
               'a missing or irregular include file is an error', where(f))
    t = [o for o in outs if o.kind == 'throw' and o.val[0].endswith('config_file_not_parsed_exception') and
         any(k[0] == 'empty' and v and rooted(k[1], R.blocks) for k, v in o.facts.items())]
    rep.ob('C06:close:unmatched', bool(t), 'closing a block that was never opened is an error', where(f))
    # name resolution
    g = [m for m in P.methods(PR) if m['n'] == 'resolve_file_name']
    if not g:
        raise Broken('include name resolution not found')
    E2 = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::'))
    pouts, outs = outs, E2.run(g[0])
    rep.saw(g[0], outs)
    stacks = set()
    param = ('deref', ('ref', g[0]['p'][0]['n']))
    for o in outs:
        full = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('pcall', 'call') and last(k[1][1]) == 'FileIsFullPath' and k[1][3][0] == param]
        finds = [e for e in o.flat() if e[0] == 'call' and last(e[1]) == 'FindFile']
        if full == [True]:
            rep.ob('C06:resolve:absolute', o.val == param and not finds, 'an absolute name is taken as it is', where(g[0], o.line), fmt_path(o))
        else:
            ok = finds and all(e[3][0] == param for e in finds) and initial(finds[0][3][1], 'm_search_path') and o.val == finds[-1][4]
            rep.ob('C06:resolve:search', ok and len(finds) <= 2, 'a relative name is looked up in the search path first, then next to the including files',
                   where(g[0], o.line), fmt_path(o))
            if len(finds) == 1:
                v = E2.truth(o.st, ('op', '==', finds[0][4], ('s', '')))
                rep.ob('C06:resolve:first', v is False, 'the search path decides when it has the file', where(g[0], o.line), fmt_path(o))
            for e in finds:
                rep.ob('C06:resolve:files', len(e[3]) < 3 or e[3][2] == C(0), 'files are looked for in the given directories only', where(g[0], e[5]), show(e[4])[:200])
            if len(finds) == 2:
                v = E2.truth(o.st, ('op', '==', finds[0][4], ('s', '')))
                rep.ob('C06:resolve:second', v is True, 'the directories of the including files are searched only when the search path does not have the file', where(g[0], o.line), fmt_path(o))
                stacks |= set(check_include_dirs(R, rep, g[0], o, finds[1][3][1]) or ())
    check_setup(P, R, rep, pouts, E)
    for m in sorted(stacks):
        for o in pouts:
            if o.kind != 'ret':
                continue
            c = [e for e in o.events if e[0] == 'cmut' and e[1] == TF(m)]
            rep.ob('C06:resolve:nesting', [e[2] for e in c] in (['push_back', 'pop_back'], ['emplace_back', 'pop_back']) and c[0][3] == (('deref', ('ref', f['p'][0]['n'])),),
                   'a file counts as being included while it is read', where(f, o.line), '%s %s' % ([(e[2], [show(a)[:60] for a in e[3]]) for e in c], fmt_path(o)[:200]))
            for e in o.flat():
                if e[0] == 'loop':
                    for b in e[3]:
                        rep.ob('C06:resolve:nesting', not any(x[0] == 'cmut' and x[1] == TF(m) for x in b[1]), 'a line does not change which files are being included', where(f), '')
    if n.get('entry', 0) < 4 or not n.get('include') or not n.get('close'):
        raise Broken('directives found: %s' % n)


def check_setup(P, R, rep, pouts, E):
    """the state a parser starts with and what its interface does"""
    latched = {R.latch} | {k[1][2] for o in pouts for k in o.facts if k[0] == 'nz' and k[1][0] == 'fld' and k[1][1] == ('deref', ('this',)) and R.fields.get(k[1][2]) == 'int'}
    kinds = {NS + 'token_type_' + n for n in ('env', 'sysenv', 'config', 'symtab')}
    Ec = R.engine()
    n = 0
    for m in P.methods(PR):
        if not m.get('ctor') or m.get('body') is None or m.get('implicit'):
            continue
        outs = Ec.run(m)
        rep.saw(m, outs)
        for o in outs:
            n += 1
            for x in sorted(latched):
                rep.ob('C06:setup:state', Ec.read(o.st, TF(x)) == C(0), 'a new parser has seen no error and no file', where(m), '%s = %s' % (x, show(Ec.read(o.st, TF(x)))))
            given = [e[3][0] for e in o.events if e[0] == 'call' and last(e[1]) == 'add_token_type' and e[3]]
            rep.ob('C06:setup:macros', sorted(g[1] for g in given if g[0] == 'new') == sorted(kinds) and len(given) == len(kinds),
                   'the four kinds of macro are known to the parser', where(m), ' '.join(show(g) for g in given)[:300])
            conf = Ec.read(o.st, TF(R.conf))
            for g in given:
                if g[0] == 'new' and g[1].endswith('token_type_config'):
                    rep.ob('C06:setup:config', g[2] == (conf,), 'configuration macros see the entries read so far', where(m), '%s, entries are in %s' % (show(g), show(conf)))
                if g[0] == 'new' and g[1].endswith('token_type_symtab'):
                    keep = [x for x, t in R.fields.items() if 'token_type_symtab' in t and Ec.read(o.st, TF(x)) == g]
                    rep.ob('C06:setup:local', len(keep) == 1 and g[2] == (('s', 'LOCAL'),), 'local symbols are defined in the table the macros are looked up in', where(m), show(g))
    rep.ob('C06:setup:ctor', n >= 1, 'the construction of a parser is analysed', '', str(n))
    CP = PR.rsplit('::', 1)[0]
    inner = lambda t, x: t == ('fld', ('deref', ('fld', ('deref', ('this',)), 'm_priv')), x) or t[0] == 'fld' and t[2] == x and t[1][0] in ('deref', 'fld') and ('this',) in set(subterms(t))
    Eo = Engine(P, opaque=lambda q, fn, e: q.startswith(PR + '::'))
    found = {}
    for m in P.methods(CP):
        if m.get('body') is None or m.get('ctor') or m['n'] not in ('parse_config', 'get_config', 'add_search_path', 'get_search_path'):
            continue
        found[m['n']] = found.get(m['n'], 0) + 1
        outs = Eo.run(m)
        rep.saw(m, outs)
        for o in outs:
            d = fmt_path(o)[:300]
            if m['n'] == 'parse_config':
                arg = ('deref', ('ref', m['p'][0]['n']))
                c = [e for e in o.flat() if e[0] == 'call' and e[1] == R.process['q']]
                rep.ob('C06:setup:parse', len(c) == 1 and c[0][3] == (arg,) and ('this',) in set(subterms(c[0][2])), 'parsing processes the given file once', where(m), d)
            elif m['n'] == 'get_config':
                rep.ob('C06:setup:result', o.kind == 'ret' and inner(o.val, R.conf), 'the result is the configuration read', where(m), show(o.val)[:150])
            elif m['n'] == 'get_search_path':
                rep.ob('C06:setup:path', o.kind == 'ret' and inner(o.val, 'm_search_path'), 'the search path is the one being used', where(m), show(o.val)[:150])
            else:
                arg = ('deref', ('ref', m['p'][0]['n']))
                locs = [l for l in o.st.store if l[0] == 'F' and l[2] == 'm_search_path']
                v = Eo.read(o.st, locs[0]) if len(locs) == 1 else ('?',)
                if v[0] == 'loopv':
                    src = adds_all(o.events, v)
                    ok = src is not None and (src == arg or src == ('P', ('ref', m['p'][0]['n'])))
                else:
                    ok = v[0] == 'mut' and inner(v[2], 'm_search_path') and \
                        (v[1] in ('push_back', 'emplace_back') and v[3] == (arg,) or
                         v[1] == 'insert' and len(v[3]) == 2 and v[3][0][0] == 'end' and v[3][0][1] == locs[0] and v[3][1] in (('rangeof', arg), arg))
                rep.ob('C06:setup:search', ok, 'search directories are appended in order', where(m), '%s %s' % (show(v)[:200], d))
    rep.ob('C06:setup:interface', set(found) == {'parse_config', 'get_config', 'add_search_path', 'get_search_path'} and found['add_search_path'] == 2,
           'the interface of the parser is analysed', '', str(found))


def check_include_dirs(R, rep, g, o, lst):
    """lst: the directories of all files being included, the innermost first, each once"""
    loops = {e[1]: e for e in o.flat() if e[0] == 'loop'}
    lp = loops.get(lst[1]) if lst[0] == 'loopv' else None
    stack = [n for n, t in R.fields.items() if t.startswith('std::vector<std::basic_string<')]
    if lp is None:
        rep.ob('C06:resolve:dirs', False, 'the directories of the including files are collected', where(g, o.line), show(lst)[:200])
        return
    sp = lp[2]
    src = [n for n in stack for t in [TF(n)] if sp[0] == 'count' and sp[1:] in ((('last', t), ('rend', t)), (('rbegin', t), ('rend', t)))]
    down = None
    if not src and sp[0] == 'while' and sp[1][:2] == ('op', '>') and sp[1][2][0] == 'didx' and sp[1][2][1] == lp[1] and sp[1][3] == C(0):
        down = sp[1][2]
        src = [n for n in stack if down[2] == ('size', ('fld', ('deref', ('this',)), n))]
    rep.ob('C06:resolve:stack', bool(src), 'every including file is looked at, the innermost first', where(g, o.line), str(sp)[:200])
    if not src:
        return
    for facts, evs, upd in lp[3]:
        fd = dict(facts)
        gp = [e for e in evs if e[0] == 'call' and last(e[1]) == 'GetFilenamePath']
        el = gp[0][3][0] if gp else ('?',)
        okel = len(gp) == 1 and el[0] in ('deref', 'at') and any(t == lp[1] for t in subterms(el))
        if down:
            okel = okel and el == ('at', ('fld', ('deref', ('this',)), src[0]), ('op', '-', down, C(1)))
        rep.ob('C06:resolve:dir', okel, 'the directory of the including file is taken', where(g, o.line), show(el)[:150])
        if not gp:
            continue
        emp = [v for k, v in fd.items() if k == ('empty', gp[0][4])]
        want = ('s', '.') if emp == [True] else gp[0][4]
        push = [e for e in evs if e[0] == 'cmut' and e[1] == lst[2]]
        others = [e for e in evs if e[0] == 'cmut' and e[1] != lst[2]]
        good = len(push) == 1 and push[0][2] in ('push_back', 'emplace_back') and push[0][3] == (want,) and len(emp) == 1
        ins = [e for e in others if e[2] in ('insert', 'emplace') and e[3] == (want,)]
        fresh = {k[1][1][2]: v for k, v in fd.items() if k[0] == 'nz' and k[1][0] == 'insres' and k[1][2] == want and k[1][1][0] == 'loopv' and k[1][1][1] == lp[1]}
        known = {k[1][2]: v for k, v in fd.items() if k[0] == 'in' and k[2] == want and k[1][0] == 'loopv' and k[1][1] == lp[1]}
        known.update({l: not v for l, v in fresh.items()})
        others = [e for e in others if e[1] not in fresh]
        # the directory is known: some collection that receives exactly the collected directories has it
        if not push:
            dup = [l for l, v in known.items() if v is True] + [k for k, v in fd.items() if k[0] == 'op' and k[1] == '==' and not v and
                                                              any(t == lst for t in subterms(k)) and want in set(subterms(k))]
            rep.ob('C06:resolve:skip', len(emp) == 1 and bool(dup) and not others, 'a directory is left out only when it is known already', where(g, o.line),
                   ' '.join(('' if v else '!') + show(k)[:80] for k, v in fd.items()))
        else:
            rep.ob('C06:resolve:add', good and all(v is False for v in known.values()) and {e[1] for e in ins} >= set(known) - {lst[2]},
                   'a new directory is added once', where(g, o.line), ' '.join(('' if v else '!') + show(k)[:80] for k, v in fd.items()) + str(push)[:200])
    return src


def rounds():
    """(tokens of a line, what has to be done, which token is the name); a token is (kind, text), None is the end of the line"""
    W = lambda x: ('TK_WORD', x)
    A, L = ('TK_ASSIGN', 'text'), ('TK_LOCAL_ASSIGN', 'text')
    other = [('TK_ERROR', '?'), A, L, ('TK_FLAG', '[RO]')]
    for k, v in other:
        for x in ('include', 'block', 'endblock', 'relativepath', v):
            yield [(k, x)], 'error', None
    yield [W('include')], 'include', None
    yield [W('include'), W('file')], 'include', None
    yield [W('block'), None], 'error', None
    yield [W('block'), W('foo')], 'open', 1
    yield [W('block'), W('block')], 'open', 1
    yield [W('block'), W('endblock')], 'open', 1
    yield [W('block'), W('relativepath')], 'open', 1
    for t in other:
        yield [W('block'), t], 'error', None
    yield [W('endblock'), None], 'close', None
    yield [W('endblock'), W('foo')], 'close', None
    yield [W('relativepath'), None], 'error', None
    for t in other:
        yield [W('relativepath'), t], 'error', None
    yield [W('relativepath'), W('foo'), None], 'error', None
    for x in ('foo', 'Include', 'includes', 'blocks', 'Block', 'endblocks', 'relativepaths', 'block:x'):
        for pre in ([], [W('relativepath')]):
            n = len(pre)
            yield pre + [W(x), None], 'error', None
            yield pre + [W(x), A], 'entry', n
            yield pre + [W(x), L], 'symbol', n
            yield pre + [W(x), W('bar')], 'error', None
            yield pre + [W(x), ('TK_ERROR', '?')], 'error', None
    for x in ('include', 'block', 'endblock', 'relativepath'):
        yield [W('relativepath'), W(x), A], 'entry', 1


def check_rounds(P, R, rep, E, outs):
    """what is done with a line is what its tokens say"""
    f = R.process
    rest = R.rest()
    nums = [n for n in R.position if R.fields[n] == 'int']
    code = {n: enum_value(P, n) for n in ('TK_WORD', 'TK_FLAG', 'TK_ASSIGN', 'TK_LOCAL_ASSIGN', 'TK_ERROR', 'TK_EOF')}
    out = lambda what, c: ('out', 'get_token', what, c)
    tix = [i for i, p in enumerate(R.get_token['p']) if 'token_t' in p['t']][0]
    segs = [o for x in outs for s in [x.segments()] for o in s if any(e[0] == 'ctor' and last(e[1]) == 'token_t' for e in o.events)]
    segs = [o for o in segs if o.kind == 'body' or o.kind == 'throw']
    seen, und, n = set(), [], 0
    uniq = []
    for o in segs:
        cs = [e[4] for e in o.events if e[0] == 'call' and e[1] == R.get_token['q']]
        if not cs:
            continue
        acts = tuple(a[0] for a in actions(R, o))
        err = any(e[0] == 'write' and e[1] == TF(R.latch) and e[2] == C(1) for e in o.events)
        uniq.append((o, cs, acts, err))
    for toks, want, name in rounds():
        hits = 0
        ended = toks[-1] is None
        ts = [t for t in toks if t is not None]
        for o, cs, acts, err in uniq:
            env = {}
            loops = [e for e in o.events if e[0] == 'loop']
            for i, c in enumerate(cs):
                if i < len(ts):
                    env[('fld', out(tix, c), 'type')] = code[ts[i][0]]
                    env[('fld', out(tix, c), 'value')] = ts[i][1]
                    env[out(rest, c)] = '' if i == len(ts) - 1 and (ended or ts[i][0] in ('TK_ASSIGN', 'TK_LOCAL_ASSIGN')) else 'rest'
            lps = {e[1] for e in loops}
            lastt = None if ended else ts[-1]
            inner = set()
            for k in list(o.facts):
                for t in subterms(k):
                    if len(t) == 3 and t[0] == 'fld' and t[2] in ('type', 'value') and t[1][0] == 'loopv' and t[1][2][0] == 'L' and t[1][1] in lps:
                        inner.add(t[1])
            for t in inner:
                env[('fld', t, 'type')] = code[lastt[0]] if lastt else code['TK_ERROR']
                env[('fld', t, 'value')] = lastt[1] if lastt else ''
            ok, u = text.Text(env).fits(o.facts)
            if not ok:
                continue
            if inner:
                # the loop over attributes begins with the token behind the name
                fits_ = False
                for e in loops:
                    st = {k: v for k, v in (e[4] or ())} if e[0] == 'loop' and len(e) > 4 and e[4] else {}
                    for t in inner:
                        if t[1] == e[1]:
                            fits_ = fits_ or starts(st, t[2], cs, ts, ended, tix, code)
                if not fits_:
                    continue
            if len(cs) > len(ts):
                continue                # reads on although the scenario is decided
            # facts about tokens that were not decided
            hits += 1
            n += 1
            got = list(acts) if not err else list(acts) + ['error']
            if want in ('include', 'close') and o.kind == 'throw':
                continue
            d = 'does %s for %s' % (got, ' '.join('<end>' if t is None else '%s "%s"' % t for t in toks))
            seen.add(want)
            rep.ob('C06:round', got == [want] and o.kind == 'body', 'a line does what its tokens say', where(f, o.line), d + ' | ' + fmt_path(o)[:300])
            if got != [want]:
                continue
            if want in ('open', 'close', 'error'):
                v = E.read(o.st, TF(rest))
                rep.ob('C06:round:rest', v in (('s', ''), ) or E.truth(o.st, ('empty', v)) is True or v[0] == 'mut' and v[1] == 'clear',
                       'the rest of the line is dropped', where(f, o.line), show(v)[:120] + ' ' + d)
            a = actions(R, o)
            if want == 'include':
                ex = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'expand_token']
                rep.ob('C06:round:include', len(ex) == 1 and ex[0][3][0] == out(rest, cs[0]), 'the name of the included file is the rest of the line', where(f, o.line), d)
                for m in nums:
                    v = E.read(o.st, TF(m))
                    rep.ob('C06:round:line', v == out(m, cs[0]), 'the line number goes on after an include', where(f, o.line), '%s %s' % (show(v)[:100], d))
            if want in ('entry', 'symbol'):
                key = a[0][1][3][0]
                nm = key[-1] if want == 'entry' and key[0] == 'cat' else key
                rep.ob('C06:round:name', nm == ('fld', out(tix, cs[name]), 'value') if name < len(cs) else False, 'the name is the word in front of the assignment', where(f, o.line),
                       '%s %s' % (show(nm)[:100], d))
            if want == 'open':
                w = [v for x in o.events if x[0] == 'write' for v in [x[2]] if v[0] == 'cat' and ('fld', out(tix, cs[1]), 'value') in v]
                rep.ob('C06:round:block', len(cs) == 2 and bool(w), 'the name of the block is the word behind the directive', where(f, o.line), d)
            if want == 'entry':
                loc = [x for x in o.events if x[0] == 'call' and last(x[1]) == 'set_location']
                for x in loc:
                    ln = x[3][2] if len(x[3]) > 2 else ('?',)
                    good = any(ln == out(m, c) for m in nums for c in cs) or ln[0] == 'loopv' and any(ln[2] == TF(m) for m in nums) and ln[1] in lps
                    rep.ob('C06:round:location', good, 'the recorded line is the one being read', where(f, o.line), show(ln)[:150])
                    fl = x[3][1] if len(x[3]) > 1 else ('?',)
                    rep.ob('C06:round:file', ('deref', ('ref', f['p'][0]['n'])) in set(subterms(fl)), 'the recorded file is the one being read', where(f, o.line), show(fl)[:150])
        rep.ob('C06:round:any', hits >= 1, 'every line is acted upon', where(f), ' '.join('<end>' if t is None else '%s "%s"' % t for t in toks))
    rep.notes.append('%d pairs of a kind of line and a path' % n)
    for o in [s for x in outs for s in x.segments()]:
        if o.kind == 'body' and not any(e[0] == 'ctor' and last(e[1]) == 'token_t' for e in o.events) and any(e[0] == 'call' and e[1] == R.get_token['q'] for e in o.events):
            rep.ob('C06:round:attribute', any(k[0] == 'empty' and v is False and initial(k[1], rest) for k, v in o.facts.items()),
                   'what follows an attribute is read from the same line only', where(f), fmt_path(o)[:300])
    # readers of a further token of the same line
    E2 = Engine(P, opaque=lambda q, fn, e: e.get('u') == R.get_token['u'])
    E2.keepobj = lambda q: q.startswith(PR + '::')
    for m in P.methods(PR):
        tp = [p for p in m['p'] if 'token_t' in p['t'] and p['m'] == 'r']
        if m['u'] in (R.get_token['u'], f['u']) or len(tp) != 1 or not any(c.get('u') == R.get_token['u'] for c in calls(m)):
            continue
        wouts = E2.run(m)
        rep.saw(m, wouts)
        for o in wouts:
            c = [e for e in o.flat() if e[0] == 'call' and e[1] == R.get_token['q']]
            none = [v for k, v in o.facts.items() if k[0] == 'empty' and initial(k[1], rest)]
            v = E2.read(o.st, ('F', ('P', ('ref', tp[0]['n'])), 'type'))
            rep.ob('C06:round:sameline', len(c) == 1 and none == [False] or not c and none == [True] and v[0] == 'c' and
                   v[1] not in (code['TK_FLAG'], code['TK_ASSIGN'], code['TK_LOCAL_ASSIGN']), 'a further token is read from the same line only', where(m, o.line), fmt_path(o)[:300])
    if not {'include', 'open', 'close', 'entry', 'symbol', 'error'} <= seen:
        raise Broken('kinds of lines seen: %s' % sorted(seen))


def starts(st, loc, cs, ts, ended, tix, code):
    """the token the loop over attributes starts with is the last of the line"""
    v = st.get(loc)
    if v is None:
        return True
    if ended:
        t = st.get(('F', loc, 'type'))
        if t is None and v[0] == 'upd':
            t = dict((p[-1][-1], x) for p, x in v[2]).get('type')
        return len(cs) == len(ts) and t is not None and t[0] == 'c' and t[1] not in (code['TK_FLAG'], code['TK_ASSIGN'], code['TK_LOCAL_ASSIGN'])
    return v == ('out', 'get_token', tix, cs[-1]) and len(cs) == len(ts)


# ---------------------------------------------------------------------- C10
LINES = ['', '   ', '\t', 'foo = 3', '  foo = 3', 'foo = 3  \t', '\tfoo = a  b \r', '# only a comment', '   # indented comment', '#', ' # ', 'foo = 3 # trailing',
         'foo = 3# trailing # twice', 'foo = 3   #', '  block bar  # x', '\v\f foo = 3 \v\f', 'foo = "a # b"', '#foo = 3', 'foo=', ' # # ', 'foo = a\\ b', 'x']
TEXTS = ['foo = 3', 'foo=3', 'foo:bar = 3', 'foo:bar=3', '= 3', '=3', '=', '=   spaced   out', '= a = b', '=:= x', ':= 3', ':=3', ':=', ':= a := b', ':= a = b', ':  = x', ':',
         '[RO] = 3', '[ro]=3', '[RO,X] = 3', '[RO][TR] = x', '[]', '[ = 3', '[R O] = 3', '[R1] = 3', 'foo[RO] = 3', 'foo-bar_baz.qux/one = x', 'foo-bar_baz.qux/one:two:three := x',
         'Foo9 = x', 'block foo', 'block foo:bar', 'endblock', 'include a/b.conf', 'include $ENV{HOME}/x', 'relativepath foo = a/b', 'foo:=bar', 'foo:bar:=baz', 'foo: = 3', 'foo:: = 3',
         '9abc = 3', '_abc = 3', '"foo" = 3', '$X = 3', '-abc = x', '/abc = x', '.abc', 'foo$bar = 3', 'foo\tbar = 3', 'foo  =  3', 'foo', 'abc/', 'abc-', 'abc.', 'abc_', 'ZzZ=1',
         '= #', '= [RO]', '= include', '(foo) = 3', 'foo+bar', '==', '= =', ':=:=', 'x1y = 2', 'foo\x01bar', 'f\xf6o = 3']
WORD_RE = re.compile(r'[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]')
FLAG_RE = re.compile(r'\[[a-zA-Z,]+\]')


def token_of(s):
    """what the text begins with, its value, what is left"""
    if s.startswith(':='):
        return 'TK_LOCAL_ASSIGN', text.strip(s[2:]), ''
    if s.startswith('='):
        return 'TK_ASSIGN', text.strip(s[1:]), ''
    for k, r in (('TK_FLAG', FLAG_RE), ('TK_WORD', WORD_RE)):
        m = r.match(s)
        if m:
            return k, m.group(0), text.strip(s[m.end():])
    return 'TK_ERROR', s, ''


def regex_patterns(P, f):
    """name of a regular expression object -> its constant pattern"""
    pat = {}
    for body in [f.get('body')]:
        for x in walk(body):
            if isinstance(x, dict) and 'RegularExpression' in str(x.get('t', '')) and x.get('n') and isinstance(x.get('i'), dict):
                a = x['i'].get('a') or []
                if len(a) == 1 and a[0].get('k') == 'str':
                    pat[x['n']] = a[0]['v']
    for v in P.vars.values() if hasattr(P, 'vars') else ():
        if 'RegularExpression' in str(v.get('t', '')) and isinstance(v.get('i'), dict):
            a = v['i'].get('a') or []
            if len(a) == 1 and a[0].get('k') == 'str':
                pat[v['q'].split('::')[-1]] = a[0]['v']
    return pat


def check_lexer(P, rep):
    R = Parser(P)
    rep.rule('every line read is counted and remembered, the comment and surrounding space are removed, blank lines are skipped and every other is delivered, '
             'in order, until the stream ends')
    rep.rule('the token at the start of the text is an assignment, a local assignment, an attribute, a word or an error as documented; it and the space after it '
             'are removed from the text, the value of an assignment is the rest of the line without surrounding space')
    g = R.get_token
    gl = [m for m in P.methods(PR) if any(c.get('u') == m['u'] for c in calls(g))
          and any(last(c.get('q', '')) == 'getline' for c in calls(m)) and m['rt'] == 'bool']
    if len(gl) != 1:
        raise Broken('line reader not identified')
    gl = gl[0]
    strs = [i for i, p in enumerate(gl['p']) if 'basic_string' in p['t'] or p['t'].startswith('std::string')]
    if len(strs) != 1:
        raise Broken('line reader has no text parameter')
    lineloc = ('P', ('ref', gl['p'][strs[0]]['n']))
    nums = [n for n in R.position if R.fields[n] == 'int']
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::'))
    E.keepobj = lambda q: q.startswith(PR + '::')
    outs = E.run(gl)
    rep.saw(gl, outs)
    nread = 0
    reads = lambda evs: [e for e in evs if e[0] == 'call' and last(e[1]) == 'getline']
    segs = []
    for o in outs:
        segs.append((o.facts, o.events, o, None))
        for e in o.flat():
            if e[0] == 'loop':
                for b in e[3]:
                    segs.append((dict(b[0]), b[1], None, dict(b[2])))
    for raw in LINES:
        want = text.strip(raw.split('#')[0])
        hit = {'ret': 0, 'next': 0}
        for facts, evs, o, upd in segs:
            rd = reads(evs)
            if len(rd) != 1:
                if rd:
                    rep.ob('C10:line:one', False, 'one line is read at a time', where(gl), str(len(rd)))
                continue
            call = rd[0][4]
            env = {('out', 'getline', 1, call): raw, ('stream', 'ok', ('out', 'getline', 0, call)): True}
            T = text.Text(env, None, E)
            ok, und = T.fits(facts)
            if not ok:
                continue
            nread += 1
            d = '%r: [%s]' % (raw, ' && '.join(('' if v else '!') + show(k)[:90] for k, v in facts.items())[:400])
            if und:
                rep.ob('C10:line:cond', False, 'what happens to a line depends on its text only', where(gl), show(und[0])[:200])
                continue
            w = [e for e in evs if e[0] == 'write']
            for n in nums:
                c = [e for e in w if e[1] == TF(n)]
                rep.ob('C10:line:count', len(c) == 1 and c[0][2][:2] == ('op', '+') and C(1) in c[0][2][2:] and any(initial(x, n) for x in c[0][2][2:]),
                       'every line read is counted', where(gl), '%s %s' % ([show(e[2])[:80] for e in c], d))
            if o is not None:
                hit['ret'] += 1
                try:
                    got = T.val(E.read(o.st, lineloc))
                except (text.Unknown, text.Fails) as x:
                    got = 'not known: %s' % (show(x.args[0])[:200] if x.args and isinstance(x.args[0], tuple) else x)
                rep.ob('C10:line:text', got == want and want != '' and o.kind == 'ret' and o.val == C(1), 'a line is delivered without comment and surrounding space', where(gl, o.line),
                       'delivers %r for %s' % (got, d))
            else:
                hit['next'] += 1
                rep.ob('C10:line:skip', want == '', 'only blank lines and comments are skipped', where(gl), d)
        rep.ob('C10:line:all', sum(hit.values()) >= 1, 'every line is either delivered or skipped', where(gl), repr(raw))
    for facts, evs, o, upd in segs:
        if o is None:
            continue
        rd = reads(evs)
        calls_ = [e[4] for e in rd] or [t for k in facts for t in subterms(k) if t[0] == 'call' and last(str(t[1])) == 'getline']
        bad = [c for c in calls_ if T_stream(facts, c) is False]
        if bad or o.val == C(0) or o.kind != 'ret':
            rep.ob('C10:line:end', bool(bad) and o.kind == 'ret' and o.val == C(0), 'the end of the file, and nothing else, ends the reading of lines', where(gl, o.line), fmt_path(o)[:300])
    if nread < len(LINES):
        raise Broken('line reader not understood: %d' % nread)
    # tokens
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or e.get('u') == gl['u'])
    E.keepobj = lambda q: q.startswith(PR + '::')
    E.changes = lambda q: ()
    outs = E.run(g)
    rep.saw(g, outs)
    pats = regex_patterns(P, g)
    tp = [p for p in g['p'] if 'token_t' in p['t']][0]['n']
    tloc = lambda n: ('F', ('P', ('ref', tp)), n)
    restf = R.rest()
    kinds = {enum_value(P, n): n for n in ('TK_WORD', 'TK_FLAG', 'TK_ASSIGN', 'TK_LOCAL_ASSIGN', 'TK_ERROR', 'TK_EOF')}

    def pattern(obj):
        while obj is not None and obj[0] == 'out':
            obj = obj[3][2]
        return pats.get(obj[1].split('::')[-1]) if obj and obj[0] in ('glob', 'static', 'var') else None
    n = 0
    for fresh in (False, True):
        for s in TEXTS + ['']:
            if s == '' and not fresh:
                continue
            want = token_of(s) if s else ('TK_EOF', '', None)
            cnt = 0
            for o in outs:
                rd = [e for e in o.flat() if e[0] == 'call' and e[1] == gl['q']]
                env = {('fld', ('deref', ('this',)), restf): '' if fresh else s}
                for e in rd:
                    env[e[4]] = s != ''
                    env[('out', last(gl['q']), strs[0], e[4])] = s
                T = text.Text(env, pattern, E)
                ok, und = T.fits(o.facts)
                if not ok:
                    continue
                cnt += 1
                n += 1
                d = '%r%s: [%s]' % (s, ' from a new line' if fresh else '', ' && '.join(('' if v else '!') + show(k)[:60] for k, v in o.facts.items())[:300])
                if und:
                    rep.ob('C10:token:cond', False, 'the token depends on the text only', where(g, o.line), show(und[0])[:200] + ' ' + d)
                    continue
                rep.ob('C10:token:reads', len(rd) == (1 if fresh else 0), 'a new line is read exactly when nothing is left of the last', where(g, o.line), d)
                got = []
                for l in (tloc('type'), tloc('value'), TF(restf)):
                    try:
                        got.append(T.val(E.read(o.st, l)))
                    except text.Unknown as x:
                        got.append('not known: %s' % (show(x.args[0])[:200] if x.args and isinstance(x.args[0], tuple) else x))
                    except text.Fails:
                        got.append('exception')
                got[0] = kinds.get(got[0], got[0])
                rep.ob('C10:token:kind', got[0] == want[0], 'the kind of a token is the documented one', where(g, o.line), '%s instead of %s for %s' % (got[0], want[0], d))
                rep.ob('C10:token:value', got[1] == want[1], 'the text of a token is the documented one', where(g, o.line), '%r instead of %r for %s' % (got[1], want[1], d))
                if want[2] is not None:
                    rep.ob('C10:token:rest', got[2] == want[2], 'what follows a token is left for the next', where(g, o.line), '%r instead of %r for %s' % (got[2], want[2], d))
            rep.ob('C10:token:any', cnt >= 1, 'every text gives a token', where(g), repr(s))
    rep.notes.append('%d lines and %d texts followed through every path' % (nread, n))
    if n < len(TEXTS):
        raise Broken('token reader not understood: %d' % n)


def T_stream(facts, call):
    for k, v in facts.items():
        if k == ('nz', ('stream', 'ok', ('out', 'getline', 0, call))):
            return v
    return None
