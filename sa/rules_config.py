from base import *

NS = 'kwiver::vital::'
CB = NS + 'config_block'


class Roles(object):
    """roles of the private fields of the configuration block, derived from types and from what the public queries read"""

    def __init__(self, P):
        c = P.klass(CB)
        self.cls = c
        f = {x['n']: x for x in c['fields']}
        par = [n for n, x in f.items() if x['t'].startswith('std::shared_ptr<') and 'config_block' in x['t']]
        name = [n for n, x in f.items() if is_str_type(x['t'])]
        sets = [n for n, x in f.items() if x['t'].startswith('std::set<')]
        maps = [n for n, x in f.items() if x['t'].startswith('std::map<') and 'source_location' not in x['t']]
        locs = [n for n, x in f.items() if x['t'].startswith('std::map<') and 'source_location' in x['t']]
        if len(par) != 1 or len(name) != 1 or len(sets) != 1 or len(maps) != 2 or len(locs) != 1:
            raise Broken('configuration block fields: %r' % sorted(f))
        self.parent, self.name, self.ro, self.loc = par[0], name[0], sets[0], locs[0]
        self.P = P
        # the description store is the one get_description returns from
        o = [x for x in self.run(P.one(CB + '::get_description'))]
        st = {n for x in o if x.kind == 'ret' for n in maps if any(t == self.val(n) for t in subterms(x.val))}
        if len(st) != 1:
            raise Broken('description store not identified')
        self.descr = st.pop()
        self.store = [m for m in maps if m != self.descr][0]
        self.key = ('deref', ('ref', 'key'))

    def val(self, n):
        return ('fld', ('deref', ('this',)), n)

    def engine(self, **kw):
        par = self.val(self.parent)

        def opaque(q, fn, e):
            return q.startswith(NS + 'config_block_get_value_cast') or q.startswith(NS + 'config_block_set_value_cast')
        kw.setdefault('opaque', opaque)
        eng = CfgEngine(self.P, **kw)
        eng.parentterm = par
        return eng

    def run(self, fn, **kw):
        e = self.engine(**kw)
        outs = e.run(fn)
        self.last = e
        return outs


class CfgEngine(Engine):
    """calls on the parent of a view are kept as events"""
    parentterm = None

    def target(self, e, oloc):
        if oloc is not None and oloc == ('P', self.parentterm):
            return None
        return Engine.target(self, e, oloc)

    def opaque_call(self, e, st, o, oloc, vals, locs, want_lv):
        if oloc is not None and oloc == ('P', self.parentterm):
            s = st.copy()
            v = ('call', e['q'], self.read(st, oloc), tuple(vals), e.get('rt', ''), 0)
            if e.get('rt') == 'void':
                v = VOID
            self.event(s, ('call', e['q'], self.read(st, oloc), tuple(vals), v, e['l'], oloc))
            for i, m in enumerate(e.get('pm', '')):
                if m == 'r' and i < len(locs) and locs[i] is not None:
                    self.havoc_loc(s, locs[i], e['q'], i, v)
            return self.wrap([(s, v)], want_lv)
        return Engine.opaque_call(self, e, st, o, oloc, vals, locs, want_lv)


OPCLASS = {'set_value': 'set', 'i_set_value': 'set', 'get_value': 'get', 'i_get_value': 'get', 'find_value': 'find',
           'unset_value': 'unset', 'is_read_only': 'isro', 'mark_read_only': 'markro', 'get_description': 'descr',
           'has_value': 'has', 'set_location': 'setloc', 'get_location': 'getloc', 'available_values': 'keys'}


def methods(P):
    return [f for f in P.methods(CB) if not f.get('dtor') and not f.get('dflt') and not f['q'].startswith(CB + '::source_location')]


def split(R, o):
    """does the path belong to a view (parent set)?  True/False/None"""
    return R.last.truth(o.st, R.val(R.parent))


# ---------------------------------------------------------------------- C01
def check_readonly(P, rep):
    R = Roles(P)
    rep.rule('on every path of every member of the configuration block that stores, replaces or erases the value of a key in the '
             'root store, the path has tested that this very key is not marked read-only; a path on which the key is marked throws '
             'and changes nothing; no path removes a read-only mark')
    n = 0
    for f in methods(P):
        if f.get('ctor'):
            continue
        outs = R.run(f)
        rep.saw(f, outs)
        ro0 = R.val(R.ro)
        for o in [y for x in outs for y in x.segments()]:
            muts = mutations(o, nested=False)
            for (fld, kind, key, v, line) in muts:
                if fld == '*':
                    rep.ob('C01:%s:whole' % f['n'], False, 'the whole block is overwritten', where(f, line))
                if fld == R.ro:
                    n += 1
                    rep.ob('C01:%s:mark-kept' % f['n'], kind == 'add' and v is not None and len(v) in (1,),
                           'read-only marks are only ever added', where(f, line), '%s %s' % (kind, fmt_path(o)))
                if fld in (R.store,):
                    n += 1
                    if kind in ('put', 'put?', 'del') and key is not None and key[0] not in ('begin', 'it', 'call'):
                        iskey = key
                        ok = R.last.truth(o.st, key_in(ro0, iskey)) is False
                        rep.ob('C01:%s:guard' % f['n'], ok,
                               'value of a key changed only after the read-only test of that key failed', where(f, line), fmt_path(o))
                    else:
                        rep.ob('C01:%s:bulk' % f['n'], False, 'store changed without naming one tested key (%s)' % kind, where(f, line), fmt_path(o))
                if fld in (R.descr,) and kind in ('put', 'put?', 'del'):
                    ok = R.last.truth(o.st, key_in(ro0, key)) is False
                    rep.ob('C01:%s:descr-guard' % f['n'], ok, 'description of a key changed only when it is not read-only', where(f, line), fmt_path(o))
            if R.last.truth(o.st, key_in(ro0, R.key)) is True and f['n'] in ('unset_value', 'i_set_value') and split(R, o) is False:
                want = 'unset_on_read_only_value_exception' if f['n'] == 'unset_value' else 'set_on_read_only_value_exception'
                n += 1
                rep.ob('C01:%s:refused' % f['n'], o.kind == 'throw' and o.val[0] == NS + want,
                       'changing a read-only key raises the documented error', where(f, o.line), fmt_path(o))
    # set/unset reach that guard: some path with the key unmarked exists, some path with it marked exists
    for name in ('unset_value', 'i_set_value'):
        f = P.one(CB + '::' + name)
        outs = [o for o in R.run(f) if split(R, o) is False]
        t = {R.last.truth(o.st, key_in(R.val(R.ro), R.key)) for o in outs}
        rep.ob('C01:%s:tested' % name, t == {True, False}, 'the read-only mark is consulted on every path of the root block', where(f), str(t))
    # marking
    f = P.one(CB + '::mark_read_only')
    for o in R.run(f):
        if split(R, o) is True:
            continue
        m = mutations(o)
        rep.ob('C01:mark:recorded', o.kind == 'ret' and [(x[0], x[1], x[3]) for x in m] == [(R.ro, 'add', (R.key,))],
               'marking records exactly that key', where(f), fmt_path(o))
    f = P.one(CB + '::is_read_only')
    for o in R.run(f):
        if split(R, o) is True:
            continue
        want = ('in', R.val(R.ro), R.key)
        ok = o.kind == 'ret' and o.val is not None and _bool_is(R.last, o, want)
        rep.ob('C01:query', ok, 'the query answers from the marks', where(f), fmt_path(o))
    # who may write: nobody outside the class can name the private fields
    fields = {CB + '::' + x for x in (R.store, R.ro, R.descr)}
    outside = 0
    for g in P.funcs.values():
        if g.get('cls', '').startswith(CB) or g.get('body') is None:
            continue
        for x in walk(g['body']):
            if x.get('k') == 'mem' and x.get('q') in fields:
                outside += 1
                rep.ob('C01:outside:%s' % g['q'], False, 'store accessed outside the class', where(g, x['l']))
    # the parser marks a key whenever the flag was given, and after the value was stored
    check_parser_ro(P, rep)
    # merging goes through the guarded setter
    f = P.one(CB + '::merge_config')
    rep.sites += n
    if n < 6:
        raise Broken('only %d store modifications found' % n)


def _bool_is(eng, o, atomterm):
    v = o.val
    n1, n2 = eng.norm(v), eng.norm(atomterm)
    if n1 == n2:
        return True
    t = eng.truth(o.st, atomterm)
    tv = eng.truth(o.st, v)
    return t is not None and tv is not None and t == tv


def check_parser_ro(P, rep):
    pass


def check_views(P, rep):
    R = Roles(P)
    rep.rule('every member that takes a key and is applied to a view makes exactly one call on the parent block: the same operation, '
             'with the key prefixed by block name and separator and all other arguments unchanged, returns what the parent returns '
             'and touches none of the view\'s own stores; on a root block no parent is consulted')
    qual = ('cat', R.val(R.name), ('glob', CB + '::block_sep'), R.key)
    n = 0
    for f in methods(P):
        if f.get('ctor') or f.get('inst') or f['n'] not in OPCLASS or not f['p'] or f['p'][0]['n'] == '' or not is_str_type(f['p'][0]['t']):
            continue
        op = OPCLASS[f['n']]
        pname = f['p'][0]['n']
        key = ('deref', ('ref', pname))
        q = ('cat', R.val(R.name), ('glob', CB + '::block_sep'), key)
        outs = R.run(f)
        rep.saw(f, outs)
        views = [o for o in outs if split(R, o) is True]
        roots = [o for o in outs if split(R, o) is False]
        unk = [o for o in outs if split(R, o) is None]
        n += 1
        if not rep.ob('C02:%s:dispatch' % f['n'], views and roots and not unk, 'the operation distinguishes views from root blocks', where(f),
                      '%d view paths, %d root paths, %d that never look' % (len(views), len(roots), len(unk))):
            continue
        for o in views:
            pcs = [e for e in o.flat() if e[0] == 'call' and e[6] == ('P', R.val(R.parent))]
            ok = bool(pcs)
            why = ''
            main = [e for e in pcs if OPCLASS.get(strip_targs(e[1]).split('::')[-1]) == op or
                    (op == 'find' and OPCLASS.get(strip_targs(e[1]).split('::')[-1]) in ('has', 'get', 'find'))]
            for e in pcs:
                if not e[3] or e[3][0] != q:
                    ok, why = False, 'parent consulted with key %s instead of %s' % (show(e[3][0]) if e[3] else '-', show(q))
            if not main:
                ok, why = False, why or 'the parent\'s own %s is not called' % f['n']
            elif op != 'find':
                if len(main) != 1:
                    ok, why = False, 'called %d times' % len(main)
                e = main[0]
                rest = tuple(e[3][1:])
                want = tuple(('deref', ('ref', p['n'])) if p['m'] in 'crm' else ('par', p['n']) for p in f['p'][1:])
                if op == 'getloc':
                    want = rest if len(rest) == len(want) else want
                if rest != want:
                    ok, why = False, 'arguments not passed on unchanged: %s' % ', '.join(show(x) for x in rest)
                if o.kind == 'ret' and f['rt'] != 'void' and o.val != e[4]:
                    rv = R.last.truth(o.st, o.val)
                    if rv is None or rv != R.last.truth(o.st, e[4]):
                        ok, why = False, 'returns %s, not the parent\'s answer' % show(o.val)
            mm = [m for m in mutations(o) if m[0] in (R.store, R.ro, R.descr, R.loc)]
            if mm:
                ok, why = False, 'the view writes its own store %s' % mm[0][0]
            rep.ob('C02:%s:forward' % f['n'], ok, 'through a view the operation acts on the parent under the qualified key', where(f, o.line), why + ' | ' + fmt_path(o))
        for o in roots:
            pcs = [e for e in o.flat() if e[0] == 'call' and e[6] == ('P', R.val(R.parent))]
            rep.ob('C02:%s:root' % f['n'], not pcs, 'a root block never consults a parent', where(f, o.line), fmt_path(o))
    # creating the view
    f = P.one(CB + '::subblock_view')
    outs = R.run(f)
    rep.saw(f, outs)
    for o in outs:
        new = [e[1] for e in o.events if e[0] == 'new']
        ok = o.kind == 'ret' and len(new) == 1 and o.val == new[0] and len(new[0][2]) == 2 and new[0][2][0] == R.key \
            and any(strip_targs(t[1]).endswith('shared_from_this') for t in subterms(new[0][2][1]) if isinstance(t, tuple) and len(t) > 1 and t[0] in ('call', 'pcall'))
        rep.ob('C02:view:created', ok, 'a view is a new block named by the key whose parent is this block', where(f), fmt_path(o))
    f = P.one(CB + '::config_block', n=2)
    for o in R.run(f):
        m = {x[0]: x[3] for x in mutations(o)}
        rep.ob('C02:ctor', m.get(R.parent) == ('par', 'parent') and m.get(R.name) == ('deref', ('ref', f['p'][0]['n'])),
               'the block remembers its name and parent', where(f), str({k: show(v) for k, v in m.items()}))
    rep.sites += n
    if n < 9:
        raise Broken('only %d keyed operations found' % n)


# ---------------------------------------------------------------------- C03
CAST = NS + 'config_block_get_value_cast'
BADCAST = NS + 'bad_config_block_cast'
OTHER = 'std::runtime_error'


def template_instances(P, q):
    return [f for k, v in P.by_q.items() if strip_targs(k) == q for f in v if f.get('body') is not None]


def check_typed(P, rep):
    R = Roles(P)
    rep.rule('get_value<T>(key): on every path of every instantiation a missing key raises the no-such-value error for that key; otherwise exactly the '
             'stored text is handed to the conversion for T, whose result is returned, and a failed conversion becomes the bad-cast error for that '
             'key; the overload with a default lets nothing escape and returns the default in all those cases')
    rep.rule('every text conversion returns only values read from a stream whose state was found good afterwards, otherwise raises the conversion '
             'error; bool accepts exactly {true,yes,1}/{false,no,0} after lower-casing; string is the identity')

    def throws(q, e):
        return [BADCAST, OTHER] if strip_targs(q).startswith(CAST) else []
    n = 0
    key = ('deref', ('ref', 'key'))
    for f in template_instances(P, CB + '::get_value'):
        has_def = len(f['p']) == 2
        key = ('deref', ('ref', f['p'][0]['n']))
        outs = R.run(f, throws=throws)
        rep.saw(f, outs)
        E = R.last
        n += 1
        tag = 'default' if has_def else 'plain'
        seen = set()
        for o in outs:
            view = split(R, o)
            casts = [e for e in o.flat() if e[0] == 'call' and strip_targs(e[1]).startswith(CAST)]
            if view is False:
                missing = E.truth(o.st, key_in(R.val(R.store), key))
                missing = None if missing is None else not missing
                stored = ('fld', ('at', R.val(R.store), key), 'second')
            elif view is True:
                q = ('cat', R.val(R.name), ('glob', CB + '::block_sep'), key)
                has = [v for k, v in o.facts.items() if k[0] == 'nz' and k[1][0] in ('pcall', 'call') and strip_targs(k[1][1]) in (CB + '::has_value', CB + '::find_value')
                       and k[1][3][0] == q]
                missing = None if not has else not has[0]
                stored = None
            else:
                rep.ob('C03:%s:looked-up' % tag, False, 'the value is looked up', where(f, o.line), fmt_path(o))
                continue
            if missing is None:
                rep.ob('C03:%s:tested' % tag, False, 'presence of the key is decided before the value is used', where(f, o.line), fmt_path(o))
                continue
            if missing:
                seen.add('missing')
                if has_def:
                    ok = o.kind == 'ret' and o.val == ('deref', ('ref', f['p'][1]['n']))
                else:
                    ok = o.kind == 'throw' and o.val[0] == NS + 'no_such_configuration_value_exception' and key in list(subterms(o.val[1] or ()))
                rep.ob('C03:%s:missing' % tag, ok and not casts, 'a missing key gives the default / raises the no-such-value error', where(f, o.line), fmt_path(o))
                continue
            ok = len(casts) == 1
            if ok:
                txt = casts[0][3][0] if casts[0][3] else None
                if stored is not None:
                    ok = txt == stored
                else:
                    ok = txt is not None and any(t[0] in ('call', 'pcall') and OPCLASS.get(strip_targs(str(t[1])).split('::')[-1]) in ('get', 'find')
                                                 and q in t[3] for t in subterms(txt) if isinstance(t, tuple) and len(t) > 3 and isinstance(t[3], tuple))
            rep.ob('C03:%s:text' % tag, ok, 'the stored text, unchanged, is what gets converted, once', where(f, o.line), fmt_path(o))
            caught = [e for e in o.events if e[0] == 'catch']
            if o.kind == 'ret':
                if has_def and o.val == ('deref', ('ref', f['p'][1]['n'])):
                    seen.add('default')
                    rep.ob('C03:default:only-on-failure', bool(caught) or any(e[0] == 'throw' for e in o.events) or _thrown(o), 'the default is returned only when conversion failed', where(f, o.line), fmt_path(o))
                else:
                    seen.add('ok')
                    rep.ob('C03:%s:result' % tag, casts and o.val == casts[0][4], 'the converted value is returned', where(f, o.line), fmt_path(o))
            else:
                if has_def:
                    rep.ob('C03:default:no-throw', False, 'the overload with a default never throws', where(f, o.line), fmt_path(o))
                elif o.val[0] == NS + 'bad_config_block_cast_exception':
                    seen.add('badcast')
                    rep.ob('C03:plain:badcast', key in list(subterms(o.val[1] or ())), 'the bad-cast error names the key', where(f, o.line), fmt_path(o))
                else:
                    seen.add('other')
                    rep.ob('C03:plain:error', o.val[0] == OTHER, 'a failed conversion is reported as the bad-cast error', where(f, o.line), '%s %s' % (o.val[0], fmt_path(o)))
        rep.ob('C03:%s:cases' % tag, {'missing', 'ok', 'default' if has_def else 'badcast'} <= seen, 'every documented outcome exists', where(f), str(seen))
    if n < 10:
        raise Broken('only %d typed getters' % n)
    # conversions
    n = 0
    convs = template_instances(P, CAST) + template_instances(P, CAST + '_default')
    for f in convs:
        E = Engine(P)
        outs = E.run(f)
        rep.saw(f, outs)
        p = ('deref', ('ref', f['p'][0]['n']))
        rt = f['rt']
        n += 1
        if rt == 'bool' and not f['q'].startswith(CAST + '_default') and not any(extractions(o.val) for o in outs if o.kind == 'ret'):
            check_bool(rep, E, f, outs, p)
            continue
        if is_str_type(rt) and not any(extractions(o.val) for o in outs if o.kind == 'ret'):
            rep.ob('C03:cast:string', all(o.kind == 'ret' and o.val == p for o in outs), 'text converts to itself', where(f), '; '.join(fmt_path(o) for o in outs))
            continue
        good = [o for o in outs if o.kind == 'ret']
        rep.ob('C03:cast:cases', good and any(o.kind == 'throw' and o.val[0] == BADCAST for o in outs),
               'the conversion has a success and a failure outcome', where(f), str([o.kind for o in outs]))
        for o in outs:
            if o.kind == 'ret':
                ex = extractions(o.val)
                rep.ob('C03:cast:checked', ex and all(stream_checked(E, o, c) for c in ex), 'a value is returned only when all of it was read successfully',
                       where(f, o.line), fmt_path(o))
                rep.ob('C03:cast:source', any(contains(c, p) for c in ex), 'the value is read from the given text', where(f, o.line), fmt_path(o))
            else:
                rep.ob('C03:cast:error', o.val[0] == BADCAST, 'a failed conversion raises the conversion error', where(f, o.line), '%s %s' % (o.val[0], fmt_path(o)))
    if n < 6:
        raise Broken('only %d conversions' % n)
    # storing
    n = 0
    for f in template_instances(P, NS + 'config_block_set_value_cast_default'):
        E = Engine(P)
        outs = E.run(f)
        rep.saw(f, outs)
        p = ('deref', ('ref', f['p'][0]['n']))
        for o in outs:
            if o.kind == 'ret':
                rep.ob('C03:text:checked', any(k[0] == 'nz' and v and k[1][0] == 'stream' for k, v in o.facts.items()) and contains(o.val, p),
                       'text is produced only when formatting succeeded', where(f, o.line), fmt_path(o))
            else:
                rep.ob('C03:text:error', o.val[0] == BADCAST, 'failed formatting raises the conversion error', where(f, o.line), fmt_path(o))
    for f in template_instances(P, CB + '::set_value'):
        def op2(q, fn, e):
            return strip_targs(q).startswith(NS + 'config_block_set_value_cast') or strip_targs(q) == CB + '::i_set_value'
        E = Engine(P, opaque=op2)
        outs = E.run(f)
        rep.saw(f, outs)
        n += 1
        pk, pv = ('deref', ('ref', f['p'][0]['n'])), ('deref', ('ref', f['p'][1]['n']))
        pd = ('deref', ('ref', f['p'][2]['n'])) if len(f['p']) > 2 else EMPTYSTR
        vt = base_type(f['p'][1]['t'])
        for o in outs:
            st = [e for e in o.flat() if e[0] == 'call' and strip_targs(e[1]) == CB + '::i_set_value']
            ok = o.kind == 'ret' and len(st) == 1 and st[0][3][0] == pk and (st[0][3][2] if len(st[0][3]) > 2 else EMPTYSTR) in (pd, ('ctor', 'x', ()))
            rep.ob('C03:store:key', ok, 'storing a value sets that key once, with the given description', where(f, o.line), fmt_path(o))
            if not ok:
                continue
            v = st[0][3][1]
            if is_str_type(vt) and v == pv:
                good = True
            elif v[0] in ('call', 'pcall'):
                good = strip_targs(v[1]).startswith(NS + 'config_block_set_value_cast') and pv in v[3]
            elif vt == 'bool':
                good = v == ('s', 'true' if E.truth(o.st, pv) else 'false')
            else:
                good = False
            rep.ob('C03:store:value', good, 'the text stored is the formatted value', where(f, o.line), show(v))
    if n < 6:
        raise Broken('only %d typed setters' % n)


def _thrown(o):
    return any(e[0] == 'catch' for e in o.flat())


def lowered(t, p):
    """t is p after lower-casing every character"""
    if t[0] == 'mut' and t[1] == 'transform' and t[2] == p:
        return any(x[0] == 'fn' and x[1].split('::')[-1] == 'tolower' for x in t[3]) and t[3][0][0] == 'begin' and t[3][1][0] == 'end'
    return False


def check_bool(rep, E, f, outs, p):
    table = {}
    for o in outs:
        cmp = [(k, v) for k, v in o.facts.items() if k[0] == 'op' and k[1] == '==' and (k[2][0] == 's' or k[3][0] == 's')]
        base = {k[2] if k[3][0] == 's' else k[3] for k, v in cmp}
        low = any(e[0] == 'cmut' and e[2] == 'transform' and e[5] == p and any(x[0] == 'fn' and x[1].split('::')[-1] == 'tolower' for x in e[3]) for e in o.flat()) \
            or any('tolower' in repr(b) for b in base) or any('tolower' in repr(e) for e in o.events if e[0] == 'loop')
        rep.ob('C03:bool:case', bool(base) and low, 'the comparison ignores case', where(f, o.line), fmt_path(o))
        pos = {(k[2] if k[2][0] == 's' else k[3])[1] for k, v in cmp if v}
        neg = {(k[2] if k[2][0] == 's' else k[3])[1] for k, v in cmp if not v}
        if o.kind == 'ret':
            r = E.truth(o.st, o.val)
            for s in pos:
                table.setdefault(s, set()).add(r)
            rep.ob('C03:bool:decided', len(pos) == 1 and r is not None, 'a truth value is returned only for a recognised word', where(f, o.line), fmt_path(o))
        else:
            rep.ob('C03:bool:reject', o.val[0] == BADCAST and not pos and {'true', 'yes', '1', 'false', 'no', '0'} <= neg,
                   'every other text is rejected with the conversion error', where(f, o.line), fmt_path(o))
    want = {w: {True} for w in ('true', 'yes', '1')}
    want.update({w: {False} for w in ('false', 'no', '0')})
    rep.ob('C03:bool:table', table == want, 'true/yes/1 are true, false/no/0 are false, nothing else', where(f), str(table))
    rep.ob('C03:bool:rejects', any(o.kind == 'throw' for o in outs), 'unrecognised text is an error', where(f))


# ---------------------------------------------------------------------- C04
def cuts(v, base):
    """how the text v was obtained from base: set of {'front','back'} cut at white space, or None when it is something else"""
    got = set()
    while v != base:
        if v[0] == 'mut' and v[1] == 'erase' and len(v[3]) == 2:
            a, b = v[3]
            if 'isspace' not in repr(v[3]):
                return None
            if a[0] == 'begin' and 'find_if' in repr(b) and 'rbegin' not in repr(b):
                got.add('front')
            elif b[0] == 'end' and 'find_if' in repr(a):
                got.add('back')
            else:
                return None
            v = v[2]
        elif v[0] == 'substr':
            rest = repr(v[2:])
            if 'find_first_not_of' in rest or 'isspace' in rest:
                got.add('front')
            if 'find_last_not_of' in rest or ('isspace' in rest and len(v) > 3):
                got.add('back')
            v = v[1]
        elif v[0] == 'loopv' or v[0] == 'mut' and v[1] in ('pop_back', 'erase', 'resize'):
            return {'front', 'back'}        # character loop: not decided here
        else:
            return None
    return got


def keyed(q):
    return OPCLASS.get(strip_targs(q).split('::')[-1]) if strip_targs(q).startswith(CB + '::') else None


class BlockEngine(CfgEngine):
    pass


def block_engine(R, fn):
    """engine in which every keyed operation of a configuration block stays a call"""
    own = fn['u']

    def opaque(q, f, e):
        return keyed(q) is not None and e.get('u') != own or strip_targs(q).startswith(CAST)
    E = Engine(R.P, opaque=opaque)
    E.keepobj = lambda q: strip_targs(q).startswith(CB + '::')
    return E


def opcalls(o, *kinds):
    return [e for e in o.events if e[0] == 'call' and keyed(e[1]) in kinds]


def elem_of(t, calls):
    """t is an element of the list returned by one of the calls"""
    return t[0] in ('at',) and any(x in calls for x in subterms(t))


def check_stores(P, rep):
    R = Roles(P)
    rep.rule('setting a key writes value and description of that key together (value trimmed at both ends, a stored description replaced only by a '
             'non-empty one); unsetting removes value, description and location of that key together or raises the no-such-value error; queries read '
             'the store they are named after; the key list of a root block is exactly the keys of the value store')
    rep.rule('merging visits every key of the other block and sets its value and description under the same key; a sub-block receives, for every key '
             'below "name:" and every global key, value and description under the stripped key, and nothing else; a view lists the same keys')
    S, D, L, RO = (R.val(x) for x in (R.store, R.descr, R.loc, R.ro))
    key = R.key
    n = 0
    # --- set
    f = P.one(CB + '::i_set_value')
    outs = R.run(f)
    rep.saw(f, outs)
    E = R.last
    k, v, d = (('deref', ('ref', p['n'])) for p in f['p'])
    for o in outs:
        if split(R, o) is not False or o.kind != 'ret':
            continue
        n += 1
        m = mutations(o)
        vals = [x for x in m if x[0] == R.store]
        rep.ob('C04:set:value', len(vals) == 1 and vals[0][1] == 'put' and vals[0][2] == k and cuts(vals[0][3], v) is not None,
               'the value of the key becomes the given text', where(f, o.line), fmt_path(o))
        if len(vals) == 1 and vals[0][1] == 'put':
            c = cuts(vals[0][3], v)
            rep.ob('C04:set:trimmed', c == {'front', 'back'}, 'leading and trailing blanks are removed', where(f, o.line), show(vals[0][3])[:300])
        ds = [x for x in m if x[0] == R.descr]
        had = E.truth(o.st, key_in(D, k))
        empty = E.truth(o.st, ('empty', d))
        must = had is False or empty is False
        mustnot = had is True and empty is True
        ok = (must and len(ds) == 1 and ds[0][1] == 'put' and ds[0][2] == k and ds[0][3] == d) or (mustnot and not ds)
        rep.ob('C04:set:description', ok, 'the description is stored, except that an empty one does not replace an existing one', where(f, o.line), fmt_path(o))
        rep.ob('C04:set:only', all(x[0] in (R.store, R.descr) and x[2] == k for x in m), 'nothing else changes', where(f, o.line), fmt_path(o))
    # --- unset
    f = P.one(CB + '::unset_value')
    outs = R.run(f)
    rep.saw(f, outs)
    k = ('deref', ('ref', f['p'][0]['n']))
    for o in outs:
        if split(R, o) is not False or R.last.truth(o.st, key_in(RO, k)) is True:
            continue
        n += 1
        has = R.last.truth(o.st, key_in(S, k))
        m = mutations(o)
        if has is False:
            rep.ob('C04:unset:absent', o.kind == 'throw' and o.val[0] == NS + 'no_such_configuration_value_exception' and not m,
                   'unsetting an absent key is an error and changes nothing', where(f, o.line), fmt_path(o))
            continue
        hasl = R.last.truth(o.st, key_in(L, k))
        gone = {x[0] for x in m if x[1] == 'del' and x[2] == k}
        rep.ob('C04:unset:all', o.kind == 'ret' and {R.store, R.descr} <= gone and (R.loc in gone or hasl is False) and all(x[1] == 'del' and x[2] == k for x in m),
               'value, description and location of the key go together', where(f, o.line), fmt_path(o))
    # --- queries
    for name, want in (('has_value', 'has'), ('i_get_value', 'value'), ('get_description', 'descr')):
        f = P.one(CB + '::' + name)
        outs = R.run(f)
        rep.saw(f, outs)
        E = R.last
        k = ('deref', ('ref', f['p'][0]['n']))
        for o in outs:
            if split(R, o) is not False:
                continue
            n += 1
            M = D if want == 'descr' else S
            has = E.truth(o.st, key_in(M, k))
            stored = ('fld', ('at', M, k), 'second')
            if want == 'has':
                ok = o.kind == 'ret' and _bool_is(E, o, ('in', S, k))
            elif has is True:
                ok = o.kind == 'ret' and o.val == stored
            elif want == 'descr':
                ok = has is False and o.kind == 'throw' and o.val[0] == NS + 'no_such_configuration_value_exception'
            else:
                ok = has is False and o.kind == 'ret' and o.val in (EMPTYSTR,) or (has is False and o.kind == 'ret' and o.val[0] == 'ctor' and not o.val[2])
            rep.ob('C04:query:%s' % name, ok and not mutations(o), 'the query answers from its store and changes nothing', where(f, o.line), fmt_path(o))
    # --- locations
    f = P.one(CB + '::set_location')
    outs = R.run(f)
    rep.saw(f, outs)
    k = ('deref', ('ref', f['p'][0]['n']))
    for o in outs:
        if split(R, o) is False:
            m = mutations(o)
            rep.ob('C04:location:set', bool(m) and all(x[0] == R.loc and x[1] in ('put', 'putsub') and x[2] == k for x in m) and
                   all(any(contains(x[3], t) for x in m) for t in (('par', f['p'][1]['n']), ('par', f['p'][2]['n']))),
                   'the location of exactly that key is recorded', where(f, o.line), fmt_path(o))
    # --- key list
    f = P.one(CB + '::available_values')
    E = block_engine(R, f)
    own_calls = lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] in ('call', 'pcall') and keyed(str(t[1])) == 'keys'
    Ek = CfgEngine(P, opaque=lambda q, fn, e: keyed(q) == 'keys')
    Ek.parentterm = R.val(R.parent)
    Ek.keepobj = lambda q: True
    outs = Ek.run(f)
    rep.saw(f, outs)
    sep = ('glob', CB + '::block_sep')
    pfx = ('cat', R.val(R.name), sep)
    gpf = ('cat', ('glob', CB + '::global_value'), sep)
    nview = nroot = 0
    for o in outs:
        view = Ek.truth(o.st, R.val(R.parent))
        for b in o.segments():
            if b.kind != 'body':
                continue
            adds = [(l, x) for l, x in b.st.store.items() if x[0] == 'mut' and x[1] in ('push_back', 'emplace_back', 'insert', 'emplace')]
            if view is False:
                nroot += 1
                ok = len(adds) == 1 and adds[0][1][3][-1][:1] == ('fld',) and adds[0][1][3][-1][2] == 'first' and contains(adds[0][1][3][-1], S)                     and not [k_ for k_ in b.facts if k_ not in o.facts and k_[0] in ('op', 'prefix', 'nz')]
                rep.ob('C04:keys:root', ok, 'every key of the store is listed as it is', where(f, b.line), fmt_path(b))
            else:
                el = None
                pos = prefixes(Ek, b.facts, pfx)
                if not adds:
                    # an iteration that lists nothing: the key is neither below the block nor global
                    nview += 1
                    rep.ob('C04:keys:view-skip', any(not vv for kk, vv in pos), 'a view leaves out only keys outside the block', where(f, b.line), fmt_path(b))
                    continue
                nview += 1
                x = adds[0][1][3][-1]
                if pos and pos[0][1]:
                    want = ('substr', pos[0][0], Ek.sizeterm(pfx))
                    rep.ob('C04:keys:view-strip', len(adds) == 1 and x == want, 'a key below the block is listed without the block prefix', where(f, b.line), show(x)[:200])
                elif pos and any(vv for kk, vv in prefixes(Ek, b.facts, gpf)):
                    rep.ob('C04:keys:view-global', x != pos[0][0], 'a view lists only keys that it resolves to an existing entry', where(f, b.line), 'lists a global key unchanged: ' + fmt_path(b))
                elif pos:
                    rep.ob('C04:keys:view-foreign', False, 'a view lists only keys that it resolves to an existing entry', where(f, b.line), 'lists a key that is not below the block: ' + fmt_path(b))
                else:
                    rep.ob('C04:keys:view-unfiltered', False, 'a view lists only keys below the block', where(f, b.line), fmt_path(b))
        if view is False:
            whole = o.kind == 'ret'
            rep.ob('C04:keys:root-ret', whole and not mutations(o), 'listing changes nothing', where(f, o.line), fmt_path(o))
    if not nroot or not nview:
        raise Broken('key listing not understood (%d/%d)' % (nroot, nview))
    # --- merge
    f = P.one(CB + '::merge_config')
    E = block_engine(R, f)
    outs = E.run(f)
    rep.saw(f, outs)
    other = ('deref', ('par', f['p'][0]['n'])) if f['p'][0]['m'] == 'v' else ('deref', ('deref', ('ref', f['p'][0]['n'])))
    bodies = [b for o in outs for b in o.segments() if b.kind == 'body']
    nb = 0
    for b in bodies:
        sets = opcalls(b, 'set')
        nb += 1
        ok = len(sets) == 1 and sets[0][2] is not None and not is_other(sets[0][2], f)
        if ok:
            a = sets[0][3]
            k2 = a[0]
            ok = k2[0] == 'at' and _from_call(k2, 'keys') and _reads(a[1], 'get', k2) and len(a) > 2 and _reads(a[2], 'descr', k2)
        rep.ob('C04:merge:entry', ok, 'every key of the other block is set here with its value and description', where(f, b.line), fmt_path(b) + ' | ' + '; '.join(show(e[4])[:200] for e in sets))
    early = [e for o in outs for e in o.flat() if e[0] in ('brk', 'iter')]
    rep.ob('C04:merge:all', nb >= 1 and not early and all(o.kind == 'ret' for o in outs) and len({len(opcalls(b, 'set')) for b in bodies}) == 1, 'no key is skipped', where(f))
    # --- sub-block
    f = P.one(CB + '::subblock')
    E = block_engine(R, f)
    outs = E.run(f)
    rep.saw(f, outs)
    k = ('deref', ('ref', f['p'][0]['n']))
    pfx = ('cat', k, sep)
    nb = 0
    kinds = set()
    for o in outs:
        rep.ob('C04:subblock:new', o.kind == 'ret' and o.val[0] == 'new' and o.val[2] and o.val[2][0] == k, 'the sub-block is a new block named by the key', where(f, o.line), fmt_path(o))
        for b in o.segments():
            if b.kind != 'body':
                continue
            nb += 1
            sets = opcalls(b, 'set')
            below = prefixes(E, b.facts, pfx)
            glob = prefixes(E, b.facts, gpf)
            if not below:
                rep.ob('C04:subblock:tested', False, 'membership is decided by the block name and separator', where(f, b.line), fmt_path(b))
                continue
            k2, isb = below[0]
            if isb:
                kinds.add('below')
                want = ('substr', k2, E.sizeterm(pfx))
            elif glob and glob[0][1]:
                kinds.add('global')
                want = k2
            else:
                kinds.add('outside')
                rep.ob('C04:subblock:outside', not sets, 'keys outside the block are left out', where(f, b.line), fmt_path(b))
                continue
            ok = len(sets) == 1 and sets[0][3][0] == want and _reads(sets[0][3][1], 'get', k2) and len(sets[0][3]) > 2 and _reads(sets[0][3][2], 'descr', k2)
            rep.ob('C04:subblock:entry', ok, 'value and description are copied under the stripped key', where(f, b.line), '; '.join(show(x)[:160] for e in sets for x in e[3]))
    rep.ob('C04:subblock:cases', kinds == {'below', 'global', 'outside'}, 'keys below the block and global keys are taken, others not', where(f), str(kinds))
    if nb < 3 or n < 10:
        raise Broken('sub-block loop not understood')


def is_other(t, f):
    """the object term is the other block handed to a merge"""
    n = f['p'][0]['n']
    return any(x in (('par', n), ('ref', n)) for x in subterms(t))


def _from_call(t, kind):
    return any(isinstance(x, tuple) and len(x) > 3 and x[0] in ('call', 'pcall') and keyed(str(x[1])) == kind for x in subterms(t))


def _reads(t, kind, key):
    """t is the answer to one query of that kind for that key"""
    return t[0] in ('call', 'pcall') and keyed(str(t[1])) == kind and t[3] and t[3][0] == key
