"""rules about the algorithm registry, nested algorithm configuration, plug-in loading and the algorithm front ends"""
from base import *
from rules_parser import last
from rules_config_io import P_

NS = 'kwiver::vital::'
RG = NS + 'registrar'
AL = NS + 'algorithm'
PM = NS + 'algorithm_plugin_manager'
ME = ('this',)


def iscall(t, q, n=None):
    """a call term of the function"""
    return bool(t) and t[0] in ('call', 'pcall') and len(t) >= 4 and strip_targs(t[1]) == q and (n is None or len(t[3]) == n)


def callev(evs, q):
    return [e for e in evs if e[0] == 'call' and strip_targs(e[1]) == q]


def targ(t):
    """type argument of the member template that was called"""
    q = t[1]
    return q[q.index('<') + 1:-1] if q.endswith('>') else None


def d_of(f):
    q = f['q'].rsplit('::', 1)[0]
    return q[q.index('<') + 1:-1]


def reg_engine(P, *more):
    E = Engine(P, opaque=lambda q, fn, e: q.startswith(RG + '::') or q in more)
    E.typed = lambda q: q.startswith(RG + '::')
    return E


def unaddr(t):
    """a reference obtained by a call, however it was bound"""
    while t and t[0] in ('deref', 'addrof'):
        t = t[1]
    return t


def deref(t):
    return ('deref', t)


def fld(obj, name):
    return ('fld', ('deref', obj), name)


# ---------------------------------------------------------------- registry
def asked(E, o, v, needle):
    """v answers whether needle is among the elements of a container: (container term, wanted answer) or None"""
    t, want = E.norm(v)
    for _i in range(3):
        if t[0] == 'nz':
            t = t[1]
        elif t[0] == 'op' and t[1] in ('<', '>') and C(0) in t[2:]:
            t = t[3] if t[2] == C(0) else t[2]
    if t[0] == 'in' and t[2] == needle:
        return t[1], want
    return None


def membership(E, outs, needle, good, rep, oid, f, direct=lambda v: False):
    """the function returns exactly whether needle is in a container for which good() holds"""
    for o in outs:
        if o.kind == 'ret' and direct(o.val):
            rep.ob(oid, True, 'answers whether the name is registered', where(f, o.line), '')
            continue
        if o.kind != 'ret':
            rep.ob(oid, False, 'answers whether the name is registered', where(f, o.line), fmt_path(o))
            continue
        if o.val in (C(0), C(1)):
            # decided on the path: by a fact, or by a search loop
            ok = False
            for k, v in o.facts.items():
                a = asked(E, o, k, needle)
                if a and good(a[0], o):
                    ok = ok or (a[1] == v) == bool(o.val[1])
            lps = [e for e in o.events if e[0] == 'loop' and e[2][0] == 'range' and good(e[2][1], o)]
            for lp in lps:
                el = ('at', lp[2][1], ('it', lp[1]))

                def hit(facts):
                    return any(k[0] == 'op' and k[1] == '==' and el in k[2:] and needle in k[2:] and v for k, v in facts.items())

                def miss(facts):
                    return any(k[0] == 'op' and k[1] == '==' and el in k[2:] and needle in k[2:] and not v for k, v in facts.items())
                if o.val == C(1):
                    ok = ok or left_early(o, lp[1]) and hit(o.facts)
                else:
                    ok = ok or not left_early(o, lp[1]) and all(miss(dict(b[0])) for b in lp[3])
            rep.ob(oid, ok, 'answers whether the name is registered', where(f, o.line), fmt_path(o))
            continue
        a = asked(E, o, o.val, needle)
        rep.ob(oid, a is not None and good(a[0], o) and a[1], 'answers whether the name is registered', where(f, o.line), show(o.val)[:200] + ' ' + fmt_path(o)[:300])


def qualified(t, ty, im):
    return t == ('cat', ty, ('s', ':'), im) or t[0] == 'cat' and ty[0] == 's' and t == ('cat', ('s', ty[1] + ':'), im)


def prefixed(E, facts, el, prefix, size):
    """do the facts of the path decide that el starts with prefix"""
    return dict(prefixes(E, facts, prefix)).get(el)


def check_registry(P, rep):
    rep.rule('an item enters the map of its type under its name exactly when it is not null, and lookups read that same map')
    rep.rule('an algorithm is registered as type:impl among all algorithms and as impl among those of its type; creating one returns null for an unknown name and otherwise '
             'what clone() of the registered instance returns, never that instance')
    E = Engine(P, opaque=lambda q, fn, e: q == RG + '::debug_msg')
    n = 0
    maps = set()
    for f in P.funcs.values():
        if f['q'] == RG + '::get_item_map' and f.get('body') is not None:
            st = [v for s in walk(f['body']) if s.get('s') == 'decl' for v in s['v'] if v.get('static')]
            rep.ob('map', len(st) == 1, 'one map for each type of item', where(f), '')
            maps.update(('glob', v.get('q', v['n'])) for v in st)
            rep.saw(f)
    if len(maps) != 1:
        raise Broken('registrar: the item maps are not found (%s)' % sorted(maps))
    themap = maps.pop()
    for f in P.funcs.values():
        if not f['q'].startswith(RG + '::') or f.get('body') is None:
            continue
        nm = last(f['q'])
        if nm not in ('register_item', 'find', 'registered_names', 'is_registered', 'instance'):
            continue
        outs = E.run(f)
        rep.saw(f, outs)
        n += 1
        if nm == 'register_item':
            item = P_(f, 1) if f['p'][1]['m'] != 'v' else ('par', f['p'][1]['n'])
            for o in outs:
                null = E.truth(o.st, ('nz', item))
                ws = [e for e in o.flat() if e[0] in ('write', 'cmut')]
                if null is False:
                    rep.ob('register:null', o.kind == 'ret' and o.val == C(0) and not ws, 'a null item is refused and nothing changes', where(f, o.line), fmt_path(o))
                    continue
                ok = len(ws) == 1 and ws[0][0] == 'write' and ws[0][2] == item and ws[0][1][0] == 'F' and ws[0][1][2] == 'second' and \
                    ws[0][1][1] == ('I', ('G', themap[1]), P_(f, 0))
                rep.ob('register:store', null is True and o.kind == 'ret' and o.val == C(1) and ok, 'an item is stored under its name and this is reported', where(f, o.line),
                       fmt_path(o) + ' ' + '; '.join(show(e[1])[:100] for e in ws))
        elif nm == 'find':
            for o in outs:
                hit = [(k, v) for k, v in o.facts.items() if k == ('in', themap, P_(f, 0))]
                ok = len(hit) == 1 and o.kind == 'ret'
                if ok and hit[0][1]:
                    ok = o.val == ('fld', ('at', themap, P_(f, 0)), 'second')
                elif ok:
                    ok = o.val == C(0) or o.val in (('ctor', '', ()), ('null',))
                rep.ob('find', ok, 'the item stored under the name, or null', where(f, o.line), fmt_path(o))
        elif nm == 'registered_names':
            for o in outs:
                s = selection(o, o.val) if o.kind == 'ret' else 'throws'
                ok = not isinstance(s, str) and s[0][0] == 'range' and len(s[1]) == 1 and all(v == ('fld', ('at', s[0][1], ('it', s[2])), 'first') for _f, v in s[1])
                rep.ob('names', ok and s[0][1] == themap, 'every name of the map is listed', where(f, o.line), s if isinstance(s, str) else fmt_path(o))
        elif nm == 'is_registered':
            for o in outs:
                a = asked(E, o, o.val, ('par', f['p'][0]['n'])) if o.kind == 'ret' else None
                rep.ob('is_registered', a is not None and a[1] and a[0] == themap, 'whether the map has the name', where(f, o.line), show(o.val))
    if n < 6:
        raise Broken('registrar: %d functions' % n)
    # creation
    E = reg_engine(P)
    defs = sorted({f['q'].rsplit('::', 1)[0] for f in P.funcs.values() if f['q'].startswith(NS + 'algorithm_def<') and last(f['q']) == 'create'})
    if len(defs) < 15:
        raise Broken('algorithm types: %d' % len(defs))
    inst = lambda t: iscall(unaddr(t), RG + '::instance', 0)
    for f in [P.one(AL + '::create', 2)] + [P.one(d + '::create', 1) for d in defs]:
        outs = E.run(f)
        rep.saw(f, outs)
        base = f['q'] == AL + '::create'
        for o in outs:
            fs = callev(o.events, RG + '::find')
            ok = len(fs) == 1 and targ(fs[0]) == (AL if base else d_of(f)) and inst(fs[0][2]) and (qualified(fs[0][3][0], P_(f, 0), P_(f, 1)) if base else fs[0][3][0] == P_(f, 0))
            if not rep.ob('create:find', ok, 'the registered instance is looked up by name', where(f, o.line), fmt_path(o)):
                continue
            got = E.truth(o.st, ('nz', fs[0][4]))
            if got is False:
                ok = o.kind == 'ret' and (o.val == fs[0][4] or o.val == C(0))
                rep.ob('create:unknown', ok, 'an unknown name gives null', where(f, o.line), fmt_path(o))
            else:
                v = o.val
                if v and v[0] in ('dyncast', 'statcast', 'cast'):
                    v = v[2]
                ok = o.kind == 'ret' and v[0] in ('call', 'pcall') and last(v[1]) in ('clone', 'base_clone') and v[2] == deref(fs[0][4])
                rep.ob('create:clone', got is True and ok, 'a clone of the registered instance is returned', where(f, o.line), fmt_path(o))
    # all names of a type
    f = P.one(AL + '::registered_names', 1)
    outs = E.run(f)
    rep.saw(f, outs)
    ty = P_(f, 0)
    for o in outs:
        emp = E.truth(o.st, ('empty', ty))
        isall = lambda t: iscall(t, RG + '::registered_names', 0) and inst(t[2]) and targ(t) == AL
        if emp is True:
            rep.ob('names:all', o.kind == 'ret' and isall(o.val), 'all qualified names without type', where(f, o.line), fmt_path(o))
            continue
        s = selection(o, o.val) if o.kind == 'ret' else 'throws'
        if not rep.ob('names:type', emp is False and not isinstance(s, str) and s[0][0] == 'range' and isall(s[0][1]), 'all qualified names are visited', where(f, o.line), s if isinstance(s, str) else fmt_path(o)):
            continue
        el = ('at', s[0][1], ('it', s[2]))
        size = ('op', '+', ('size', ty), C(1))
        lp = [e for e in o.events if e[0] == 'loop' and e[1] == s[2]][0]
        for (facts, v), (_f, evs, upd) in zip(s[1], lp[3]):
            p = prefixed(E, facts, el, ('cat', ty, ('s', ':')), size)
            if v is None:
                rep.ob('names:skip', p is False, 'a name is left out only when it is of another type', where(f), str([show(k)[:100] for k in facts]))
            else:
                rep.ob('names:take', p is True and v[0] == 'substr' and v[1] == el and tuple(v[2:]) in (((size,),), (size,)) or p is True and v == ('substr', el, (size,)),
                       'the name without the type is listed', where(f), show(v)[:300] + str([show(k)[:100] for k in facts]))
    f = P.one(AL + '::has_impl_name', 2)
    E2 = reg_engine(P, AL + '::registered_names')
    E2.all_loops = True
    outs = E2.run(f)
    rep.saw(f, outs)
    membership(E2, outs, P_(f, 1), lambda c, o: iscall(c, AL + '::registered_names', 1) and c[3][0] == P_(f, 0), rep, 'has_impl', f)
    f = P.one(AL + '::has_type_name', 1)
    outs = E2.run(f)
    rep.saw(f, outs)
    for o in outs:
        t, w = E2.norm(o.val) if o.kind == 'ret' else (('?',), None)
        rep.ob('has_type', t[0] == 'empty' and w is False and iscall(t[1], AL + '::registered_names', 1) and t[1][3][0] == P_(f, 0), 'whether anything of the type is registered', where(f, o.line), fmt_path(o))
    names = {}
    for d in defs:
        cls = d[len(NS + 'algorithm_def<'):-1]
        E3 = reg_engine(P, d + '::registered_names')
        E3.all_loops = True
        f = P.one(d + '::has_impl_name', 1)
        outs = E3.run(f)
        rep.saw(f, outs)
        membership(E3, outs, P_(f, 0), lambda c, o: iscall(c, strip_targs(d) + '::registered_names', 0), rep, 'has_impl', f,
                   direct=lambda v: iscall(v, RG + '::is_registered', 1) and inst(v[2]) and targ(v) == cls and v[3][0] in (P_(f, 0), ('deref', P_(f, 0))))
        f = P.one(d + '::registered_names', 0)
        E3 = reg_engine(P)
        outs = E3.run(f)
        rep.saw(f, outs)
        for o in outs:
            rep.ob('names:own', o.kind == 'ret' and iscall(o.val, RG + '::registered_names', 0) and inst(o.val[2]) and targ(o.val) == cls, 'the names of its own type are listed', where(f, o.line), fmt_path(o))
        f = P.one(d + '::register_instance', 2)
        outs = E3.run(f)
        rep.saw(f, outs)
        x = ('par', f['p'][1]['n'])
        tn = typename(P, cls)
        names.setdefault(tn, []).append(cls)
        for o in outs:
            null = E3.truth(o.st, ('nz', x))
            rs = callev(o.events, RG + '::register_item')
            if null is False:
                rep.ob('instance:null', o.kind == 'ret' and o.val == C(0) and not rs, 'a null instance is refused', where(f, o.line), fmt_path(o))
                continue
            imn = lambda t: t[0] in ('call', 'pcall') and last(t[1]) == 'impl_name' and t[2] == deref(x)
            tyn = lambda t: t == ('s', tn + ':') or t[0] in ('call', 'pcall') and last(t[1]) == 'type_name' and t[2] == deref(x)
            kinds = []
            for e in rs:
                k, v = e[3][0], e[3][1]
                v = v[2] if v[0] in ('dyncast', 'statcast', 'cast') else v
                obj = rootobj(e[2])
                ok = v == x and obj == ('ref', f['p'][0]['n'])
                if ok and k[0] == 'cat' and imn(k[-1]) and (len(k) == 3 and tyn(k[1]) or len(k) == 4 and tyn(k[1]) and k[2] == ('s', ':')):
                    kinds.append('all')
                elif ok and imn(k):
                    kinds.append('own')
                else:
                    kinds.append('?')
                want = {'all': AL, 'own': cls}.get(kinds[-1])
                if targ(e) != want:
                    kinds[-1] = '?'
            res = [E3.truth(o.st, ('nz', e[4])) for e in rs]
            if o.val == C(1):
                ok = sorted(kinds) == ['all', 'own'] and all(r is True for r in res)
            elif o.val == C(0):
                ok = False in res and '?' not in kinds
            else:
                ok = sorted(kinds) == ['all', 'own'] and rs and E3.norm(o.val)[0] == ('nz', rs[-1][4]) and all(r is not False for r in res)
            rep.ob('instance:register', null is True and o.kind == 'ret' and ok,
                   'success means: registered among all algorithms as type:impl and among its own type as impl', where(f, o.line), '%s %s' % (kinds, fmt_path(o)))
    for tn, cs in sorted(names.items()):
        rep.ob('types:distinct', len(cs) == 1 and tn, 'each algorithm type has its own type name', '', '%s: %s' % (tn, cs))
    # implementations: clones are copies of the concrete type
    E4 = Engine(P, opaque=lambda q, fn, e: last(q) == 'register_instance')
    k = 0
    for f in P.funcs.values():
        c = f['q'].rsplit('::', 1)[0]
        if not c.startswith(NS + 'algorithm_impl<') or f.get('body') is None or last(f['q']) not in ('clone', 'base_clone', 'register_self'):
            continue
        self = c[len(NS + 'algorithm_impl<'):].split(',')[0].strip()
        outs = E4.run(f)
        rep.saw(f, outs)
        for o in outs:
            if last(f['q']) != 'register_self':
                v = o.val
                ok = o.kind == 'ret' and v[0] == 'new' and self in str(v[1]) and len(v[2]) == 1 and unaddr(v[2][0]) == ME
                rep.ob('impl:clone', ok, 'a clone is a copy of this object', where(f, o.line), show(o.val))
                k += 1
            else:
                rs = [e for e in o.events if e[0] == 'call' and last(e[1]) == 'register_instance']
                ok = len(rs) == 1 and o.val == rs[0][4] and rs[0][3][1][0] == 'new' and self in str(rs[0][3][1][1])
                rep.ob('impl:register', ok, 'a new instance is registered', where(f, o.line), fmt_path(o))
                k += 1
    if k < 3:
        raise Broken('algorithm_impl not instantiated')
    return rep


def rootobj(t):
    """the object a call was made on, through earlier calls on it"""
    while True:
        if t[0] in ('deref', 'addrof'):
            t = t[1]
        elif t[0] == 'out' and t[2] == -1:
            t = t[3][2]
        else:
            return t


def typename(P, cls):
    f = P.one(cls + '::static_type_name', 0)
    for x in walk(f['body']):
        if x.get('k') == 'str':
            return x.get('v', x.get('s'))
    return None




# ---------------------------------------------------------------- nested configuration
CB = NS + 'config_block'


def keyparts(P, t):
    """parts of a concatenation, constants substituted and joined"""
    out = []

    def put(x):
        if x[0] == 'cat':
            for y in x[1:]:
                put(y)
            return
        if x[0] == 'glob':
            for v in P.vars.values():
                if v['q'] == x[1] and v.get('i') and v.get('const'):
                    ss = [n['v'] for n in walk(v['i']) if n.get('k') == 'str']
                    if len(ss) == 1:
                        x = ('s', ss[0])
        if x[0] == 's':
            if out and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + x[1])
                return
            if x[1] == '':
                return
        out.append(x)
    put(t)
    return tuple(out)


def check_nested(P, rep):
    rep.rule('the name of a nested algorithm is the value of NAME:type and its settings are the subblock NAME:IMPL, when settings are collected, applied and checked alike')
    rep.rule('applying creates and configures the nested algorithm exactly when the type is set and registered, and otherwise leaves it; checking succeeds exactly when the type '
             'is set and registered and the registered instance accepts the subblock')
    E = reg_engine(P, AL + '::registered_names', AL + '::create', AL + '::has_impl_name', AL + '::get_configuration', AL + '::set_configuration', AL + '::check_configuration')
    base_opaque = E.opaque
    E.opaque = lambda q, fn, e: q.startswith(CB + '::') or base_opaque(q, fn, e)

    def setup(f):
        tn, nm = P_(f, 0), P_(f, 1)
        cfgp = ('par', f['p'][2]['n'])
        return tn, nm, cfgp, keyparts(P, ('cat', nm, ('s', ':type')))

    def on(t, obj):
        return rootobj(t) in (obj, deref(obj)) or unaddr(rootobj(t)) == obj

    def hastype(o, cfgp, key):
        for k, v in o.facts.items():
            if k[0] == 'nz' and iscall(k[1], CB + '::has_value', 1) and on(k[1][2], cfgp) and keyparts(P, k[1][3][0]) == key:
                return v
        return None

    def isname(t, cfgp, key):
        return iscall(t, CB + '::get_value') and on(t[2], cfgp) and keyparts(P, t[3][0]) == key

    def issub(t, cfgp, nm, im):
        t = unaddr(t)
        return iscall(t, CB + '::subblock_view', 1) and on(t[2], cfgp) and keyparts(P, t[3][0]) == keyparts(P, ('cat', nm, ('s', ':'), im))

    def registered(o, tn, cfgp, key):
        """(known answer, name term) of whether the configured name is registered"""
        for k, v in o.facts.items():
            if k[0] != 'nz':
                continue
            t = k[1]
            if (iscall(t, AL + '::has_impl_name', 2) or iscall(t, AL + '::create', 2)) and t[3][0] == tn and isname(t[3][1], cfgp, key):
                return v, t[3][1]
            if iscall(t, RG + '::find', 1) and targ(t) == AL and isname(keyparts(P, t[3][0])[-1], cfgp, key) and keyparts(P, t[3][0])[:-1] == keyparts(P, ('cat', tn, ('s', ':'))):
                return v, keyparts(P, t[3][0])[-1]
        return None, None

    # ---- apply
    f = P.one(AL + '::set_nested_algo_configuration', 4)
    tn, nm, cfgp, key = setup(f)
    outs = E.run(f)
    rep.saw(f, outs)
    algo = ('P', ('ref', f['p'][3]['n']))
    for o in outs:
        ws = [e for e in o.flat() if e[0] == 'write' and E.root(e[1]) == E.root(algo)]
        cs = [e for e in o.flat() if e[0] == 'call' and last(e[1]) == 'set_configuration']
        has = hastype(o, cfgp, key)
        reg, im = registered(o, tn, cfgp, key)
        if has is False or reg is False:
            rep.ob('set:not', o.kind == 'ret' and not ws and not cs, 'without a registered type nothing happens', where(f, o.line), fmt_path(o))
            continue
        ok = has is True and reg is True and len(ws) == 1 and len(cs) == 1 and ws[0][1] == algo
        ok = ok and iscall(ws[0][2], AL + '::create', 2) and ws[0][2][3] == (tn, im)
        ok = ok and cs[0][2] == deref(ws[0][2]) and issub(cs[0][3][0], cfgp, nm, im)
        rep.ob('set:do', ok and o.kind == 'ret', 'the named implementation is created and configured with its subblock', where(f, o.line), fmt_path(o))
    # ---- check
    f = P.one(AL + '::check_nested_algo_configuration', 3)
    tn, nm, cfgp, key = setup(f)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        has = hastype(o, cfgp, key)
        reg, im = registered(o, tn, cfgp, key)
        if has is False or reg is False:
            rep.ob('check:not', o.kind == 'ret' and o.val == C(0), 'without a registered type the check fails', where(f, o.line), fmt_path(o))
            continue
        good = None
        pos = [(k, v) for k, v in list(o.facts.items()) + ([(E.norm(o.val)[0], None)] if o.kind == 'ret' and o.val[0] != 'c' else []) if k[0] == 'nz' and k[1][0] in ('call', 'pcall') and last(k[1][1]) == 'check_configuration']
        for k, v in pos:
            t = k[1]
            who = t[2]
            while who[0] == 'deref':
                who = who[1]
            kp = keyparts(P, who[3][0]) if iscall(who, RG + '::find', 1) and targ(who) == AL else ()
            if iscall(who, AL + '::create', 2) and who[3] == (tn, im) or kp and kp == keyparts(P, ('cat', tn, ('s', ':'), im)):
                if issub(t[3][0], cfgp, nm, im):
                    good = v if v is not None else 'value'
        ok = has is True and reg is True and o.kind == 'ret' and len(pos) == 1 and (good == 'value' or good is not None and o.val == C(int(good)))
        rep.ob('check:do', ok, 'the answer is that of the registered instance on the subblock', where(f, o.line), fmt_path(o))
    # ---- collect
    f = P.one(AL + '::get_nested_algo_configuration', 4)
    tn, nm, cfgp, key = setup(f)
    outs = E.run(f)
    rep.saw(f, outs)
    al = ('par', f['p'][3]['n'])
    for o in outs:
        sv = callev(o.flat(), CB + '::set_value')
        mg = callev(o.flat(), CB + '::merge_config')
        given = E.truth(o.st, ('nz', al))
        isimpl = lambda t: t[0] in ('call', 'pcall') and last(t[1]) == 'impl_name' and t[2] == deref(al)
        if given is True:
            ok = o.kind == 'ret' and len(sv) == 1 and on(sv[0][2], cfgp) and keyparts(P, sv[0][3][0]) == key and isimpl(sv[0][3][1]) and len(mg) == 1
            if ok:
                t = rootcall(mg[0][2])
                ok = iscall(t, CB + '::subblock_view', 1) and on(t[2], cfgp)
                kp = keyparts(P, t[3][0]) if ok else ()
                ok = ok and len(kp) == 3 and kp[:2] == (nm, ('s', ':')) and isimpl(kp[2])
                a = mg[0][3][0]
                ok = ok and a[0] in ('call', 'pcall') and last(a[1]) == 'get_configuration' and a[2] == deref(al)
            rep.ob('get:given', ok, 'name and configuration of the nested algorithm are recorded', where(f, o.line), fmt_path(o))
            continue
        has = hastype(o, cfgp, key)
        if has is True:
            rep.ob('get:kept', given is False and not sv and not mg and o.kind == 'ret', 'a type that is set already stays', where(f, o.line), fmt_path(o))
        else:
            rep.ob('get:none', given is False and has is False and o.kind == 'ret' and not mg and len(sv) == 1 and on(sv[0][2], cfgp) and keyparts(P, sv[0][3][0]) == key and sv[0][3][1] == ('s', ''),
                   'otherwise the type is recorded as empty', where(f, o.line), fmt_path(o))
    # ---- the typed forms
    defs = sorted({f['q'].rsplit('::', 1)[0] for f in P.funcs.values() if f['q'].startswith(NS + 'algorithm_def<') and last(f['q']) == 'create'})
    if len(defs) < 15:
        raise Broken('algorithm types: %d' % len(defs))
    for d in defs:
        cls = d[d.index('<') + 1:-1]
        tyn = ('s', typename(P, cls))
        E2 = reg_engine(P, *[AL + '::%s_nested_algo_configuration' % x for x in ('get', 'set', 'check')] + [d + '::registered_names', AL + '::get_configuration'])
        o2 = E2.opaque
        E2.opaque = lambda q, fn, e: q.startswith(CB + '::') or o2(q, fn, e)
        for x in ('get', 'set', 'check'):
            f = P.one(d + '::%s_nested_algo_configuration' % x)
            outs = E2.run(f)
            rep.saw(f, outs)
            for o in outs:
                cs = callev(o.flat(), AL + '::%s_nested_algo_configuration' % x)
                ok = o.kind == 'ret' and len(cs) == 1
                if ok:
                    a = cs[0][3]
                    ok = a[0] == tyn and a[1] == P_(f, 0) and a[2] == ('par', f['p'][1]['n'])
                    if x == 'check':
                        ok = ok and o.val == cs[0][4]
                    elif x == 'get':
                        ok = ok and a[3] == ('par', f['p'][2]['n'])
                    else:
                        w = [e for e in o.flat() if e[0] == 'write' and e[1] == ('P', ('ref', f['p'][2]['n']))]
                        v = w[-1][2] if w else ()
                        old = deref(('ref', f['p'][2]['n']))
                        v3 = a[3][2] if a[3][0] in ('dyncast', 'statcast', 'cast') else a[3]
                        ok = ok and v3 == old and len(w) == 1 and v[0] == 'dyncast' and cls in v[1] and v[2] == ('out', 'set_nested_algo_configuration', 3, cs[0][4])
                rep.ob('typed:' + x, ok, 'the typed form is the generic one for its type', where(f, o.line), fmt_path(o))
        f = P.one(d + '::get_impl_configurations', 0)
        outs = E2.run(f)
        rep.saw(f, outs)
        for o in outs:
            lps = [e for e in o.events if e[0] == 'loop' and e[2][0] == 'range' and iscall(e[2][1], strip_targs(d) + '::registered_names', 0)]
            v = o.val
            ok = o.kind == 'ret' and len(lps) == 1 and not left_early(o, lps[0][1]) and iscall(v, CB + '::empty_config')
            if ok:
                el = ('at', lps[0][2][1], ('it', lps[0][1]))
                for fs, evs, upd in lps[0][3]:
                    mg = callev(evs, CB + '::merge_config')
                    ok = ok and len(mg) == 1
                    if ok:
                        t = rootcall(mg[0][2])
                        a = mg[0][3][0]
                        w = a[2][1] if a[2] and a[2][0] == 'deref' else ()
                        ok = iscall(t, CB + '::subblock_view', 1) and t[3] == (el,) and unaddr(rootobj(t[2])) in (v, ('P', ('call',))) or iscall(t, CB + '::subblock_view', 1) and t[3] == (el,) and contains(t[2], ('P', v))
                        ok = ok and last(a[1]) == 'get_configuration' and (iscall(w, RG + '::find', 1) and targ(w) == cls and w[3] == (el,) or iscall(w, strip_targs(d) + '::create', 1) and w[3] == (el,))
            rep.ob('impls', ok, 'the configuration of each registered implementation under its name', where(f, o.line), fmt_path(o))
    return rep


def rootcall(t):
    """the call that gave the object"""
    while t and t[0] in ('deref', 'addrof', 'loopv'):
        t = t[2][1] if t[0] == 'loopv' and t[2][0] == 'P' else t[1]
    return t


# ---------------------------------------------------------------- plug-in libraries
DL = 'kwiversys::DynamicLoader'
ST = 'kwiversys::SystemTools'


def const_string(P, t):
    """value of a constant"""
    k = keyparts(P, t)
    if len(k) == 1 and k[0][0] == 's':
        return k[0][1]
    if t[0] == 'glob':
        for v in P.vars.values():
            if v['q'] == t[1] and v.get('i'):
                ss = [n['v'] for n in walk(v['i']) if n.get('k') == 'str']
                if len(ss) == 1:
                    return ss[0]
    return None


def check_plugins(P, rep):
    rep.rule('exactly the files of an existing directory that have the library suffix, are no directories and have the wanted name are loaded')
    rep.rule('a library is closed exactly when it has no registration function; it is recorded under its file name without suffix exactly when that function reported no failure')
    rep.rule('search paths: environment first, then the defaults, then added ones; all are visited; plug-ins load once')
    IM = PM + '::impl'
    # ---- one directory
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or q == IM + '::register_from_module')
    f = P.one(IM + '::load_modules_in_directory', 2)
    outs = E.run(f)
    rep.saw(f, outs)
    dp, name = ('par', f['p'][0]['n']), ('par', f['p'][1]['n'])
    nload = 0
    for o in outs:
        regs = callev(o.flat(), IM + '::register_from_module')
        emp = E.truth(o.st, ('empty', dp))
        lps = [e for e in o.events if e[0] == 'loop']
        loads = [e for e in callev(o.events, 'kwiversys::Directory::Load') if e[3] and e[3][0] == dp]
        isdir = [v for k, v in o.facts.items() if k[0] == 'nz' and iscall(k[1], ST + '::FileIsDirectory', 1) and k[1][3][0] == dp]
        exists = [v for k, v in o.facts.items() if k[0] == 'nz' and iscall(k[1], ST + '::FileExists') and k[1][3][0] == dp]
        if not lps:
            rep.ob('dir:skip', o.kind == 'ret' and not regs and (emp is True or False in isdir or False in exists), 'a directory is passed over only when its path is empty or it does not exist',
                   where(f, o.line), fmt_path(o))
            continue
        lp = lps[0]
        ok = o.kind == 'ret' and len(lps) == 1 and len(loads) == 1 and emp is False and isdir == [True] and not left_early(o, lp[1])
        sp = lp[2]
        isnum = lambda t: iscall(t, 'kwiversys::Directory::GetNumberOfFiles', 0)
        ok = ok and sp[0] == 'count' and sp[1] == C(0) and isnum(sp[2])
        rep.ob('dir:all', ok, 'all entries of an existing directory are considered', where(f, o.line), show(sp) + fmt_path(o))
        for fs, evs, upd in lp[3]:
            fs = dict(fs)
            allf = dict(o.facts)
            allf.update(fs)
            cs = callev(evs, IM + '::register_from_module')

            def isfile(t):
                k = keyparts(P, t)
                return len(k) == 3 and (iscall(k[0], 'kwiversys::Directory::GetPath', 0) or k[0] == dp) and k[1] == ('s', '/') and isentry(k[2])

            def isentry(t):
                return iscall(t, 'kwiversys::Directory::GetFile', 1) and t[3][0] in (('idx', lp[1], C(0)), ('it', lp[1]))
            suffix = named = isd = None
            for k, v in allf.items():
                if k[0] == 'op' and k[1] == '==':
                    for a, b in ((k[2], k[3]), (k[3], k[2])):
                        if iscall(a, ST + '::GetFilenameLastExtension', 1) and (isfile(a[3][0]) or isentry(a[3][0])) and const_string(P, b) == '.so':
                            suffix = v
                        if iscall(a, ST + '::GetFilenameWithoutLastExtension', 1) and (isfile(a[3][0]) or isentry(a[3][0])) and b == name:
                            named = v
                if k == ('empty', name) and v:
                    named = True
                if k[0] == 'nz' and iscall(k[1], ST + '::FileIsDirectory', 1) and isfile(k[1][3][0]):
                    isd = v
            if cs:
                nload += 1
                ok = suffix is True and named is True and isd is False and len(cs) == 1 and isfile(cs[0][3][0])
                rep.ob('dir:load', ok, 'only libraries of the wanted name are loaded', where(f, cs[0][5]), 'suffix %s, name %s, directory %s' % (suffix, named, isd))
            else:
                rep.ob('dir:left', suffix is False or named is False or isd is True, 'a library of the wanted name is loaded', where(f, lp[1][1]), 'suffix %s, name %s, directory %s' % (suffix, named, isd))
    if not nload:
        rep.ob('dir:load', False, 'libraries are loaded', where(f))
    # ---- one library
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::') or q.startswith(RG + '::'))
    f = P.one(IM + '::register_from_module', 1)
    outs = E.run(f)
    rep.saw(f, outs)
    mp = ('par', f['p'][0]['n'])
    for o in outs:
        ev = o.flat()
        op = callev(ev, DL + '::OpenLibrary')
        sy = callev(ev, DL + '::GetSymbolAddress')
        cl = callev(ev, DL + '::CloseLibrary')
        fp = [e for e in ev if e[0] == 'call' and e[1] == 'fp']
        ws = [m for m in mutations(o) if m[0] != 'm_logger' and m[1] != 'opaque']
        if not rep.ob('lib:open', len(op) == 1 and op[0][3][0] == mp and o.kind == 'ret', 'the library is opened', where(f, o.line), fmt_path(o)):
            continue
        lib = op[0][4]
        got = E.truth(o.st, ('nz', lib))
        if got is False:
            rep.ob('lib:bad', o.val == C(0) and not sy and not cl and not fp and not ws, 'a library that does not open is passed over', where(f, o.line), fmt_path(o))
            continue
        ok = got is True and len(sy) == 1 and sy[0][3][0] == lib and const_string(P, sy[0][3][1]) == 'private_register_algo_impls'
        if not rep.ob('lib:symbol', ok, 'the registration function is looked up', where(f, o.line), fmt_path(o)):
            continue
        fn = E.truth(o.st, ('nz', sy[0][4]))
        if fn is False:
            rep.ob('lib:none', o.val == C(0) and len(cl) == 1 and cl[0][3][0] == lib and not fp and not ws, 'a library without registration function is closed', where(f, o.line), fmt_path(o))
            continue
        ok = fn is True and len(fp) == 1 and contains(fp[0][2], sy[0][4]) and len(fp[0][3]) == 1 and iscall(unaddr(fp[0][3][0]), RG + '::instance', 0)
        if not rep.ob('lib:call', ok, 'the registration function is called with the registry', where(f, o.line), fmt_path(o)):
            continue
        rep.ob('lib:kept', not cl, 'a library is never closed once its registration function was called', where(f, o.line), fmt_path(o))
        # the function returns the number of failures
        r = fp[0][4]
        fail = [x for x in (-1, 0, 1, 7) if fits(o.facts, {r: x})]
        stores = [m for m in ws if m[1] == 'put']
        if all(x > 0 for x in fail):
            rep.ob('lib:failed', o.val == C(0) and not ws, 'a library that reported failures is not recorded', where(f, o.line), fmt_path(o))
        elif 7 not in fail and 1 not in fail:
            def iskey(t):
                if iscall(t, ST + '::GetFilenameName', 1):
                    t = t[3][0]
                if iscall(t, ST + '::GetFilenameWithoutLastExtension', 1):
                    t = t[3][0]
                    if iscall(t, ST + '::GetFilenameName', 1):
                        t = t[3][0]
                    return t == mp
                return False
            ok = len(ws) == 1 and len(stores) == 1 and stores[0][0] == 'registered_modules_' and iskey(stores[0][2]) and stores[0][3] == mp and o.val == C(1)
            rep.ob('lib:recorded', ok, 'a library that registered its algorithms is recorded under its name', where(f, o.line), '%s %s' % (ws, fmt_path(o)))
        else:
            rep.ob('lib:result', False, 'the result of the registration function decides', where(f, o.line), fmt_path(o))
    f = P.one(IM + '::registered_module_names', 0)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        s = selection(o, o.val) if o.kind == 'ret' else 'throws'
        ok = not isinstance(s, str) and s[0] == ('range', ('fld', deref(ME), 'registered_modules_')) and len(s[1]) == 1 and s[1][0][1] == ('fld', ('at', s[0][1], ('it', s[2])), 'first')
        rep.ob('names', ok, 'every recorded module is listed', where(f, o.line), fmt_path(o))
    # ---- search paths
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::'))
    f = P.one(PM + '::algorithm_plugin_manager', 0)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        env = callev(o.flat(), ST + '::GetEnv')
        sp = callev(o.flat(), ST + '::Split')
        ok = o.kind == 'ret' and len(env) == 1 and const_string(P, env[0][3][0]) == 'KWIVER_PLUGIN_PATH'
        have = E.truth(o.st, ('nz', env[0][4])) if ok else None
        want = [lambda t: t == env[0][4], lambda t: t[0] == 'glob' and t[1].endswith('default_module_paths')][0 if have else 1:]
        ok = ok and have is not None and len(sp) == len(want) and all(w(e[3][0]) and 'm_search_paths' in repr(e[3][1]) and e[3][2] == C(ord(':')) for w, e in zip(want, sp))
        rep.ob('path:init', ok, 'the environment comes first, then the default directories', where(f, o.line), fmt_path(o))
    E = Engine(P, opaque=lambda q, fn, e: q == IM + '::load_modules_in_directory')
    E.all_loops = True
    for q, obj in ((IM + '::load_from_search_paths', ME), (PM + '::register_plugins', None)):
        f = P.one(q, 1)
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            lps = [e for e in o.events if e[0] == 'loop' and 'm_search_paths' in repr(e[2])]
            ok = o.kind == 'ret' and len(lps) == 1 and lps[0][2][0] == 'range' and lps[0][2][1][0] == 'fld' and lps[0][2][1][2] == 'm_search_paths' and not left_early(o, lps[0][1])
            for b in lps[0][3] if ok else ():
                cs = callev(b[1], IM + '::load_modules_in_directory')
                a = cs[0][3] if len(cs) == 1 else ((), ())
                ok = ok and len(cs) == 1 and a[0][0] == 'at' and a[0][2] == ('it', lps[0][1]) and 'm_search_paths' in repr(a[0][1]) and a[1] == ('par', f['p'][0]['n'])
            rep.ob('path:visit', ok, 'every search path is visited', where(f, o.line), fmt_path(o))
    f = P.one(PM + '::add_search_path', 1)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        ev = [e for e in o.flat() if e[0] in ('cmut', 'write')]
        ok = o.kind == 'ret' and len(ev) == 1 and ev[0][0] == 'cmut' and ev[0][2] in ('push_back', 'emplace_back') and ev[0][1][2] == 'm_search_paths' and ev[0][3] == (('par', f['p'][0]['n']),)
        rep.ob('path:add', ok, 'added directories come last', where(f, o.line), fmt_path(o))
    f = P.one(PM + '::get_search_path', 0)
    outs = E.run(f)
    rep.saw(f, outs)
    for o in outs:
        rep.ob('path:get', o.kind == 'ret' and o.val[0] == 'fld' and o.val[2] == 'm_search_paths', 'the search path is the one used', where(f, o.line), fmt_path(o))
    # ---- once
    E = Engine(P, opaque=lambda q, fn, e: q == PM + '::register_plugins')
    f = P.one(PM + '::load_plugins_once', 0)
    outs = E.run(f)
    rep.saw(f, outs)
    flags = {e[1] for o in outs for e in o.flat() if e[0] == 'write' and e[1][0] == 'G' and e[1][1].split('::')[-1] != 's_instance'}
    flag = ('glob', list(flags)[0][1]) if len(flags) == 1 else ('?',)
    rep.ob('once:flag', len(flags) == 1, 'one flag remembers that the plug-ins were loaded', where(f), str(flags))
    init = [v for v in P.vars.values() if v['q'] == flag[1] and v.get('fn') == f['u'] and v.get('i')] if len(flags) == 1 else []
    start = [n for v in init for n in walk(v['i']) if n.get('k') in ('bool', 'int')]
    start = bool(int(start[0]['v'])) if len(start) == 1 else None
    for o in outs:
        rg = callev(o.flat(), PM + '::register_plugins')
        w = [e for e in o.flat() if e[0] == 'write' and e[1] == ('G', flag[1])]
        v = E.truth(o.st, ('nz', flag))
        fr = [x for k, x in o.facts.items() if k == ('nz', flag)]
        first = fr[0] == start if fr and start is not None else None
        if rg:
            ok = first is True and len(rg) == 1 and rg[0][3] and keyparts(P, rg[0][3][0]) == () and o.val == C(1) and len(w) == 1 and w[0][2] == C(int(not start))
            rep.ob('once:first', ok and o.kind == 'ret', 'the first call loads all plug-ins', where(f, o.line), fmt_path(o))
        else:
            rep.ob('once:later', first is False and o.kind == 'ret' and o.val == C(0) and not w, 'later calls do nothing', where(f, o.line), fmt_path(o))
    return rep


# ---------------------------------------------------------------- front ends
AG = NS + 'algo::'


def getter(t, name, obj):
    """t is what the virtual accessor gives for the object"""
    return t[0] in ('call', 'pcall') and last(t[1]) == name and not t[3] and t[2] == obj


def each(o, term, val):
    """the list holds val(element) for every element of the container it returns, or why not"""
    s = selection(o, term)
    if isinstance(s, str):
        return None, s
    if s[0][0] != 'range' or len(s[1]) != 1 or s[1][0][1] is None:
        return None, 'not one for each element: ' + show(term)[:100]
    return s[0][1], s[1][0][1] if val is None else val(s[1][0][1], ('at', s[0][1], ('it', s[2])))


def check_frontends(P, rep):
    rep.rule('the matched points handed to an estimator are the locations of first in the first and second in the second feature set, in step')
    rep.rule('similarity estimation pairs by position or, for maps, by equal key; camera optimisation hands each camera exactly its features with the landmark of their track')
    rep.rule('image files are loaded and saved only after their path was checked; filtered descriptors are those of the kept features')
    # ---- estimators
    n = 0
    for cn in ('estimate_homography', 'estimate_fundamental_matrix', 'estimate_essential_matrix'):
        E = Engine(P, opaque=lambda q, fn, e: q == AG + cn + '::estimate')
        fs = [f for f in P.find(AG + cn + '::estimate')]
        for f in fs:
            outs = E.run(f)
            rep.saw(f, outs)
            n += 1
            names = [p['n'] for p in f['p']]
            pv = [P_(f, i) if p['m'] in 'rc' else ('par', p['n']) for i, p in enumerate(f['p'])]
            matched = any('match_set' in p['t'] for p in f['p'])
            for o in outs:
                cs = callev(o.events, AG + cn + '::estimate')
                ok = o.kind == 'ret' and len(cs) == 1 and o.val == cs[0][4] and unaddr(cs[0][2]) == ME
                if not rep.ob('estimate:forward', ok, 'the estimate of the overload is returned', where(f, o.line), fmt_path(o)):
                    continue
                a = list(cs[0][3])
                nest = '*' if cn == 'estimate_essential_matrix' else ''
                if matched and len(a) == (6 if nest else 4):
                    m = deref(pv[2])
                    why = ''
                    for k, side in ((0, 'first'), (1, 'second')):
                        s = selection(o, a[k])
                        ok = not isinstance(s, str) and s[0][0] == 'range' and getter(s[0][1], 'matches', m) and len(s[1]) == 1 and s[1][0][1] is not None
                        if ok:
                            v = s[1][0][1]
                            el = ('at', s[0][1], ('it', s[2]))
                            ok = v[0] in ('call', 'pcall') and last(v[1]) == 'loc' and v[2][0] == 'deref' and v[2][1][0] == 'at' and getter(v[2][1][1], 'features', deref(pv[k])) and \
                                isside(v[2][1][2], el, side)
                        else:
                            why = s if isinstance(s, str) else show(s[0])
                        rep.ob('estimate:points', ok, 'point list %d holds the location of the %s feature of every match' % (k + 1, side), where(f, o.line), why or fmt_path(o))
                    rest, want = a[2:], pv[3:]
                elif matched:
                    rest, want = a, pv[:3] + [pv[3], pv[3]] + pv[4:]
                else:
                    rest, want = a, pv[:2] + [pv[2], pv[2]] + pv[3:]
                rep.ob('estimate:args', [unaddr(x) if x[0] == 'addrof' else x for x in rest] == want, 'the other arguments are passed on, one camera serving for both', where(f, o.line),
                       '%s, expected %s' % ([show(x) for x in rest], [show(x) for x in want]))
    if n != 5:
        rep.notes.append('%d estimator front ends' % n)
        if n < 3:
            raise Broken('estimators: %d front ends' % n)
    # ---- similarity
    q = AG + 'estimate_similarity_transform::estimate_transform'
    E = Engine(P, opaque=lambda x, fn, e: x == q)
    E.keep_scope = True
    n = 0
    for f in P.find(q, 2):
        outs = E.run(f)
        rep.saw(f, outs)
        n += 1
        t = f['p'][0]['t']
        acc, coll = ('center', 'cameras') if 'camera' in t else ('loc', 'landmarks')
        for o in outs:
            cs = callev(o.events, q)
            ok = o.kind == 'ret' and len(cs) == 1 and o.val == cs[0][4] and unaddr(cs[0][2]) == ME and len(cs[0][3]) == 2
            if not rep.ob('similarity:forward', ok, 'the estimate for the points is returned', where(f, o.line), fmt_path(o)):
                continue
            if 'vector' in t:
                for k in (0, 1):
                    s = selection(o, cs[0][3][k])
                    src = P_(f, k)
                    ok = not isinstance(s, str) and s[0] == ('range', src) and len(s[1]) == 1 and s[1][0][1] is not None and getter(s[1][0][1], acc, deref(('at', src, ('it', s[2]))))
                    rep.ob('similarity:list', ok, 'point list %d holds the position of every element' % (k + 1), where(f, o.line), s if isinstance(s, str) else fmt_path(o))
            else:
                m = [('pcall', NS + ('camera_map::' if acc == 'center' else 'landmark_map::') + coll, deref(('par', p['n'])), ()) for p in f['p']]
                why = joined(E, o, cs[0][3][0], cs[0][3][1], m[0], m[1], acc)
                rep.ob('similarity:map', why is None, 'elements of equal key are paired, others are left out', where(f, o.line), why or '')
    if n != 4:
        raise Broken('estimate_transform: %d front ends' % n)
    # ---- image files
    E = Engine(P, opaque=lambda q, fn, e: q.startswith('kwiversys::'))
    for nm, impl in (('load', 'load_'), ('save', 'save_')):
        f = P.one(AG + 'image_io::' + nm)
        outs = E.run(f)
        rep.saw(f, outs)
        fnm = P_(f, 0)

        def checked(t):
            if nm == 'load':
                return t == fnm
            return iscall(t, ST + '::GetFilenamePath', 1) and iscall(t[3][0], ST + '::CollapseFullPath') and t[3][0][3][0] == fnm

        done = 0
        for o in outs:
            ex = [v for k, v in o.facts.items() if k[0] == 'nz' and iscall(k[1], ST + '::FileExists') and checked(k[1][3][0])]
            isd = [v for k, v in o.facts.items() if k[0] == 'nz' and iscall(k[1], ST + '::FileIsDirectory', 1) and checked(k[1][3][0])]
            cs = [e for e in o.flat() if e[0] == 'call' and last(e[1]) == impl]
            if o.kind == 'throw':
                ty = last(str(o.val[1] if o.val[0] == 'exc' else o.val[0]))
                ev = [e for e in o.events if e[0] == 'throw']
                ty = last(ev[-1][1]) if ev else '?'
                want = 'path_not_exists' if False in ex else ('path_not_a_file' if nm == 'load' and isd == [True] else 'path_not_a_directory' if nm == 'save' and isd == [False] else '?')
                rep.ob(nm + ':refuse', ty == want and not cs, 'a wrong path is refused with its exception', where(f, o.line), 'throws %s, expected %s' % (ty, want))
            else:
                done += 1
                good = True in isd if nm == 'save' else isd == [False] and ex == [True]
                ok = good and False not in ex and len(cs) == 1 and cs[0][3][0] == fnm and (o.val == cs[0][4] if nm == 'load' else cs[0][3][1] == ('par', f['p'][1]['n']))
                rep.ob(nm + ':do', ok, 'the implementation is called for the checked path', where(f, o.line), fmt_path(o))
        rep.ob(nm + ':some', done > 0, 'files are processed', where(f))
    # ---- filtering
    E = Engine(P, opaque=lambda q, fn, e: q == AG + 'filter_features::filter')
    E.keep_scope = True
    f1 = P.one(AG + 'filter_features::filter', 1)
    f2 = P.one(AG + 'filter_features::filter', 2)
    for f in (f1, f2):
        outs = E.run(f)
        rep.saw(f, outs)
        for o in outs:
            cs = callev(o.events, AG + 'filter_features::filter')
            ok = o.kind == 'ret' and len(cs) == 1 and len(cs[0][3]) == 2 and cs[0][3][0] == ('par', f['p'][0]['n']) and cs[0][3][1] == ('ilist', ())
            if not rep.ob('filter:call', ok, 'the features are filtered', where(f, o.line), fmt_path(o)):
                continue
            if f is f1:
                rep.ob('filter:features', o.val == cs[0][4], 'the filtered features are returned', where(f, o.line), fmt_path(o))
                continue
            v = o.val
            ok = v[0] == 'pair' and v[1] == cs[0][4]
            ds = [t for t in subterms(v[2]) if t and t[0] == 'loopv'] if ok else []
            ok = ok and 'simple_descriptor_set' in show(v[2]) and len(set(ds)) >= 1
            s = selection(o, ds[0]) if ok else 'no list'
            idx = ('out', 'filter', 1, cs[0][4])
            if ok and not isinstance(s, str):
                el = ('at', idx, ('it', s[2]))
                cnt = s[0][0] == 'range' and s[0][1] == idx
                ok = cnt and len(s[1]) == 1 and s[1][0][1] is not None and s[1][0][1][0] == 'at' and getter(s[1][0][1][1], 'descriptors', deref(('par', f['p'][1]['n']))) and s[1][0][1][2] == el
            rep.ob('filter:descriptors', ok and not isinstance(s, str), 'the descriptor of every kept feature is returned, in step', where(f, o.line), s if isinstance(s, str) else fmt_path(o))
    # ---- cameras
    q = AG + 'optimize_cameras::optimize'
    E = Engine(P, opaque=lambda x, fn, e: x == q)
    E.keep_scope = True
    f = P.one(q, 3)
    outs = E.run(f)
    rep.saw(f, outs)
    cams, trk, lms = P_(f, 0), ('par', f['p'][1]['n']), ('par', f['p'][2]['n'])
    for o in outs:
        nul = [E.truth(o.st, ('nz', x)) for x in (cams, trk, lms)]
        ws = [e for e in o.events if e[0] == 'write' and E.root(e[1]) == ('P', ('ref', f['p'][0]['n']))]
        if o.kind == 'throw':
            ev = [e for e in o.events if e[0] == 'throw']
            rep.ob('cameras:null', False in nul and last(ev[-1][1]) == 'invalid_value' and not ws, 'missing input raises invalid_value', where(f, o.line), fmt_path(o))
            continue
        why = optimised(E, o, f, q, cams, trk, lms, ws) if nul == [True] * 3 else 'input not checked'
        rep.ob('cameras:all', why is None, 'each camera is optimised with its features and their landmarks, and replaced', where(f, o.line), why or '')
    return rep


def isside(t, el, side):
    return t == ('fld', el, side) or t == ('fld', el, side) or t[0] == 'fld' and t[2] == side and unaddr(t[1]) == el


def same(t, p):
    """a pure call, whatever its type"""
    return t[0] in ('call', 'pcall') and t[1] == p[1] and t[2] == p[2] and tuple(t[3]) == tuple(p[3])


def joined(E, o, ta, tb, ma, mb, acc):
    """the two lists hold acc() of the elements of both maps that have equal keys"""
    if ta[0] != 'loopv' or tb[0] != 'loopv' or ta[1] != tb[1]:
        return 'the lists are not filled together'
    lp = [e for e in o.flat() if e[0] == 'loop' and e[1] == ta[1]]
    if not lp:
        return 'no loop'
    lp = lp[0]
    init = dict(lp[4])
    if init.get(ta[2]) != ('ilist', ()) or init.get(tb[2]) != ('ilist', ()):
        return 'the lists do not start empty'
    if left_early(o, lp[1]):
        return 'the loop is left early'

    def pushes(upd):
        out = []
        for t in (ta, tb):
            v = upd.get(t[2], t)
            if v == t:
                out.append(None)
            elif v[0] == 'mut' and v[1] in ('push_back', 'emplace_back') and v[2] == t and len(v[3]) == 1:
                out.append(v[3][0])
            else:
                return None
        return out

    def value(v, el):
        """acc() of the element"""
        if v is None:
            return False
        if v[0] in ('call', 'pcall') and v[1] == 'fp':
            x = v[2]
            return x and x[0] == 'op' and x[1] in ('.*', '->*') and x[3][0] == 'fn' and last(x[3][1]) == acc and el(x[2])
        return v[0] in ('call', 'pcall') and last(v[1]) == acc and not v[3] and el(v[2])
    if lp[2][0] == 'range':
        # over one map, looking up the other
        for (m1, m2, sw) in ((ma, mb, False), (mb, ma, True)):
            if not same(lp[2][1], m1):
                continue
            el = ('at', lp[2][1], ('it', lp[1]))
            key = ('fld', el, 'first')
            for fs, evs, upd in lp[3]:
                ps = pushes(dict(upd))
                if ps is None:
                    return 'a list is changed otherwise'
                there = [v for k, v in fs if k[0] == 'in' and same(k[1], m2) and k[2] == key]
                if there == [True]:
                    p1, p2 = (ps[1], ps[0]) if sw else ps
                    if not (value(p1, lambda t: t == deref(('fld', el, 'second'))) and
                            value(p2, lambda t: t[0] == 'deref' and t[1][0] in ('fld', 'at') and contains(t, key) and any(same(x, m2) for x in subterms(t) if x and x[0] in ('call', 'pcall') and len(x) > 3))):
                        return 'the pair is not that of the key'
                elif there == [False]:
                    if ps != [None, None]:
                        return 'an element without partner is used'
                else:
                    return 'the key is not looked up'
            return None
        return 'loop over %s' % show(lp[2])[:100]
    # merging two cursors
    cur = {l: v for l, v in init.items() if v[0] == 'begin'}
    if len(cur) != 2:
        return 'no two cursors'
    cs = {}
    for l, v in cur.items():
        c = E.read(o.st, v[1])
        if same(c, ma):
            cs['a'] = (l, v[1])
        elif same(c, mb):
            cs['b'] = (l, v[1])
    if len(cs) != 2:
        return 'the cursors do not run over both maps'
    val = {k: ('loopv', lp[1], cs[k][0]) for k in cs}
    cases = set()
    for fs, evs, upd in lp[3]:
        fs, upd = dict(fs), dict(upd)
        live = {}
        for k in 'ab':
            e = ('end', cs[k][1])
            live[k] = [v for f, v in fs.items() if f[0] == 'op' and f[1] == '==' and e in f[2:] and val[k] in f[2:]]
        if live != {'a': [False], 'b': [False]}:
            return 'a cursor is used without testing for the end'
        ka, kb = ('fld', deref(val['a']), 'first'), ('fld', deref(val['b']), 'first')
        rs = []
        for r, env in (('<', (0, 1)), ('=', (1, 1)), ('>', (1, 0))):
            if fits({f: v for f, v in fs.items() if contains(f, ka) or contains(f, kb)}, {ka: ('c', env[0])[1], kb: env[1]}):
                rs.append(r)
        if not any(contains(f, ka) for f in fs):
            ka2 = [f for f in fs if f[0] == 'op' and 'first' in repr(f)]
            return 'keys are not compared %s' % [show(x) for x in ka2][:2]
        step = {k: upd.get(cs[k][0], val[k]) == ('op', '+', val[k], C(1)) for k in 'ab'}
        stay = {k: upd.get(cs[k][0], val[k]) == val[k] for k in 'ab'}
        ps = pushes(upd)
        if ps is None:
            return 'a list is changed otherwise'
        if rs == ['<']:
            good = step['a'] and stay['b'] and ps == [None, None]
        elif rs == ['>']:
            good = step['b'] and stay['a'] and ps == [None, None]
        elif rs == ['=']:
            good = step['a'] and step['b'] and value(ps[0], lambda t: t == deref(('fld', deref(val['a']), 'second'))) and value(ps[1], lambda t: t == deref(('fld', deref(val['b']), 'second')))
        else:
            return 'keys are not told apart: %s' % rs
        if not good:
            return 'wrong step for keys that are %s' % rs[0]
        cases.update(rs)
    if cases != {'<', '=', '>'}:
        return 'cases handled: %s' % sorted(cases)
    return None


def optimised(E, o, f, q, cams, trk, lms, ws):
    """None when the correspondences and the result are as they should be"""
    mc = ('pcall', NS + 'camera_map::cameras', deref(cams), ())
    ml = ('pcall', NS + 'landmark_map::landmarks', deref(lms), ())
    mt = ('pcall', NS + 'track_set::tracks', deref(trk), ())
    lps = [e for e in o.events if e[0] == 'loop']
    l1 = [e for e in lps if e[2][0] == 'range' and same(e[2][1], mt)]
    l2 = [e for e in lps if e[2][0] == 'range' and same(e[2][1], mc)]
    if len(l1) != 1 or len(l2) != 1:
        return 'no loop over the tracks and the cameras'
    l1, l2 = l1[0], l2[0]
    if left_early(o, l1[1]) or left_early(o, l2[1]):
        return 'a loop is left early'
    tr = deref(('at', l1[2][1], ('it', l1[1])))
    table = None
    for fs, evs, upd in l1[3]:
        fs = dict(fs)
        has = [v for k, v in fs.items() if k[0] == 'in' and same(k[1], ml) and trackid(k[2], tr)]
        inner = [e for e in evs if e[0] == 'loop']
        if has == [False]:
            if inner or upd:
                return 'a track without landmark is used'
            continue
        if has != [True]:
            return 'the landmark of the track is not looked up'
        if len(inner) != 1:
            return 'the states of the track are not visited'
        i = inner[0]
        if i[2][0] != 'range' or not (unaddr(i[2][1]) == unaddr(tr) or i[2][1] == tr or contains(i[2][1], tr)):
            return 'loop over %s' % show(i[2])[:100]
        if any(e[0] in ('brk', 'iter') and e[1] == i[1] for e in evs):
            return 'the loop over the states is left early'
        el = ('at', i[2][1], ('it', i[1]))
        for fs2, evs2, upd2 in i[3]:
            fs2 = dict(fs2)
            ft = [v for k, v in fs2.items() if k[0] == 'nz' and field(k[1], el, 'feat')]
            cm = [v for k, v in fs2.items() if k[0] == 'in' and same(k[1], mc) and field(k[2], el, 'frame_id')]
            st = [(l, v) for l, v in upd2 if not (l[0] == 'L' and v == ('loopv', i[1], l))]
            if False in ft or False in cm:
                if st:
                    return 'a state without feature or camera is used'
                continue
            if ft != [True] or cm != [True]:
                return 'feature and camera of a state are not checked'
            if len(st) != 1:
                return 'the feature of a state is not recorded once'
            l, v = st[0]
            # table[frame][track] = feature
            if not (l[0] == 'F' and l[2] == 'second' and l[1][0] == 'I' and trackid(l[1][2], tr) and l[1][1][0] == 'F' and l[1][1][2] == 'second' and l[1][1][1][0] == 'I' and
                    field(l[1][1][1][2], el, 'frame_id') and field(v, el, 'feat')):
                return 'recorded as %s := %s' % (show(l), show(v)[:80])
            t = l[1][1][1][1]
            if table not in (None, t):
                return 'two tables'
            table = t
    if table is None or dict(l1[4]).get(table) != ('ilist', ()):
        return 'the table does not start empty'
    tab = ('loopv', l1[1], table)
    el = ('at', l2[2][1], ('it', l2[1]))
    frame = ('fld', el, 'first')
    result = None
    for fs, evs, upd in l2[3]:
        cs = [e for e in evs if e[0] == 'call' and e[1] == q]
        if len(cs) != 1 or len(cs[0][3]) != 3:
            return 'not one optimisation for each camera'
        c, vf, vl = cs[0][3]
        if c != ('fld', el, 'second'):
            return 'optimises %s' % show(c)[:80]
        src = ('fld', ('at', tab, frame), 'second')
        ins = [e for e in evs if e[0] == 'loop']
        if len(ins) != 1 or ins[0][2] != ('range', src):
            return 'the correspondences are not those of the frame: %s' % [show(e[2])[:120] for e in ins]
        i = ins[0]
        if any(e[0] in ('brk', 'iter') and e[1] == i[1] for e in evs):
            return 'the loop over the correspondences is left early'
        x = ('at', src, ('it', i[1]))
        for t, good in ((vf, lambda v: v == ('fld', x, 'second')), (vl, lambda v: islm(v, ml, ('fld', x, 'first')))):
            if t[0] != 'loopv' or t[1] != i[1] or dict(i[4]).get(t[2]) != ('ilist', ()):
                return 'a correspondence list is not emptied for each camera'
            for fs2, evs2, upd2 in i[3]:
                v = dict(upd2).get(t[2], t)
                if not (v[0] == 'mut' and v[1] == 'push_back' and v[2] == t and len(v[3]) == 1 and good(v[3][0])):
                    return 'wrong correspondence: %s' % show(v)[:150]
        st = [(l, v) for l, v in upd if l[0] == 'F' and l[2] == 'second' and l[1][0] == 'I' and l[1][2] == frame]
        if len(st) != 1 or st[0][1] != ('out', 'optimize', 0, cs[0][4]):
            return 'the optimised camera is not recorded under its frame'
        result = st[0][0][1][1]
    if result is None or dict(l2[4]).get(result, ('ilist', ())) != ('ilist', ()):
        return 'no result'
    if len(ws) != 1 or not contains(ws[0][2], ('loopv', l2[1], result)):
        return 'the camera map is not replaced by the result'
    return None


def islm(v, ml, key):
    return v[0] == 'fld' and v[2] == 'second' and v[1][0] == 'at' and same(v[1][1], ml) and v[1][2] == key or v[0] == 'at' and same(v[1], ml) and v[2] == key


def trackid(t, tr):
    return t == ('fld', tr, 'id_') or t[0] in ('call', 'pcall') and last(t[1]) == 'id' and t[2] == tr


def field(t, el, name):
    return t[0] == 'fld' and t[2] == name and (unaddr(t[1]) == el or unaddr(t[1]) == unaddr(el))
