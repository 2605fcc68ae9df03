"""rules about the C interface: errors stay inside, texts are whole, handles stay valid, every function does what it names"""
import re
from base import *
from rules_algo import iscall, callev

CACHE = 'kwiver::vital_c::SharedPointerCache'
DIR = 'vital/bindings/c/'


def api(P):
    """exported functions of the C interface"""
    fs = [f for f in P.funcs.values() if f.get('xc') and f.get('body') is not None and DIR in f['file']]
    if len(fs) < 60:
        raise Broken('only %d functions of the C interface found' % len(fs))
    return sorted(fs, key=lambda f: f['n'])


def iscache(q):
    return strip_targs(q).startswith(CACHE + '::')


def foreign(q, fn, e):
    """what the wrappers call: everything outside the C interface, and the handle caches"""
    if iscache(q):
        return True
    if q == 'vital_string_new':
        return True
    return fn is not None and DIR not in fn['file']


def kind(q):
    """object type of the cache whose method is called"""
    m = re.match(r'%s<([^,]*),' % re.escape(CACHE), q)
    return m.group(1).split('::')[-1] if m else '?'


def can_throw(q, e):
    if e.get('ne') or e.get('xc'):
        return ()
    if q.startswith('kwiver::') or q.startswith('kwiversys::'):
        return ('std::exception', '?other')
    if strip_targs(q).split('::')[-1] in ('at', 'substr', 'stoi', 'stol', 'stod', 'stoul'):
        return ('std::exception',)
    return ()


def plain(t, par):
    """readable form of a term in which parameters are known by position and objects behind pointers by the pointer"""
    def p(x):
        return plain(x, par)
    k = t[0]
    if k == 'par':
        return '$%d' % par.index(t[1]) if t[1] in par else t[1]
    if k in ('deref', 'addrof', 'ref', 'addr') and len(t) == 2 and isinstance(t[1], tuple):
        return p(t[1])
    if k == 'P' and len(t) == 2:
        return p(t[1])
    if k in ('call', 'pcall'):
        q = t[1]
        name = strip_targs(q).split('::')[-1]
        args = ','.join(p(x) for x in t[3])
        m = re.match(r'kwiver::vital::config_block::(\w+)<(.*)>$', q)
        if m:
            name += '<%s>' % ('string' if 'basic_string<char' in m.group(2) else m.group(2))
        if iscache(q):
            return '%s<%s>(%s)' % (name, kind(q), args)
        if t[2] is not None and isinstance(t[2], tuple) and t[2] != ('self',):
            return '%s.%s(%s)' % (p(t[2]), name, args)
        cls = q.split('::')[-2] if '::' in q and not strip_targs(q).startswith('kwiver::vital::' + name) else ''
        m = re.match(r'.*algorithm_def<kwiver::vital::algo::(\w+)>', q)
        if m:
            cls = m.group(1)
        if cls in ('vital', 'std', ''):
            return '%s(%s)' % (name, args)
        return '%s::%s(%s)' % (cls, name, args)
    if k == 'dyncast':
        return 'dyncast<%s>(%s)' % (re.sub(r'.*::(\w+)>?$', r'\1', t[1]), p(t[2]))
    if k == 'newv' or k == 'new':
        ty = [x for x in t[1:] if isinstance(x, str)]
        xs = [x for x in t[1:] if isinstance(x, tuple)]
        args = xs[0] if xs and (not xs[0] or isinstance(xs[0][0], tuple)) else xs
        return 'new %s(%s)' % (ty[0].split('::')[-1] if ty else '?', ','.join(p(x) for x in args))
    if k == 'asc' and len(t) == 2:
        return p(t[1])
    if k == 'c':
        return str(t[1])
    if k == 's':
        return '"%s"' % t[1]
    return show(t)


def caught(o):
    return [e for e in o.flat() if e[0] == 'catch']


def unconst(v):
    """value of a constant result"""
    return v is None or v[0] in ('c', 'null', 'void') or v in (('c', 0), ('c', 1))


# ------------------------------------------------ errors stay inside (B01)
CODES = {       # function: {exception: error code}
    'vital_config_block_file_read': {'config_file_not_found_exception': 1, 'config_file_not_read_exception': 2, 'config_file_not_parsed_exception': 3},
    'vital_config_block_file_read_from_standard_location': {'config_file_not_found_exception': 1, 'config_file_not_read_exception': 2,
                                                            'config_file_not_parsed_exception': 3},
    'vital_config_block_file_write': {'config_file_write_exception': 1},
}
COPY = ('strcpy', 'memcpy', 'memmove', 'strncpy')


def texts(E, o):
    """[(buffer term, text, room ok, line)] for the strings copied into allocated buffers on the path"""
    out = []
    for e in o.flat():
        if e[0] != 'call' or strip_targs(e[1]).split('::')[-1] not in COPY or len(e[3]) < 2:
            continue
        name = strip_targs(e[1]).split('::')[-1]
        dst, src = e[3][0], e[3][1]
        if iscall(dst, 'malloc') or iscall(dst, 'calloc'):
            room = dst[3][0] if len(dst[3]) == 1 else E.binop('*', dst[3][0], dst[3][1])
            need = E.binop('+', length(E, src), C(1))
            cnt = e[3][2] if name in ('memcpy', 'memmove', 'strncpy') and len(e[3]) > 2 else None
            ended = any(w[0] == 'write' and w[1] == ('I', ('P', dst), length(E, src)) and w[2] == C(0) for w in o.flat())
            out.append((dst, src, E.norm(room) == E.norm(need), e[5], cnt, room, ended))
    for e in o.flat():
        if e[0] == 'call' and e[1] in ('strdup',):
            out.append((e[4], e[3][0], True, e[5], None, None, True))
    return out


def length(E, s):
    """number of characters of the text"""
    if s[0] in ('s', 'cat', 'cstr'):
        return ('pcall', 'strlen', None, (s,), 'unsigned long')
    return E.sizeterm(s) if s[0] not in ('par', 'asc') else ('pcall', 'strlen', None, (s,), 'unsigned long')


def same_len(E, n, s):
    """n is the length of the text s"""
    return n == E.sizeterm(s) or n == ('pcall', 'strlen', None, (s,), 'unsigned long') or (n[0] == 'pcall' and n[1] in ('strlen', 'std::strlen') and n[3] == (s,))


def check_errors(P, R):
    R.rule('every path of every exported function of the C interface on which something it calls raises an exception (any type) ends in a plain return '
           'with the failure value; with an error handle the code becomes non-zero and the message a complete, terminated copy of a text that '
           'contains what() of the exception; a NULL handle is never written through')
    for f in api(P):
        R.functions.add('%s (%s:%s)' % (f['q'], rel(f['file']), f['l']))
        eh = [p['n'] for p in f['p'] if 'error_handle' in p['t']]
        codes = CODES.get(f['n'], {})

        def thr(q, e, _c=codes):
            ts = can_throw(q, e)
            if ts and _c and not iscache(q):
                ts = tuple(ts) + tuple('kwiver::vital::' + x for x in _c)
            return ts
        E = Engine(P, opaque=foreign, throws=thr)
        outs = E.run(f)
        R.paths += len(outs)
        fid = 'C:err:%s' % f['n'].replace('vital_', '', 1)
        esc = [o for o in outs if o.kind == 'throw' and not str(o.val[0]).startswith('noreturn')]
        R.ob(fid + ':escape', not esc, 'no exception leaves the function', where(f), '; '.join(sorted({o.val[0] for o in esc}))[:200])
        if f['n'] == 'vital_eh_destroy':
            continue
        for o in outs:
            ev = caught(o)
            if o.kind == 'throw':
                continue
            unsafe = [e for e in o.flat() if e[0] == 'write' and eh and on_handle(e[1], eh[0])]
            if eh and unsafe:
                R.ob(fid + ':null', E.truth(o.st, ('nz', ('par', eh[0]))) is True, 'the error handle is written only when there is one', where(f, unsafe[0][3]),
                     o.describe()[:200])
            if not ev:
                bad = [e for e in unsafe]
                R.ob(fid + ':quiet', not bad, 'the error handle is left alone when nothing fails', where(f), o.describe()[:160])
                continue
            exc = ev[-1][1]
            R.sites += 1
            if f['rt'] != 'void':
                R.ob(fid + ':value', o.val is not None and o.val[0] in ('c', 'null') or static_of(o.val), 'a failed call returns the failure value',
                     where(f, ev[-1][3]), 'returns %s' % (show(o.val)[:80] if o.val else None))
                if o.val and o.val[0] == 'c' and f['n'] != 'vital_track_empty':
                    R.ob(fid + ':value0', o.val[1] == 0, 'the failure value is null, zero or false', where(f, ev[-1][3]), show(o.val))
            if not eh:
                continue
            has = E.truth(o.st, ('nz', ('par', eh[0])))
            if has is False:
                continue
            code = last_write(o, eh[0], 'error_code')
            msg = last_write(o, eh[0], 'message')
            short = exc.split('::')[-1]
            want = codes.get(short)
            ok = code is not None and code[0] == 'c' and code[1] != 0 and (want is None or code[1] == want)
            R.ob(fid + ':code', ok, 'the error handle receives %s' % ('code %d for %s' % (want, short) if want else 'a non-zero error code'),
                 where(f, ev[-1][3]), 'after %s: %s' % (short, show(code) if code else None))
            copies = [t for t in texts(E, o) if t[0] == msg]
            R.ob(fid + ':message', msg is not None and len(copies) == 1 and full(E, copies[0]),
                 'the message is a terminated copy in a buffer of its length plus one', where(f, ev[-1][3]),
                 'message %s' % (show(msg)[:120] if msg else None))
            if exc != '?other' and copies:
                src = copies[0][1]
                whole = any(iswhat(t) for t in subterms(src)) or exc in ('char', 'const char *') or (ev[-1][2] == '...')
                R.ob(fid + ':what', whole, 'the message contains the text of the exception', where(f, ev[-1][3]), show(src)[:120])


def iswhat(t):
    return bool(t) and ((t[0] in ('call', 'pcall') and strip_targs(t[1]).split('::')[-1] == 'what') or (t[0] == 'fld' and t[2] == 'm_what') or t[0] == 'exc'
                        or t[0] == 'ctorv' or t[0] == 'obj')


def full(E, c):
    """the whole text and its terminator are copied into a buffer of exactly their size"""
    def whole(n, ended=False):
        if E.norm(n) == E.norm(E.binop('+', length(E, src), C(1))):
            return True
        if ended and (E.norm(n) == E.norm(length(E, src)) or same_len(E, n, src)):
            return True
        return n[0] == 'op' and n[1] == '+' and n[3] == ('c', 1) and same_len(E, n[2], src)
    dst, src, ok, _l, cnt, room, ended = c
    return (ok or room is not None and whole(room)) and (cnt is None or whole(cnt, ended))


def static_of(v):
    return v is not None and v[0] in ('gv', 'G', 'glob')


def on_handle(loc, eh):
    while loc and loc[0] in ('F', 'I'):
        loc = loc[1]
    return loc == ('P', ('par', eh))


def last_write(o, eh, field):
    v = None
    for e in o.flat():
        if e[0] == 'write' and e[1][0] == 'F' and e[1][2] == field and e[1][1] == ('P', ('par', eh)):
            v = e[2]
    return v


# ------------------------------------------------ texts and memory handed to C (B02)
def runs(P, name, **kw):
    f = P.one(name)
    E = Engine(P, **kw)
    outs = E.run(f)
    return f, E, outs


def frees(o, t):
    return [i for i, e in enumerate(o.flat()) if e[0] == 'call' and strip_targs(e[1]).split('::')[-1] == 'free' and e[3] and bare(e[3][0]) == t]


def bare(t):
    return t


def fldval(obj, name):
    return ('fld', ('deref', obj), name)


def bytes_of(E, room):
    """(count term, element size) of an allocation"""
    if room[0] == 'op' and room[1] == '*' and room[3][0] == 'c':
        return room[2], room[3][1]
    if room[0] == 'op' and room[1] == '*' and room[2][0] == 'c':
        return room[3], room[2][1]
    return room, 1


def alloc_bytes(E, t):
    if iscall(t, 'malloc', 1):
        return t[3][0]
    if iscall(t, 'calloc', 2):
        return E.binop('*', t[3][0], t[3][1])
    return None


def check_texts(P, R):
    R.rule('a text handed to C sits in a buffer of its length plus one that is filled completely and terminated, its length is recorded; a list has one '
           'such text per element and its length; the free functions release every part exactly once, parts before the whole')
    # vital_string_new
    f, E, outs = runs(P, 'vital_string_new')
    R.saw(f, outs)
    n, s = [p['n'] for p in f['p']]
    N, S = ('par', n), ('par', s)
    for o in outs:
        st = o.st
        obj = o.val
        R.ob('C:text:string:alloc', obj is not None and alloc_bytes(E, obj) is not None or (obj and obj[0] in ('new', 'newv')), 'a string structure is allocated and returned',
             where(f), show(obj)[:80] if obj else '')
        ln = E.read(st, ('F', ('P', obj), 'length'))
        R.ob('C:text:string:length', ln == N, 'the recorded length is the length given', where(f), show(ln)[:80])
        buf = E.read(st, ('F', ('P', obj), 'str'))
        room = alloc_bytes(E, buf)
        R.ob('C:text:string:room', room is not None and E.norm(room) == E.norm(E.binop('+', N, C(1))), 'the buffer holds the text and a terminator', where(f),
             show(room)[:80] if room else show(buf)[:80])
        zero = iscall(buf, 'calloc', 2) or any(e[0] == 'write' and e[1] == ('I', ('P', buf), N) and e[2] == ('c', 0) for e in o.flat()) or \
            any(e[0] == 'call' and strip_targs(e[1]).split('::')[-1] == 'memset' and e[3][0] == buf and e[3][1] == ('c', 0) and
                E.norm(e[3][2]) in (E.norm(room or ('c', 0)), E.norm(N)) for e in o.flat()) and True
        if not zero and N == ('c', 0):
            zero = True
        alt = E.truth(st, ('nz', N)) is False and any(e[0] == 'write' and e[1][0] in ('I', 'P') and contains(e[1], buf) and e[2] == ('c', 0) for e in o.flat())
        R.ob('C:text:string:end', zero or alt, 'the text is terminated', where(f), o.describe()[:120])
        late = [i for i, e in enumerate(o.flat()) if e[0] == 'write' and e[1] == ('I', ('P', buf), N)]
        has = E.truth(st, ('nz', S)) is not False and E.truth(st, ('nz', N)) is not False
        cps = [e for e in o.flat() if e[0] == 'call' and strip_targs(e[1]).split('::')[-1] in COPY and e[3][0] == buf]
        cps2 = [e for e in o.flat() if e[0] == 'call' and strip_targs(e[1]).split('::')[-1] in ('copy', 'copy_n') and buf in e[3]]
        if has:
            good = len(cps) == 1 and cps[0][3][1] == S and (len(cps[0][3]) == 3 and E.norm(cps[0][3][2]) == E.norm(N)) or \
                len(cps2) == 1 and S in cps2[0][3]
            R.ob('C:text:string:copy', good, 'all characters of the text are copied', where(f), '; '.join(show(e[4])[:100] for e in cps + cps2))
        else:
            R.ob('C:text:string:copy', not cps and not cps2, 'nothing is copied when there is no text', where(f), '; '.join(show(e[4])[:100] for e in cps))
    # lists
    f, E, outs = runs(P, 'kwiver::vital_c::make_string_list')
    R.saw(f, outs)
    lst, ln, out = [p['n'] for p in f['p']]
    L = ('deref', ('ref', lst))
    for o in outs:
        if o.kind == 'throw':
            continue
        size = ('size', L)
        v = E.read(o.st, ('P', ('ref', ln)))
        R.ob('C:text:list:length', v == size, 'the length is the number of texts', where(f), show(v)[:80])
        arr = E.read(o.st, ('P', ('ref', out)))
        room = alloc_bytes(E, arr) if arr else None
        cnt, unit = bytes_of(E, room) if room else (None, 0)
        R.ob('C:text:list:room', room is not None and cnt == size and unit == 8, 'the list has room for every text', where(f), show(room)[:80] if room else '')
        lps = [e for e in o.flat() if e[0] == 'loop']
        okl = [e for e in lps if (e[2] == ('range', L) or e[2][0] == 'count' and e[2][1:] == (('c', 0), size)) and not left_early(o, e[1])]
        R.ob('C:text:list:all', len(okl) == 1, 'every text of the list is copied', where(f), '; '.join(show(e[2])[:80] for e in lps))
        for lp in okl:
            for fa, evs, upd in lp[3]:
                el = ('at', L, ('it', lp[1]))
                ws = [e for e in evs if e[0] == 'write' and e[1][0] == 'I' and e[1][1] == ('P', arr)]
                good = len(ws) == 1 and ws[0][1][2] == ('it', lp[1])
                R.ob('C:text:list:slot', good, 'each text goes to its own place in the list', where(f, lp[4] if isinstance(lp[4], int) else None),
                     '; '.join(show(w[1])[:80] for w in ws))
                if not good:
                    continue
                buf = ws[0][2]
                cps = [e for e in evs if e[0] == 'call' and strip_targs(e[1]).split('::')[-1] in COPY + ('strdup',)]
                cps = [e for e in cps if e[3][0] == buf or e[4] == buf]
                r = alloc_bytes(E, buf)
                if buf[0] == 'call' and buf[1] == 'strdup':
                    R.ob('C:text:list:text', buf[3][0] == el, 'each text is copied', where(f), show(buf)[:100])
                    continue
                R.ob('C:text:list:bytes', r is not None and E.norm(r) == E.norm(E.binop('+', E.sizeterm(el), C(1))),
                     'each text has a buffer of its length plus one', where(f, ws[0][3]), show(r)[:100] if r else show(buf)[:100])
                okc = len(cps) == 1 and cps[0][3][1] == el and (len(cps[0][3]) == 2 or E.norm(cps[0][3][2]) == E.norm(r))
                R.ob('C:text:list:text', okc, 'each text is copied with its terminator', where(f, ws[0][3]), '; '.join(show(e[4])[:120] for e in cps))
    # releasing
    f, E, outs = runs(P, 'vital_string_free')
    R.saw(f, outs)
    s = ('par', f['p'][0]['n'])
    for o in outs:
        if E.truth(o.st, ('nz', s)) is False:
            R.ob('C:free:string', not callev(o.flat(), 'free'), 'nothing is released for a null string', where(f))
            continue
        a, b = frees(o, fldval(s, 'str')), frees(o, s)
        R.ob('C:free:string', len(b) == 1 and (len(a) == 1 and a < b or E.truth(o.st, ('nz', fldval(s, 'str'))) is False),
             'the characters and then the structure are released, once each', where(f), o.describe()[:100])
    for name, i, j in (('vital_common_free_string_list', 0, 1), ('vital_free_double_pointer', 0, 1)):
        f, E, outs = runs(P, name)
        R.saw(f, outs)
        n, ks = ('par', f['p'][i]['n']), ('par', f['p'][j]['n'])
        for o in outs:
            if E.truth(o.st, ('nz', ks)) is False:
                R.ob('C:free:%s:null' % name, not [e for e in o.flat() if e[0] == 'call'], 'nothing is released for a null list', where(f))
                continue
            lps = [e for e in o.events if e[0] == 'loop']
            okl = [e for e in lps if (e[2] == ('count', ('c', 0), n) or e[2][0] == 'count' and e[2][2] == n and e[2][1] == ('c', 0)) and not left_early(o, e[1])]
            R.ob('C:free:%s:all' % name, len(lps) == 1 and len(okl) == 1, 'every element is visited', where(f), '; '.join(show(e[2])[:80] for e in lps))
            last = [k for k, e in enumerate(o.events) if e[0] == 'call' and e[1].split('::')[-1] == 'free' and e[3][0] == ks]
            R.ob('C:free:%s:list' % name, len(last) == 1 and all(o.events.index(e) < last[0] for e in lps), 'the list itself is released once, after its elements', where(f))
            for lp in okl:
                for fa, evs, upd in lp[3]:
                    el = ('at', ('deref', ks), ('it', lp[1]))
                    fr = [e for e in evs if e[0] == 'call' and e[1].split('::')[-1] == 'free']
                    null = dict(fa).get(('nz', el)) is False
                    R.ob('C:free:%s:each' % name, null and not fr or len(fr) == 1 and fr[0][3][0] == el, 'each element is released once', where(f),
                         '; '.join(show(e[4])[:80] for e in fr))
    f, E, outs = runs(P, 'vital_free_pointer')
    R.saw(f, outs)
    p = ('par', f['p'][0]['n'])
    for o in outs:
        R.ob('C:free:pointer', len(frees(o, p)) == (0 if E.truth(o.st, ('nz', p)) is False else 1) or len(frees(o, p)) == 1, 'the memory is released once', where(f))
    # error handles
    f, E, outs = runs(P, 'vital_eh_new')
    R.saw(f, outs)
    for o in outs:
        for k in ('error_code', 'message'):
            v = E.read(o.st, ('F', ('P', o.val), k))
            ok = v in (('c', 0), ('null',)) or iscall(o.val, 'calloc')
            R.ob('C:eh:new:' + k, ok, 'a new error handle is empty', where(f), show(v)[:60])
    f, E, outs = runs(P, 'vital_eh_destroy')
    R.saw(f, outs)
    p = ('par', f['p'][0]['n'])
    for o in outs:
        if E.truth(o.st, ('nz', p)) is False:
            R.ob('C:eh:destroy', not frees(o, p), 'a null handle is left alone', where(f))
            continue
        a, b = frees(o, fldval(p, 'message')), frees(o, p)
        R.ob('C:eh:destroy', len(b) == 1 and (len(a) == 1 and a < b or not a and E.truth(o.st, ('nz', fldval(p, 'message'))) is False),
             'the message and then the handle are released, once each', where(f), o.describe()[:100])
    # every other place that copies text into allocated memory
    for f in api(P):
        E = Engine(P, opaque=lambda q, fn, e: foreign(q, fn, e) or 'make_string_list' in q)
        for o in E.run(f):
            for c in texts(E, o):
                if f['n'] in ('vital_string_new',):
                    continue
                R.ob('C:text:copy:%s' % f['n'], full(E, c), 'a text is copied into a buffer of its length plus one', where(f, c[3]), show(c[0])[:100])


# ------------------------------------------------ handles (B03)
def cache_classes(P):
    qs = sorted({f['q'].rsplit('::', 1)[0] for f in P.funcs.values() if f['q'].startswith(CACHE + '<') and f.get('body') is not None})
    if len(qs) < 5:
        raise Broken('only %d handle caches found' % len(qs))
    return [q for q in qs if q.endswith('>')]


def members(E, P, cls):
    c = P.klass(CACHE)
    fs = [x['n'] for x in c['fields'] if 'map<' in x['t']]
    ptr = [x['n'] for x in c['fields'] if 'map<' in x['t'] and 'shared_ptr' in x['t']]
    cnt = [n for n in fs if n not in ptr]
    if len(ptr) != 1 or len(cnt) != 1:
        raise Broken('fields of the handle cache: %s' % fs)
    return ptr[0], cnt[0]


def check_cache(P, R, cls):
    k = kind(cls + '::')
    obj, cnt = members(None, P, cls)
    for m in ('store', 'get', 'erase'):
        fs = [f for f in P.by_q.get(cls + '::' + m, []) if f.get('body') is not None]
        if not fs:
            if m == 'store' or not P.by_q.get(cls + '::' + m):
                continue        # this kind of handle is never used that way
        for f in fs:
            E = Engine(P)
            outs = E.run(f)
            R.saw(f, outs)
            p = ('par', f['p'][0]['n'])
            if f['p'][0]['t'].strip().endswith('&'):
                p = ('deref', ('ref', f['p'][0]['n']))
            oid = 'C:cache:%s' % m
            cmap, nmap = ('fld', ('deref', ('this',)), obj), ('fld', ('deref', ('this',)), cnt)
            cmap = E.read(St(), TF(obj))
            nmap = E.read(St(), TF(cnt))
            for o in outs:
                mu = mutations(o)
                W = where(f)
                null = E.truth(o.st, ('nz', p)) is False
                if null:
                    R.ob(oid + ':null', o.kind == 'throw' and not mu, 'a null pointer is refused', W, o.describe()[:160])
                    continue
                inn = E.truth(o.st, ('in', cmap, p))
                if inn is None:
                    inn = E.truth(o.st, ('in', nmap, p))
                if inn is None:
                    R.ob(oid + ':looked', False, 'the handle is looked up', W, o.describe()[:160])
                    continue
                if m == 'get':
                    if inn:
                        R.ob('C:cache:get:found', o.kind == 'ret' and plainat(o.val) == (cmap, p) and not mu, 'a known handle gives the object stored for it', W,
                             show(o.val)[:80] if o.kind == 'ret' else 'throws')
                    else:
                        R.ob('C:cache:get:unknown', o.kind == 'throw' and not mu, 'an unknown handle is refused', W, o.describe()[:160])
                    continue
                if o.kind != 'ret':
                    R.ob(oid + ':throws', False, 'the call succeeds for an object', W, o.describe()[:160])
                    continue
                old = cur(nmap, p)
                puts = {(x[0], x[2]): x[3] for x in mu if x[1] in ('put', 'put?')}
                dels = {(x[0], x[2]) for x in mu if x[1] == 'del'}
                odd = [x for x in mu if x[1] not in ('put', 'put?', 'del') or x[2] != p or x[0] not in (obj, cnt)]
                R.ob(oid + ':other', not odd, 'nothing but the entry of this object changes', W, str([(x[0], x[1]) for x in odd])[:120])
                if m == 'store':
                    if inn:
                        n = puts.get((cnt, p))
                        R.ob('C:cache:store:again', isinc(E, n, old, 1) and not dels and puts.get((obj, p)) in (None, p), 'storing an object again counts one more user', W,
                             show(n)[:100] if n else 'count unchanged')
                    else:
                        n = puts.get((cnt, p))
                        R.ob('C:cache:store:new', puts.get((obj, p)) == p and n in (('c', 1),) and not dels, 'a new object is kept with one user', W,
                             '%s / %s' % (show(puts[(obj, p)])[:60] if (obj, p) in puts else None, show(n)[:60] if n else None))
                if m == 'erase':
                    if not inn:
                        R.ob('C:cache:erase:unknown', not mu, 'nothing changes for an unknown handle', W, o.describe()[:160])
                        continue
                    left = leftover(E, o, old)
                    gone = (obj, p) in dels
                    if left is None:
                        R.ob('C:cache:erase:counted', False, 'the number of users decides whether the object is let go', W, o.describe()[:160])
                        continue
                    if left:
                        R.ob('C:cache:erase:kept', not dels and isinc(E, puts.get((cnt, p)), old, -1), 'with users left the object stays and has one user less', W, o.describe()[:200])
                    else:
                        R.ob('C:cache:erase:last', gone and (cnt, p) in dels, 'without users left object and count are removed', W, o.describe()[:200])


def plainat(v):
    """(container, key) of the value found in a map"""
    if v is None:
        return None
    if v[0] == 'fld' and v[2] == 'second':
        v = v[1]
    if v[0] == 'at':
        return v[1], v[2]
    return None


def cur(m, k):
    return (m, k)


def isinc(E, v, old, d):
    if v is None or v[0] != 'op' or v[1] not in ('+', '-') or v[3] != ('c', 1):
        return False
    return plainat(v[2]) == old and (v[1] == '+') == (d > 0)


def leftover(E, o, old):
    """users remain after this one is gone: decided by the facts on the path"""
    for k, v in o.facts.items():
        terms = [t for t in subterms(k) if isinstance(t, tuple) and t and plainat(t) == old]
        if not terms:
            continue
        t = max(terms, key=lambda x: len(repr(x)))
        # what do the facts say for 1, 2, 3 users before the call?
        poss = [n for n in (1, 2, 3) if cval(k, {t: n}) is not None and bool(cval(k, {t: n})) == v]
        if poss == [1]:
            return False
        if poss == [2, 3]:
            return True
    return None


STORES = ('store',)


def check_handles(P, R):
    R.rule('the handle cache counts stores and releases of each object, keeps it as long as users remain, and refuses null and unknown handles; every '
           'exported function that returns a handle to a shared object has stored exactly that object in every cache of its kind, and every destroy '
           'function releases its argument once from each of them')
    for cls in cache_classes(P):
        check_cache(P, R, cls)
    for name, (want, eff) in sorted(specs(P).items()):
        if not any(x.startswith(('store<', 'erase<')) for x in eff):
            continue
        f = here(P, name)
        if f is None:
            continue
        for o, got, E, par in normal(P, f):
            st = [x for x in got if re.match(r'(store|erase)<', x)]
            w, e, skip = expand(f, o, E, want, eff, par)
            if skip or nullresult(E, o, w, par) and not st:
                continue
            exp = [x for x in e if re.match(r'(store|erase)<', x)]
            R.sites += len(exp)
            R.functions.add('%s (%s:%s)' % (f['q'], rel(f['file']), f['l']))
            R.ob('C:handle:%s' % name, sorted(st) == sorted(exp), 'handles stored and released: %s' % (', '.join(exp) or 'none'), where(f), ', '.join(st)[:300])
    swap_handles(P, R)


def algos(P):
    out = sorted({m.group(1) for f in P.funcs.values() for m in [re.match(r'vital_algorithm_(\w+)_create$', f['n'] or '')] if m and f.get('xc')})
    if not out:
        raise Broken('no algorithm wrappers found')
    return out


def swap_handles(P, R):
    """setting up an algorithm may replace the object behind the handle"""
    for t in algos(P):
        name = 'vital_algorithm_%s_set_type_config' % t
        f = P.one(name)
        par = [p['n'] for p in f['p']]
        E = Engine(P, opaque=foreign)
        slot = ('P', ('par', par[2]))
        for o in E.run(f):
            if caught(o) or o.kind == 'throw':
                continue
            cs = [e for e in o.flat() if e[0] == 'call' and strip_targs(e[1]).endswith('::set_nested_algo_configuration')]
            R.ob('C:swap:call:%s' % t, len(cs) == 1, 'the algorithm is set up once', where(f))
            if len(cs) != 1:
                continue
            before = cs[0][3][2]
            after = E.read(o.st, ('L', None, None)) if False else ('out', 'set_nested_algo_configuration', 2, cs[0][4])
            had = E.truth(o.st, ('nz', ('deref', ('par', par[2]))))
            ok = (had is True and plain(before, par) == 'get<%s>($2)' % t) or (had is False and before in (('c', 0), ('null',)))
            R.ob('C:swap:object:%s' % t, ok, 'it starts from the object behind the handle, or from none', where(f), plain(before, par)[:80])
            same = E.truth(o.st, ('op', '==', before, after))
            if same is None:
                same = E.truth(o.st, ('op', '==', after, before))
            if same is None and had is False:
                nz = E.truth(o.st, ('nz', after))
                same = None if nz is None else not nz
            st = sorted(cachekind(e) for e in o.flat() if e[0] == 'call' and iscache(e[1]) and strip_targs(e[1]).endswith('::store') and e[3][0] == after)
            er = sorted(cachekind(e) for e in o.flat() if e[0] == 'call' and iscache(e[1]) and strip_targs(e[1]).endswith('::erase') and
                        (e[3][0] == before or e[3][0] == ('deref', ('par', par[2]))))
            every = [e for e in o.flat() if e[0] == 'call' and iscache(e[1]) and not strip_targs(e[1]).endswith('::get')]
            wr = [e for e in o.flat() if e[0] == 'write' and e[1] == slot]
            both = sorted(['algorithm', t])
            if same is None:
                R.ob('C:swap:compare:%s' % t, False, 'whether the object was replaced is determined', where(f), o.describe()[:200])
            elif same:
                R.ob('C:swap:same:%s' % t, not every and not wr or sorted(st) == sorted(er) and not wr, 'the same object keeps its handle', where(f), o.describe()[:200])
            else:
                drop = had is True and E.truth(o.st, ('nz', before)) is not False
                R.ob('C:swap:store:%s' % t, st == both and len(wr) == 1 and wr[0][2] == after, 'a new object is stored in both caches and its handle returned', where(f),
                     'stored in %s' % st)
                R.ob('C:swap:erase:%s' % t, er == (both if drop else []) and len(every) == len(st) + len(er), 'the replaced object is released from both caches', where(f),
                     'released from %s' % er)


def cachekind(e):
    return kind(e[1])


# ------------------------------------------------ the C++ operation behind each function (B04)
def getters(t, names, cache=None):
    g = 'get<%s>($0)' % cache if cache else '$0'
    return {'%s_%s' % (t, n): ('%s.%s()' % (g, n), ()) for n in names}


SPEC = {
    'vital_camera_destroy': ('void', ('erase<camera>($0)',)),
    'vital_camera_read_krtd_file': ('read_krtd_file($0)', ('store<camera>(R)',)),
    'vital_camera_write_krtd_file': ('void', ('write_krtd_file(get<camera>($0),$1)',)),
    'vital_camera_map_destroy': ('void', ('erase<camera_map>($0)',)),
    'vital_camera_map_size': ('get<camera_map>($0).size()', ()),
    'vital_config_block_block_sep': ('STRING(config_block::block_sep)', ()),
    'vital_config_block_global_value': ('STRING(config_block::global_value)', ()),
    'vital_config_block_new': ('config_block::empty_config("")', ('store<config_block>(R)',)),
    'vital_config_block_new_named': ('config_block::empty_config($0)', ('store<config_block>(R)',)),
    'vital_config_block_destroy': ('void', ('erase<config_block>($0)',)),
    'vital_config_block_get_name': ('STRING(get<config_block>($0).get_name())', ()),
    'vital_config_block_subblock': ('get<config_block>($0).subblock($1)', ('store<config_block>(R)',)),
    'vital_config_block_subblock_view': ('get<config_block>($0).subblock_view($1)', ('store<config_block>(R)',)),
    'vital_config_block_get_value': ('STRING(get<config_block>($0).get_value<string>($1))', ()),
    'vital_config_block_get_value_bool': ('get<config_block>($0).get_value<bool>($1)', ()),
    'vital_config_block_get_value_default': ('STRING(get<config_block>($0).get_value<string>($1,$2))', ()),
    'vital_config_block_get_value_default_bool': ('get<config_block>($0).get_value<bool>($1,$2)', ()),
    'vital_config_block_get_description': ('STRING(get<config_block>($0).get_description($1))', ()),
    'vital_config_block_set_value': ('void', ('get<config_block>($0).set_value<string>($1,$2)',)),
    'vital_config_block_set_value_descr': ('void', ('get<config_block>($0).set_value<string>($1,$2,$3)',)),
    'vital_config_block_unset_value': ('void', ('get<config_block>($0).unset_value($1)',)),
    'vital_config_block_is_read_only': ('get<config_block>($0).is_read_only($1)', ()),
    'vital_config_block_mark_read_only': ('void', ('get<config_block>($0).mark_read_only($1)',)),
    'vital_config_block_merge_config': ('void', ('get<config_block>($0).merge_config(get<config_block>($1))',)),
    'vital_config_block_has_value': ('get<config_block>($0).has_value($1)', ()),
    'vital_config_block_available_values': ('void', ('LIST(get<config_block>($0).available_values(),$1,$2)',)),
    'vital_config_block_file_read': ('read_config_file($0,ilist(()))', ('store<config_block>(R)',)),
    'vital_config_block_file_read_from_standard_location': ('read_config_file($0,$1?,$2?,$3?,$4)', ('store<config_block>(R)',)),
    'vital_config_block_file_write': ('void', ('write_config_file(get<config_block>($0),$1)',)),
    'vital_apm_register_plugins': ('void', ('algorithm_plugin_manager::instance().register_plugins("")',)),
    'vital_apm_register_single_plugin': ('void', ('algorithm_plugin_manager::instance().register_plugins($0)',)),
    'vital_apm_add_search_path': ('void', ('algorithm_plugin_manager::instance().add_search_path($0)',)),
    'vital_apm_registered_module_names': ('void', ('LIST(algorithm_plugin_manager::instance().registered_module_names(),$0,$1)',)),
    'vital_image_new': ('new image()', ()),
    'vital_image_new_with_dim': ('new image($0,$1,$2,$3)', ()),
    'vital_image_new_from_image': ('new image($0)', ()),
    'vital_image_destroy': ('void', ('delete $0',)),
    'vital_image_get_pixel2': ('$0.operator()($1,$2)', ()),
    'vital_image_get_pixel3': ('$0.operator()($1,$2,$3)', ()),
    'vital_image_container_new_simple': ('new simple_image_container($0)', ('store<image_container>(R)',)),
    'vital_image_container_destroy': ('void', ('erase<image_container>($0)',)),
    'vital_image_container_get_image': ('new image(get<image_container>($0).get_image())', ()),
    'vital_image_container_from_sptr': ('$0', ('store<image_container>(R)',)),
    'vital_image_container_to_sptr': ('get<image_container>($0)', ()),
    'vital_track_new': ('new track()', ('store<track>(R)',)),
    'vital_track_destroy': ('void', ('erase<track>($0)',)),
    'vital_trackset_from_sptr': ('$0', ('store<track_set>(R)',)),
    'vital_trackset_new_from_file': ('read_track_file($0)', ('store<track_set>(R)',)),
    'vital_trackset_destroy': ('void', ('erase<track_set>($0)',)),
    'vital_trackset_write_track_file': ('void', ('write_track_file(get<track_set>($0),$1)',)),
    'vital_trackset_size': ('get<track_set>($0).size()', ()),
    'vital_algorithm_image_io_load': ('get<image_io>($0).load($1)', ('store<image_container>(R)',)),
    'vital_algorithm_image_io_save': ('void', ('get<image_io>($0).save($1,get<image_container>($2))',)),
    'vital_algorithm_convert_image_convert': ('get<convert_image>($0).convert(get<image_container>($1))', ('store<image_container>(R)',)),
    'vital_algorithm_track_features_track':
        ('get<track_features>($0).track(get<track_set>($1),$2,get<image_container>($3),0)', ('store<track_set>(R)',)),
    'vital_algorithm_track_features_track_with_mask':
        ('get<track_features>($0).track(get<track_set>($1),$2,get<image_container>($3),get<image_container>($4))', ('store<track_set>(R)',)),
    'vital_algorithm_type_name': ('STRING(get<algorithm>($0).type_name())', ()),
    'vital_algorithm_impl_name': ('STRING(get<algorithm>($0).impl_name())', ()),
    'vital_algorithm_get_impl_configuration': ('get<algorithm>($0).get_configuration()', ('store<config_block>(R)',)),
    'vital_algorithm_set_impl_configuration': ('void', ('get<algorithm>($0).set_configuration(get<config_block>($1))',)),
    'vital_algorithm_check_impl_configuration': ('get<algorithm>($0).check_configuration(get<config_block>($1))', ()),
}
SPEC.update({'vital_' + k: v for k, v in getters('image', ('size', 'first_pixel', 'width', 'height', 'depth', 'w_step', 'h_step', 'd_step')).items()})
SPEC.update({'vital_' + k: v for k, v in getters('image_container', ('size', 'width', 'height', 'depth'), 'image_container').items()})
SPEC.update({'vital_' + k: v for k, v in getters('track', ('size', 'empty'), 'track').items()})
SPEC.update({'vital_trackset_size': ('get<track_set>($0).size()', ())})


def specs(P):
    s = dict(SPEC)
    for t in algos(P):
        a = 'vital_algorithm_%s_' % t
        s[a + 'create'] = ('%s::create($0)' % t, ('store<algorithm>(R)', 'store<%s>(R)' % t))
        s[a + 'destroy'] = ('void', ('erase<algorithm>($0)', 'erase<%s>($0)' % t))
        s[a + 'registered_names'] = ('void', ('LIST(%s::registered_names(),$0,$1)' % t,))
        s[a + 'check_type_config'] = ('%s::check_nested_algo_configuration($0,get<config_block>($1))' % t, ())
        s[a + 'clone'] = ('dyncast<%s>(get<%s>($0).clone())' % (t, t), ('store<algorithm>(R)', 'store<%s>(R)' % t))
        s[a + 'get_type_config'] = ('void', ('%s::get_nested_algo_configuration($0,get<config_block>($2),get<%s>($1)!)' % (t, t),))
    return s


def normal(P, f):
    """paths without failure: (path, calls with an effect in readable form, engine, parameter names)"""
    par = [p['n'] for p in f['p']]
    E = Engine(P, opaque=lambda q, fn, e: foreign(q, fn, e) or 'make_string_list' in q)
    E.typed = lambda q: strip_targs(q).endswith(('config_block::get_value', 'config_block::set_value'))
    for o in E.run(f):
        if caught(o) or o.kind == 'throw':
            continue
        got = []
        for e in o.flat():
            if e[0] == 'call' and not (iscache(e[1]) and strip_targs(e[1]).endswith('::get')):
                if strip_targs(e[1]).split('::')[-1] == 'make_string_list':
                    got.append('LIST(%s,%s,%s)' % tuple(plain(x, par) for x in e[3]))
                else:
                    got.append(plain(e[4], par))
            elif e[0] == 'delete':
                got.append('delete ' + plain(e[1], par))
        yield o, got, E, par


def expand(f, o, E, want, eff, par):
    """the specification on this path: result, effects, and whether the path is excused by a null argument"""
    def opt(s):
        def one(m):
            v = E.truth(o.st, ('nz', ('par', par[int(m.group(1))])))
            return '""' if v is False else '$' + m.group(1) if v is True else '?unchecked'
        s = re.sub(r'\$(\d)\?', one, s)

        def handle(m):
            v = E.truth(o.st, ('nz', ('par', par[int(m.group(2))])))
            return '0' if v is False else m.group(0)[:-1]
        return re.sub(r'get<(\w+)>\(\$(\d)\)!', handle, s)
    w = opt(want)
    e = [opt(x).replace('(R)', '(%s)' % w) for x in eff]
    soft = '?' in want or any('!' in x for x in eff)
    null = [i for i, p in enumerate(par) if E.truth(o.st, ('nz', ('par', p))) is False and f['p'][i]['tc'] == 'ptr']
    const = o.val is None or o.val[0] in ('c', 'null', 'void') or show(o.val) == 'void'
    skip = bool(null) and not soft and const
    return w, e, skip


def stringform(v, par):
    """vital_string_new(size(x), x) -> STRING(x)"""
    if v is not None and v[0] == 'call' and v[1] == 'vital_string_new' and len(v[3]) == 2:
        n, s = v[3]
        if n == ('size', s) or n == ('pcall', 'strlen', None, (s,), 'unsigned long') or n[0] == 'size' and plain(n[1], par) == plain(s, par):
            return 'STRING(%s)' % plain(s, par)
        return 'vital_string_new(%s,%s)' % (plain(n, par), plain(s, par))
    return None


def here(P, name):
    """the definition of an exported function; None if it is only declared (check_calls reports that)"""
    fs = [f for f in P.find(name) if f['q'] == name]
    if not fs and any(d['q'] == name for d in P.decls.values()):
        return None
    return P.one(name)


def check_calls(P, R):
    R.rule('every exported function calls the C++ operation it names exactly once, on the object behind its handle, with its own arguments in their '
           'places, returns the result of it, and has no other effect')
    for name, (want, eff) in sorted(specs(P).items()):
        f = here(P, name)
        if f is None:
            continue
        R.functions.add('%s (%s:%s)' % (f['q'], rel(f['file']), f['l']))
        some = False
        for o, got, E, par in normal(P, f):
            R.paths += 1
            w, e, skip = expand(f, o, E, want, eff, par)
            r = stringform(o.val, par) or ('void' if o.val is None or show(o.val) == 'void' else plain(o.val, par))
            rt = re.sub(r'basic_string<.*', 'string', r)
            if skip:
                continue
            got = [norm(x) for x in got]
            r, w = norm(r), norm(w)
            e = [norm(x) for x in e]
            if w.startswith('STRING(config_block::'):
                # computed once and kept
                kept = static_of(o.val) or (o.val and o.val[0] == 'deref' and False)
                if not got and o.val is not None and E.truth(o.st, ('nz', o.val)) is True:
                    continue
                w = w.replace('config_block::', '')
            isnull = w.startswith(('store', 'STRING', '$')) is False and f['rt'].endswith('*') and o.val == ('c', 0)
            if isnull and nullresult(E, o, w, par):
                bad = [x for x in got if x.startswith(('store<', 'erase<'))]
                R.ob('C:call:%s:null' % name, not bad, 'nothing is stored when there is no result', where(f), ', '.join(bad)[:200])
                continue
            some = True
            R.ob('C:call:%s:result' % name, r == w, 'returns %s' % w, where(f), 'returns %s' % r[:300])
            must = [x for x in e]
            for x in must:
                R.ob('C:call:%s:effect' % name, got.count(x) == 1, 'does %s once' % x, where(f), ' ; '.join(got)[:300])
            text = w + ' ' + ' '.join(must)
            extra = [x for x in got if x not in must and x not in text and not x.startswith(('vital_string_new(', 'malloc(', 'instance('))]
            R.ob('C:call:%s:only' % name, not extra, 'nothing else is done', where(f), ' ; '.join(extra)[:300])
        R.ob('C:call:%s:path' % name, some, 'the operation is performed', where(f))
    new_from_data(P, R)
    trackset_new(P, R)
    camera_map_new(P, R)
    camera_map_get(P, R)
    # what a header promises is there
    defs = {f['q'] for f in P.funcs.values() if f.get('xc') and f.get('body') is not None}
    for d in sorted(P.decls.values(), key=lambda d: d['q']):
        if d.get('xc') and '/bindings/c/' in d['file']:
            R.ob('C:decl:%s' % d['q'], d['q'] in defs, 'the declared function is defined with C linkage', '%s:%s' % (rel(d['file']), d['l']))


def norm(x):
    x = re.sub(r'<std::(__cxx11::)?basic_string<[^>]*>[^>]*>[^>]*>', '<string>', x)
    x = x.replace('get_value<std::basic_string<char, std::char_traits<char>, std::allocator<char>>>', 'get_value<string>')
    return x


def nullresult(E, o, w, par):
    """the path knows that the result is null"""
    for k, v in o.facts.items():
        if k[0] == 'nz' and not v and (norm(plain(k[1], par)) == w or (plain(k[1], par) == '$0' and '.clone()' in w)):
            return True
    return False


def new_from_data(P, R):
    from linear import Loops, add
    name = 'vital_image_new_from_data'
    f = here(P, name)
    if f is None:
        return
    par = [p['n'] for p in f['p']]
    E = Engine(P, opaque=foreign)
    X = lambda i: ('par', par[i])
    for o in E.run(f):
        if caught(o) or o.kind == 'throw':
            continue
        R.ob('C:data:new', plain(o.val, par).startswith('new image($1,$2,$3'), 'an image of the given size is returned', where(f), plain(o.val, par)[:100])
        L = Loops(o.events)
        early = L.early and any(e[0] in ('brk', 'iter') and e[1] in L.by for e in o.flat())
        R.ob('C:data:all', not early, 'no pixel is skipped', where(f))
        seen = set()

        def visit(evs, facts, stack):
            for e in evs:
                if e[0] == 'loop':
                    for fa, b, u in e[3]:
                        f2 = dict(facts)
                        f2.update(dict(fa))
                        visit(b, f2, stack + [e])
                if e[0] == 'write' and e[1][0] == 'P' and e[1][1][0] == 'addrof' and iscall(e[1][1][1], 'kwiver::vital::image::operator()', 3):
                    pix = e[1][1][1][3]
                    sp = {}
                    for lp in stack:
                        sp[lp[1]] = lp[2]
                    ok = True
                    polys = []
                    for i, x in enumerate(pix):
                        p = L.poly(x)
                        ctr = [m for m in p]
                        good = len(p) == 1 and list(p.values()) == [1] and len(ctr[0]) == 1 and ctr[0][0][0] == 'ctr'
                        lid = ctr[0][0][1] if good else None
                        good = good and sp.get(lid) == ('count', ('c', 0), X(1 + i))
                        ok = ok and good
                        polys.append({(('ctr', lid),): 1})
                    R.ob('C:data:pixel', ok and len(stack) == 3, 'every pixel of the image is set once', where(f, e[3]), '; '.join('%s' % show(x)[:40] for x in pix))
                    if not ok:
                        return
                    neg = None
                    for k, v in facts.items():
                        for d, r in ((0, None), (-1, None), (1, None)):
                            pass
                        a, b = cval(k, {X(6): -2}), cval(k, {X(6): 2})
                        if a is not None and b is not None and a != b:
                            neg = bool(a) == v
                    src = e[2]
                    base = ('par', par[0])
                    pa = L.addr(src)
                    from linear import mul
                    w_, h_, d_ = polys
                    S = lambda i: {(X(i),): 1}
                    want = add({(base,): 1}, add(mul(w_, S(4)), mul(h_, S(5))))
                    up = add(want, mul(d_, S(6)))
                    down = add(want, mul(add(add(S(3), {(): 1}, -1), d_, -1), S(6)), -1)
                    exp = {True: [down], False: [up], None: [up]}[neg]
                    seen.add(neg)
                    R.ob('C:data:from:%s' % {True: 'reversed', False: 'plain', None: 'plain'}[neg], pa in exp,
                         'the pixel at column, row and plane is taken from the data at their steps%s' % (' (planes reversed)' if neg else ''), where(f, e[3]), show(src)[:200])
        visit(o.events, dict(o.facts), [])
        R.ob('C:data:both', seen == {True, False}, 'data with planes in either order is accepted', where(f), str(seen))


def trackset_new(P, R):
    name = 'vital_trackset_new'
    f = here(P, name)
    if f is None:
        return
    par = [p['n'] for p in f['p']]
    E = Engine(P, opaque=foreign)
    for o in E.run(f):
        if caught(o) or o.kind == 'throw':
            continue
        v = o.val
        m = re.match(r'new simple_track_set', plain(v, par))
        R.ob('C:tracks:new', m is not None, 'a track set is returned', where(f), plain(v, par)[:80])
        vec = [t for t in subterms(v) if t and t[0] in ('loopv', 'mut', 'ilist')][:1]
        sel = selection(o, vec[0]) if vec else 'no tracks'
        ok = not isinstance(sel, str)
        if ok:
            sp, alts, lid = sel
            el = ('at', ('deref', ('par', par[1])), ('it', lid))
            X = [('par', p) for p in par]
            walk = sp[0] == 'count' and sp[1] == X[1] and sp[2] in (('op', '+', X[0], X[1]), ('op', '+', X[1], X[0]))
            if walk:
                el = ('deref', ('idx', lid, X[1]))
            ok = (walk or sp == ('count', ('c', 0), X[0])) and all(x is not None and plain(x, par).startswith('get<track>(') and contains(x, el) for _f, x in alts) and bool(alts)
        R.ob('C:tracks:all', ok, 'the set holds the track behind every handle, in order', where(f), sel if isinstance(sel, str) else show(sel[0])[:80])
        st = [e for e in o.flat() if e[0] == 'call' and iscache(e[1]) and strip_targs(e[1]).endswith('::store')]
        R.ob('C:tracks:stored', len(st) == 1 and kind(st[0][1]) == 'track_set' and st[0][3][0] == v, 'the set is stored and its handle returned', where(f),
             ', '.join(plain(e[4], par)[:80] for e in st))


def camera_map_new(P, R):
    f = here(P, 'vital_camera_map_new')
    if f is None:
        return
    par = [p['n'] for p in f['p']]
    E = Engine(P, opaque=foreign)
    length, frames, cams = (('par', x) for x in par)
    some = False
    for o in E.run(f):
        if caught(o) or o.kind == 'throw':
            continue
        R.paths += 1
        v = o.val
        new = v is not None and v[0] == 'new' and v[1].endswith('::simple_camera_map') and len(v[2]) == 1
        R.ob('C:cammap:new', new, 'a camera map is returned', where(f), show(v)[:100])
        st = [e for e in o.flat() if e[0] == 'call' and iscache(e[1]) and strip_targs(e[1]).endswith('::store')]
        R.ob('C:cammap:stored', len(st) == 1 and kind(st[0][1]) == 'camera_map' and st[0][3][0] == v, 'the map is stored and its handle returned', where(f),
             ', '.join(plain(e[4], par)[:80] for e in st))
        if not new:
            continue
        m = v[2][0]
        if E.truth(o.st, ('nz', frames)) is False or E.truth(o.st, ('nz', cams)) is False:
            R.ob('C:cammap:none', m == ('ilist', ()) or m[0] == 'default', 'without arrays the map is empty', where(f), show(m)[:100])
            continue
        some = True
        lp = [e for e in o.flat() if e[0] == 'loop' and m[0] == 'loopv' and e[1] == m[1]]
        ok = len(lp) == 1 and lp[0][2] == ('count', ('c', 0), length) and not left_early(o, lp[0][1]) and len(lp[0][3]) == 1 and dict(lp[0][4]).get(m[2], ('ilist', ())) == ('ilist', ())
        R.ob('C:cammap:every', ok, 'every entry of the arrays is taken', where(f), show(m)[:100])
        if not ok:
            continue
        it = ('it', lp[0][1])
        key, cam = ('at', ('deref', frames), it), ('at', ('deref', cams), it)
        ups = [(l, x) for l, x in lp[0][3][0][2] if l != m[2] and contains(l, m[2])]
        good = [1 for l, x in ups if l in (('F', ('I', m[2], key), 'second'), ('I', m[2], key)) and plain(x, par) in ('get<camera>(%s)' % show(cam),) and x[3][0] == cam]
        R.ob('C:cammap:pair', len(ups) == 1 and len(good) == 1, 'the camera behind a handle is kept under the frame number at the same position', where(f, lp[0][1][1]),
             '; '.join('%s := %s' % (show(l)[:80], show(x)[:80]) for l, x in ups))
    R.ob('C:cammap:path', some, 'cameras are taken from the arrays', where(f))


def camera_map_get(P, R):
    f = here(P, 'vital_camera_map_get_map')
    if f is None:
        return
    par = [p['n'] for p in f['p']]
    E = Engine(P, opaque=foreign)
    some = False
    for o in E.run(f):
        if caught(o) or o.kind == 'throw':
            continue
        R.paths += 1
        some = True
        out = [E.read(o.st, ('P', ('par', par[i]))) for i in (1, 2, 3)]
        n = out[0]
        src = n[1] if n[0] == 'size' else None
        R.ob('C:cammap:length', src is not None and plain(src, par) in ('get<camera_map>($0).cameras()',), 'the length is the number of cameras', where(f), show(n)[:120])
        for i, w in ((1, 4), (2, 8)):
            b = alloc_bytes(E, out[i])
            R.ob('C:cammap:room', b is not None and bytes_of(E, b) == (n, w),
                 'the array has room for every camera', where(f), show(out[i])[:160])
        lp = [e for e in o.flat() if e[0] == 'loop' and e[2] == ('range', src)]
        ok = len(lp) == 1 and not left_early(o, lp[0][1]) and len(lp[0][3]) == 1
        R.ob('C:cammap:each', ok, 'every camera is handed out', where(f), '%d loops' % len(lp))
        if not ok:
            continue
        lid = lp[0][1]
        it = ('it', lid)
        el = ('at', src, it)
        wr = [e for e in lp[0][3][0][1] if e[0] == 'write']
        exp = {(('I', ('P', out[1]), it), ('fld', el, 'first')), (('I', ('P', out[2]), it), ('fld', el, 'second'))}
        R.ob('C:cammap:parallel', {(e[1], e[2]) for e in wr} == exp and len(wr) == 2, 'frame number and camera of an entry stand at the same position', where(f, lid[1]),
             '; '.join('%s := %s' % (show(e[1])[:100], show(e[2])[:100]) for e in wr))
        st = [e for e in lp[0][3][0][1] if e[0] == 'call' and iscache(e[1]) and strip_targs(e[1]).endswith('::store')]
        R.ob('C:cammap:kept', len(st) == 1 and kind(st[0][1]) == 'camera' and st[0][3][0] == ('fld', el, 'second'), 'each camera handed out has its handle stored once', where(f, lid[1]),
             ', '.join(show(e[4])[:100] for e in st))
    R.ob('C:cammap:read', some, 'the map is read', where(f))
