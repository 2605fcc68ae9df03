"""Configure /repo, extract the resolved program with vextract, merge it."""
import hashlib
import json
import os
import pickle
import shlex
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
LLVM = '/usr/lib/llvm-18'


class Broken(Exception):
    """the analysis itself could not be carried out (exit 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def file_hash(path):
    h = hashlib.sha256()
    with open(path, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def source_files(root=REPO):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('.git', '_build', '_build_kwsys'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in source_files():
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def build_tool():
    src = os.path.join(VERIF, 'tool', 'vextract.cpp')
    hh = file_hash(src)[:16]
    os.makedirs(WORK, exist_ok=True)
    exe = os.path.join(WORK, 'vextract-' + hh)
    if os.path.exists(exe):
        return exe
    lib = next((p for p in (LLVM + '/lib/libclang-cpp.so.18.1', '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1',
                            LLVM + '/lib/libclang-cpp.so') if os.path.exists(p)), None)
    if lib is None:
        raise Broken('libclang-cpp not found')
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++-18', '-O0', '-std=c++17', '-fno-rtti', '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp, lib, '-L' + LLVM + '/lib', '-lLLVM-18',
            '-Wl,-rpath,' + LLVM + '/lib'])
    if r.returncode:
        raise Broken('cannot build vextract:\n' + r.stdout[-3000:])
    os.rename(tmp, exe)
    return exe


CFG_VITAL = ['-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTING=OFF', '-DVITAL_ENABLE_TOOLS=ON', '-DVITAL_ENABLE_C_LIB=ON',
             '-DVITAL_ENABLE_PYTHON=OFF', '-DVITAL_ENABLE_LOG4CXX=OFF', '-DCMAKE_CXX_FLAGS=-Wno-error',
             '-DCMAKE_C_FLAGS=-Wno-error']


def configure(scratch, group):
    d = os.path.join(scratch, 'cfg_' + group)
    if group == 'vital':
        cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + CFG_VITAL
    else:
        cmd = ['cmake', '-S', REPO + '/vital/kwiversys', '-B', d, '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
               '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTING=OFF',
               '-DKWSYS_STANDALONE=ON', '-DCMAKE_CXX_FLAGS=-Wno-error', '-DCMAKE_C_FLAGS=-Wno-error']
    r = sh(cmd, cwd=scratch)
    cc = os.path.join(d, 'compile_commands.json')
    if r.returncode or not os.path.exists(cc):
        raise Broken('cannot configure %s:\n%s' % (group, r.stdout[-3000:]))
    out = []
    for c in json.load(open(cc)):
        args, skip = [], False
        for a in shlex.split(c['command'])[1:]:
            if skip:
                skip = False
                continue
            if a == '-o':
                skip = True
                continue
            if a == '-c' or a == c['file'] or a.startswith('-W'):
                continue
            args.append(a)
        out.append((c['file'], args))
    return d, out


def extract(groups=('vital',), probes=True, only=None):
    """-> list of per-TU fact dictionaries"""
    os.makedirs(WORK, exist_ok=True)
    probe_dir = os.path.join(VERIF, 'probes')
    pfiles = sorted(os.path.join(probe_dir, f) for f in os.listdir(probe_dir)) if os.path.isdir(probe_dir) else []
    key = hashlib.sha256()
    key.update(tree_hash().encode())
    key.update(file_hash(os.path.join(VERIF, 'tool', 'vextract.cpp')).encode())
    for p in pfiles:
        key.update(file_hash(p).encode())
    key = key.hexdigest()[:20]
    cached, missing = {}, []
    for g in groups:
        f = os.path.join(WORK, 'facts-%s-%s.pickle' % (key, g))
        if os.path.exists(f):
            with open(f, 'rb') as fh:
                cached[g] = pickle.load(fh)
        else:
            missing.append(g)
    if missing:
        scratch = os.path.join(WORK, 'x%d' % os.getpid())
        os.makedirs(scratch, exist_ok=True)
        try:
            with ThreadPoolExecutor(8) as ex:
                ft = ex.submit(build_tool)
                fcs = {g: ex.submit(configure, scratch, g) for g in missing}
                tool = ft.result()
                cfgs = {g: f.result() for g, f in fcs.items()}
            jobs = []
            for g in missing:
                d, tus = cfgs[g]
                for f, args in tus:
                    if not f.startswith(REPO + '/') and not f.startswith(d):
                        continue
                    if '/tests/' in f:
                        continue
                    jobs.append((g, f, args, d))
                if g == 'vital' and probes:
                    base = next(a for f, a in tus if f.endswith('/config_block.cxx'))
                    for p in pfiles:
                        jobs.append((g, p, base, d))
            res = {g: [] for g in missing}

            def one(i):
                g, f, args, d = jobs[i]
                out = os.path.join(scratch, 'o%d.json' % i)
                roots = REPO + '/,' + d + '/,' + probe_dir + '/'
                r = subprocess.run([tool, out, f, roots, '--'] + args + ['-w', '-resource-dir', LLVM + '/lib/clang/18'],
                                   cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
                witness = f.startswith(probe_dir) and os.path.basename(f).startswith('convert')
                if witness and not os.path.exists(out):
                    j = dict(funcs=[], classes=[], vars=[], enums=[], decls=[])
                elif r.returncode and not witness or not os.path.exists(out):
                    raise Broken('extraction of %s failed:\n%s' % (f, r.stderr[-3000:]))
                else:
                    with open(out) as fh:
                        j = json.load(fh)
                    os.unlink(out)
                if witness:
                    # programs that have to be accepted: what the type checker says about them is a fact
                    j['witness'] = f
                    j['diag'] = r.stderr.replace(REPO + '/', '')
                    if j.pop('errors', 0) and 'error:' not in j['diag']:
                        j['diag'] += 'error: unknown'
                if j.get('errors'):
                    raise Broken('%s does not parse' % f)
                j['cfg'] = d
                return i, j
            order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]))
            with ThreadPoolExecutor(8) as ex:
                for i, j in ex.map(one, order):
                    res[jobs[i][0]].append(j)
            for g in missing:
                d = cfgs[g][0]
                # generated headers of the scratch build get a stable prefix
                txt = pickle.dumps(res[g], protocol=4)
                f = os.path.join(WORK, 'facts-%s-%s.pickle' % (key, g))
                with open(f + '.tmp%d' % os.getpid(), 'wb') as fh:
                    fh.write(txt)
                os.rename(f + '.tmp%d' % os.getpid(), f)
                cached[g] = res[g]
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        # keep the cache small
        old = sorted((os.path.join(WORK, f) for f in os.listdir(WORK) if f.startswith('facts-') and f.endswith('.pickle')),
                     key=os.path.getmtime)
        for f in old[:-6]:
            try:
                os.unlink(f)
            except OSError:
                pass
    out = []
    for g in groups:
        out.extend(cached[g])
    return out


STD_BASES = {
    'std::exception': [],
    'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'],
    'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'],
    'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
    'std::length_error': ['std::logic_error'], 'std::domain_error': ['std::logic_error'],
    'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error'],
    'std::bad_weak_ptr': ['std::exception'], 'std::bad_function_call': ['std::exception'],
    'std::ios_base::failure': ['std::exception'], 'std::system_error': ['std::runtime_error'],
}


class Program(object):
    def __init__(self, tus):
        self.tus = tus
        self.ntu = len(tus)
        self.funcs, self.classes, self.vars, self.enums, self.decls = {}, {}, {}, {}, {}
        for t in tus:
            for f in t['funcs']:
                o = self.funcs.get(f['u'])
                if o is None or (o.get('body') is None and f.get('body') is not None):
                    self.funcs[f['u']] = f
            for c in t['classes']:
                self.classes.setdefault(c['u'], c)
            for v in t['vars']:
                o = self.vars.get(v['u'])
                if o is None or (not o.get('def') and v.get('def')) or ('i' not in o and 'i' in v):
                    self.vars[v['u']] = v
            for e in t['enums']:
                self.enums.setdefault(e['q'], e)
            for d in t['decls']:
                self.decls.setdefault(d['u'], d)
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f['q'], []).append(f)
        self.cls_by_q = {}
        for c in self.classes.values():
            self.cls_by_q[c['q']] = c
        self.over = {}
        for c in self.classes.values():
            for m in c['methods']:
                for b in m['ov']:
                    self.over.setdefault(b, set()).add(m['u'])
        self.bases = {}
        for c in self.classes.values():
            self.bases[c['q']] = [b['t'] for b in c['bases']]

    # --- lookup --------------------------------------------------------
    def fn(self, u):
        return self.funcs.get(u) if u else None

    def cls(self, u):
        return self.classes.get(u) if u else None

    def overriders(self, u):
        out, todo = set(), [u]
        while todo:
            x = todo.pop()
            for y in self.over.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return out

    def final_overrider(self, clsq, u):
        c = self.cls_by_q.get(clsq)
        cands = self.overriders(u) | {u}
        while c is not None:
            for m in c['methods']:
                if m['u'] in cands:
                    return self.fn(m['u'])
            c = next((self.cls_by_q.get(b['t']) for b in c['bases'] if self.cls_by_q.get(b['t'])), None)
        return None

    def derives(self, ty, base):
        if ty == base:
            return True
        bs = self.bases.get(ty)
        if bs is None:
            bs = STD_BASES.get(ty, [])
        return any(self.derives(b, base) for b in bs)

    def find(self, q, n=None, pred=None):
        """functions with a body and qualified name q (template arguments ignored when not found)"""
        from engine import strip_targs
        fs = [f for f in self.by_q.get(q, []) if f.get('body') is not None]
        if not fs:
            fs = [f for k, v in self.by_q.items() if strip_targs(k) == q for f in v if f.get('body') is not None]
        if pred:
            fs = [f for f in fs if pred(f)]
        if n is not None:
            fs = [f for f in fs if len(f['p']) == n]
        return fs

    def one(self, q, n=None, pred=None):
        fs = self.find(q, n, pred)
        if len(fs) != 1:
            raise Broken('anchor %s%s: %d definitions found' % (q, '' if n is None else '/%d' % n, len(fs)))
        return fs[0]

    def klass(self, q):
        c = self.cls_by_q.get(q)
        if c is None:
            raise Broken('anchor class %s not found' % q)
        return c

    def methods(self, q):
        c = self.klass(q)
        return [self.funcs[m['u']] for m in c['methods'] if m['u'] in self.funcs and self.funcs[m['u']].get('body') is not None]


def rel(path):
    if path.startswith(REPO + '/'):
        return path[len(REPO) + 1:]
    return path


def walk(n):
    """all AST nodes (dicts) below n, in source order"""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def calls(n):
    return (x for x in walk(n) if x.get('k') in ('call', 'ctor'))
