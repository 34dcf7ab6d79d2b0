"""Turns /repo's current working tree into parsed LLVM IR.  Everything happens in a scratch directory."""
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import ir

REPO = os.environ.get('SA_REPO', '/repo')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'

CONFIG_H = '''
#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "libmypaint-2.0"
#define HAVE_BIND_TEXTDOMAIN_CODESET 1
#define HAVE_DCGETTEXT 1
#define HAVE_DLFCN_H 1
#define HAVE_GETTEXT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LOCALE_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define MYPAINT_CONFIG_USE_GLIB 1
#define PACKAGE_BUGREPORT "x"
#define PACKAGE_NAME "libmypaint"
#define PACKAGE_STRING "libmypaint"
#define PACKAGE_TARNAME "libmypaint"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "2"
#define STDC_HEADERS 1
'''


class FrontendError(Exception):
    """the tree cannot be analysed (does not compile, anchor vanished, ...): an error exit, never a verdict"""


class Program:
    def __init__(self):
        self.modules = []
        self.functions = {}
        self.globals = {}
        self.sources = []

    def fn(self, name):
        f = self.functions.get(name)
        if f is None:
            raise FrontendError('anchor function %s not found in the source' % name)
        return f


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise FrontendError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r.stdout


def pkg(*names):
    try:
        return _run(['pkg-config', '--cflags'] + list(names)).split()
    except FrontendError:
        return None


def library_sources(root):
    """the translation units of the library, from the top level of the tree"""
    out = []
    for p in sorted(glob.glob(os.path.join(root, '*.c'))):
        out.append(os.path.basename(p))
    return out


def snapshot(repo, dst):
    """copies the sources (no build output) and regenerates the generated headers"""
    for p in glob.glob(os.path.join(repo, '*')):
        b = os.path.basename(p)
        if os.path.isfile(p) and (b.endswith(('.c', '.h', '.json', '.py', '.am', '.in')) or b in ('configure.ac',)):
            if b in ('config.h',) or b.endswith('-gen.h'):
                continue
            shutil.copy(p, dst)
    for d in ('fastapprox', 'gegl', 'glib'):
        s = os.path.join(repo, d)
        if os.path.isdir(s):
            os.makedirs(os.path.join(dst, d), exist_ok=True)
            for p in glob.glob(os.path.join(s, '*')):
                if os.path.isfile(p) and p.endswith(('.c', '.h', '.am')):
                    shutil.copy(p, os.path.join(dst, d))
    if os.path.exists(os.path.join(dst, 'generate.py')):
        _run([sys.executable, 'generate.py', 'mypaint-brush-settings-gen.h', 'brushsettings-gen.h'], cwd=dst)


OMP_H = '''typedef struct { void *x; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
int omp_in_parallel(void); void omp_set_num_threads(int); double omp_get_wtime(void); int omp_get_level(void);
void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *); void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
'''


def compile_ir(work, srcs, defs=(), openmp=False, gegl=False, keep_allocas=False, tag=''):
    cfg = os.path.join(work, '_cfg')
    os.makedirs(cfg, exist_ok=True)
    with open(os.path.join(cfg, 'config.h'), 'w') as f:
        f.write(CONFIG_H)
    if openmp:      # declarations only; the runtime is not needed
        with open(os.path.join(cfg, 'omp.h'), 'w') as f:
            f.write(OMP_H)
    flags = pkg('json-c', 'glib-2.0')
    if flags is None:
        raise FrontendError('json-c / glib development files missing')
    if gegl:
        g = pkg('gegl-0.4')
        if g is None:
            return None
        flags += g
    flags = [f for f in flags if f != '-pthread']

    def one(src):
        o = os.path.join(work, '_ir_%s_%s.ll' % (tag, src.replace('/', '_')))
        cmd = [CLANG, '-w', '-Igegl', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
               '-S', '-emit-llvm', '-std=gnu99', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE', '-fPIC',
               '-I.', '-I' + cfg] + ['-D' + d for d in defs] + flags
        if openmp:
            cmd += ['-fopenmp']
        cmd += [src, '-o', o]
        _run(cmd, cwd=work)
        if not keep_allocas:
            _run([OPT, '-S', '-passes=mem2reg', o, '-o', o])
        return ir.parse_module(o, src)

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


class Workdir:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = tempfile.mkdtemp(prefix='sa_', dir=os.environ.get('TMPDIR', '/tmp'))
        try:
            snapshot(self.repo, self.dir)
        except BaseException:
            self.close()
            raise

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def program(self, **kw):
        srcs = library_sources(self.dir)
        if kw.get('gegl'):
            srcs = set(glob.glob(os.path.join(self.dir, 'gegl', '*.c')))
            mk = os.path.join(self.dir, 'gegl', 'Makefile.am')
            if os.path.exists(mk):
                for k, v in makefile_vars(mk).items():
                    if k.endswith('SOURCES'):
                        srcs |= {os.path.join(self.dir, 'gegl', x) for x in v if x.endswith('.c')}
            srcs = sorted({os.path.relpath(s, self.dir) for s in srcs if os.path.exists(s)})
        mods = compile_ir(self.dir, srcs, **kw)
        if mods is None:
            return None
        pr = Program()
        pr.sources = srcs
        pr.modules = mods
        for m in mods:
            for n, f in m.functions.items():
                if n not in pr.functions or pr.functions[n].internal:
                    pr.functions[n] = f
            for n, g in m.globals.items():
                if n not in pr.globals or pr.globals[n].init is None:
                    pr.globals[n] = g
        return pr


def resolve(pr, module, name):
    """callee lookup: own module first (static functions), then the program"""
    f = module.functions.get(name)
    if f is None:
        f = pr.functions.get(name)
        if f is not None and f.internal:
            f = None
    return f


def merge(a, b):
    """one program out of two (library and backend)"""
    pr = Program()
    for x in (a, b):
        pr.sources += x.sources
        pr.modules += x.modules
        for n, f in x.functions.items():
            if n not in pr.functions or pr.functions[n].internal:
                pr.functions[n] = f
        for n, g in x.globals.items():
            if n not in pr.globals or pr.globals[n].init is None:
                pr.globals[n] = g
    return pr


def makefile_vars(path):
    """automake variables with references expanded (conditionals are read as if taken)"""
    raw = {}
    txt = open(path).read().replace('\\\n', ' ')
    for ln in txt.split('\n'):
        m = re.match(r'^(\w+(?:@\w+@\w*)?)\s*(\+?)=(.*)$', ln.strip())
        if m:
            v = m.group(3).split('#')[0]
            raw[m.group(1)] = (raw.get(m.group(1), '') + ' ' if m.group(2) or m.group(1) in raw else '') + v

    def expand(s, d=0):
        if d > 10:
            return s
        return re.sub(r'\$[({](\w+)[)}]', lambda m: expand(raw.get(m.group(1), ''), d + 1), s)
    return {k: expand(v).split() for k, v in raw.items()}


def header_functions(work, headers, gegl=False):
    """functions declared (not static, not inline) in the given headers: {name: header}"""
    import json
    cfg = os.path.join(work, '_cfg')
    src = os.path.join(work, '_headers.c')
    with open(src, 'w') as f:
        for h in headers:
            f.write('#include "%s"\n' % h)
    flags = [x for x in pkg(*(['json-c', 'glib-2.0', 'gobject-2.0'] + (['gegl-0.4'] if gegl else []))) if x != '-pthread']
    r = subprocess.run([CLANG, '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-std=gnu99', '-DHAVE_CONFIG_H', '-D_GNU_SOURCE',
                        '-I.', '-Igegl', '-I' + cfg] + flags + [src], cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise FrontendError('headers do not compile:\n' + r.stderr[-2000:])
    ast = json.loads(r.stdout)
    cur = [None]

    def walk(x):
        if isinstance(x, dict):
            if 'file' in x and isinstance(x['file'], str):
                cur[0] = x['file']
            for k, v in x.items():
                if k in ('loc', 'range', 'begin', 'end', 'spellingLoc', 'expansionLoc', 'inner'):
                    walk(v)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    out = {}
    want = {os.path.normpath(os.path.join(work, h)): h for h in headers}
    for d in ast.get('inner', []):
        walk(d.get('loc'))
        f = cur[0]
        walk({k: v for k, v in d.items() if k != 'loc'})
        if d.get('kind') != 'FunctionDecl' or d.get('storageClass') == 'static' or d.get('inline'):
            continue
        if f is None:
            continue
        p = os.path.normpath(os.path.join(work, f))
        if p in want:
            out[d['name']] = want[p]
    return out
