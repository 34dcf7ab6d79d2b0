"""C12 Brushes and surfaces share no hidden state."""
import re
from .. import ir, irq, frontend
from ..report import Broken

META = {
    'level': 'proof',
    'technique': 'interprocedural effect analysis: address flow of writable process-wide objects, classification of every external callee',
    'note': 'all functions of the library and of the GEGL backend; lazily registered GObject type ids are exempt',
    'explanation': 'every writable global or static object is followed through address computations, parameters and results to all '
                   'uses; every function or object the library does not define is classified',
    'trusted': ['the classification of C library, glib, gegl, babl and json-c functions by name'],
}
R_G = 'no writable process-wide object is modified or leaves the library for writing'
R_E = 'external callee is free of hidden state'

BANNED = re.compile(r'''^(rand|srand|rand_r|random|srandom|random_r|initstate|setstate|[dlmejn]rand48|s?rand48|seed48|lcong48|arc4random.*|getrandom|getentropy
 |time|clock|times|gettimeofday|clock_gettime|clock_getres|timespec_get|ftime|localtime.*|gmtime.*|mktime|ctime.*|asctime.*|strftime.*|difftime|nanosleep|usleep|sleep
 |getenv|secure_getenv|putenv|setenv|unsetenv|clearenv|environ|__environ
 |setlocale|localeconv|nl_langinfo.*|newlocale|uselocale|strtod|strtof|strtold|atof|.*scanf.*|strcoll.*|strxfrm.*|wcs.*
 |getpid|getppid|gettid|getuid|geteuid|getcwd|sysconf|getrusage|sched_getcpu|pthread_self|pthread_[gs]etspecific|__tls_get_addr
 |signal|sigaction|raise|fegetround|fesetround|fe[a-z]*|strtok|tmpnam|tempnam|mkstemp|open|open64|fopen|fopen64|read|fread|fgets|getc|fgetc|getchar
 |g_random_.*|g_rand_new|g_rand_set_seed|g_get_(real_time|monotonic_time|current_time)|g_timer_.*|g_getenv|g_setenv|g_get_(environ|host_name|user_.*|home_dir|tmp_dir)
 |g_date_time_new_now.*|g_uuid_.*|stdin|optarg|optind|__ctype_b_loc|toupper|tolower|isalpha|__errno_location|errno)$'''.replace('\n', '').replace(' ', ''))
PURE = re.compile(r'''^(llvm\..*|__assert_fail|abort|exit|
 (a?(sin|cos|tan)h?|atan2|exp|exp2|exp10|expm1|log|log2|log10|log1p|pow|sqrt|cbrt|hypot|fmod|remainder|modf|frexp|ldexp|scalbn|floor|ceil|round|l?lround|l?lrint|rint|trunc|nearbyint|fabs|fmin|fmax|fma|fdim|copysign|nan|nextafter|erf|erfc)[fl]?|lgamma_r|
 abs|labs|llabs|div|ldiv|__isnan[fl]?|__isinf[fl]?|__finite[fl]?|__fpclassify[fl]?|__signbit[fl]?|sincosf?|
 malloc|calloc|realloc|reallocarray|free|aligned_alloc|posix_memalign|memcpy|memmove|memset|memcmp|memchr|
 str(len|nlen|cmp|ncmp|cpy|ncpy|cat|ncat|chr|rchr|str|dup|ndup|spn|cspn|pbrk)|strcasecmp|strncasecmp|__ctype_.*|bsearch|qsort|
 printf|fprintf|puts|fputs|putchar|fputc|putc|fwrite|fflush|snprintf|vfprintf|vsnprintf|perror|stdout|stderr|__(v?f?printf|v?snprintf|memcpy|memset)_chk|
 dgettext|dcgettext|gettext|bindtextdomain|bind_textdomain_codeset|textdomain|
 json_.*|lh_.*|omp_.*|__kmpc_.*|GOMP_.*|
 g_(boxed|type|object|value|once|return|assert|log|free|malloc|str|list|slist|array|ptr_array|hash_table|slice|mutex|intern|clear|ascii|param|signal|logv|warn).*|
 gegl_.*|babl_.*|mypaint_.*)$'''.replace('\n', '').replace(' ', ''))
WRITERS = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'strcat': 0, 'strncat': 0, 'snprintf': 0, 'qsort': 0,
           'vsnprintf': 0, 'sprintf': 0, 'free': 0, 'realloc': 0}


def register(i, f):
    """result of a type registration (a constant of the process, the same for every caller)"""
    v = i.ops[0]
    if isinstance(v, ir.Reg):
        for j in f.insts():
            if j.res == v.name and j.op == 'call' and isinstance(j.ops[0], ir.GRef):
                return bool(re.match(r'g_\w*(_register_static|_register_static_simple)$', j.ops[0].name))
    return False


class Flow:
    def __init__(self, rep, pr, m, name):
        self.rep, self.pr, self.m, self.name = rep, pr, m, name
        self.params = set()
        self.rets = set()
        self.uses = 0
        self.bad = []

    def fn(self, f, seeds):
        """one function: registers that may hold an address inside the object"""
        der = set(seeds)
        isg = lambda v: (self.name in irq.grefs(v) and f.module.globals.get(self.name) is not None and
                         (f.module is self.m or not self.m.globals[self.name].internal)) or \
            (isinstance(v, ir.Reg) and v.name in der)
        more = True
        while more:
            more = False
            for i in f.insts():
                if i.res is None or i.res in der:
                    continue
                if i.op in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze') and isg(i.ops[0]) \
                        or i.op == 'phi' and any(isg(o) for o in i.ops) or i.op == 'select' and any(isg(o) for o in i.ops[1:]) \
                        or i.op in ('add', 'sub') and any(isg(o) for o in i.ops) \
                        or i.op == 'call' and isinstance(i.ops[0], ir.GRef) and frontend.resolve(self.pr, f.module, i.ops[0].name) in self.rets:
                    der.add(i.res)
                    more = True
        return isg

    def run(self):
        changed = True
        seen = {}
        while changed:
            changed = False
            for m in self.pr.modules:
                for f in m.functions.values():
                    seeds = frozenset(p for (g, p) in self.params if g is f)
                    isg = self.fn(f, seeds)
                    for i in f.insts():
                        if i.op == 'ret' and i.ops and isg(i.ops[0]) and f not in self.rets:
                            self.rets.add(f)
                            changed = True
                        if i.op == 'call' and isinstance(i.ops[0], ir.GRef):
                            g = frontend.resolve(self.pr, m, i.ops[0].name)
                            if g is None:
                                continue
                            for k, a in enumerate(i.ops[1:]):
                                if a is not None and isg(a) and k < len(g.params) and (g, g.params[k][0]) not in self.params:
                                    self.params.add((g, g.params[k][0]))
                                    changed = True
        for m in self.pr.modules:
            for f in m.functions.values():
                isg = self.fn(f, frozenset(p for (g, p) in self.params if g is f))
                for i in f.insts():
                    ops = [o for o in irq.operands(i) if isg(o)]
                    if not ops:
                        continue
                    self.uses += 1
                    self.use(f, i, isg)

    def use(self, f, i, isg):
        w = irq.where(f, i)
        what = '%s of %s' % (self.name, self.m.name)
        key = '%s:%s@%s' % (self.m.name, self.name, f.name)
        if i.op == 'store':
            if isg(i.ops[1]):
                self.rep.ob(R_G, register(i, f), w, '%s is modified' % what, key=key)
                return
            self.rep.ob(R_G, False, w, 'address of %s is stored' % what, key=key)
            return
        if i.op == 'other':
            self.rep.ob(R_G, False, w, '%s is modified atomically' % what, key=key)
            return
        if i.op == 'call':
            c = i.ops[0]
            if isinstance(c, ir.GRef):
                if frontend.resolve(self.pr, f.module, c.name) is not None:
                    self.rep.ob(R_G, True)
                    return
                n = c.name
                if n.startswith('llvm.mem'):
                    n = n.split('.')[1]
                n = n.replace('__', '').replace('_chk', '')
                k = WRITERS.get(n)
                bad = (k is not None and isg(i.ops[1 + k])) or n in ('scanf', 'sscanf') or not PURE.match(c.name) or \
                    n.startswith('g_once')
                self.rep.ob(R_G, not bad, w, '%s is passed to %s, which may modify it' % (what, c.name), key=key)
                return
            self.rep.ob(R_G, False, w, 'address of %s is passed through a function pointer' % what, key=key)
            return
        self.rep.ob(R_G, True)


def program(rep, pr, w):
    n = 0
    for m in pr.modules:
        for name, g in m.globals.items():
            if g.external or g.init is None:
                continue
            n += 1
            if g.const:
                rep.ob(R_G, True)
                continue
            fl = Flow(rep, pr, m, name)
            fl.run()
            rep.count('uses_of_writable_globals', fl.uses)
            rep.count('writable_globals')
    for name, uses in sorted(irq.externals(pr).items()):
        f, i = uses[0]
        wh = irq.where(f, i)
        if BANNED.match(name):
            rep.ob(R_E, False, wh, '%s: result or effect depends on process-wide state' % name, key='ext:%s' % name)
        elif PURE.match(name):
            rep.ob(R_E, True)
        else:
            raise Broken('external %s (used at %s) is not classified' % (name, wh))
    for m in pr.modules:
        rep.analysed(*m.functions)


def run(rep, w):
    pr = w.program()
    program(rep, pr, w)
    g = w.program(gegl=True)
    if g is not None:
        program(rep, g, w)
    else:
        rep.assume('GEGL backend not analysed (gegl development files missing)')
    rep.require(R_G, 30)
    rep.require(R_E, 30)
