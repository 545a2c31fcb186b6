#!/usr/bin/env python3
"""B01: symbolic execution of the Python binding. /repo/python/greshunkel.py is executed as it is, by the Python
interpreter, with template, keys, values and rendering result as strings of symbolic code points (z3 bit-vectors) and
the C library replaced by a model of what ctypes hands over. Every decision that depends on a symbolic code point forks
(depth-first, re-execution); what reaches the C interface is compared with the UTF-8 encoding by z3 for all values of
the path. Counterexamples are replayed with the real ctypes against a recording C library."""
import argparse, json, os, subprocess, sys, tempfile, shutil, time, types, itertools
import z3
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('MOTH_REPO', '/repo'); SRC = os.path.join(REPO, 'python', 'greshunkel.py')

class Cut(BaseException): pass           # infeasible path
class Fail(BaseException):
    def __init__(self, msg): self.msg = msg
class Unsupported(BaseException): pass
class St:                                # one path
    def __init__(self, prefix): self.prefix = prefix; self.taken = []; self.todo = []; self.s = z3.Solver(); self.s.set('timeout', 20000); self.names = []; self.enc = {}
stats = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'max': 0.0, 'branches': 0, 'asserts': 0}
cur = None
def check(*a):
    t = time.time(); r = cur.s.check(*a); d = time.time() - t
    stats['queries'] += 1; stats['time'] += d; stats['max'] = max(stats['max'], d); stats[str(r) if str(r) in ('sat', 'unsat') else 'unknown'] += 1
    if r == z3.unknown: raise Unsupported('solver: unknown')
    return r == z3.sat
def branch(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    stats['branches'] += 1
    k = len(cur.taken)
    if k < len(cur.prefix): v = cur.prefix[k]
    else:
        v = check(c)
        if v and check(z3.Not(c)): cur.todo.append(cur.taken + [False])
    cur.taken.append(v); cur.s.add(c if v else z3.Not(c)); return v
def pick(n, what):
    """one path per value"""
    k = len(cur.taken)
    if k < len(cur.prefix): v = cur.prefix[k]
    else:
        v = 0
        for i in range(1, n): cur.todo.append(cur.taken + [i])
    cur.taken.append(v); cur.names.append((what, v)); return v
def must(c, msg):
    stats['asserts'] += 1
    if isinstance(c, bool):
        if not c: raise Fail(msg)
        return
    if check(z3.Not(c)): cur.s.add(z3.Not(c)); raise Fail(msg)
    cur.s.add(c)
def conj(l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l): return False
    return z3.And(*l) if l else True
def eq(a, b): return a == b if isinstance(a, int) and isinstance(b, int) else z3.simplify(a == b) if not (isinstance(a, int) and isinstance(b, int)) else a == b
def seq_eq(a, b): return False if len(a) != len(b) else conj([eq(x, y) for x, y in zip(a, b)])
def bv(x, n): return z3.BitVecVal(x, n) if isinstance(x, int) else x
def out_enc(c): return (c, 'utf-8') if not isinstance(c, tuple) else c

ALLOWED = {'encode', 'decode', '__class__', '__len__', '__getitem__', '__iter__', '__add__', '__radd__', '__eq__', '__ne__', '__hash__', '__bool__', '__repr__', '__str__', '_c', '__dict__', '__bytes__', '__init__', '__new__', '__doc__', '__contains__', '__format__', '__reduce_ex__', 'ljust'} 
class Guard:
    def __getattribute__(self, n):
        if n not in ALLOWED: raise Unsupported('%s.%s' % (type(self).__name__, n))
        return object.__getattribute__(self, n)
def cps(x): return x._c if isinstance(x, SymStr) else [ord(c) for c in x]
def bts(x): return x._c if isinstance(x, SymBytes) else list(x)
class SymStr(Guard, str):
    def __new__(cls, c): o = str.__new__(cls, '?'); o._c = c; return o
    def __len__(self): return len(self._c)
    def __bool__(self): return bool(self._c)
    def __iter__(self): return iter([SymStr([c]) for c in self._c])
    def __getitem__(self, k): r = self._c[k]; return SymStr(r if isinstance(k, slice) else [r])
    def __add__(self, o): return SymStr(self._c + cps(o))
    def __radd__(self, o): return SymStr(cps(o) + self._c)
    def __eq__(self, o): return isinstance(o, str) and branch(seq_eq(self._c, cps(o)))
    def __ne__(self, o): return not self == o
    def __hash__(self): return 7
    def __contains__(self, o):
        n = cps(o); return any(branch(seq_eq(self._c[i:i + len(n)], n)) for i in range(len(self._c) - len(n) + 1))
    def __str__(self): return self
    def __repr__(self): return '<symbolic str>'
    def __format__(self, spec): raise Unsupported('format')
    def encode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-'); r = []
        for i, c in enumerate(self._c):
            if e in ('utf-8', 'utf8'): r += utf8(c); continue
            lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256}.get(e)
            if lim is None: raise Unsupported('encode(%s)' % encoding)
            if branch(z3.ULT(bv(c, 32), lim)): r.append(c if isinstance(c, int) else z3.Extract(7, 0, c))
            elif errors == 'ignore': pass
            elif errors == 'replace': r.append(63)
            elif errors == 'strict': raise UnicodeEncodeError(e, '?', 0, 1, 'ordinal not in range')
            else: raise Unsupported('errors=' + errors)
        return SymBytes(r)
def utf8(c):
    if isinstance(c, int): return utf8_(c)
    k = c.get_id()
    if k not in cur.enc: cur.enc[k] = (utf8_(c), c)
    return cur.enc[k][0]
def utf8_(c):
    if isinstance(c, int): return list(chr(c).encode('utf-8', 'surrogatepass'))
    b = lambda hi, lo: z3.Extract(hi, lo, c); cat = lambda top, n, x: z3.Concat(z3.BitVecVal(top, n), x)
    if branch(z3.ULT(c, 0x80)): return [b(7, 0)]
    if branch(z3.ULT(c, 0x800)): return [cat(6, 3, b(10, 6)), cat(2, 2, b(5, 0))]
    if branch(z3.ULT(c, 0x10000)): return [cat(14, 4, b(15, 12)), cat(2, 2, b(11, 6)), cat(2, 2, b(5, 0))]
    return [cat(30, 5, b(20, 18)), cat(2, 2, b(17, 12)), cat(2, 2, b(11, 6)), cat(2, 2, b(5, 0))]
class SymBytes(Guard, bytes):
    def __new__(cls, c): o = bytes.__new__(cls, b'?'); o._c = list(c); return o
    def __len__(self): return len(self._c)
    def __bool__(self): return bool(self._c)
    def __iter__(self): raise Unsupported('iteration over bytes')
    def __getitem__(self, k):
        r = self._c[k]
        if not isinstance(k, slice): raise Unsupported('byte index')
        return SymBytes(r)
    def __add__(self, o): return SymBytes(self._c + bts(o))
    def __radd__(self, o): return SymBytes(bts(o) + self._c)
    def __eq__(self, o): return isinstance(o, bytes) and branch(seq_eq(self._c, bts(o)))
    def __ne__(self, o): return not self == o
    def __hash__(self): return 8
    def __bytes__(self): return self
    def __repr__(self): return '<symbolic bytes>'
    def decode(self, encoding='utf-8', errors='strict'):
        e = encoding.lower().replace('_', '-'); r = []; i = 0; l = self._c
        z = lambda x: z3.ZeroExt(24, bv(x, 8)); lo = lambda x, n: z3.ZeroExt(32 - n, z3.Extract(n - 1, 0, bv(x, 8)))
        bad = lambda: UnicodeDecodeError(e, b'?', 0, 1, 'invalid')
        if e in ('latin-1', 'latin1', 'iso-8859-1'): return SymStr([z3.simplify(z(x)) for x in l])
        while i < len(l):
            b = z(l[i])
            if branch(z3.ULT(b, 0x80)): r.append(z3.simplify(b)); i += 1; continue
            err = e in ('ascii', 'us-ascii')
            if not err and e not in ('utf-8', 'utf8'): raise Unsupported('decode(%s)' % encoding)
            n = 0
            if not err:
                n = 2 if branch(z3.And(z3.UGE(b, 0xC2), z3.ULT(b, 0xE0))) else 3 if branch(z3.And(z3.UGE(b, 0xE0), z3.ULT(b, 0xF0))) else 4 if branch(z3.And(z3.UGE(b, 0xF0), z3.ULT(b, 0xF5))) else 0
                err = n == 0 or i + n > len(l) or not branch(z3.And(*[z(x) & 0xC0 == 0x80 for x in l[i + 1:i + n]]))
            if err:
                if errors == 'strict': raise bad()
                if errors == 'ignore': i += 1; continue
                if errors == 'replace': r.append(0xFFFD); i += 1; continue
                raise Unsupported('errors=' + errors)
            c = lo(l[i], 7 - n)
            for x in l[i + 1:i + n]: c = (c << 6) | lo(x, 6)
            r.append(z3.simplify(c)); i += n
        return SymStr(r)
syms = {}
def text(n, name):
    c = []
    for i in range(n):
        v = z3.BitVec('%s_%d' % (name, i), 32); cur.s.add(z3.ULT(0, v), z3.ULE(v, 0x10FFFF), z3.Or(z3.ULT(v, 0xD800), z3.UGT(v, 0xDFFF))); c.append(v)
    syms[name] = c; return SymStr(c)

# ------------------------------------------------------------------ ctypes model
import ctypes as real
class CP:                                # c_char_p
    def __init__(self, v=None):
        if v is not None and not isinstance(v, bytes): raise TypeError('bytes or integer address expected instead of %s instance' % type(v).__name__)
        self.value = v
    @classmethod
    def from_param(cls, v): return v
class BUF:
    def __init__(self, v): self.raw = SymBytes(bts(v) + [0]); self.value = v
    def __len__(self): return len(self.raw)
class REF:
    def __init__(self, o): self.obj = o
class FUNC: pass
def mk_ctypes(lib):
    m = types.ModuleType('ctypes')
    for n in dir(real):
        if not n.startswith('__'): setattr(m, n, getattr(real, n))
    m.c_char_p = CP; m.byref = REF; m.pointer = REF
    def csb(v, size=None):
        if isinstance(v, int): raise Unsupported('create_string_buffer(int)')
        if not isinstance(v, bytes): raise TypeError(v)
        if size is not None: raise Unsupported('create_string_buffer(size)')
        return BUF(v)
    m.create_string_buffer = csb
    def cft(*a, **k):
        class F(FUNC):
            def __init__(self, f): self.f = f
            def __call__(self, *a): return self.f(*a)
        return F
    m.CFUNCTYPE = cft
    class L:
        def LoadLibrary(self, n): return lib
        def __getattr__(self, n): return lib
    m.cdll = L(); m.CDLL = lambda *a, **k: lib
    return m
class Var:                               # greshunkel_var returned by value
    pass
def conv(f, at, v):
    if at is CP:
        if v is None: return None
        if isinstance(v, CP): return v.value
        if isinstance(v, BUF): return v.value
        if isinstance(v, bytes): return v
        raise real.ArgumentError('wrong type')
    if at is real.c_void_p:
        if v is None or isinstance(v, (int, bytes, CP, FUNC, REF)): return v
        raise real.ArgumentError('wrong type')
    if at in (real.c_int, real.c_size_t, real.c_ulong, real.c_uint, real.c_long):
        if hasattr(v, 'value') and not isinstance(v, (CP, BUF)): v = v.value
        if not isinstance(v, int): raise real.ArgumentError('wrong type')
        return at(v).value
    if isinstance(at, type) and issubclass(at, FUNC):
        if not isinstance(v, at): raise real.ArgumentError('wrong type')
        return v
    if isinstance(v, REF) or v is None: return v
    raise real.ArgumentError('wrong type')
def default(v):                          # no argtypes
    if isinstance(v, bool) or isinstance(v, int): return real.c_int(v).value
    if isinstance(v, str): raise Unsupported('wide string')
    if isinstance(v, CP): return v.value
    if isinstance(v, BUF): return v.value
    if hasattr(v, 'value') and not isinstance(v, real.Union): return v.value
    return v
class Fn:
    def __init__(self, lib, n): self.lib, self.n, self.argtypes, self.restype = lib, n, None, real.c_int
    def __call__(self, *a):
        if self.argtypes is not None:
            if len(a) < len(self.argtypes): raise TypeError('this function takes at least %d arguments' % len(self.argtypes))
            a = [conv(self, t, v) for t, v in zip(self.argtypes, a)] + [default(v) for v in a[len(self.argtypes):]]
        else: a = [default(v) for v in a]
        r = getattr(self.lib, 'do_' + self.n)(*a)
        if self.restype is real.c_int and isinstance(r, int): return real.c_int(r).value
        if isinstance(r, SymBytes):
            if self.restype is CP: return r
            raise Unsupported('restype of a string')
        if r == 'array':
            if not (isinstance(self.restype, type) and issubclass(self.restype, real.Union)): raise Unsupported('restype of gshkl_add_array')
            must(real.sizeof(self.restype) >= 513, 'a greshunkel_var has room for 513 bytes'); v = self.restype(); v.arr = self.lib.last_array; return v
        return r
class Lib:
    """the C interface: contexts are lists of operations"""
    def __init__(self): self.f = {}; self.ctx = {}; self.n = 0; self.result = None; self.rendered = []; self.freed = []
    def __getattr__(self, n):
        if n.startswith('gshkl_') or n in ('free',):
            if n not in self.f: self.f[n] = Fn(self, n)
            return self.f[n]
        raise AttributeError(n)
    def handle(self): self.n += 1; return 0x7F0012340000 + 0x1000 * self.n
    def ops(self, h, what): must(isinstance(h, int) and h in self.ctx, '%s is called with the context it is meant for' % what); return self.ctx[h]
    def loop(self, p):
        must(isinstance(p, REF) and isinstance(p.obj, real.Union), 'the array is handed over by reference'); return self.ops(p.obj.arr, 'adding to an array')
    def do_gshkl_init_context(self): h = self.handle(); self.ctx[h] = []; return h
    def do_gshkl_add_string(self, c, n, v): self.ops(c, 'gshkl_add_string').append(('str', n, v)); return 0
    def do_gshkl_add_int(self, c, n, v): self.ops(c, 'gshkl_add_int').append(('int', n, v)); return 0
    def do_gshkl_add_sub_context(self, c, n, s): self.ops(s, 'gshkl_add_sub_context'); self.ops(c, 'gshkl_add_sub_context').append(('sub', n, s)); return 0
    def do_gshkl_add_array(self, c, n): o = self.ops(c, 'gshkl_add_array'); h = self.handle(); self.ctx[h] = []; o.append(('arr', n, h)); self.last_array = h; return 'array'
    def do_gshkl_add_string_to_loop(self, l, v): self.loop(l).append(('str', None, v)); return 0
    def do_gshkl_add_int_to_loop(self, l, v): self.loop(l).append(('int', None, v)); return 0
    def do_gshkl_add_sub_context_to_loop(self, l, s): self.ops(s, 'gshkl_add_sub_context_to_loop'); self.loop(l).append(('sub', None, s)); return 0
    def do_gshkl_add_filter(self, c, n, f, cl): self.ops(c, 'gshkl_add_filter').append(('filter', n, f)); return 0
    def do_gshkl_free_context(self, c): self.freed.append(c)
    def do_gshkl_render(self, c, t, n, o):
        self.ops(c, 'gshkl_render'); must(c not in self.freed, 'the context is not freed before rendering'); self.rendered.append((c, t, n)); return self.result
def load(lib):
    m = types.ModuleType('greshunkel'); m.__file__ = SRC
    saved = sys.modules.get('ctypes'); sys.modules['ctypes'] = mk_ctypes(lib)
    try: exec(compile(open(SRC).read(), SRC, 'exec'), m.__dict__)
    finally: sys.modules['ctypes'] = saved
    return m

# ------------------------------------------------------------------ what must reach the C interface
def want_bytes(got, s, what): must(isinstance(got, bytes), what + ' is handed over'); must(seq_eq(bts(got), sum([utf8(c) for c in cps(s)], [])), what + ' is the UTF-8 encoding of the text')
def tree(lib, h, items):
    ops = lib.ctx[h]; must(len(ops) == len(items), 'every entry reaches the context once')
    for (k, v), (kind, name, val) in zip(items, ops):
        if k is not None: want_bytes(name, k, 'a name')
        if isinstance(v, str): must(kind == 'str', 'a text is a string'); want_bytes(val, v, 'a value')
        elif isinstance(v, int): must(kind == 'int' and val == int(v), 'an integer keeps its value')
        elif isinstance(v, list): must(kind == 'arr', 'a list is an array'); tree(lib, val, [(None, x) for x in v])
        elif isinstance(v, dict): must(kind == 'sub', 'a dictionary is a sub-context'); tree(lib, val, list(v.items()))
        else: must(kind == 'filter' and (val is v or getattr(val, 'f', None) is v), 'a function is a filter')
SHAPES = 11
def context(shape, g, deep):
    a = text(1, 'key'); v = text(2 if deep else 1, 'val'); w = text(1, 'val2')
    return [{}, {a: v}, {a: 0, 'n': -2147483648, 'm': 2147483647, 'one': 1}, {'list': [v, 7, w, '']}, {a: {'m': v, 'n': 5}}, {'subs': [{'m': v}, {a: w, 'k': -1}, {}]}, {'s': {'deep': {'l': [v, {'q': w}]}}, 'after': v},
        {'e': [], 'x': {}, a: w}, {'flt': g.GshklFilterFunc(lambda x: x) if hasattr(g, 'GshklFilterFunc') else None, a: v}, {'ä': 'ö€😀', a: [w], 'b': v}, {'z': '', 'n': 0, 'sub': {'z': '', 'n': 0, 'l': ['', 0, {'z': '', 'n': 0}]}}][shape]
def program(tier):
    deep = tier == 'thorough'
    n = pick(5 if deep else 4, 'template length'); shape = pick(SHAPES, 'context'); r = pick(4 if deep else 3, 'result length')
    if shape and not deep and (n > 1 or r): raise Cut()
    lib = Lib(); g = load(lib); t = text(n, 'template'); R = text(r, 'result'); syms['_shape'] = shape
    lib.result = SymBytes(sum([utf8(c) for c in R._c], []))
    d = context(shape, g, deep); c = g.Context(d); T = g.Template(t)
    seq = [(0, 0), (0, 0)]; ts, ds, cs, Ts = [t], [d], [c], [T]
    if n <= 1 and r <= 1:                    # two further templates and contexts, rendered crosswise
        ts.append(t + 'Zß'); ds.append({a_key(): 'second', 'more': [1, 'ü'], 'val': {'m': 'x'}}); Ts.append(g.Template(ts[1])); cs.append(g.Context(ds[1])); ts.append(t + 'ßZ'); ds.append({a_key(): 'SECOND', 'more': [2, 'ö'], 'val': {'m': 'y'}}); Ts.append(g.Template(ts[2])); cs.append(g.Context(ds[2])); seq += [(1, 1), (0, 2), (2, 1), (1, 0)]
    for k, (i, j) in enumerate(seq):         # rendering again gives what the C interface returns now
        want = R if k == 0 else R + 'é' * k; lib.result = SymBytes(sum([utf8(x) for x in want._c], []))
        lib.rendered = []; out = Ts[i].render(cs[j])
        must(len(lib.rendered) == 1, 'the template is rendered once'); h, tp, sz = lib.rendered[0]
        want_bytes(tp, ts[i], 'the template'); must(sz == len(bts(tp)), 'the whole template is rendered'); tree(lib, h, list(ds[j].items()))
        must(isinstance(out, str), 'the result is a text'); must(seq_eq(cps(out), want._c), 'the text is what the C interface returned')
def a_key(): return SymStr(syms['key'])
def concrete(m):
    ev = lambda v: v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()
    return {k: (v if k[0] == '_' else ''.join(chr(ev(c)) for c in v)) for k, v in syms.items()}

# ------------------------------------------------------------------ replay with the real ctypes
SHIM = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef struct V { char s[520]; } pad; typedef union { char str[513]; void *arr; const void *sub; } var;
static FILE *o; static unsigned long n = 1; static void *mk(void) { return (void *)(0x7F0012340000ul + 0x1000ul * n++); }
static void hex(const char *s, size_t k) { fputc('x', o); for (size_t i = 0; i < k; i++) fprintf(o, "%02x", (unsigned char)s[i]); }
static void op(const char *w, const void *c) { if (!o) o = fopen(getenv("SHIM_LOG"), "w"); fprintf(o, "%s %lx ", w, (unsigned long)c); }
#define END fputc('\n', o), fflush(o)
void *gshkl_init_context(void) { void *h = mk(); op("ctx", h); END; return h; }
int gshkl_add_string(void *c, const char *k, const char *v) { op("str", c); hex(k, strlen(k)); fputc(' ', o); hex(v, strlen(v)); END; return 0; }
int gshkl_add_int(void *c, const char *k, int v) { op("int", c); hex(k, strlen(k)); fprintf(o, " %d", v); END; return 0; }
int gshkl_add_sub_context(void *c, const char *k, const void *s) { op("sub", c); hex(k, strlen(k)); fprintf(o, " %lx", (unsigned long)s); END; return 0; }
var gshkl_add_array(void *c, const char *k) { var v; memset(&v, 0, sizeof v); v.arr = mk(); op("arr", c); hex(k, strlen(k)); fprintf(o, " %lx", (unsigned long)v.arr); END; return v; }
int gshkl_add_string_to_loop(var *l, const char *v) { op("str", l->arr); fputs("- ", o); hex(v, strlen(v)); END; return 0; }
int gshkl_add_int_to_loop(var *l, int v) { op("int", l->arr); fprintf(o, "- %d", v); END; return 0; }
int gshkl_add_sub_context_to_loop(var *l, const void *s) { op("sub", l->arr); fprintf(o, "- %lx", (unsigned long)s); END; return 0; }
int gshkl_add_filter(void *c, const char *k, void *f, void *cl) { op("filter", c); hex(k, strlen(k)); fputs(" f", o); END; return 0; }
void gshkl_free_context(void *c) { op("free", c); END; }
void gshkl_filter_cleanup(char *r) { free(r); }
char *gshkl_render(const void *c, const char *t, size_t k, size_t *out) { op("render", c); hex(t, k); END; static int again; const char *h = getenv("SHIM_RESULT"); size_t m = strlen(h) / 2; char *r = malloc(m + 40); for (size_t i = 0; i < m; i++) { unsigned x; sscanf(h + 2 * i, "%2x", &x); r[i] = (char)x; } for (int i = 0; i < again; i++) { r[m++] = (char)0xc3; r[m++] = (char)0xa9; } again++; r[m] = 0; if (out) *out = m; return r; }
'''
REPLAY = r'''
import sys, os, json, ctypes
class E: pass
a = json.load(open(sys.argv[1])); real_load = ctypes.cdll.LoadLibrary; ctypes.cdll.LoadLibrary = lambda n: real_load(sys.argv[2])
oc = ctypes.CDLL; ctypes.CDLL = lambda n, *x, **k: oc(sys.argv[2])
ns = {'__name__': 'greshunkel'}; exec(compile(open(sys.argv[3]).read(), sys.argv[3], 'exec'), ns); g = type('g', (), ns)
key, v, w = a['key'], a['val'], a['val2']
flt = ns['GshklFilterFunc'](lambda x: x) if 'GshklFilterFunc' in ns else None
d = [{}, {key: v}, {key: 0, 'n': -2147483648, 'm': 2147483647, 'one': 1}, {'list': [v, 7, w, '']}, {key: {'m': v, 'n': 5}}, {'subs': [{'m': v}, {key: w, 'k': -1}, {}]}, {'s': {'deep': {'l': [v, {'q': w}]}}, 'after': v}, {'e': [], 'x': {}, key: w}, {'flt': flt, key: v}, {'ä': 'ö€😀', key: [w], 'b': v}, {'z': '', 'n': 0, 'sub': {'z': '', 'n': 0, 'l': ['', 0, {'z': '', 'n': 0}]}}][a['_shape']]
c = ns['Context'](d); T = ns['Template'](a['template'])
ts, ds, cs, Ts, seq = [a['template']], [d], [c], [T], [(0, 0), (0, 0)]
if len(ts[0]) <= 1 and len(a['result']) <= 1:
    ts.append(ts[0] + 'Zß'); ds.append({key: 'second', 'more': [1, 'ü'], 'val': {'m': 'x'}}); Ts.append(ns['Template'](ts[1])); cs.append(ns['Context'](ds[1])); ts.append(ts[0] + 'ßZ'); ds.append({key: 'SECOND', 'more': [2, 'ö'], 'val': {'m': 'y'}}); Ts.append(ns['Template'](ts[2])); cs.append(ns['Context'](ds[2])); seq += [(1, 1), (0, 2), (2, 1), (1, 0)]
for k, (i, j) in enumerate(seq):
    if Ts[i].render(cs[j]) != a['result'] + 'é' * k: print('result differs'); sys.exit(3)
ops = {}; renders = []
for l in open(os.environ['SHIM_LOG']):
    f = l.split()
    if f[0] == 'render': renders.append((f[1], f[2] if len(f) > 2 else 'x'))
    elif f[0] == 'ctx': ops.setdefault(f[1], [])
    elif f[0] != 'free': ops.setdefault(f[1], []).append((f[0], f[2], f[3])); f[0] == 'arr' and ops.setdefault(f[3], [])
hx = lambda s: 'x' + s.encode().hex()
def tree(h, items):
    o = ops[h]
    if len(o) != len(items): return 'entries'
    for (k, v), (kind, n, val) in zip(items, o):
        if k is not None and n != hx(k): return 'name'
        if isinstance(v, str): r = None if kind == 'str' and val == hx(v) else 'value'
        elif isinstance(v, int): r = None if kind == 'int' and val == str(int(v)) else 'integer'
        elif isinstance(v, list): r = tree(val, [(None, x) for x in v]) if kind == 'arr' else 'array'
        elif isinstance(v, dict): r = tree(val, list(v.items())) if kind == 'sub' else 'sub-context'
        else: r = None if kind == 'filter' else 'filter'
        if r: return r
if len(renders) != len(seq): print('renderings'); sys.exit(3)
for (h, t), (i, j) in zip(renders, seq):
    if t != hx(ts[i]): print('template differs: %s' % t); sys.exit(3)
    r = tree(h, list(ds[j].items()))
    if r: print('context differs: ' + r); sys.exit(3)
'''
def replay(vals, work):
    so = os.path.join(work, 'lib38moths.so')
    if not os.path.exists(so):
        open(os.path.join(work, 'shim.c'), 'w').write(SHIM); open(os.path.join(work, 'replay.py'), 'w').write(REPLAY)
        subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', so, os.path.join(work, 'shim.c')], check=True)
    f = os.path.join(work, 'in.json'); json.dump(vals, open(f, 'w'))
    env = dict(os.environ, SHIM_LOG=os.path.join(work, 'log'), SHIM_RESULT=vals['result'].encode().hex(), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    try: p = subprocess.run(['python3', os.path.join(work, 'replay.py'), f, so, SRC], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=env)
    except subprocess.TimeoutExpired: return False, 'hang'
    return p.returncode == 0, ('exit %d: ' % p.returncode) + p.stdout.decode(errors='replace')[-300:].strip()

def main():
    global cur, syms
    ap = argparse.ArgumentParser(); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true'); a = ap.parse_args(); tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time(); limit = 400 if tier == 'quick' else 3600
    todo = [[]]; paths = 0; fails = []; notes = []; samples = []; validated = 0; seen = set(); incomplete = {}
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True); work = tempfile.mkdtemp(prefix='w_B01_', dir=os.path.join(ROOT, 'build'))
    try:
        while todo:
            if time.time() - t0 > limit: incomplete['time limit'] = 1; break
            cur = St(todo.pop()); syms = {}
            msg = None
            try: program(tier)
            except Cut: continue
            except Fail as e: msg = e.msg
            except Unsupported as e: incomplete[str(e)] = incomplete.get(str(e), 0) + 1; todo += cur.todo; continue
            except Exception as e: msg = 'the binding raises %s: %s' % (type(e).__name__, e)
            todo += cur.todo; paths += 1
            if 'template' not in syms or 'result' not in syms or 'key' not in syms: 
                if msg: vals = {'template': '', 'result': '', 'key': 'k', 'val': 'vv', 'val2': 'w', '_shape': 0}
            if msg is None and paths % 97 != 1: continue
            if not cur.s.check() == z3.sat: continue
            if 'key' in syms: vals = concrete(cur.s.model())
            if msg is None:
                ok, how = replay(vals, work); validated += ok
                if not ok: notes.append('passing path does not pass natively: %s %s' % (how, vals))
                if len(samples) < 6: samples.append({'path': cur.names, 'inputs': vals})
            elif msg not in seen:
                ok, how = replay(vals, work)
                if ok: notes.append('counterexample not reproduced: %s %s' % (msg, vals))
                else: seen.add(msg); fails.append({'msg': msg, 'inputs': vals, 'native': how})
                if len(fails) >= 4: break
    finally: shutil.rmtree(work, ignore_errors=True)
    names = sorted({n.name if hasattr(n, 'name') else '' for n in __import__('ast').walk(__import__('ast').parse(open(SRC).read())) if n.__class__.__name__ in ('FunctionDef', 'ClassDef')})
    cov = {'states': paths, 'transitions': stats['branches'], 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no path completed'}], 'functions_encoded': ['python/greshunkel.py: ' + n for n in names],
        'bounds': ['templates of 0..%d arbitrary code points (0..1 with a non-empty context in the quick tier), results of 0..%d (0 there), eleven context shapes with arbitrary keys (1 code point) and values (1, thorough 2), two renderings; with templates and results of 0..1 also two further templates and contexts, rendered crosswise, the C interface returning another text each time' % ((4, 3) if tier == 'thorough' else (3, 2))],
        'solver': {'queries': stats['queries'], 'sat': stats['sat'], 'unsat': stats['unsat'], 'unknown': stats['unknown'], 'time_s': round(stats['time'], 2), 'max_query_s': round(stats['max'], 3)}, 'assertions_evaluated': stats['asserts'], 'incomplete': incomplete, 'exhaustive': not incomplete and not notes, 'notes': notes[:10]}
    ev = {'property': 'B01', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'coverage': cov, 'assumptions': ['ctypes hands over what its documentation says (checked on sampled paths with the real ctypes)', 'no NUL and no surrogate code points'], 'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(ROOT, 'evidence', 'B01.json'), 'w'), indent=1)
    for n in notes: print('note: ' + n, file=sys.stderr)
    if incomplete: print('note: incomplete: %s' % incomplete, file=sys.stderr)
    print('B01: %d paths, %d branch decisions, %d solver queries (%.1f s), %d paths replayed, %.1f s' % (paths, stats['branches'], stats['queries'], stats['time'], validated, time.time() - t0))
    rd = os.path.join(ROOT, 'build', 'replays'); os.makedirs(rd, exist_ok=True)
    for i, f in enumerate(fails):
        p = os.path.join(rd, 'B01-%d.json' % i); json.dump(f, open(p, 'w'), indent=1); print('  %s\n    native: %s\n    inputs: %s' % (f['msg'], f['native'], json.dumps(f['inputs']))); print('VIOLATION property=B01 replay=%s' % p)
    return 1 if fails else 0
if __name__ == '__main__': sys.exit(main())
