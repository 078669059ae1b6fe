"""Trusted contracts of libc and system calls used by /repo (everything here is
part of the trusted base).  Each returns a list of (state, value); failing
branches set errno and the ghost flag 'sysfail'."""
import z3
from sym import *
import sym

NEG1 = (1 << 32) - 1
NEG1L = (1 << 64) - 1

def errno_set(eng, st, vals=None, clobber=False):
    e = fresh('errno')
    st.add(z3.And(e >= 1, e <= 133) if vals is None else z3.Or(*[e == v for v in vals]))
    w = st.wreg('errno'); w.cells[0] = (4, e)
    return e
def fail(eng, st, rv, vals=None, note=None):
    s = st.fork(); s.w['sysfail'] = True
    if note: s.w[note] = True
    errno_set(eng, s, vals)
    s.trace = s.trace + (('fail', note or '', eng.curline(st)),)
    return (s, rv)

def log(eng, st, av, args, ins):
    # logging may change errno
    if 'errno' in st.mem: errno_set(eng, st)
    n = fresh('log'); st.add(z3.And(n >= 0, n < 1 << 31))
    return [(st, n)]
def strerror(eng, st, av, args, ins):
    return [(st, Ptr('EXT', 0))]
def errno_location(eng, st, av, args, ins):
    return [(st, Ptr('errno', 0))]
def memcpy(eng, st, av, args, ins):
    eng.memcpy(st, av[0], av[1], av[2]); return [(st, av[0])]
def memset(eng, st, av, args, ins):
    eng.memset(st, av[0], av[1], av[2]); return [(st, av[0])]
def memcmp(eng, st, av, args, ins):
    n = simp(toint(av[2]))
    if not isc(n):
        return eng.spec.memcmp(eng, st, av, n)
    a = eng.bytes_of(st, av[0], n, 'memcmp'); b = eng.bytes_of(st, av[1], n, 'memcmp')
    if any(isinstance(x, Undef) for x in a + b):
        eng.fail(st, ('P15',), 'memcmp of uninitialised bytes')
        r = fresh('cmp'); st.add(z3.And(r >= 0, r < 1 << 32)); return [(st, r)]
    eq = simp(And(*[simp(Eq(x, y)) for x, y in zip(a, b)]))
    r = fresh('cmp'); st.add(z3.And(r >= 0, r < 1 << 32)); st.add(zb(eq) == (r == 0))
    return [(st, r)]
def malloc_(eng, st, size, default, name='heap'):
    rn = eng.spec.alloc(eng, st, size, default)
    if rn is None:
        rn = eng.newreg(st, name, size, default)
        r = st.mem[rn]
        if not isc(size):
            eng.addpart(r, rn, 0, 1, size, {0: (1, 'int')})
    st.mem[rn].kind = 'heap'
    st.w['heap'] = st.w.get('heap', ()) + (rn,)
    return Ptr(rn, 0)
def malloc(eng, st, av, args, ins):
    f = fail(eng, st, NULL, [12])
    return [(st, malloc_(eng, st, simp(toint(av[0])), 'undef')), f]
def calloc(eng, st, av, args, ins):
    f = fail(eng, st, NULL, [12])
    a, b = simp(toint(av[0])), simp(toint(av[1]))
    if not isc(a) and not isc(b): raise Unsupported('calloc')
    n, k = (a, b) if isc(b) else (b, a)
    tot = n * k if isc(n) else lmul(n, k)
    if not isc(tot):
        # calloc fails on overflow
        st.add(tot < (1 << 63))
        if not eng.feasible(st): return [f]
    rn = eng.spec.alloc(eng, st, tot, 'zero', (n, k))
    if rn is None:
        rn = eng.newreg(st, 'heap', tot, 'zero')
        if not isc(n): raise Unsupported('calloc of unknown record')
    st.mem[rn].kind = 'heap'
    st.w['heap'] = st.w.get('heap', ()) + (rn,)
    return [(st, Ptr(rn, 0)), f]
def realloc(eng, st, av, args, ins):
    return eng.spec.realloc(eng, st, av, ins)
def free(eng, st, av, args, ins):
    p = eng.pick(st, av[0])
    if p.r is None: return [(st, None)]
    ok = p.r in st.w.get('heap', ()) and st.mem[p.r].alive and (isc(p.o) and p.o == 0 or eng.valid(st, Eq(p.o, 0)))
    eng.oblige(st, ('P15', 'P19'), 'free of a live heap block, once', bool(ok))
    if not ok: raise PathEnd()
    st.wreg(p.r).alive = False
    st.w['heap'] = tuple(x for x in st.w['heap'] if x != p.r)
    return [(st, None)]
def va_start(eng, st, av, args, ins):
    p = eng.pick(st, av[0]); fr = st.fr
    n = 0
    for t, _ in fr.f.params: n += 1
    w = st.wreg(p.r)
    ov = eng.newreg(st, 'va_overflow', 1 << 20); rs = eng.newreg(st, 'va_regs', 48)
    st.fr.allocas += [ov, rs]
    eng.setcell(w, 0, 4, 8 * n); eng.setcell(w, 4, 4, 48)
    eng.setcell(w, 8, 8, Ptr(ov, 0)); eng.setcell(w, 16, 8, Ptr(rs, 0))
    a = 8 * n; o = 0
    for v in fr.va:
        if a < 48: st.wreg(rs).cells[a] = (8, v); a += 8
        else: st.wreg(ov).cells[o] = (8, v); o += 8
    return [(st, None)]
def nop(eng, st, av, args, ins): return [(st, None)]
def getpid(eng, st, av, args, ins):
    return [(st, eng.spec.mypid(eng, st))]
def strlen(eng, st, av, args, ins):
    return eng.spec.strlen(eng, st, av[0])

# ---- descriptors
def newfd(eng, st, kind, attr=None):
    fd = fresh('fd')
    st.add(z3.And(fd >= 0, fd < (1 << 20)))
    for (f, k, a) in st.w.get('fds', ()):
        st.add(Not(Eq(fd, f)))
    eng.spec.newfd(eng, st, fd)
    st.w['fds'] = st.w.get('fds', ()) + ((fd, kind, attr),)
    return fd
def findfd(eng, st, fd):
    fd = toint(fd)
    for e in st.w.get('fds', ()):
        if same(e[0], fd): return e
    for e in st.w.get('fds', ()):
        d = eng.decide(st, Eq(e[0], fd))
        if d is True: return e
        if d is None: raise Fork(zb(simp(Eq(e[0], fd))))
    return None
def close(eng, st, av, args, ins):
    r = eng.spec.close(eng, st, av[0])
    if r is not None: return r
    e = findfd(eng, st, av[0])
    eng.oblige(st, ('P19',), 'close of an open descriptor owned by this library, once', e is not None)
    if e is None: raise PathEnd()
    st.w['fds'] = tuple(x for x in st.w['fds'] if x is not e)
    eng.spec.closed(eng, st, e)
    return [(st, 0)]

TABLE = {
    'fprintf': log, 'printf': log, 'strerror': strerror, '__errno_location': errno_location,
    'llvm.memcpy.p0.p0.i64': memcpy, 'llvm.memmove.p0.p0.i64': memcpy, 'llvm.memset.p0.i64': memset,
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'memcmp': memcmp, 'bcmp': memcmp,
    'malloc': malloc, 'calloc': calloc, 'realloc': realloc, 'free': free,
    'llvm.va_start': va_start, 'llvm.va_end': nop, 'llvm.va_start.p0': va_start, 'llvm.va_end.p0': nop,
    'getpid': getpid, 'strlen': strlen, 'close': close,
}

class Spec:
    """defaults"""
    fn = '?'
    keep = False
    unrolls = 3           # iterations tried before a loop is cut
    memtags = ()          # properties that memory safety also belongs to
    ghost_havoc = {}      # ghost variables with a conservative value at loop heads
    def urem(self, eng, st, a, b): return None
    def on_access(self, eng, st, p, size, write): pass
    def on_store(self, eng, st, r, part, off, size, v): pass
    def after_store(self, eng, st, rn, part, off, size, v): pass
    def on_bytes(self, eng, st, r, loc, off, n): pass
    def after_bytes(self, eng, st, rn, loc, off, n): pass
    def extglobal(self, eng, st, name): return Ptr('EXT', 0)
    def globalinit(self, name, const): return True
    def contract(self, eng, st, name): return None
    def unroll(self, key): return True
    def havocpart(self, eng, st, sh, k, it): return None
    def cands_ready(self, eng, st, sh, cands, it, mods): pass
    def exact(self, eng, k, cands): return None
    def loop_assume(self, eng, st, it): pass
    def templates(self, eng, st, k): return []
    def ignore_region(self, rn): return rn.startswith('va_')
    def cands(self, eng, st, mods): return []
    def terms(self, eng, st, v0): return []
    def gterms(self, eng, st): return []
    def guards(self, eng, st): return []
    def nullterms(self, eng, st): return []
    def bounds(self, eng, st): return []
    def alloc(self, eng, st, size, default, nk=None): return None
    def newfd(self, eng, st, fd): pass
    def close(self, eng, st, fd): return None
    def closed(self, eng, st, e): pass
    def finish(self, eng): pass
    def mypid(self, eng, st): return self.PID
    def base_state(self, eng):
        st = State()
        r = Reg('errno', 4, 'sym'); st.mem['errno'] = r
        self.PID = z3.Int('mypid'); st.add(z3.And(self.PID > 0, self.PID < 1 << 22))
        st.mem['EXT'] = Reg('EXT', 0, kind='opaque')
        st.w.update(sysfail=False, heap=(), fds=())
        return st
