"""Ghost view of a shr ring and the contracts of src/shr.c.

History view: messages are numbered; message k occupies absolute byte positions
[B(k), B(k+1)); byte at absolute position x is C(x).  Both are append-only
ghost functions.  Representation invariant RI(ring, B, C) with tail T = q+mp,
E = B(T):  see acquire() (assumed) and release() (proved)."""
import z3
from sym import *
import libc
from libc import Spec, fail, NEG1, NEG1L, errno_set

RDONLY, WRONLY, NONBLOCK, BUFFERED = 13, 14, 15, 16
DROP, FARM, SYNC, MLOCK = 1, 3, 5, 6
HF = ['i', 'u', 'm', 'mp', 'r', 'e', 'q']
STATS = ['bw', 'br', 'mw', 'mr', 'md', 'bd']
BIG = 1 << 60
Z = lambda x: z3.IntVal(x) if isc(x) else x

def mono(strict=True, strict_upto=None):
    def pair(a, t, b, u):
        a, b = a[0], b[0]
        d = lsub(b, a)
        if isc(d):
            if d == 0: return True
            if d > 0: return u - t >= (d if strict else 0)
            return t - u >= (-d if strict else 0)
        up = u - t >= (d if strict else 0); dn = t - u >= (-d if strict else 0)
        return z3.And(z3.Implies(d >= 0, up), z3.Implies(d <= 0, dn))
    return pair

class Hist:
    """(B, C) as closures; tail index T, end position E"""
    def __init__(self, B, C): self.B, self.C = B, C

class Acq:
    """snapshot of the ring at lock acquisition"""
    pass

class RingSpec(Spec):
    has_iov = False
    role = None
    ghost_havoc = {'last': None, 'slept': True, 'lastread': None, 'dirty': True}
    def offs(self, eng):
        M = eng.m.members
        self.RF = {k: v for k, v in M['shr_ctrl'].items()}
        self.SF = {k: v for k, v in M['shr'].items()}
        self.ringsz = eng.m.size(Ty_named(eng, '%struct.shr_ctrl'))
        self.OFFD = self.RF['d'][0]
        self.MS = M['msg']

    # ---------------- construction
    def mkring(self, eng, st):
        n, mm, pad, app = [z3.Int(x) for x in ('ring_n', 'ring_mm', 'ring_pad', 'ring_app')]
        self.n, self.mm, self.pad, self.app = n, mm, pad, app
        st.add(z3.And(n >= 1, mm >= 1, pad >= 0, pad < 8, app >= 0, n < BIG, mm < BIG // 16, app < BIG))
        self.padk = z3.Int('padk')
        st.add(n + pad == 8 * self.padk)
        self.stsize = z3.Int('st_size')
        self.gf = Bits(32, [z3.Bool('g%d' % i) if i in (DROP, FARM, SYNC, MLOCK) else False for i in range(32)])
        st.add(z3.Implies(self.gf.b[FARM], self.gf.b[DROP]))
        end = ladd(ladd(ladd(n, pad), lmul(mm, 16)), ladd(app, self.OFFD))
        st.add(z3.And(self.stsize >= end, self.stsize < BIG * 4))
        r = Reg('ring', self.stsize, 'undef'); r.kind = 'ring'
        st.mem['ring'] = r
        mg = eng.m.globals['@magic'][1][1]
        self.MV_EL = eng.m.size(Ty_named(eng, '%struct.msg'))
        # the prefix functions
        self.B = Fn('B', 1, pair=mono(True))
        self.C = Fn('C', 1, rng=(0, 256))
        self.APP = Fn('APP', 1, rng=(0, 256))
        self.H0 = Hist(lambda s, k: self.B(s, k), lambda s, x: self.C(s, x))
        c = r.cells
        def put(name, v):
            o, sz = self.RF[name]; c[o] = (sz, v)
        put('gflags', self.gf); put('n', n); put('mm', mm); put('pad_len', pad); put('mv_len', lmul(mm, 16)); put('app_len', app)
        self.immut = {self.RF[x][0]: x for x in ('magic', 'gflags', 'n', 'mm', 'pad_len', 'mv_len', 'app_len')}
        eng.addpart(r, 'magic', 0, 1, len(mg), {0: (1, 'int')}, {0: eng.conststr(mg)})
        eng.addpart(r, 'ring data', self.OFFD, 1, n, {0: (1, 'int')}, {0: lambda s, i: UNDEF})
        # application data is byte addressed: placed before mv so that mv is tried first
        eng.addpart(r, 'app data', ladd(ladd(ladd(n, pad), lmul(mm, 16)), self.OFFD), 1, app, {0: (1, 'int')}, {0: lambda s, i: self.APP(s, i)})
        eng.addpart(r, 'message slots', ladd(ladd(n, pad), self.OFFD), self.MV_EL, mm, {self.MS['pos'][0]: (8, 'int'), self.MS['len'][0]: (8, 'int')},
                    {self.MS['pos'][0]: lambda s, i: UNDEF, self.MS['len'][0]: lambda s, i: UNDEF})
        self.PI = {'magic': 0, 'D': 1, 'APP': 2, 'MV': 3}
        self.fill_ring(eng, st)
        self.ring0 = st.mem['ring']
        st.w.update(lock=False, acq=None, eff=(), woke_w2r=False, woke_r2w=False, try_w2r=False, try_r2w=False,
                    force=None, slept=False, pollfd=False, nacq=0, last=None, lastread=None, msyncfail=False, lockfail=False, synced=False, dirty=False, waitfail=False)
    def wrapmm(self, e): return z3.If(e >= self.mm, e - self.mm, e)
    def pos(self, a, x):
        """ring offset of absolute position x (E-n <= x <= E)"""
        d = lsub(a.E, x)
        return z3.If(d <= a.i, a.i - d, a.i - d + self.n)
    def fill_ring(self, eng, st):
        """fresh ring contents satisfying RI"""
        a = Acq(); n, mm = self.n, self.mm
        for f in HF: setattr(a, f, fresh('r_' + f))
        for f in STATS: setattr(a, 's_' + f, fresh('s_' + f))
        a.T = ladd(a.q, a.mp); a.R = lsub(a.T, a.m); a.H = self.H0
        for f in STATS: st.add(z3.And(getattr(a, 's_' + f) >= 0, getattr(a, 's_' + f) < BIG))
        st.add(z3.And(a.mp >= 0, a.mp <= mm, a.m >= 0, a.m <= a.mp, a.e >= 0, a.e < mm, a.i >= 0, a.i < n, a.q >= 0, a.q < BIG))
        st.add(a.r == self.wrapmm(a.e + a.mp - a.m))
        st.add(z3.Implies(self.gf.b[FARM], z3.Implies(a.mp > 0, a.m > 0)))
        a.E = self.B(st, a.T)
        st.add(z3.And(a.E >= 0, a.E < BIG))
        a.Bq = self.B(st, a.q); a.BR = self.B(st, a.R)
        st.add(a.E - a.Bq <= n); st.add(a.Bq >= 0)
        st.add(a.u == a.E - a.BR)
        def mvhook(s, args, t):
            slot = args[0]
            dist = z3.If(slot >= a.e, slot - a.e, slot - a.e + mm) if not isc(slot) else z3.If(a.e <= slot, slot - a.e, slot - a.e + mm)
            k = self.seqof(eng, s, a, slot, dist)
            return k, dist
        def posf(s, args, t):
            k, dist = mvhook(s, args, t)
            s.add(z3.Implies(z3.And(args[0] >= 0, args[0] < mm, dist < a.mp), t == self.pos(a, self.B(s, k))))
        def lenf(s, args, t):
            k, dist = mvhook(s, args, t)
            s.add(z3.Implies(z3.And(args[0] >= 0, args[0] < mm, dist < a.mp), t == self.B(s, ladd(k, 1)) - self.B(s, k)))
        a.MVP = Fn('mvpos', 1, posf, rng=(0, 1 << 64)); a.MVL = Fn('mvlen', 1, lenf, rng=(0, 1 << 64))
        def dhook(s, args, t):
            o = args[0]
            x = self.absof(a, o)
            s.add(z3.Implies(z3.And(o >= 0, o < n, x >= a.Bq, x < a.E), t == self.C(s, x)))
        a.D = Fn('D', 1, dhook, rng=(0, 256))
        r = st.wreg('ring')
        for f in HF: r.cells[self.RF[f][0]] = (8, getattr(a, f))
        for f in STATS: r.cells[self.RF['stat.' + f][0]] = (8, getattr(a, 's_' + f))
        for f, (o, sz) in self.RF.items():
            if f.startswith('stat.') and f[5:] not in STATS and f not in ('stat.start',):
                v = fresh(f); st.add(z3.And(v >= 0, v < (1 << (8 * sz)))); r.cells[o] = (sz, v)
                setattr(a, 's_' + f[5:].replace('.', '_'), v)
        P = r.parts
        P[self.PI['D']] = P[self.PI['D']].with_(0, lambda s, i: a.D(s, i))
        P[self.PI['MV']] = P[self.PI['MV']].with_(self.MS['pos'][0], lambda s, i: a.MVP(s, i)).with_(self.MS['len'][0], lambda s, i: a.MVL(s, i))
        a.reg = r
        return a
    def absof(self, a, o):
        return z3.If(zb(o < a.i) if not (isc(o) and isc(a.i)) else zb(o < a.i), a.E - (a.i - o), a.E - (a.i - o + self.n))
    def seqof(self, eng, s, a, slot, dist):
        """sequence number stored in a slot; keeps terms linear when the slot is wrapmm(e+j)"""
        d = eng.decide(s, zb(slot >= a.e)) if not isc(slot) else eng.decide(s, zb(a.e <= slot))
        if d is True: return ladd(a.q, lsub(slot, a.e))
        if d is False: return ladd(a.q, ladd(lsub(slot, a.e), self.mm))
        return simp(a.q + dist)

    def mkhandle(self, eng, st, role):
        """a valid open handle (role 'r' or 'w')"""
        self.role = role
        b = [False] * 12 + [z3.Bool('f%d' % k) for k in range(12, 32)]
        b[RDONLY] = role == 'r'; b[WRONLY] = role == 'w'
        self.flags = Bits(32, b)
        rn = 's'
        r = Reg(rn, eng.m.size(Ty_named(eng, '%struct.shr')), 'undef', kind='heap'); st.mem['s'] = r
        st.w['heap'] = ('s',)
        c = r.cells; F = self.SF
        def put(name, v): c[F[name][0]] = (F[name][1], v)
        self.ringfd, self.waitfd = z3.Int('ring_fd'), z3.Int('wait_fd')
        st.add(z3.And(self.ringfd >= 0, self.ringfd < 1 << 20))
        put('ring_fd', self.ringfd)
        put('flags', self.flags); put('buf', Ptr('ring', 0)); put('n', self.n); put('mm', self.mm)
        for f, (o, sz) in F.items():
            if f.startswith('s.') and '.' not in f[2:] and sz <= 8:
                v = z3.Int(f); st.add(z3.And(v >= 0, v < (1 << (8 * sz)))); c[o] = (sz, v)
        put('s.st_size', self.stsize)
        self.hq, self.hmd = z3.Int('h_q'), z3.Int('h_md')
        st.add(z3.And(self.hq >= 0, self.hq < BIG, self.hmd >= 0, self.hmd < BIG))
        put('q', self.hq); put('md', self.hmd)
        for nm in ('w2r', 'r2w'):
            st.mem['bw_' + nm] = Reg('bw_' + nm, 0, kind='opaque')
            st.mem['bw_' + nm].attr.update(line=nm)
        nb, dr = self.flags.b[NONBLOCK], self.gf.b[DROP]
        fds = [(self.ringfd, 'ring', None)]
        self.r2wnull = z3.Bool('r2w_null')
        if role == 'r':
            st.mem['bw_w2r'].attr['mode'] = 'wait'; st.mem['bw_r2w'].attr['mode'] = 'wake'
            put('w2r', Ptr('bw_w2r', 0)); put('r2w', Ptr('bw_r2w', 0))
            st.add(z3.And(self.waitfd >= 0, self.waitfd < 1 << 20, self.waitfd != self.ringfd))
            st.w['bwopen'] = ('bw_w2r', 'bw_r2w')
        else:
            st.mem['bw_w2r'].attr['mode'] = 'wake'; st.mem['bw_r2w'].attr['mode'] = 'wait'
            put('w2r', Ptr('bw_w2r', 0)); put('r2w', CondPtr(self.r2wnull, NULL, Ptr('bw_r2w', 0)))
            st.add(z3.Implies(z3.And(z3.Not(nb), z3.Not(dr)), z3.Not(self.r2wnull)))
            st.w['bwopen'] = ('bw_w2r', 'bw_r2w')
        put('wait_fd', simp(z3.If(self.waitfd < 0, self.waitfd + (1 << 32), self.waitfd)) if role == 'w' else self.waitfd)
        if role == 'w': st.add(z3.And(self.waitfd >= -1, self.waitfd < 1 << 20))
        st.w['fds'] = tuple(fds)
        # write cache
        self.csz, self.cn, self.cvt, self.cvm = [z3.Int(x) for x in ('c_sz', 'c_n', 'c_vt', 'c_vm')]
        if role == 'w':
            buf = self.flags.b[BUFFERED]
            st.add(z3.And(self.csz >= 0, self.cn >= 0, self.cn <= self.csz, self.csz <= self.n, self.cvt >= 0, self.cvt <= self.mm, self.cvm >= 0, self.cvm <= self.cvt))
            st.add(z3.Implies(z3.Not(buf), z3.And(self.csz == 0, self.cvt == 0)))
            st.add(z3.Implies(buf, z3.And(self.csz >= 1, self.cvt >= 1)))
            self.SC = Fn('SC', 1, pair=mono(True))
            self.CB = Fn('CB', 1, rng=(0, 256))
            st.add(self.SC(st, 0) == 0); st.add(self.SC(st, self.cvm) == self.cn)
            rb = Reg('cbuf', self.csz, 'undef', kind='heap'); st.mem['cbuf'] = rb
            eng.addpart(rb, 'write buffer', 0, 1, self.csz, {0: (1, 'int')}, {0: lambda s, i: self.CB(s, i)})
            ri = Reg('ciov', lmul(self.cvt, 16), 'undef', kind='heap'); st.mem['ciov'] = ri
            eng.addpart(ri, 'buffered message table', 0, 16, self.cvt, {0: (8, 'ptr'), 8: (8, 'int')},
                        {0: lambda s, k: Ptr('cbuf', self.SC(s, k)), 8: lambda s, k: self.SC(s, ladd(k, 1)) - self.SC(s, k)})
            st.w['heap'] += ('cbuf', 'ciov')
            nb_ = z3.Not(buf)
            put('c.buf', CondPtr(nb_, NULL, Ptr('cbuf', 0))); put('c.iov', CondPtr(nb_, NULL, Ptr('ciov', 0)))
            put('c.sz', self.csz); put('c.n', self.cn); put('c.vt', self.cvt); put('c.vm', self.cvm)
        else:
            put('c.buf', NULL); put('c.iov', NULL)
            for x in ('c.sz', 'c.n', 'c.vt', 'c.vm'): put(x, 0)
        st.w.update(flushed=False, flushfail=False, flushzero=False, nflush=0, effsync=None, flushed_before=False)
        if role == 'w': self.cbuf0, self.ciov0 = st.mem['cbuf'], st.mem['ciov']
        self.s0 = st.mem['s']
    def sget(self, eng, st, name):
        o, sz = self.SF[name]
        return eng.cell(st, st.mem['s'], o, sz)
    def rget(self, eng, st, name):
        o, sz = self.RF[name]
        return eng.cell(st, st.mem['ring'], o, sz)

    # ---------------- user vectors
    def mkiov(self, eng, st, niov, zero=None, name='uiov'):
        """caller's iovec: element k has base user+UB(k), length L(k); S = prefix sums"""
        self.has_iov = True; self.niov = niov
        self.UB = Fn('UB', 1, rng=(0, 1 << 50)); self.UM = Fn('UM', 1, rng=(0, 256))
        def lh(s, a, t):
            k = a[0]
            if zero is not None:
                s.add(zb(simp(Implies(zb(zero > k), t >= 1)))); s.add(zb(simp(Implies(zb(Eq(k, zero)), t == 0))))
            s.add(self.S(s, ladd(k, 1)) == self.S(s, k) + t)
        self.L = Fn('L', 1, lh, rng=(1 if zero is None else 0, (1 << 64) - 1))
        self.zero = zero
        sh = None
        if zero is None: pr = mono(True)
        else: pr = mono(False)
        self.S = Fn('S', 1, sh, pair=pr)
        st.add(self.S(st, 0) == 0)
        def jh(s, a, t):
            y = a[0]
            s.add(z3.Implies(z3.And(y >= 0, y < self.S(s, niov)), z3.And(t >= 0, t < niov, self.S(s, t) <= y, y < self.S(s, t + 1))))
        self.J = Fn('J', 1, jh)
        u = Reg('user', 1 << 62, 'undef'); st.mem['user'] = u
        eng.addpart(u, 'caller data', 0, 1, 1 << 62, {0: (1, 'int')}, {0: lambda s, i: self.UM(s, i)})
        v = Reg(name, lmul(niov, 16), 'undef'); st.mem[name] = v
        eng.addpart(v, 'caller iovec', 0, 16, niov, {0: (8, 'ptr'), 8: (8, 'int')},
                    {0: lambda s, k: Ptr('user', self.UB(s, k)), 8: lambda s, k: self.L(s, k)})
        u.ro = True; v.ro = True
        st.add(z3.And(niov >= 0, niov < 1 << 58))
    def srcbyte(self, s, y):
        """byte y of the concatenated batch"""
        j = self.J(s, y)
        return self.UM(s, self.UB(s, j) + y - self.S(s, j))
    def appended(self, a):
        """history after appending the whole batch"""
        def B1(s, k):
            d = lsub(k, a.T)
            return z3.If(zb(simp(zb(d <= 0))), self.B(s, k), a.E + self.S(s, d)) if not isc(d) else (self.B(s, k) if d <= 0 else a.E + self.S(s, d))
        def C1(s, x): return z3.If(x < a.E, self.C(s, x), self.srcbyte(s, lsub(x, a.E)))
        return Hist(B1, C1)
    def src_check(self, eng, st, off, n):
        """copying from the caller's data stays inside one element"""
        d, k = lin(off)
        idx = [x.arg(0) for c, x in d.values() if x.decl().name() == self.UB.key]
        ok = False
        for j in idx:
            g = z3.And(off >= self.UB(st, j), off + n <= self.UB(st, j) + self.L(st, j))
            if eng.valid(st, g): ok = True
        if not ok:
            eng.oblige(st, ('P15', 'P01'), 'copy reads only the element given by the caller', z3.Or(*[z3.And(off >= self.UB(st, j), off + n <= self.UB(st, j) + self.L(st, j)) for j in idx]) if idx else False)

    # ---------------- locking discipline
    def on_access(self, eng, st, p, size, write):
        if p.r == 'ring' and not st.w['lock'] and not self.prelock:
            o = simp(p.o)
            if isc(o) and o in self.immut and not write: return
            if isc(o) and o == 0 and not write: return
            eng.fail(st, ('P07',), 'changing ring state is accessed only under the lock')
        if p.r == 'user' and self.has_iov and not write and size is not None and not (isc(size) and size == 0):
            self.src_check(eng, st, p.o, size)
        if p.r == 'ring' and write:
            st.w['dirty'] = True
    prelock = False
    # ---------------- stores that must keep a killed writer harmless
    crashsafe = False
    def on_store(self, eng, st, r, part, off, size, v):
        if not self.crashsafe or r.name != 'ring' or not st.w['lock']: return
        a = st.w['acq']
        O = lambda nm, f: eng.oblige(st, ('P24',), nm, Or(self.gf.b[DROP], f))
        if part is None:
            for f, (o, sz) in self.RF.items():
                if o == off and sz == size: break
            else: return
            if f == 'r': O('crash: the read slot stays on the oldest unread message', Eq(toint(v), a.r))
            if f == 'm': self.commit(eng, st, a, toint(v))
            return
        pi, idx = part[0], part[1]
        if pi == self.PI['MV']:
            d = simp(z3.If(zb(idx >= a.r), Z(idx) - a.r, Z(idx) - a.r + self.mm))
            O('crash: no slot of an unread message is overwritten', Z(d) >= a.m)
        elif pi == self.PI['D']: self.crashbytes(eng, st, a, idx, size)
        else: O('crash: application data and signature are not touched', False)
    def on_bytes(self, eng, st, r, loc, off, n):
        if not self.crashsafe or r.name != 'ring' or not st.w['lock']: return
        a = st.w['acq']
        if loc is None or loc[0] != self.PI['D']:
            eng.oblige(st, ('P24',), 'crash: only free data area is overwritten', self.gf.b[DROP]); return
        self.crashbytes(eng, st, a, loc[1], n)
    def crashbytes(self, eng, st, a, o, n):
        rel = simp(z3.If(zb(o >= a.i), Z(o) - a.i, Z(o) - a.i + self.n))
        eng.oblige(st, ('P24',), 'crash: no byte of an unread message is overwritten', Or(self.gf.b[DROP], zb(Z(rel) + Z(n) <= self.n - a.u)))
    def commit(self, eng, st, a, m1):
        """a store to the unread count: nothing new, or the whole batch, already complete"""
        if eng.valid(st, Eq(m1, a.m)): return
        if not self.has_iov or not eng.oblige(st, ('P24',), 'crash: the messages of a batch become readable together', Or(self.gf.b[DROP], Eq(m1, a.m + self.niov))): return
        if eng.only not in (None, 'P24'): return
        H = self.appended(a)
        s = st.fork(); s.model = None; j = fresh('j'); s.add(zb(Not(self.gf.b[DROP]))); s.add(z3.And(j >= 0, j < a.m + self.niov))
        if eng.feasible(s):
            k = ladd(a.R, j); slot = ladd(a.r, j)
            c = eng.decide(s, slot < self.mm)
            slot = slot if c is True else (lsub(slot, self.mm) if c is False else z3.If(slot < self.mm, slot, slot - self.mm))
            P = s.mem['ring'].parts[self.PI['MV']]
            pv = P.val[self.MS['pos'][0]](s, slot); lv = P.val[self.MS['len'][0]](s, slot)
            b0, b1 = H.B(s, k), H.B(s, ladd(k, 1))
            x = lsub(a.i, lsub(a.E, b0)); at = z3.If(x >= self.n, x - self.n, z3.If(x < 0, x + self.n, x))
            eng.oblige(s, ('P24',), 'crash: every message made readable has its position in place', Eq(toint(pv), at) if not isinstance(pv, Undef) else False)
            eng.oblige(s, ('P24',), 'crash: every message made readable has its length in place', Eq(toint(lv), b1 - b0) if not isinstance(lv, Undef) else False)
        s = st.fork(); s.model = None; y = fresh('y'); s.add(zb(Not(self.gf.b[DROP]))); s.add(z3.And(y >= 0, y < a.u + self.S(s, self.niov)))
        if eng.feasible(s):
            x = ladd(a.BR, y); o = lsub(a.i, lsub(a.E, x))
            c, d = eng.decide(s, o >= self.n), eng.decide(s, o < 0)
            o = lsub(o, self.n) if c is True else (ladd(o, self.n) if d is True else (o if c is False and d is False else z3.If(o >= self.n, o - self.n, z3.If(o < 0, o + self.n, o))))
            v = s.mem['ring'].parts[self.PI['D']].val[0](s, o)
            eng.oblige(s, ('P24',), 'crash: every byte made readable is in place', Eq(v, H.C(s, x)) if not isinstance(v, Undef) else False)
    def acquire(self, eng, st):
        a = self.fill_ring(eng, st)
        st.w.update(lock=True, acq=a, woke_w2r=False, woke_r2w=False, try_w2r=False, try_r2w=False, force=None, synced=False, dirty=False)
        if 's' in st.mem:
            a.sq = self.sget(eng, st, 'q'); a.smd = self.sget(eng, st, 'md')
            if self.role == 'r':
                st.add(z3.Implies(self.gf.b[FARM], toint(a.sq) <= a.T))
        a.line = eng.curline(st)
        self.on_acquire(eng, st, a)
    def on_acquire(self, eng, st, a): pass

    def fcntl(self, eng, st, av, args, ins):
        fd, cmd, p = toint(av[0]), simp(toint(av[1])), av[2]
        isring = eng.decide(st, Eq(fd, self.ringfd)) if self.ringfd is not None else False
        e = libc.findfd(eng, st, fd)
        eng.oblige(st, ('P07',), 'lock call is on the ring descriptor', bool(e is not None and e[1] == 'ring'))
        if not (e is not None and e[1] == 'ring'): raise PathEnd()
        p = eng.pick(st, p); r = st.mem[p.r]
        fl = {}
        F = eng.m.members.get('flock', {'l_type': (0, 2), 'l_whence': (2, 2), 'l_start': (8, 8), 'l_len': (16, 8)})
        for k in ('l_type', 'l_whence', 'l_start', 'l_len'):
            o, sz = F[k]; fl[k] = simp(toint(eng.load(st, Ptr(p.r, p.o + o), I(8 * sz))))
        if cmd not in (6, 7): raise Unsupported('fcntl command')
        whole = fl['l_whence'] == 0 and fl['l_start'] == 0 and fl['l_len'] == 0
        if fl['l_type'] == 2:
            eng.oblige(st, ('P07',), 'the whole file is unlocked', whole)
            self.release(eng, st)
            return [(st, 0)]
        eng.oblige(st, ('P07', 'P01'), 'the lock taken is exclusive', fl['l_type'] == 1)
        eng.oblige(st, ('P07', 'P01'), 'the lock taken covers the whole file', whole)
        eng.oblige(st, ('P07', 'P03'), 'taking the lock waits for other holders', cmd == 7)
        f = fail(eng, st, NEG1, note='lockfail')
        if not st.w['lock']: self.acquire(eng, st)
        return [(st, 0), f]

    # ---------------- release: RI and effect of the session
    def release(self, eng, st):
        if not st.w['lock']: return
        a = st.w['acq']
        self.session(eng, st, a)
        st.w.update(lock=False, acq=None, last=a, force=None, woke_w2r=False, woke_r2w=False, try_w2r=False, try_r2w=False, synced=False, dirty=False)
        st.mem['ring'] = self.ring0
    def unchanged(self, eng, st, a, fields):
        return And(*[simp(Eq(toint(self.rget(eng, st, f)), getattr(a, f))) for f in fields])
    def session(self, eng, st, a):
        r = st.mem['ring']
        if r is not a.reg:
            self.check_frame(eng, st, a)
            g = Acq()
            for f in HF: setattr(g, f, toint(self.rget(eng, st, f)))
            g.T = ladd(g.q, g.mp)
            st.w['new'] = None
            if self.role == 'w': self.session_w(eng, st, a, g)
            elif self.role == 'r': self.session_r(eng, st, a, g)
            else:
                eng.oblige(st, ('P01', 'P13'), 'ring state unchanged by this call', self.unchanged(eng, st, a, HF))
        else:
            g = a
            st.w['new'] = None
            if self.role == 'r': self.session_r(eng, st, a, a)
        self.on_release(eng, st, a, g)
        st.w.pop('new', None)
    def on_release(self, eng, st, a, g): pass
    def check_frame(self, eng, st, a):
        for f in ('gflags', 'n', 'mm', 'pad_len', 'mv_len', 'app_len'):
            x, y = self.rget(eng, st, f), eng.cell(st, a.reg, *self.RF[f])
            if not same(x, y): eng.oblige(st, ('P12', 'P15', 'P01'), 'fixed ring field %s unchanged' % f, zb(Eq(toint(x), toint(y))))
        if not self.mag_same(st, a): eng.fail(st, ('P12',), 'ring signature unchanged')
        p0, p1 = a.reg.parts[self.PI['APP']], st.mem['ring'].parts[self.PI['APP']]
        if p0.val[0] is not p1.val[0] and not self.app_ok(eng, st, a, p1):
            eng.fail(st, ('P13',), 'application data unchanged')
        if not self.stat_ok(eng, st, a):
            pass
    def app_ok(self, eng, st, a, p1): return False
    def mag_same(self, st, a):
        return st.mem['ring'].parts[0].val[0] is a.reg.parts[0].val[0]
    def stat_ok(self, eng, st, a):
        for f, (o, sz) in self.RF.items():
            if not f.startswith('stat.') or sz > 8 or f[5:] in STATS: continue
            x, y = eng.cell(st, st.mem['ring'], o, sz), eng.cell(st, a.reg, o, sz)
            if x is None or y is None: continue
            if not same(x, y): eng.oblige(st, ('P14',), 'statistics field %s unchanged' % f, zb(Eq(toint(x), toint(y))))
        return True
    def stats(self, eng, st, a, delta):
        for f in STATS:
            x = toint(eng.cell(st, st.mem['ring'], *self.RF['stat.' + f]))
            y = getattr(a, 's_' + f)
            d = delta.get(f, 0)
            tags = ('P14', 'P04') if f in ('md', 'bd') else ('P14',)
            if isc(d) and d == 0 and same(x, y): continue
            eng.oblige(st, tags, 'counter %s grows by exactly the amount transferred' % f, zb(Eq(x, y + d)))
    def ri(self, eng, st, a, g, H, delta_T):
        """prove RI for the new state g with history H"""
        n, mm = self.n, self.mm
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        O(('P01', 'P15', 'P03', 'P05'), 'RI: messages present do not exceed the slots', And(zb(g.mp >= 0) if not isc(g.mp) else True, zb(g.mp <= mm)))
        O(('P01', 'P15', 'P03', 'P04'), 'RI: unread messages are among those present', zb(g.m <= g.mp) if not (isc(g.m) and isc(g.mp)) else g.m <= g.mp)
        O(('P01', 'P15', 'P12'), 'RI: write offset inside the data area', zb(g.i < n))
        O(('P12',), 'RI: fill level within the capacity', zb(g.u <= n))
        O(('P01', 'P15', 'P05'), 'RI: eldest slot in range', zb(g.e < mm))
        O(('P01', 'P15', 'P12'), 'RI: read slot in range', zb(g.r < mm))
        dq = simp(g.q - a.q)
        O(('P05', 'P01'), 'RI: sequence number of the eldest message only advances past messages present', z3.And(dq >= 0, dq <= a.mp))
        O(('P05', 'P01'), 'RI: eldest slot is the slot of its sequence number', Eq(g.e, self.wrapmm(a.e + dq)))
        O(('P01', 'P04', 'P03'), 'RI: read slot is the slot of the oldest unread message', Eq(g.r, self.wrapmm(g.e + g.mp - g.m)))
        st2 = st
        g.E = simp(H.B(st, g.T)); g.Bq = H.B(st, g.q); g.R = lsub(g.T, g.m); g.BR = H.B(st, g.R)
        O(('P01', 'P03', 'P05', 'P15'), 'RI: stored bytes do not exceed the capacity', g.E - g.Bq <= n)
        O(('P01', 'P03', 'P04', 'P14'), 'RI: unread byte count is the total of the unread messages', Eq(g.u, g.E - g.BR))
        d = simp(g.E - a.E)
        O(('P01', 'P05'), 'RI: write offset advanced by exactly the bytes appended', Eq(g.i, z3.If(a.i + d >= n, a.i + d - n, a.i + d)))
        if z3.is_bool(self.gf.b[FARM]) or self.gf.b[FARM]:
            O(('P05', 'P09'), 'RI: a farm ring with messages counts them as unread', Implies(self.gf.b[FARM], Or(zb(g.mp <= 0) if not isc(g.mp) else g.mp <= 0, zb(g.m > 0) if not isc(g.m) else g.m > 0)))
        # slots
        s = st.fork(); k = fresh('k')
        s.add(z3.And(k >= g.q, k < g.T))
        if eng.feasible(s):
            P = s.mem['ring'].parts[self.PI['MV']]
            slot = self.slotof(eng, s, g, k)
            pv = P.val[self.MS['pos'][0]](s, slot); lv = P.val[self.MS['len'][0]](s, slot)
            b0, b1 = H.B(s, k), H.B(s, ladd(k, 1))
            self.obl2(eng, st, s, ('P01', 'P05', 'P03', 'P04'), 'RI: every slot records the position of its message', Eq(toint(pv), self.pos(g, b0)) if not isinstance(pv, Undef) else False)
            self.obl2(eng, st, s, ('P01', 'P05', 'P03', 'P04'), 'RI: every slot records the length of its message', Eq(toint(lv), b1 - b0) if not isinstance(lv, Undef) else False)
        # bytes
        s = st.fork(); x = fresh('x')
        s.add(z3.And(x >= g.Bq, x < g.E))
        P = s.mem['ring'].parts[self.PI['D']]
        if P.val[0] is not a.reg.parts[self.PI['D']].val[0] or not (isc(delta_T) and delta_T == 0):
            if eng.feasible(s):
                o = self.pos(g, x)
                dcd = eng.decide(s, lsub(g.E, x) <= g.i)
                dd = lsub(g.E, x)
                if dcd is True: o = lsub(g.i, dd)
                elif dcd is False: o = ladd(lsub(g.i, dd), n)
                v = P.val[0](s, o)
                self.obl2(eng, st, s, ('P01', 'P05', 'P03'), 'RI: the data area holds the bytes of every message present', zb(Eq(v, H.C(s, x))) if not isinstance(v, Undef) else False)
    def slotof(self, eng, s, g, k):
        d = ladd(g.e, lsub(k, g.q))
        c = eng.decide(s, zb(d < self.mm))
        if c is True: return d
        if c is False: return lsub(d, self.mm)
        return z3.If(d < self.mm, d, d - self.mm)
    def obl2(self, eng, st, s, tags, name, f):
        """oblige on a side state"""
        eng.oblige(s, tags, name, f)

    def session_w(self, eng, st, a, g):
        """a writer's critical section: nothing, or exactly one append of the batch"""
        n, mm = self.n, self.mm
        if eng.valid(st, Eq(g.T, a.T)):
            eng.oblige(st, ('P02', 'P03', 'P10'), 'a session that stores nothing leaves the messages alone', self.unchanged(eng, st, a, HF))
            self.stats(eng, st, a, {})
            for nm, pi in (('ring data', 'D'), ('message slots', 'MV')):
                p0, p1 = a.reg.parts[self.PI[pi]], st.mem['ring'].parts[self.PI[pi]]
                if any(p0.val[f] is not p1.val[f] for f in p0.val):
                    self.ri(eng, st, a, g, self.H0, 0); break
            return
        if not self.has_iov:
            eng.fail(st, ('P01', 'P02'), 'this call stores no messages'); return
        N = self.niov
        if not eng.oblige(st, ('P01', 'P02', 'P03'), 'exactly the elements of the batch are appended', Eq(g.T, a.T + N)): return
        H = self.appended(a)
        self.ri(eng, st, a, g, H, N)
        g.R = lsub(g.T, g.m)
        SN = self.S(st, N)
        dropped = simp(g.R - a.R)
        BgR = H.B(st, g.R)
        eng.oblige(st, ('P03', 'P24', 'P01'), 'without drop mode no unread message is removed', Or(self.gf.b[DROP], Eq(dropped, 0)))
        eng.oblige(st, ('P04',), 'only messages that were unread are dropped', z3.And(dropped >= 0, dropped <= a.m))
        lastR = g.R - 1
        eng.oblige(st, ('P04',), 'no more messages are dropped than needed', z3.Or(dropped <= 0, mm - a.m + dropped - 1 < N, n - a.u + self.B(st, simp(lastR)) - a.BR < SN))
        ev = simp(g.q - a.q)
        # eviction is minimal: with one message less evicted the batch would not fit
        eng.oblige(st, ('P05',), 'a message leaves the ring only when its bytes or slot are needed', Or(Not(self.gf.b[FARM]), z3.Or(ev <= 0, n - (a.E - self.B(st, simp(g.q - 1))) < SN, mm - a.mp + ev - 1 < N)))
        self.stats(eng, st, a, {'bw': SN, 'mw': N, 'md': dropped, 'bd': BgR - a.BR})
        eng.oblige(st, ('P02', 'P10'), 'a call appends its batch at most once', len(st.w['eff']) == 0)
        if self.fn == 'shr_writev': eng.oblige(st, ('P10',), 'what was buffered earlier is stored earlier', Or(Not(self.flags.b[BUFFERED]), Eq(self.sget(eng, st, 'c.vm'), 0)))
        eng.oblige(st, ('P08', 'P09', 'P17'), 'waiting readers are woken in the session that stores messages', bool(st.w['woke_w2r']))
        st.w['eff'] = st.w['eff'] + (('append',),)
        if st.w.get('capp') is not None: pass
    def first(self, eng, a):
        """first unread message for this reader at acquisition"""
        return a.F
    def session_r(self, eng, st, a, g):
        """a reader's critical section: consumes k >= 0 messages in order"""
        fm = self.gf.b[FARM]
        if g is not a:
            for f in ('i', 'e', 'q', 'mp'):
                eng.oblige(st, ('P01', 'P03', 'P05'), 'reading leaves %s alone' % f, Eq(getattr(g, f), getattr(a, f)))
            for f in ('u', 'm', 'r'):
                eng.oblige(st, ('P05',), 'a farm reader leaves %s alone' % f, Or(Not(fm), Eq(getattr(g, f), getattr(a, f))))
            g.T = a.T
            for nm, pi in (('ring data', 'D'), ('message slots', 'MV')):
                p0, p1 = a.reg.parts[self.PI[pi]], st.mem['ring'].parts[self.PI[pi]]
                if any(p0.val[f] is not p1.val[f] for f in p0.val):
                    self.ri(eng, st, a, g, self.H0, 0)
            eng.oblige(st, ('P01', 'P06', 'P03'), 'unread count stays in range', And(zb(g.m <= a.m), zb(g.m >= 0)))
            R = lsub(a.T, g.m)
            eng.oblige(st, ('P01', 'P14', 'P03'), 'RI: unread byte count is the total of the unread messages', Eq(g.u, a.E - self.B(st, R)))
            eng.oblige(st, ('P01', 'P15', 'P12'), 'RI: read slot in range', zb(g.r < self.mm))
            eng.oblige(st, ('P12',), 'RI: fill level within the capacity', zb(Z(g.u) <= self.n))
            eng.oblige(st, ('P01',), 'RI: read slot is the slot of the oldest unread message', Eq(g.r, self.wrapmm(a.e + a.mp - g.m)))
        if 's' not in st.mem or self.fn not in ('shr_readv', 'shr_read'): return
        sq, smd = toint(self.sget(eng, st, 'q')), toint(self.sget(eng, st, 'md'))
        F = z3.If(fm, z3.If(a.sq >= a.q, a.sq, a.q), a.R)
        kf = sq - F; kn = a.m - g.m
        k = simp(z3.If(fm, z3.If(sq <= a.sq, 0, kf), kn))
        eng.oblige(st, ('P05', 'P01'), 'reader position only moves on', Implies(fm, z3.And(sq >= a.sq, sq <= a.T)))
        eng.oblige(st, ('P05',), 'messages are skipped only when they have left the ring, and then all of them', Implies(fm, Or(zb(Eq(sq, a.sq)), zb(sq >= F))))
        eng.oblige(st, ('P05',), 'drop count grows by exactly the messages skipped', Implies(fm, Eq(smd - a.smd, z3.If(sq >= F, F - a.sq, 0))))
        eng.oblige(st, ('P05',), 'non-farm readers have no drop count', Or(fm, Eq(smd, a.smd)))
        kk = simp(z3.If(fm, z3.If(sq >= F, sq - F, 0), kn))
        d = self.B(st, simp(F + kk)) - self.B(st, simp(F))
        self.stats(eng, st, a, {'br': d, 'mr': kk})
        if not eng.valid(st, kk == 0):
            rec = Acq(); rec.F, rec.k, rec.a, rec.g = F, kk, a, g
            eng.oblige(st, ('P08',), 'after removing data, waiting writers are woken in the same session', Or(fm, zb(kk <= 0), bool(st.w['try_r2w'])))
            st.w['eff'] = st.w['eff'] + (rec,)
        rem = simp(zb(F + kk < a.T))
        fv = st.w['force']
        st.w['lastread'] = (a, F, kk, fv, rem)

    # ---------------- the remaining callees, by contract
    def bwof(self, eng, st, p, mode, tag):
        p = eng.pick(st, p)
        ok = p.r is not None and p.r in st.mem and 'line' in st.mem[p.r].attr and p.r in st.w.get('bwopen', ())
        eng.oblige(st, ('P15',), '%s on an open handle' % tag, bool(ok))
        if not ok: raise PathEnd()
        at = st.mem[p.r].attr
        if mode:
            eng.oblige(st, ('P15',), '%s on a %s-mode handle' % (tag, mode), at['mode'] == mode)
            if at['mode'] != mode: raise PathEnd()
        return p.r, at
    def need_lock(self, eng, st, what):
        eng.oblige(st, ('P07', 'P16'), '%s is called under the ring lock' % what, bool(st.w['lock']))
    def bw_wake(self, eng, st, av, args, ins):
        rn, at = self.bwof(eng, st, av[0], 'wake', 'bw_wake'); self.need_lock(eng, st, 'bw_wake')
        line = at['line']
        st.w['try_' + line] = True
        f = fail(eng, st, NEG1, note='wakefail_' + line)
        st.w['woke_' + line] = True
        st.w['dirty'] = True
        return [(st, 0), f]
    def bw_force(self, eng, st, av, args, ins):
        rn, at = self.bwof(eng, st, av[0], 'wait', 'bw_force'); self.need_lock(eng, st, 'bw_force')
        v = toint(av[1])
        f = fail(eng, st, NEG1, note='forcefail')
        st.w['force'] = v
        return [(st, 0), f]
    def bw_wait_ul(self, eng, st, av, args, ins):
        rn, at = self.bwof(eng, st, av[0], 'wait', 'bw_wait_ul')
        eng.oblige(st, ('P07', 'P25'), 'no sleep while holding the ring lock', not st.w['lock'])
        self.on_sleep(eng, st)
        st.w['slept'] = True
        f = fail(eng, st, NEG1, note='waitfail')
        p = st.fork(); p.w['pollfd'] = True
        return [(st, 0), (p, (1 << 32) - 3), f]
    def on_sleep(self, eng, st):
        nb = eng.tobits(st, self.sget(eng, st, 'flags'), 32).b[NONBLOCK]
        eng.oblige(st, ('P25',), 'only a blocking handle sleeps', Not(nb))
        a = st.w['last']
        eng.oblige(st, ('P08', 'P25'), 'a sleep follows a check made under the lock', a is not None)
        if a is None: return
        if self.role == 'r':
            F = z3.If(self.gf.b[FARM], z3.If(toint(a.sq) >= a.q, a.sq, a.q), a.R)
            eng.oblige(st, ('P08', 'P25'), 'a reader sleeps only if nothing was available', F >= a.T)
            eng.oblige(st, ('P08',), 'a reader waits on the line that writers wake', True)
        else:
            eng.oblige(st, ('P25', 'P04'), 'a writer on a drop-mode ring never sleeps', Not(self.gf.b[DROP]))
            if self.has_iov:
                eng.oblige(st, ('P08', 'P25', 'P03'), 'a writer sleeps only if its batch did not fit', z3.Or(self.n - a.u < self.S(st, self.niov), self.mm - a.m < self.niov))
    def msync(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        ok = p.r == 'ring' and isc(simp(p.o)) and simp(p.o) == 0
        eng.oblige(st, ('P26', 'P15'), 'the flush starts at the mapping', bool(ok))
        eng.oblige(st, ('P26', 'P15'), 'the flush covers the whole mapping', zb(Eq(toint(av[1]), self.stsize)))
        eng.oblige(st, ('P26',), 'the flush is synchronous', toint(av[2]) == 4)
        eng.oblige(st, ('P26',), 'only a ring created for it is flushed', self.gf.b[SYNC])
        eng.oblige(st, ('P26', 'P07'), 'the flush is made under the lock', bool(st.w['lock']))
        f = fail(eng, st, NEG1, note='msyncfail')
        st.w['synced'] = True; st.w['dirty'] = False
        return [(st, 0), f]
    def contract(self, eng, st, name):
        if name == 'fcntl': return self.fcntl
        h = getattr(self, 'c_' + name, None)
        if h: return h
        if name in ('bw_wake', 'bw_force', 'bw_wait_ul', 'msync'): return getattr(self, name)
        return None
    def urem(self, eng, st, a, b):
        if same(b, self.mm):
            q = st.w.get('acq')
            if q is not None:
                j = lsub(a, q.q)
                d, _ = lin(a)
                if q.q.get_id() in d or eng.valid(st, z3.And(j >= 0, j <= self.mm)):
                    if eng.valid(st, z3.And(j >= 0, j <= self.mm)) if not isc(j) else 0 <= j:
                        e = ladd(q.e, j)
                        c = eng.decide(st, zb(e < self.mm))
                        if c is True: return e
                        if c is False: return lsub(e, self.mm)
                        return z3.If(e < self.mm, e, e - self.mm)
        return None
    def close(self, eng, st, fd):
        return None
    def closed(self, eng, st, e):
        if e[1] == 'ring':
            if st.w.get('lock'): self.release(eng, st)

def Ty_named(eng, n):
    from ir import Ty
    return Ty('n', name=n)
