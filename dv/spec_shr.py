"""Contracts of the ring operations in src/shr.c."""
import os, sys, z3
from sym import *
import sym, libc, ir
from ring import *

REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', '/tmp/dvwork')
Z = lambda x: z3.IntVal(x) if isc(x) else x

class ShrSpec(RingSpec):
    split = ()     # case split: extra assumptions by name; the cases together are exhaustive
    def case(self, *c):
        self.split = c; return self
    def dosplit(self, st):
        D = {'farm': lambda: self.gf.b[FARM], 'drop': lambda: self.gf.b[DROP], 'sync': lambda: self.gf.b[SYNC], 'nonblock': lambda: self.flags.b[NONBLOCK],
             'buffered': lambda: self.flags.b[BUFFERED], 'biglen': lambda: self.len0 > (1 << 63) - 1}
        for c in self.split:
            st.add(zb(Not(D[c[1:]]()) if c[0] == '!' else D[c]()))
    def begin(self, eng):
        self.offs(eng)
        st = self.base_state(eng)
        self.mkring(eng, st)
        return st
    def isnull(self, v):
        if isinstance(v, CondPtr): return Or(And(v.c, self.isnull(v.a)), And(Not(v.c), self.isnull(v.b)))
        return v.r is None
    def wrapn(self, e): return z3.If(e >= self.n, e - self.n, e)

    # ---- common conditions when an API call returns
    def at_return(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        O(('P07', 'P19'), 'the ring lock is released when the call returns', not st.w['lock'])
        if 's' in st.mem and st.mem['s'].alive:
            fl = eng.tobits(st, self.sget(eng, st, 'flags'), 32)
            O(('P25', 'P10') + (('P20',) if st.w.get('pollfd') else ()), 'handle flags unchanged by the call', And(*[simp(Eq(x, y)) for x, y in zip(fl.b, self.flags.b)]))
            for f in ('ring_fd', 'wait_fd', 'n', 'mm', 's.st_size', 'buf', 'w2r', 'r2w'):
                if f in self.may_change: continue
                x, y = self.sget(eng, st, f), eng.cell(st, self.s0, *self.SF[f])
                if not same(x, y): O(('P15', 'P10', 'P25'), 'handle field %s unchanged' % f, Eq(x, y))
        O(('P19', 'P15'), 'no memory left allocated or wrongly freed', set(st.w['heap']) == set(self.heap0))
        O(('P19',), 'no descriptor left open or wrongly closed', [f for f in st.w['fds']] == list(self.fds0))
    may_change = ()
    def snapshot(self, st):
        self.dosplit(st)
        self.heap0, self.fds0 = st.w['heap'], st.w['fds']
    def positive(self, eng, st, rv):
        """case split on the sign of a ssize_t result -> list of (state, kind)"""
        v = toint(rv)
        out = []
        for k, c in (('neg', zb(v >= (1 << 63)) if not isc(v) else v >= (1 << 63)), ('zero', Eq(v, 0)), ('pos', And(v > 0, v < (1 << 63)))):
            c = simp(c)
            if c is False: continue
            s = st.fork()
            if c is not True: s.model = None; s.add(c)
            if eng.feasible(s): out.append((s, k))
        return out

# ------------------------------------------------------------------ writev
class Writev(ShrSpec):
    fn = 'shr_writev'
    def __init__(self, zero=False): self.withzero = zero
    def setup(self, eng):
        st = self.begin(eng)
        self.mkhandle(eng, st, 'w')
        niov = z3.Int('niov')
        z = None
        if self.withzero:
            z = z3.Int('zero'); st.add(z3.And(z >= 0, z < niov))
        self.mkiov(eng, st, niov, z, 'uiov')
        self.SN = self.S(st, niov)
        self.snapshot(st)
        self.crashsafe = '!drop' in self.split
        eng.start(st, 'shr_writev', [Ptr('s', 0), Ptr('uiov', 0), niov])
        return st
    # recursion: the cached batch, written unbuffered
    def c_shr_writev(self, eng, st, av, args, ins):
        return flush_contract(self, eng, st, av)
    def on_release(self, eng, st, a, g):
        if st.w['eff'] and st.w.get('effsync') is None:
            st.w['effsync'] = bool(st.w['synced'] and not st.w['dirty'])
            st.w['flushed_before'] = st.w['flushed']
    def at_end(self, eng, st, rv):
        O = lambda s, tags, nm, f: eng.oblige(s, tags, nm, f)
        for s, kind in self.positive(eng, st, rv):
            v = toint(rv)
            self.at_return(eng, s, rv)
            app = len(s.w['eff'])
            cache = self.cache_effect(eng, s)
            if kind == 'pos':
                O(s, ('P02', 'P10'), 'a positive result means the batch was stored exactly once', app + (cache == 'added') == 1)
                O(s, ('P02', 'P10'), 'a positive result is the total length of the batch', Eq(v, self.SN))
                if self.withzero: O(s, ('P03',), 'a batch with an empty message is refused', False)
                if app: O(s, ('P26',), 'a synchronous ring is flushed before success is reported', Or(Not(self.gf.b[SYNC]), bool(s.w.get('effsync'))))
            else:
                if app: O(s, ('P02', 'P10'), 'zero or negative means nothing of the batch was stored', bool(s.w['msyncfail']))
                O(s, ('P02', 'P10'), 'zero or negative means nothing of the batch was buffered', cache != 'added')
                nb, dr = self.flags.b[NONBLOCK], self.gf.b[DROP]
                if kind == 'zero':
                    O(s, ('P03', 'P25', 'P04'), 'zero only on a non-blocking handle of a ring without drop mode', And(nb, Not(dr)))
                    a = s.w['last']
                    if s.w['flushzero']: pass
                    else:
                        O(s, ('P03',), 'zero only if the batch did not fit the free space', z3.Or(self.n - a.u < self.SN, self.mm - a.m < self.niov) if a is not None else False)
                        O(s, ('P03',), 'zero only if the batch fits the ring', z3.And(self.niov >= 1, self.SN <= self.n, self.niov <= self.mm))
                else:
                    m3 = eng.decide(s, Eq(v, (1 << 64) - 3))
                    if m3 is True:
                        O(s, ('P20',), 'the result -3 follows a watched descriptor becoming ready', bool(s.w['pollfd']))
                    else:
                        O(s, ('P03', 'P20', 'P02'), 'errors are reported as -1', Eq(v, (1 << 64) - 1))
                        if not s.w['sysfail']:
                            refuse = z3.Or(self.niov <= 0, self.SN > self.n, self.niov > self.mm)
                            if not self.withzero: O(s, ('P03', 'P02'), '-1 without a failed system call only for a batch that can never be stored', refuse)
                if s.w['pollfd'] and kind == 'neg' and not s.w['sysfail']: O(s, ('P20',), 'a watched descriptor yields -3', Eq(v, (1 << 64) - 3))
    def cache_effect(self, eng, st):
        """prove what happened to the write buffer; -> 'same'|'added'|'emptied'"""
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        n1, m1 = toint(self.sget(eng, st, 'c.n')), toint(self.sget(eng, st, 'c.vm'))
        for f in ('c.buf', 'c.iov', 'c.sz', 'c.vt'):
            x, y = self.sget(eng, st, f), eng.cell(st, self.s0, *self.SF[f])
            if not same(x, y): O(('P10', 'P15'), 'write buffer geometry unchanged', Eq(x, y))
        fl = st.w['flushed']
        n0, m0 = (0, 0) if fl else (self.cn, self.cvm)
        changed = not (same(n1, self.cn) and same(m1, self.cvm))
        if eng.valid(st, And(Eq(n1, n0), Eq(m1, m0))):
            if not fl: self.cache_same(eng, st, m0, n0)
            return 'emptied' if fl else 'same'
        O(('P10',), 'the buffer holds the previous messages followed by the whole batch', And(Eq(n1, ladd(n0, self.SN)), Eq(m1, ladd(m0, self.niov))))
        O(('P10',), 'buffered data never exceeds the buffer', And(zb(n1 <= self.csz), zb(m1 <= self.cvt)))
        self.cache_same(eng, st, m0, n0)
        # the added part
        s = st.fork(); k = fresh('k'); s.add(z3.And(k >= 0, k < self.niov))
        if eng.feasible(s):
            P = s.mem['ciov'].parts[0]
            p, l = P.val[0](s, ladd(m0, k)), P.val[8](s, ladd(m0, k))
            eng.oblige(s, ('P10',), 'each buffered message is recorded with its place and length', And(self.isp(p, 'cbuf', ladd(n0, self.S(s, k))), Eq(l, self.L(s, k))))
        s = st.fork(); y = fresh('y'); s.add(z3.And(y >= 0, y < self.SN))
        if eng.feasible(s):
            v = s.mem['cbuf'].parts[0].val[0](s, ladd(n0, y))
            eng.oblige(s, ('P10',), 'the buffer holds the bytes of the batch in order', Eq(v, self.srcbyte(s, y)) if not isinstance(v, Undef) else False)
        return 'added'
    def isp(self, p, r, o):
        if isinstance(p, Ptr): return And(p.r == r, Eq(p.o, o))
        return False
    def cache_same(self, eng, st, m0, n0):
        if isc(m0) and m0 == 0: return
        if st.mem['ciov'].parts[0] .val[0] is not self.ciov0.parts[0].val[0] or st.mem['ciov'].parts[0].val[8] is not self.ciov0.parts[0].val[8]:
            s = st.fork(); k = fresh('k'); s.add(z3.And(k >= 0, k < m0))
            if eng.feasible(s):
                P = s.mem['ciov'].parts[0]
                p, l = P.val[0](s, k), P.val[8](s, k)
                eng.oblige(s, ('P10',), 'messages already buffered stay recorded', And(self.isp(p, 'cbuf', self.SC(s, k)), Eq(l, self.SC(s, ladd(k, 1)) - self.SC(s, k))))
        if st.mem['cbuf'].parts[0].val[0] is not self.cbuf0.parts[0].val[0]:
            s = st.fork(); y = fresh('y'); s.add(z3.And(y >= 0, y < n0))
            if eng.feasible(s):
                v = s.mem['cbuf'].parts[0].val[0](s, y)
                eng.oblige(s, ('P10',), 'bytes already buffered stay unaltered', Eq(v, self.CB(s, y)) if not isinstance(v, Undef) else False)
    # ---- loop shapes
    def terms(self, eng, st, v0):
        out = [('S(it)', lambda s, i: self.S(s, i)),
               ('Send(it)', lambda s, i: self.SN - self.S(s, simp(self.niov - i))),
               ('wrapmm(entry+it)', lambda s, i: self.wrapmm(v0 + i)),
               ('wrapn(entry+S)', lambda s, i: self.wrapn(v0 + self.S(s, i)))]
        a = st.w.get('acq')
        if a is not None:
            out.append(('Bd(it)', lambda s, i: self.B(s, simp(a.R + i)) - a.BR))
        return out
    def bounds(self, eng, st):
        out = [('niov', lambda s: self.niov), ('SN', lambda s: self.SN), ('n', lambda s: self.n), ('mm', lambda s: self.mm)]
        return out
    def cands(self, eng, st, mods):
        out = [('it<=niov', lambda e, s, g, i: i <= self.niov),
               ('it>0', lambda e, s, g, i: i > 0),
               ('S<=n', lambda e, s, g, i: self.S(s, i) <= self.n),
               ('it=0|niov<=mm', lambda e, s, g, i: z3.Or(i == 0, self.niov <= self.mm))]
        if self.withzero: out += [('it<=zero', lambda e, s, g, i: i <= self.zero), ('zero<niov-it', lambda e, s, g, i: self.zero + i < self.niov)]
        a = st.w.get('acq')
        if a is not None:
            cur_m, cur_mp = toint(self.rget(eng, st, 'm')), toint(self.rget(eng, st, 'mp'))
            out += [('it<=m', lambda e, s, g, i: i <= cur_m), ('it<=mp', lambda e, s, g, i: i <= cur_mp),
                    ('it<=mp-m', lambda e, s, g, i: i <= cur_mp - cur_m),
                    ('mindrop', lambda e, s, g, i: z3.Or(i == 0, self.mm - a.m + i - 1 < self.niov, self.n - a.u + self.B(s, simp(a.R + i - 1)) - a.BR < self.SN)),
                    ('minevict', lambda e, s, g, i: z3.Or(i == 0, self.n - (a.E - self.B(s, simp(a.q + i - 1))) < self.SN, self.mm - a.mp + i - 1 < self.niov))]
        return out
    def templates(self, eng, st, k):
        _, rn, pi, fo = k
        a = st.w.get('acq')
        if rn == 'ring' and a is not None:
            old = st.mem['ring'].parts[pi].val[fo]
            if pi == self.PI['D']:
                def fD(it):
                    def f(s, o):
                        rel = self.rel(eng, s, o, a.i, self.n)
                        c = zb(rel < self.S(s, it))
                        return eng.lazyite(s, simp(c), lambda: self.srcbyte(s, rel), lambda: old(s, o))
                    return f
                return [('append', fD)]
            if pi == self.PI['MV']:
                p0 = self.wrapmm(a.e + a.mp)
                def fM(it):
                    def f(s, o):
                        j = self.rel(eng, s, o, p0, self.mm)
                        c = zb(j < it)
                        if fo == self.MS['pos'][0]: v = lambda: self.wrapn(a.i + self.S(s, j))
                        else: v = lambda: self.L(s, j)
                        return eng.lazyite(s, simp(c), v, lambda: old(s, o))
                    return f
                return [('append', fM)]
        if rn == 'cbuf':
            old = st.mem[rn].parts[pi].val[fo]; n0 = toint(self.sget(eng, st, 'c.n'))
            def fC(it):
                def f(s, o):
                    y = lsub(o, n0)
                    c = simp(z3.And(y >= 0, y < self.S(s, it)) if not isc(y) else And(y >= 0, y < self.S(s, it)))
                    return eng.lazyite(s, c, lambda: self.srcbyte(s, y), lambda: old(s, o))
                return f
            return [('append', fC)]
        if rn == 'ciov':
            old = st.mem[rn].parts[pi].val[fo]; m0 = toint(self.sget(eng, st, 'c.vm')); n0 = toint(self.sget(eng, st, 'c.n'))
            def fV(it):
                def f(s, o):
                    j = lsub(o, m0)
                    c = simp(And(zb(j >= 0), zb(j < it)) if not isc(j) else And(j >= 0, j < it))
                    v = (lambda: Ptr('cbuf', ladd(n0, self.S(s, j)))) if fo == 0 else (lambda: self.L(s, j))
                    return eng.lazyite(s, c, v, lambda: old(s, o))
                return f
            return [('append', fV)]
        return []
    def rel(self, eng, s, o, base, m):
        d = eng.decide(s, zb(o >= base) if not (isc(o) and isc(base)) else o >= base)
        if d is True: return lsub(o, base)
        if d is False: return ladd(lsub(o, base), m)
        return z3.If(o >= base, o - base, o - base + m)

def flush_contract(self, eng, st, av):
    """shr_writev(s, s->c.iov, s->c.vm) with buffering switched off: appends the whole
    buffer (proved for shr_writev itself for any batch)"""
    s_, v_, n_ = eng.pick(st, av[0]), eng.pick(st, av[1]), toint(av[2])
    fl = eng.tobits(st, self.sget(eng, st, 'flags'), 32)
    O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
    O(('P10',), 'the flush goes to the same handle', s_.r == 's')
    O(('P10', 'P15'), 'buffering is off while the buffer is flushed', Not(fl.b[BUFFERED]))
    O(('P10',), 'the flush passes the buffered messages', And(v_.r == 'ciov', Eq(v_.o, 0)))
    O(('P10',), 'the flush passes all buffered messages', Eq(n_, self.sget(eng, st, 'c.vm')))
    O(('P07',), 'the lock is not held across the flush', not st.w['lock'])
    O(('P10',), 'the buffer is flushed once', not st.w['flushed'])
    O(('P10',), 'the buffer passed is intact', And(Eq(self.sget(eng, st, 'c.vm'), self.cvm), Eq(self.sget(eng, st, 'c.n'), self.cn)))
    O(('P10',), 'the buffer is flushed before anything newer is stored', len(st.w['eff']) == 0)
    if not (s_.r == 's' and v_.r == 'ciov'): raise PathEnd()
    nb, dr = fl.b[NONBLOCK], self.gf.b[DROP]
    bl = simp(And(Not(nb), Not(dr)))
    O(('P25', 'P15'), 'a blocking flush has a line to wait on', Or(Not(bl), Not(self.isnull(self.sget(eng, st, 'r2w')))))
    outs = []
    st.w['nflush'] = st.w['nflush'] + 1
    nonempty = eng.decide(st, self.cvm > 0)
    e = st.fork(); e.w['sysfail'] = True; e.w['flushfail'] = True
    libc.errno_set(eng, e); outs.append((e, (1 << 64) - 1))
    z = st.fork(); z.model = None; z.add(zb(And(nb, Not(dr))))
    if eng.feasible(z): z.w['flushzero'] = True; outs.append((z, 0))
    w = st.fork(); w.model = None; w.add(zb(bl))
    if eng.feasible(w): w.w['pollfd'] = True; outs.append((w, (1 << 64) - 3))
    if nonempty is not True:
        x = st.fork(); x.model = None; x.add(self.cvm == 0)
        if eng.feasible(x): outs.append((x, (1 << 64) - 1))
        st.model = None; st.add(self.cvm > 0)
    if eng.feasible(st):
        st.w['flushed'] = True
        outs.append((st, self.cn))
    return outs

# ------------------------------------------------------------------ readv
class Readv(ShrSpec):
    """shr_readv(s, ubuf, len, uiov, &niov) / shr_read(s, ubuf, len)"""
    fn = 'shr_readv'
    def setup(self, eng):
        st = self.begin(eng)
        self.mkhandle(eng, st, 'r')
        self.len0, self.niov0 = z3.Int('len'), z3.Int('niov')
        st.add(z3.And(self.len0 >= 0, self.len0 < 1 << 64, self.niov0 >= 0, self.niov0 < 1 << 58))
        ub = Reg('ubuf', self.len0, 'undef'); st.mem['ubuf'] = ub
        self.UB0 = Fn('UB0', 1, rng=(0, 256))
        eng.addpart(ub, 'caller buffer', 0, 1, self.len0, {0: (1, 'int')}, {0: lambda s, i: self.UB0(s, i)})
        self.ubuf0 = ub
        self.mkargs(eng, st)
        self.snapshot(st)
        return st
    def mkargs(self, eng, st):
        v = Reg('uiov', lmul(self.niov0, 16), 'undef'); st.mem['uiov'] = v
        self.VL0 = Fn('VL0', 1, rng=(0, 1 << 64)); self.VP0 = Fn('VP0', 1)
        eng.addpart(v, 'caller iovec', 0, 16, self.niov0, {0: (8, 'ptr'), 8: (8, 'int')},
                    {0: lambda s, k: Ptr('stale', self.VP0(s, k)), 8: lambda s, k: self.VL0(s, k)})
        st.mem['stale'] = Reg('stale', 0, kind='opaque')
        self.uiov0 = v
        n = Reg('niov', 8, 'undef'); n.cells[0] = (8, self.niov0); st.mem['niov'] = n
        eng.start(st, 'shr_readv', [Ptr('s', 0), Ptr('ubuf', 0), self.len0, Ptr('uiov', 0), Ptr('niov', 0)])
    def lenc(self): return z3.If(self.len0 > (1 << 63) - 1, z3.IntVal((1 << 63) - 1), self.len0)
    def on_acquire(self, eng, st, a):
        fm = self.gf.b[FARM]
        a.F = simp(z3.If(fm, z3.If(toint(a.sq) >= a.q, toint(a.sq), a.q), a.R))
    def F(self, eng, s, a):
        """first message for this reader; resolved to a linear term where possible"""
        k = ('F', id(a))
        if k in s.touched: return s.touched[k][1]
        d = eng.decide(s, self.gf.b[FARM])
        if d is True:
            c = eng.decide(s, toint(a.sq) >= a.q)
            r = toint(a.sq) if c is True else (a.q if c is False else a.F)
        elif d is False: r = a.R
        else: r = a.F
        if r is not a.F: s.touched[k] = (a, r)
        return r
    def BF(self, eng, s, a, k):
        return simp(self.B(s, ladd(self.F(eng, s, a), k)) - self.B(s, self.F(eng, s, a)))
    def at_end(self, eng, st, rv):
        for s, kind in self.positive(eng, st, rv):
            self.end1(eng, s, toint(rv), kind)
    def end1(self, eng, s, v, kind):
        O = lambda tags, nm, f: eng.oblige(s, tags, nm, f)
        self.at_return(eng, s, v)
        nvo = toint(eng.cell(s, s.mem['niov'], 0, 8)) if 'niov' in s.mem else None
        eff = s.w['eff']
        recs = [x for x in eff if isinstance(x, Acq)]
        lr = s.w['lastread']
        nb = self.flags.b[NONBLOCK]
        if kind == 'pos':
            O(('P06', 'P01', 'P05'), 'a positive result means messages were taken in exactly one locked session', len(recs) == 1)
            if len(recs) != 1: return
            r = recs[0]; a = r.a
            F = self.F(eng, s, a); k = r.k
            if nvo is not None:
                O(('P06', 'P05', 'P01'), 'the element count is the number of messages taken', Eq(nvo, k))
            O(('P06', 'P01', 'P05'), 'at least one message is delivered', k >= 1)
            O(('P06', 'P01', 'P05'), 'no more messages are taken than are unread', F + k <= a.T)
            if 'niov' in s.mem: O(('P06',), 'no more messages than elements', k <= self.niov0)
            else: O(('P06', 'P01', 'P05'), 'shr_read takes one message', Eq(k, 1))
            tot = self.BF(eng, s, a, k)
            O(('P06', 'P01', 'P05'), 'the result is the total length of the messages taken', Eq(v, tot))
            O(('P06', 'P15'), 'the messages fit the buffer', tot <= self.len0)
            if 'niov' in s.mem:
                O(('P06',), 'delivery stops only when elements, messages or buffer run out',
                  z3.Or(zb(Eq(k, self.niov0)), zb(F + k >= a.T), self.BF(eng, s, a, ladd(k, 1)) > self.lenc()))
            # contents
            t = s.fork(); y = fresh('y'); t.add(z3.And(y >= 0, y < tot))
            if eng.feasible(t):
                x = t.mem['ubuf'].parts[0].val[0](t, y)
                eng.oblige(t, ('P01', 'P05', 'P06'), 'the buffer holds exactly the bytes of the messages taken, in order', Eq(x, self.C(t, self.B(t, F) + y)))
            t = s.fork(); y = fresh('y'); t.add(z3.And(y >= tot, y < self.len0))
            if eng.feasible(t):
                x = t.mem['ubuf'].parts[0].val[0](t, y)
                eng.oblige(t, ('P06',), 'the buffer beyond the messages is untouched', Eq(x, self.UB0(t, y)))
            if 'uiov' in s.mem:
                t = s.fork(); j = fresh('j'); t.add(z3.And(j >= 0, j < k))
                if eng.feasible(t):
                    P = t.mem['uiov'].parts[0]
                    p, l = P.val[0](t, j), P.val[8](t, j)
                    eng.oblige(t, ('P06', 'P05', 'P01'), 'each element points at its message', And(p.r == 'ubuf', Eq(p.o, self.BF(eng, t, a, j))) if isinstance(p, Ptr) else False)
                    eng.oblige(t, ('P06', 'P05', 'P01'), 'each element has the length of its message', Eq(l, self.BF(eng, t, a, ladd(j, 1)) - self.BF(eng, t, a, j)))
                t = s.fork(); j = fresh('j'); t.add(z3.And(j >= k, j < self.niov0))
                if eng.feasible(t):
                    P = t.mem['uiov'].parts[0]
                    p, l = P.val[0](t, j), P.val[8](t, j)
                    eng.oblige(t, ('P06',), 'elements beyond the count are untouched', And(isinstance(p, Ptr) and p.r == 'stale', Eq(l, self.VL0(t, j))))
            self.ready(eng, s, lr)
            return
        # nothing delivered
        O(('P06', 'P01', 'P05', 'P20'), 'a call that delivers nothing takes nothing', len(recs) == 0)
        if nvo is not None: O(('P06', 'P20'), 'the element count is set to zero', Eq(nvo, 0))
        if s.mem['ubuf'].parts[0].val[0] is not self.ubuf0.parts[0].val[0]:
            t = s.fork(); y = fresh('y'); t.add(z3.And(y >= 0, y < self.len0))
            if eng.feasible(t):
                eng.oblige(t, ('P06', 'P20'), 'the buffer is untouched', Eq(t.mem['ubuf'].parts[0].val[0](t, y), self.UB0(t, y)))
        bad = z3.Or(self.len0 == 0, self.niov0 == 0)
        if kind == 'zero':
            O(('P06', 'P25'), 'zero only on a non-blocking handle', nb)
            O(('P06',), 'zero only for valid arguments', z3.Not(bad))
            O(('P06', 'P01', 'P05'), 'zero only when nothing is unread', zb(lr[1] >= lr[0].T) if lr else False)
            self.ready(eng, s, lr)
            return
        for c, nm in (((1 << 64) - 1, -1), ((1 << 64) - 2, -2), ((1 << 64) - 3, -3), (None, 0)):
            t = s.fork(); t.model = None
            f = Eq(v, c) if c else z3.Not(z3.Or(*[zb(Eq(v, (1 << 64) - q)) for q in (1, 2, 3)]))
            t.add(zb(f))
            if not eng.feasible(t): continue
            if nm == 0: eng.oblige(t, ('P06', 'P20'), 'negative results are -1, -2 or -3', False)
            if nm == -3: eng.oblige(t, ('P20',), 'the result -3 follows a watched descriptor becoming ready', bool(t.w['pollfd']))
            if nm != -3 and t.w['pollfd']: eng.oblige(t, ('P20',), 'a watched descriptor yields -3', False)
            if nm == -1 and not t.w['sysfail']: eng.oblige(t, ('P06', 'P20'), '-1 only for an empty buffer, no elements or a failed system call', bad)
            if nm != -1: eng.oblige(t, ('P06',), 'an empty buffer or no elements gives -1', z3.Not(bad))
            if nm != -1 and t.w['waitfail']: eng.oblige(t, ('P20', 'P06'), 'a failed wait gives -1', False)
            if nm == -2:
                l = lr
                eng.oblige(t, ('P06',), '-2 only when the next message does not fit the buffer', z3.And(l[1] < l[0].T, self.BF(eng, t, l[0], 1) > self.lenc()) if l else False)
                self.ready(eng, t, l)
    def ready(self, eng, s, lr):
        """P09: descriptor readiness left behind equals 'unread messages remain'"""
        if s.w['sysfail']: return
        fv = lr[3] if lr else None
        nb = self.flags.b[NONBLOCK]
        if fv is None or isinstance(fv, tuple):
            eng.oblige(s, ('P09',), 'the descriptor readiness is set by the session that reads', z3.Not(zb(nb)))
        else:
            eng.oblige(s, ('P09',), 'the descriptor is readable exactly if unread messages remain', Eq(zb(simp(toint(fv) != 0) if not isc(toint(fv)) else toint(fv) != 0), lr[4]))
    def on_release(self, eng, st, a, g):
        if any(isinstance(x, Acq) for x in st.w['eff']):
            eng.oblige(st, ('P26',), 'a synchronous ring is flushed in the session that reads', Or(Not(self.gf.b[SYNC]), bool(st.w['synced'] and not st.w['dirty']), bool(st.w['msyncfail'])))
    # ---- loop shapes
    def idx(self, a, i): return ladd(a.F, i)
    def terms(self, eng, st, v0):
        a = st.w.get('acq')
        out = [('wrapmm(entry+it)', lambda s, i: self.wrapmm(v0 + i))]
        if a is not None:
            F = self.F(eng, st, a)
            out += [('Bd(it)', lambda s, i: self.B(s, simp(F + i)) - self.B(s, F)),
                    ('RDY(it)', lambda s, i: z3.If(F + i < a.T, z3.IntVal(1), z3.IntVal(0)))]
        return out
    def guards(self, eng, st):
        a = st.w.get('acq')
        if a is None: return []
        F = self.F(eng, st, a)
        return [('rdy', lambda s, i: F + i < a.T)]
    def msgterms(self, eng, st):
        a = st.w.get('acq')
        F = self.F(eng, st, a)
        k = lambda i: simp(F + i)
        LEN = lambda s, i: self.B(s, k(i + 1)) - self.B(s, k(i))
        POS = lambda s, i: self.pos(a, self.B(s, k(i)))
        WR = lambda s, i: POS(s, i) + LEN(s, i) > self.n
        return LEN, POS, WR
    def gterms(self, eng, st):
        a = st.w.get('acq')
        if a is None: return []
        LEN, POS, WR = self.msgterms(eng, st)
        return [('OFFD', lambda s, i: z3.IntVal(self.OFFD)), ('LEN', LEN), ('POS', lambda s, i: POS(s, i) + self.OFFD), ('L1', lambda s, i: z3.If(WR(s, i), self.n - POS(s, i), LEN(s, i))),
                ('L2', lambda s, i: z3.If(WR(s, i), LEN(s, i) - self.n + POS(s, i), z3.IntVal(0)))]
    def nullterms(self, eng, st):
        if st.w.get('acq') is None: return []
        LEN, POS, WR = self.msgterms(eng, st)
        return [('nowrap', lambda s, i: z3.Not(WR(s, i)))]
    def cands(self, eng, st, mods):
        a = st.w.get('acq')
        out = [('it<=niov', lambda e, s, g, i: i <= self.niov0)]
        if a is not None:
            F = self.F(eng, st, a)
            out += [('F+it<=T', lambda e, s, g, i: F + i <= a.T),
                    ('Bd<=len', lambda e, s, g, i: self.B(s, simp(F + i)) - self.B(s, F) <= self.lenc())]
        return out
    def templates(self, eng, st, k):
        _, rn, pi, fo = k
        a = st.w.get('acq')
        if a is None: return []
        F = self.F(eng, st, a)
        old = st.mem[rn].parts[pi].val[fo]
        Bd = lambda s, i: simp(self.B(s, simp(F + i)) - self.B(s, F))
        if rn == 'ubuf':
            def fB(it):
                def f(s, y):
                    return eng.lazyite(s, simp(And(zb(y < Bd(s, it)), zb(y >= 0) if not isc(y) else y >= 0)), lambda: self.C(s, self.B(s, F) + y), lambda: old(s, y))
                return f
            return [('copied', fB)]
        if rn == 'uiov':
            def fV(it):
                def f(s, j):
                    v = (lambda: Ptr('ubuf', Bd(s, j))) if fo == 0 else (lambda: simp(Bd(s, ladd(j, 1)) - Bd(s, j)))
                    return eng.lazyite(s, simp(zb(j < it)), v, lambda: old(s, j))
                return f
            return [('filled', fV)]
        return []
