"""Contracts of lib/bw.c, the wait/wake registry.

One arbitrary registry slot k and one arbitrary descriptor d are fixed; every
invariant is stated for them, which is the statement for all slots and all
descriptors.  At a loop head the surviving invariants are also instantiated at
each index the code reads (they hold for all indexes, not only for k and d).

Ghost kernel state (region K): own[d] says who owns descriptor d of this process
(-1 nobody here, 0..63 slot of the wake handle, 64 held by the running call or a
wait handle), conn[d] the name its peer is bound to.  Monotone ghost predicates:
LIVE(pid,name) the process holds that socket (tested by has_pid_socket),
WOKEN(name) a wakeup was accepted by or already fills that socket's queue during
this call, REFUSED(name) a wakeup to it was refused otherwise."""
import z3
from sym import *
import sym, libc
from libc import Spec, fail, NEG1, NEG1L, errno_set
from ring import Ty_named
Z = lambda x: z3.IntVal(x) if isc(x) else x
N = 64
PEND = N
NL = 8
MMSG = {0: (8, 'ptr'), 8: (4, 'int'), 16: (8, 'ptr'), 24: (8, 'int'), 32: (8, 'ptr'), 40: (8, 'int'), 48: (4, 'int'), 56: (4, 'int')}

class Ctx:
    def __init__(self): self.cands = None; self.view = None; self.it = None

class View:
    """reads of the registry, the handle and the ghost state in a given memory"""
    def __init__(self, sp, mem): self.sp, self.r = sp, {k: mem[k] for k in ('h', 'w', 'K') if k in mem}
    def _p(self, rn, pn, fo):
        r = self.r.get(rn)
        if r is None or not r.parts: return None
        return r.parts[self.sp.PIX[(rn, pn)]].val[fo]
    def pid(self, s, x): return self._p('h', 'wr', 0)(s, x)
    def hnb(self, s, x, j): return self._p('h', 'wr', 4)(s, x, j)
    def fd(self, s, x): return self._p('w', 'fd', 0)(s, x)
    def wnb(self, s, x, j): return self._p('w', 'name', 0)(s, x, j)
    def own(self, s, d): return self._p('K', 'own', 0)(s, d)
    def conn(self, s, d): return self._p('K', 'conn', 0)(s, d)
    def hn(self, s, x): return pack([self.hnb(s, x, j) for j in range(NL)])
    def wn(self, s, x): return pack([self.wnb(s, x, j) for j in range(NL)])
    def has(self, rn): return rn in self.r
def pack(bs):
    t = 0
    for j, b in enumerate(bs):
        if isinstance(b, Undef): return fresh('junk')
        t = ladd(t, lmul(toint(b), 1 << (8 * j)))
    return t
def samebytes(a, b): return And(*[Eq(x, y) for x, y in zip(a, b)])

class BW(Spec):
    mode = None; drained = False
    def unroll(self, key): return False
    # ------------------------------------------------ memory
    def begin(self, eng):
        self.eng = eng
        st = self.base_state(eng)
        st.w['sysfail'] = z3.BoolVal(False)
        self.M = eng.m.members['bw_t']
        self.HM = eng.m.members['bw_handle']
        self.k, self.d = z3.Int('slot'), z3.Int('desc')
        st.add(z3.And(self.k >= 0, self.k < N, self.d >= 0, self.d < 1 << 20))
        self.LIVE = z3.Function('LIVE', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.WOKEN = z3.Function('WOKEN', z3.IntSort(), z3.BoolSort())
        self.REFUSED = z3.Function('REFUSED', z3.IntSort(), z3.BoolSort())
        self.idepth = 0; self._sh = None; self.ctx = None; self.ctxn = 0
        self.PIX = {('K', 'own'): 0, ('K', 'conn'): 1}
        self.ctx0 = Ctx(); self.ctx0.id = 0; self.ctx0.it = z3.IntVal(0)
        r = Reg('K', 1 << 40, 'undef'); st.mem['K'] = r
        self.OWN0, self.CONN0 = Fn('own', 1, rng=(-1, PEND + 1)), Fn('conn', 1)
        r.parts = [Part('own', 0, 1, 1 << 20, {0: (1, 'int')}, {0: self.inst('desc', self.ctx0, self.OWN0)}),
                   Part('conn', 0, 1, 1 << 20, {0: (1, 'int')}, {0: self.inst('none', self.ctx0, self.CONN0)})]
        return st
    def inst(self, kind, ctx, fn):
        """closure over fn that instantiates the invariants of ctx at the index read"""
        def g(s, x, *j):
            t = fn(s, x, *j)
            if kind != 'none' and ctx.cands is not None and self.idepth < 2:
                x = simp(x); key = ('inst', ctx.id, kind, x if isc(x) else x.get_id())
                if key not in s.touched:
                    s.touched[key] = (x, t)
                    self.idepth += 1
                    try: self.instantiate(s, ctx, kind, x)
                    finally: self.idepth -= 1
            return t
        return g
    def instantiate(self, s, ctx, kind, x):
        lim = N if kind == 'slot' else 1 << 20
        for c in ctx.cands:
            if c.kind != kind: continue
            f = c.f(ctx.E, ctx.view, s, ctx.it, x)
            if f is not True: s.add(z3.Implies(z3.And(Z(x) >= 0, Z(x) < lim), zb(f)))
    def mkreg(self, eng, st):
        """the registry, in any state the library can leave it in"""
        r = Reg('h', eng.m.size(Ty_named(eng, '%struct.bw_handle')), 'undef'); st.mem['h'] = r
        eng.layout(r, Ty_named(eng, '%struct.bw_handle'), 0)
        self.PIX[('h', 'wr')] = 0
        self.PID0, self.HN0 = Fn('pid', 1, rng=(0, 1 << 22)), Fn('hname', 2, rng=(0, 256))
        q = r.parts[0]
        if (q.stride, q.count, sorted(q.fields)) != (12, N, [0, 4]): raise Unsupported('registry layout')
        r.parts[0] = q.with_(0, self.inst('slot', self.ctx0, self.PID0)).with_(4, self.inst('slot', self.ctx0, self.HN0))
        self.hseq = z3.Int('hseq'); st.add(z3.And(self.hseq >= 0, self.hseq < 1 << 32))
        r.cells[self.HM['seqno'][0]] = (4, self.hseq)
    def layout_w(self, eng, r):
        eng.layout(r, Ty_named(eng, '%struct.bw_t'), 0)
        for i, q in enumerate(r.parts):
            if q.base == self.M['fd'][0]: self.PIX[('w', 'fd')] = i
            if q.base == self.M['name'][0]: self.PIX[('w', 'name')] = i
        if ('w', 'fd') not in self.PIX or ('w', 'name') not in self.PIX: raise Unsupported('handle layout')
    def put(self, st, f, v): o, sz = self.M[f]; st.mem['w'].cells[o] = (sz, v)
    def get(self, eng, st, f):
        o, sz = self.M[f]; v = eng.cell(st, st.mem['w'], o, sz)
        if v is None and st.mem['w'].default == 'zero': v = 0
        return v
    def mkhandle(self, eng, st, mode):
        """an open handle of the given mode"""
        self.mode = mode
        r = Reg('w', eng.m.size(Ty_named(eng, '%struct.bw_t')), 'zero', kind='heap'); st.mem['w'] = r
        self.layout_w(eng, r)
        st.w['heap'] = ('w',)
        self.put(st, 'flags', 2 if mode == 'wake' else 4); self.put(st, 'h', Ptr('h', 0))
        V = View(self, st.mem)
        if mode == 'wake':
            fp, np = self.PIX[('w', 'fd')], self.PIX[('w', 'name')]
            self.FD0, self.WN0 = Fn('fd', 1, rng=(0, 1 << 32)), Fn('wname', 2, rng=(0, 256))
            r.parts[fp] = r.parts[fp].with_(0, self.inst('slot', self.ctx0, self.FD0))
            r.parts[np] = r.parts[np].with_(0, self.inst('slot', self.ctx0, self.WN0))
            self.wseq = z3.Int('wseq'); st.add(z3.And(self.wseq >= 0, self.wseq < 1 << 32)); self.put(st, 'seqno', self.wseq)
            # the registry is at most 2^31 changes ahead
            D = z3.If(self.hseq >= self.wseq, self.hseq - self.wseq, self.hseq - self.wseq + (1 << 32)); st.add(D < 1 << 31)
            for f in ('slotno', 'listenfd', 'selffd', 'epollfd'): self.put(st, f, NEG1)
            self.put(st, 'iov.iov_base', Ptr('w', self.M['zero'][0])); self.put(st, 'iov.iov_len', 1)
            self.put(st, 'hdr.msg_iov', Ptr('w', self.M['iov'][0])); self.put(st, 'hdr.msg_iovlen', 1)
            self.put(st, 'drain', NULL)
        else:
            fp = self.PIX[('w', 'fd')]
            r.parts[fp] = r.parts[fp].with_(0, lambda s, x: NEG1)
            sl = z3.Int('slotno'); st.add(z3.And(sl >= 0, sl < N)); self.slotno = sl
            self.put(st, 'slotno', sl); self.put(st, 'seqno', NEG1)
            self.lfd, self.sfd, self.efd = [z3.Int(x) for x in ('listenfd', 'selffd', 'epollfd')]
            for f, x in (('listenfd', self.lfd), ('selffd', self.sfd), ('epollfd', self.efd)):
                st.add(z3.And(x >= 0, x < 1 << 20)); self.put(st, f, x)
            st.add(z3.Distinct(self.lfd, self.sfd, self.efd))
            self.put(st, 'iov.iov_base', Ptr('w', self.M['discard'][0])); self.put(st, 'iov.iov_len', 8)
            self.put(st, 'hdr.msg_iov', Ptr('w', self.M['iov'][0])); self.put(st, 'hdr.msg_iovlen', 1)
            self.put(st, 'hdr.msg_control', Ptr('w', self.M['control_un'][0])); self.put(st, 'hdr.msg_controllen', self.M['control_un'][1])
            if self.drained: self.mkdrain(eng, st, 1024); self.put(st, 'drain', Ptr('drain', 0)); st.w['heap'] = ('w', 'drain')
            else: self.put(st, 'drain', NULL)
            st.w['qn'] = z3.Bool('queued')
            st.w['ep'] = ((self.lfd, self.lfd),); st.w['epfd'] = self.efd
        self.seal(eng, st)
    def mkdrain(self, eng, st, n):
        r = Reg('drain', n * 64, 'zero', kind='heap'); st.mem['drain'] = r
        eng.addpart(r, 'drain messages', 0, 64, n, dict(MMSG))
        q = r.parts[0]
        r.parts[0] = q.with_(16, lambda s, x: Ptr('w', self.M['iov'][0])).with_(24, lambda s, x: 1)
        return r
    def ispt(self, v, r, o=0): return bool(isinstance(v, Ptr) and v.r == r and isc(simp(v.o)) and simp(v.o) == o)
    # ------------------------------------------------ invariants
    def wellformed(self, V, s, x):
        """name of a registered waiter: '@', five characters, NUL padded"""
        b = [V.hnb(s, x, j) for j in range(NL)]
        return And(Eq(b[0], 64), *([Not(Eq(c, 0)) for c in b[1:6]] + [Eq(c, 0) for c in b[6:]]))
    def synced(self, V, s, x):
        fd = V.fd(s, x)
        return z3.If(zb(Eq(V.pid(s, x), 0)), zb(Eq(fd, NEG1)), zb(And(Not(Eq(fd, NEG1)), samebytes([V.hnb(s, x, j) for j in range(NL)], [V.wnb(s, x, j) for j in range(NL)]))))
    def I1(self, V, s, x):
        fd = V.fd(s, x)
        return Implies(Not(Eq(fd, NEG1)), And(fd >= 0, fd < 1 << 20, Eq(V.own(s, fd), x)))
    def I2(self, V, s, d, more=lambda o: True):
        o = V.own(s, d)
        ins = And(o >= 0, o < N)
        return Implies(ins, And(Eq(V.fd(s, o), d), more(o)))
    def CN(self, V, s, x):
        fd = V.fd(s, x)
        return Implies(Not(Eq(fd, NEG1)), Eq(V.conn(s, fd), V.wn(s, x)))
    def seal(self, eng, st):
        """the invariants of the initial state, for all indexes"""
        c = []
        def C(kind, f):
            o = lambda: None; o.kind, o.f = kind, f; c.append(o)
        C('slot', lambda E, V, s, it, x: Implies(Not(Eq(V.pid(s, x), 0)), self.wellformed(V, s, x)))
        if self.mode == 'wake' and 'w' in st.mem:
            C('slot', lambda E, V, s, it, x: self.I1(V, s, x))
            C('slot', lambda E, V, s, it, x: self.CN(V, s, x))
            C('slot', lambda E, V, s, it, x: z3.Implies(self.wseq == self.hseq, self.synced(V, s, x)))
            C('desc', lambda E, V, s, it, d: And(V.own(s, d) < N, self.I2(V, s, d)))
        elif self.mode == 'wait' and 'w' in st.mem:
            C('desc', lambda E, V, s, it, d: Eq(V.own(s, d), z3.If(z3.Or(d == self.lfd, d == self.sfd, d == self.efd), z3.IntVal(PEND), z3.IntVal(-1))))
        else:
            C('desc', lambda E, V, s, it, d: Eq(V.own(s, d), -1))
        self.ctx0.cands = c; self.ctx0.view = View(self, st.mem); self.ctx0.E = self.ctx0.view
        self.V0 = self.ctx0.view
        s = st
        self.V0.own(s, self.d)
        if 'h' in st.mem: self.V0.pid(s, self.k)
        if self.mode == 'wait' and 'w' in st.mem:
            V = self.V0; x = self.slotno
            s.add(zb(Eq(V.pid(s, x), self.PID)))
            for y in (self.lfd, self.sfd, self.efd): V.own(s, y)
            s.add(zb(Eq(V.conn(s, self.sfd), V.hn(s, x))))
            self.myname0 = V.hn(s, x)
    LAB = {('h', 0, 0): 'pid', ('h', 0, 4): 'name', ('K', 0, 0): 'own', ('K', 1, 0): 'conn'}
    def label(self, k):
        _, rn, pi, fo = k
        if rn == 'w': return 'fd' if pi == self.PIX.get(('w', 'fd')) else 'wname' if pi == self.PIX.get(('w', 'name')) else None
        return self.LAB.get((rn, pi, fo))
    def havocpart(self, eng, st, sh, k, it):
        lb = self.label(k)
        if lb is None: return None
        if self._sh is not sh:
            self._sh = sh; self.ctxn += 1; c = Ctx(); c.id = self.ctxn; c.it = it; self.ctx = c
        c = self.ctx
        if lb == 'conn': return self.inst('desc', c, Fn('conn', 1))
        if lb == 'own': return self.inst('desc', c, Fn('own', 1, rng=(-1, PEND + 1)))
        fn = Fn(lb, 2 if lb in ('name', 'wname') else 1, rng=(0, 256) if lb in ('name', 'wname') else (0, 1 << (22 if lb == 'pid' else 32)))
        return self.inst('slot', c, fn)
    def cands_ready(self, eng, st, sh, cands, it, mods):
        if self._sh is not sh: return
        c = self.ctx
        for rn, pn in (('w', 'fd'), ('h', 'wr'), ('K', 'own')):
            # descriptors and slots the loop reads but does not write
            if (rn, pn) not in self.PIX or rn not in sh.mem: continue
            k = ('part', rn, self.PIX[(rn, pn)], 0)
            if k in mods: continue
            w = sh.wreg(rn); q = w.parts[k[2]]
            w.parts[k[2]] = q.with_(0, self.inst('desc' if pn == 'own' else 'slot', c, q.val[0]))
        c.view = View(self, sh.mem); c.E = View(self, st.mem)
        c.cands = [f.inst for n, f in cands if hasattr(f, 'inst')]
    def templates(self, eng, st, k):
        if k[0] != 'part' or k[1] != 'drain': return []
        q = st.mem['drain'].parts[k[2]]; old = q.val[k[3]]; fo = k[3]; n = q.count
        v = {16: lambda: Ptr('w', self.M['iov'][0]), 24: lambda: 1}.get(fo)
        if v is None: return []
        def mk(D):
            def t(it):
                def g(s, x):
                    c = simp(D(it, x))
                    if fo == 24: return eng.ite(s, c, 1, old(s, x))
                    o = old(s, x)
                    if c is True: return v()
                    if c is False: return o
                    return CondPtr(zb(c), v(), o)
                return g
            return t
        return [('filled up', mk(lambda it, x: x < it)), ('filled down', mk(lambda it, x: x >= n - it)), ('filled', mk(lambda it, x: True))]
    def exact(self, eng, k, cands):
        if k[0] == 'part' and k[1] == 'drain': return None
        if k[0] == 'cell' and k[1] == 'errno': return True
        if k[0] == 'world': return True
        if k[0] == 'part':
            lb = self.label(k)
            return lb is not None and any(lb in n.split(':')[0].split(',') for n, f in cands if hasattr(f, 'inst'))
        return None
    def ignore_region(self, rn): return rn.startswith('va_') or rn == 'errno'
    D4 = (('<it', lambda i, x: x < i), ('>=it', lambda i, x: x >= i), ('>=N-it', lambda i, x: x >= N - i), ('<N-it', lambda i, x: x < N - i), ('all', lambda i, x: True))
    def cands(self, eng, st, mods):
        labs = {self.label(k) for k in mods if k[0] == 'part'} - {None}
        hm = [k for k in mods if k[0] == 'cell' and k[1] == 'h']
        E = View(self, st.mem)
        if not labs and not hm:
            if not E.has('h'): return []
            # search for a free slot
            return [('busy ' + dn, lambda e, s, get, i, D=D: Implies(D(i, self.k), Not(Eq(View(self, s.mem).pid(s, self.k), 0)))) for dn, D in self.D4[:3]]
        out = []
        sp = self
        def C(kind, nm, f):
            x = self.k if kind == 'slot' else self.d
            g = lambda e, s, get, i: f(E, View(sp, s.mem), s, i, x)
            o = lambda: None; o.kind, o.f = kind, f; g.inst = o
            out.append((nm, g))
        D4 = self.D4
        def gone(E, s, x): return Or(Not(self.LIVE(Z(toint(E.pid(s, x))), Z(E.hn(s, x)))), self.REFUSED(Z(E.hn(s, x))))
        hb = lambda V, s, x: [V.hnb(s, x, j) for j in range(NL)]
        wb = lambda V, s, x: [V.wnb(s, x, j) for j in range(NL)]
        W = E.has('w')
        if 'pid' in labs:
            C('slot', 'pid:kept or cleared of one gone', lambda E, V, s, i, x: Or(Eq(V.pid(s, x), E.pid(s, x)), And(Eq(V.pid(s, x), 0), gone(E, s, x))))
            if hm:
                o, sz = self.HM['seqno']
                s0 = toint(eng.cell(st, st.mem['h'], o, sz))
                def delta(s): v = toint(eng.cell(s, s.mem['h'], o, sz)); return z3.If(Z(v) >= s0, v - s0, v - s0 + (1 << 32))
                out.append(('seqno advances at most once per round', lambda e, s, get, i: delta(s) <= i))
                g = lambda E, V, s, i, x, : Or(Eq(V.pid(s, x), E.pid(s, x)), delta(s) >= 1)
                out.append(('pid change noticed', lambda e, s, get, i: g(E, View(sp, s.mem), s, i, self.k)))
            # changes counted in a local variable
            for pk in mods:
                if pk[0] != 'phi': continue
                v0 = eng.getmod(st, pk)
                if not isc(v0): continue
                out.append(('pid changes counted in %s' % (pk,), lambda e, s, get, i, pk=pk, v0=v0: Or(Eq(View(self, s.mem).pid(s, self.k), E.pid(s, self.k)), Z(toint(get(pk))) > v0)))
                out.append(('at most one count per round in %s' % (pk,), lambda e, s, get, i, pk=pk, v0=v0: z3.And(Z(toint(get(pk))) >= v0, Z(toint(get(pk))) <= v0 + i)))
        for dn, D in D4:
            if 'pid' in labs: C('slot', 'pid:frame ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), Eq(V.pid(s, x), E.pid(s, x))))
            if 'name' in labs: C('slot', 'name:frame ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), samebytes(hb(V, s, x), hb(E, s, x))))
            if not W: continue
            if 'fd' in labs:
                C('slot', 'fd:frame ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), Eq(V.fd(s, x), E.fd(s, x))))
                C('slot', 'fd:kept or closed ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), Or(Eq(V.fd(s, x), E.fd(s, x)), Eq(V.fd(s, x), NEG1))))
                C('slot', 'fd:closed ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), Eq(V.fd(s, x), NEG1)))
            if 'wname' in labs: C('slot', 'wname:frame ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), samebytes(wb(V, s, x), wb(E, s, x))))
            if labs & {'fd', 'own'}:
                C('slot', 'fd,own:I1 ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), self.I1(V, s, x)))
                C('desc', 'fd,own:I2 ' + dn, lambda E, V, s, i, d, D=D: self.I2(V, s, d, lambda o: D(i, o)))
            if labs & {'fd', 'wname', 'pid', 'name'}: 
                    C('slot', 'fd,wname,pid,name:synced ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), self.synced(V, s, x)))
                    C('slot', 'fd,wname,pid,name:closed or synced ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), Or(Eq(V.fd(s, x), NEG1), self.synced(V, s, x))))
            if labs & {'fd', 'wname', 'conn'}: C('slot', 'fd,wname,conn:peer ' + dn, lambda E, V, s, i, x, D=D: Implies(D(i, x), self.CN(V, s, x)))
        if 'own' in labs:
            C('desc', 'own:frame', lambda E, V, s, i, d: Eq(V.own(s, d), E.own(s, d)))
            C('desc', 'own:none held by the call', lambda E, V, s, i, d: Implies(Eq(V.own(s, d), PEND), Eq(E.own(s, d), PEND)))
            C('desc', 'own:held stay held', lambda E, V, s, i, d: Implies(Eq(E.own(s, d), PEND), Eq(V.own(s, d), PEND)))
        if 'conn' in labs:
            C('desc', 'conn:frame', lambda E, V, s, i, d: Eq(V.conn(s, d), E.conn(s, d)))
            C('desc', 'conn:frame of open ones', lambda E, V, s, i, d: Implies(Eq(E.own(s, d), PEND), Eq(V.conn(s, d), E.conn(s, d))))
        if W:
            for dn, D in D4[:1] + D4[2:3]:
                def wk(E, V, s, i, x, D=D):
                    n = E.hn(s, x)
                    return Implies(And(D(i, x), Not(Eq(E.fd(s, x), NEG1))), Or(self.WOKEN(Z(E.conn(s, E.fd(s, x)))), And(self.REFUSED(Z(E.conn(s, E.fd(s, x)))), Eq(V.pid(s, x), 0))))
                C('slot', 'woken ' + dn, wk)
        return out
    def bounds(self, eng, st):
        # the constants the function compares with
        c = {N, N - 1}
        for b in st.fr.f.blocks.values():
            for ins in b:
                if ins.op == 'icmp' and ins.ty.k == 'i':
                    for v in ins.a[1:]:
                        if isinstance(v, tuple) and v[0] == 'c': v = v[1]
                        if isinstance(v, int) and not isinstance(v, bool) and 1 < v < 1 << 20: c |= {v, v - 1}
        return [('N' if x == N else '%d' % x, lambda s, x=x: x) for x in sorted(c)]
    # candidates for loops that change nothing but their counter
    def loop_assume(self, eng, sh, it): pass
    # ------------------------------------------------ ghost updates
    def setghost(self, st, what, d, v):
        w = st.wreg('K'); pi = self.PIX[('K', what)]; q = w.parts[pi]; old = q.val[0]
        w.parts[pi] = q.with_(0, lambda s, x: self.eng.upd(s, x, d, v, old))
    def newfd_(self, eng, st):
        fd = fresh('fd'); st.add(z3.And(fd >= 0, fd < 1 << 20))
        st.add(zb(Eq(View(self, st.mem).own(st, fd), -1)))
        self.setghost(st, 'own', fd, PEND)
        return fd
    def close(self, eng, st, fd):
        fd = toint(fd)
        V = View(self, st.mem)
        ok = And(zb(fd >= 0) if not isc(fd) else fd >= 0, zb(fd < 1 << 20) if not isc(fd) else fd < 1 << 20, Not(Eq(V.own(st, fd), -1)))
        eng.oblige(st, ('P19', 'P15'), 'close of an open descriptor owned by this library, once', ok)
        if not eng.feasible(st): raise PathEnd()
        self.setghost(st, 'own', fd, -1)
        return [(st, 0)]
    def after_store(self, eng, st, rn, part, off, size, v):
        if rn == 'w' and part and part[0] == self.PIX.get(('w', 'fd')):
            v = toint(v)
            if isinstance(v, Undef): return
            if isc(v) and v == NEG1: return
            V = View(self, st.mem)
            c = Not(Eq(v, NEG1)) if not isc(v) else True
            eng.oblige(st, ('P19', 'P15', 'P17'), 'what is stored as a descriptor is one', Implies(c, And(Eq(V.own(st, v), PEND))))
            if self.mode == 'wake' or True: self.setghost(st, 'own', v, part[1])
    def alloc(self, eng, st, size, default, nk=None):
        S = eng.m.size(Ty_named(eng, '%struct.bw_t'))
        if isc(size) and size == S and 'w' not in st.mem:
            r = Reg('w', S, 'zero' if default == 'zero' else 'undef', kind='heap'); st.mem['w'] = r
            self.layout_w(eng, r)
            return 'w'
        if isc(size) and size % 64 == 0 and nk is not None and 64 in nk and 'drain' not in st.mem:
            n = size // 64
            r = Reg('drain', size, 'zero', kind='heap'); st.mem['drain'] = r
            eng.addpart(r, 'drain messages', 0, 64, n, dict(MMSG))
            return 'drain'
        return None
    def strlen(self, eng, st, p):
        p = eng.pick(st, p)
        r, part, off = eng.resolve(st, p, 1, 'strlen')
        if not part: raise Unsupported('strlen')
        pi, idx, fo, rest, _ = part
        q = r.parts[pi]; sz, kind = q.fields[fo]
        if kind != 'bytes': raise Unsupported('strlen of this object')
        bs = [q.val[fo](st, idx, rest + i) for i in range(sz - rest)]
        eng.oblige(st, ('P15', 'P16', 'P17'), 'the string ends within its field', Or(*[Eq(b, 0) for b in bs]))
        l = len(bs) - 1
        for i in range(len(bs) - 1, -1, -1): l = eng.ite(st, Eq(bs[i], 0), i, l)
        return [(st, l)]
    def contract(self, eng, st, name): return getattr(self, 'c_' + name, None)
    # ------------------------------------------------ kernel contracts
    def c_socket(self, eng, st, av, args, ins):
        ok = And(*[Eq(toint(a), b) for a, b in zip(av, (1, 2, 0))])
        flags = simp(toint(av[1]))
        eng.oblige(st, ('P17', 'P16'), 'a unix datagram socket is made', And(Eq(toint(av[0]), 1), isc(flags) and flags & 15 == 2))
        f = fail(eng, st, NEG1)
        fd = self.newfd_(eng, st)
        self.setghost(st, 'conn', fd, 0)
        return [(st, fd), f]
    def ownedfd(self, eng, st, fd, what):
        fd = toint(fd)
        eng.oblige(st, ('P15', 'P19', 'P17'), what + ' on an open descriptor of this library', And(Z(fd) >= 0, Z(fd) < 1 << 20, Not(Eq(View(self, st.mem).own(st, fd), -1))))
        return fd
    def sockaddr(self, eng, st, v):
        """pointer inside a transparent union argument"""
        p = v
        if not isinstance(p, (Ptr, CondPtr)): raise Unsupported('socket address argument')
        return eng.pick(st, p)
    def addrname(self, eng, st, p, ln):
        """friendly (packed) name of an abstract address"""
        eng.oblige(st, ('P15',), 'the address length is within the address', And(Z(ln) >= 2, Z(ln) <= 110))
        fam = eng.load(st, Ptr(p.r, p.o), I(16))
        bs = eng.bytes_of(st, Ptr(p.r, ladd(p.o, 2)), NL, 'address')
        t = 64
        junk = False
        for j in range(1, NL):
            b = bs[j]
            c = simp(Z(ln) - 3 >= j) if not isc(ln) else ln - 3 >= j
            if isinstance(b, Undef): junk = Or(junk, c); b = 0
            t = ladd(t, eng.ite(st, c, lmul(toint(b), 1 << (8 * j)), 0))
        abstract = And(Eq(toint(fam), 1), False if isinstance(bs[0], Undef) else Eq(bs[0], 0), Not(junk), Z(ln) >= 4, Z(ln) <= 2 + NL, *[Implies(Z(ln) - 3 == j, False if isinstance(bs[j], Undef) else Not(Eq(bs[j], 0))) for j in range(1, NL)])
        return abstract, t
    def c_connect(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'connect')
        p = self.sockaddr(eng, st, av[1])
        ln = simp(toint(av[2]))
        ab, nm = self.addrname(eng, st, p, ln)
        eng.oblige(st, ('P17', 'P09', 'P16'), 'a connection is made to an abstract name', ab)
        f = fail(eng, st, NEG1)
        self.setghost(st, 'conn', fd, nm)
        st.w['_conn'] = (fd, nm)
        return [(st, 0), f]
    def c_bind(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'bind')
        p = self.sockaddr(eng, st, av[1])
        fam = eng.load(st, p, I(16))
        eng.oblige(st, ('P16', 'P17'), 'a waiter lets the kernel choose a unique name (autobind)', And(Eq(toint(av[2]), 2), Eq(toint(fam), 1)))
        f = fail(eng, st, NEG1)
        bs = [z3.Int('autoname%d' % j) for j in range(1, 6)]
        for b in bs: st.add(z3.And(b > 0, b < 256))
        nm = pack([64] + bs + [0, 0])
        st.w['bound'] = st.w.get('bound', ()) + ((fd, nm, tuple(bs)),)
        return [(st, 0), f]
    def c_setsockopt(self, eng, st, av, args, ins):
        return [(st, 0), fail(eng, st, NEG1)]
    def c_getsockname(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'getsockname')
        p = self.sockaddr(eng, st, av[1]); lp = eng.pick(st, av[2])
        l0 = toint(eng.load(st, lp, I(32)))
        eng.oblige(st, ('P15',), 'the address buffer is as large as stated', Z(l0) <= eng.m.size(Ty_named(eng, '%struct.sockaddr_un')))
        eng.oblige(st, ('P16',), 'the address buffer holds the name', Z(l0) >= 8)
        b = [x for x in st.w.get('bound', ()) if same(x[0], fd) or eng.valid(st, Eq(x[0], fd))]
        eng.oblige(st, ('P16',), 'the name asked for is that of a bound socket', bool(b))
        f = fail(eng, st, NEG1)
        if not b: raise PathEnd()
        eng.store(st, Ptr(p.r, p.o), I(16), 1)
        for j, c in enumerate((0,) + b[0][2]): eng.store(st, Ptr(p.r, ladd(p.o, 2 + j)), I(8), c)
        eng.store(st, lp, I(32), 8)
        return [(st, 0), f]
    def msgbytes(self, eng, st, hdr, what, write=False):
        """total length of the buffers of a message header (one or two elements)"""
        iov = eng.pick(st, eng.load(st, Ptr(hdr.r, ladd(hdr.o, 16)), PTR)); n = simp(toint(eng.load(st, Ptr(hdr.r, ladd(hdr.o, 24)), I(64))))
        nmp = eng.pick(st, eng.load(st, Ptr(hdr.r, hdr.o), PTR)); ct = eng.pick(st, eng.load(st, Ptr(hdr.r, ladd(hdr.o, 32)), PTR)); cl = toint(eng.load(st, Ptr(hdr.r, ladd(hdr.o, 40)), I(64)))
        if not write: eng.oblige(st, ('P17',), 'the message goes to the connected peer', nmp.r is None)
        if not isc(n) or n > 4: raise Unsupported('message vector')
        t = 0
        for i in range(n):
            b = eng.pick(st, eng.load(st, Ptr(iov.r, ladd(iov.o, 16 * i)), PTR)); l = simp(toint(eng.load(st, Ptr(iov.r, ladd(iov.o, 16 * i + 8)), I(64))))
            if b.r is None or b.r not in st.mem or not isc(l): eng.oblige(st, ('P15',), what + ' through valid buffers', False); continue
            r = st.mem[b.r]
            eng.oblige(st, ('P15',), what + ' stays inside its buffer', And(r.alive, Z(b.o) >= 0, Z(b.o) + l <= r.size) if not isc(b.o) else bool(r.alive and b.o >= 0 and b.o + l <= r.size))
            if write and b.r == 'w':
                D = self.M['discard']
                eng.oblige(st, ('P15', 'P19'), what + ' goes to the discard buffer only', bool(isc(b.o) and D[0] <= b.o and b.o + l <= D[0] + D[1]))
            t += l
        if ct.r is not None:
            r = st.mem.get(ct.r); C = self.M['control_un']
            eng.oblige(st, ('P15',), what + ' control data stays inside its buffer', bool(ct.r == 'w' and isc(ct.o) and isc(simp(cl)) and C[0] <= ct.o and ct.o + simp(cl) <= C[0] + C[1]))
        return t
    def c_sendmsg(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'sendmsg')
        hdr = eng.pick(st, av[1]); fl = simp(toint(av[2]))
        eng.oblige(st, ('P07', 'P25'), 'a wakeup is sent without blocking', isc(fl) and bool(fl & 0x40))
        n = self.msgbytes(eng, st, hdr, 'sendmsg')
        eng.oblige(st, ('P17', 'P09'), 'a wakeup has at least one byte', n >= 1)
        V = View(self, st.mem)
        o = V.own(st, fd); nm = V.conn(st, fd)
        eng.oblige(st, ('P17',), 'a wakeup goes to a registered waiter only', And(o >= 0, o < N, Not(Eq(V.pid(st, o), 0)), Eq(nm, V.hn(st, o))))
        nm = Z(nm)
        full = st.fork(); full.add(self.WOKEN(nm))
        e = errno_set(eng, full, [11])
        bad = st.fork(); bad.add(self.REFUSED(nm)); e = errno_set(eng, bad); bad.add(e != 11)
        st.add(self.WOKEN(nm)); r = fresh('nr'); st.add(z3.And(r >= 1, r <= n))
        return [(st, r), (full, NEG1L), (bad, NEG1L)]
    def c_has_pid_socket(self, eng, st, av, args, ins):
        pid = toint(av[0])
        if isinstance(pid, Undef): eng.fail(st, ('P15', 'P16'), 'the process asked about is known'); raise PathEnd()
        nm = pack(eng.bytes_of(st, av[1], NL, 'name of the socket asked about'))
        y = st.fork(); rv = fresh('alive'); y.add(z3.And(rv >= 1, rv < 1 << 31))
        n = st.fork()
        errno_set(eng, n); errno_set(eng, y); errno_set(eng, st)
        st.add(z3.Not(self.LIVE(Z(pid), Z(nm))))
        return [(st, 0), (y, rv), (n, NEG1)]
    def c_epoll_create(self, eng, st, av, args, ins):
        f = fail(eng, st, NEG1)
        fd = self.newfd_(eng, st); st.w['epfd'] = fd; st.w['ep'] = ()
        return [(st, fd), f]
    c_epoll_create1 = c_epoll_create
    def c_epoll_ctl(self, eng, st, av, args, ins):
        ep, op, fd, ev = toint(av[0]), simp(toint(av[1])), toint(av[2]), eng.pick(st, av[3])
        eng.oblige(st, ('P20', 'P08', 'P17'), 'the wait set of this handle is changed', self.isep(eng, st, ep))
        eng.oblige(st, ('P20', 'P08'), 'a descriptor is added to the wait set', isc(op) and op == 1)
        evs = simp(toint(eng.load(st, ev, I(32)))); dfd = toint(eng.load(st, Ptr(ev.r, ladd(ev.o, 4)), I(32)))
        eng.oblige(st, ('P20', 'P08'), 'the descriptor is watched for input, level triggered', isc(evs) and evs == 1)
        f = fail(eng, st, NEG1)
        st.w['ep'] = st.w.get('ep', ()) + ((fd, dfd),)
        return [(st, 0), f]
    def c_epoll_wait(self, eng, st, av, args, ins):
        ep, ev, n, to = toint(av[0]), eng.pick(st, av[1]), simp(toint(av[2])), simp(toint(av[3]))
        eng.oblige(st, ('P20', 'P08'), 'the wait is on the wait set of this handle', self.isep(eng, st, ep))
        eng.oblige(st, ('P15', 'P20', 'P08'), 'one event is asked for', isc(n) and n == 1)
        eng.oblige(st, ('P08', 'P20'), 'the wait lasts until something is ready', isc(to) and to == NEG1)
        f = fail(eng, st, NEG1)
        l = st.fork(); l.w['ready'] = 'own'; l.add(zb(l.w['qn']))
        o = st.fork(); o.w['ready'] = 'other'
        x = fresh('otherfd'); o.add(z3.And(x >= 0, x < 1 << 20, x != self.lfd))
        for s, d in ((l, self.lfd), (o, x)):
            eng.store(s, Ptr(ev.r, ev.o), I(32), 1); eng.store(s, Ptr(ev.r, ladd(ev.o, 4)), I(32), d); eng.store(s, Ptr(ev.r, ladd(ev.o, 8)), I(32), 0)
        return [(l, 1), (o, 1), f]
    def c_ioctl(self, eng, st, av, args, ins):
        fd, rq, p = toint(av[0]), simp(toint(av[1])), eng.pick(st, av[2])
        eng.oblige(st, ('P09',), 'the readiness of the descriptor handed out is asked for', And(Eq(fd, self.lfd), isc(rq) and rq == 0x541B))
        f = fail(eng, st, NEG1)
        n = fresh('pending'); st.add(z3.And(n >= 0, n < 1 << 20)); st.add((n > 0) == zb(st.w['qn']))
        eng.store(st, p, I(32), n)
        return [(st, 0), f]
    def nonblock(self, eng, st, fl, what):
        eng.oblige(st, ('P07', 'P25', 'P09', 'P20', 'P08'), what + ' does not block', isc(fl) and bool(fl & 0x40))
    def c_recvmsg(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'recvmsg'); hdr = eng.pick(st, av[1])
        self.nonblock(eng, st, simp(toint(av[2])), 'taking a wakeup')
        eng.oblige(st, ('P08', 'P20', 'P09'), 'the wakeup taken is one of this handle', Eq(fd, self.lfd))
        self.msgbytes(eng, st, hdr, 'recvmsg', write=True)
        q = zb(st.w['qn'])
        e = st.fork(); e.add(z3.Not(q)); errno_set(eng, e, [11])
        f = fail(eng, st, NEG1L); f[0].add(f[0].mem['errno'].cells[0][1] != 11)
        st.add(q); st.w['qn'] = freshb('queued'); st.w['taken'] = st.w.get('taken', 0) + 1
        n = fresh('nr'); st.add(z3.And(n >= 1, n <= 8))
        for o in (44, 40 + 8): pass
        eng.store(st, Ptr(hdr.r, ladd(hdr.o, 48)), I(32), 0)
        return [x for x in ((st, n), (e, NEG1L), f) if eng.feasible(x[0])]
    def c_recvmmsg(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'recvmmsg'); p = eng.pick(st, av[1]); n = simp(toint(av[2]))
        self.nonblock(eng, st, simp(toint(av[3])), 'draining')
        eng.oblige(st, ('P09', 'P08'), 'the wakeups drained are those of this handle', Eq(fd, self.lfd))
        r = st.mem.get(p.r)
        ok = bool(r is not None and r.alive and isc(simp(p.o)) and simp(p.o) == 0 and len(r.parts) == 1)
        if not isc(n) or not ok: raise Unsupported('recvmmsg vector')
        eng.oblige(st, ('P15',), 'the message vector is as long as stated', n * 64 <= (r.size if isc(r.size) else -1))
        eng.oblige(st, ('P09',), 'draining asks for messages', n >= 1)
        q = r.parts[0]
        if not isinstance(q.val[16](st, fresh('j')), (Ptr, CondPtr)): raise Unsupported('message vector')
        j = fresh('msg'); s = st.fork(); s.add(z3.And(j >= 0, j < n))
        w = lambda o: q.val[o](s, j)
        nul = lambda v: peq(v, NULL) if isinstance(v, (Ptr, CondPtr)) else Eq(v, 0)
        D = self.M['discard']
        io = s.mem['w']
        base = eng.cell(s, io, self.M['iov.iov_base'][0], 8); ln = toint(eng.cell(s, io, self.M['iov.iov_len'][0], 8))
        eng.oblige(s, ('P15', 'P09', 'P19'), 'every drain message goes to the discard buffer', And(peq(w(16), Ptr('w', self.M['iov'][0])), Eq(w(24), 1), nul(w(0)), nul(w(32)), self.ispt(base, 'w', D[0]), Z(ln) >= 1, Z(ln) <= D[1]))
        qn = zb(st.w['qn'])
        e = st.fork(); e.add(z3.Not(qn)); errno_set(eng, e, [11])
        f = fail(eng, st, NEG1); f[0].add(f[0].mem['errno'].cells[0][1] != 11)
        st.add(qn); st.w['qn'] = freshb('queued')
        c = fresh('nr'); st.add(z3.And(c >= 1, c <= n, z3.Or(c == n, z3.Not(st.w['qn']))))
        # lengths and flags of the messages are output; nothing reads them
        return [x for x in ((st, c), (e, NEG1), f) if eng.feasible(x[0])]
    def c_send(self, eng, st, av, args, ins):
        fd = self.ownedfd(eng, st, av[0], 'send'); p = eng.pick(st, av[1]); n = simp(toint(av[2]))
        self.nonblock(eng, st, simp(toint(av[3])), 'queueing an own wakeup')
        eng.oblige(st, ('P09',), 'the own wakeup goes to the socket waited on', Eq(View(self, st.mem).conn(st, fd), self.myname0))
        eng.oblige(st, ('P09', 'P15'), 'an own wakeup has one byte', isc(n) and n == 1)
        eng.bytes_of(st, p, 1, 'send')
        f = fail(eng, st, NEG1L)
        st.w['qn'] = z3.BoolVal(True)
        return [(st, 1), f]
    def isep(self, eng, st, x):
        e = st.w.get('epfd')
        return Eq(x, e) if e is not None else False
    # ------------------------------------------------ common ends
    def seq1(self, eng, st): return toint(eng.cell(st, st.mem['h'], *self.HM['seqno']))
    def noticed(self, eng, st, V, tags=('P16', 'P17')):
        k = self.k
        ch = Or(Not(Eq(V.pid(st, k), self.V0.pid(st, k))), And(Not(Eq(V.pid(st, k), 0)), Not(Eq(V.hn(st, k), self.V0.hn(st, k)))))
        eng.oblige(st, tags, 'a change of a slot changes the registry sequence number', Implies(ch, Not(Eq(self.seq1(eng, st), self.hseq))))
    def gone0(self, st):
        V = self.V0; k = self.k
        return Or(Not(self.LIVE(Z(toint(V.pid(st, k))), Z(V.hn(st, k)))), self.REFUSED(Z(V.hn(st, k))))
    def others(self, eng, st, V, mine=False):
        """slots of other waiters are kept, or cleared because the waiter is gone"""
        k = self.k; p0, p1 = self.V0.pid(st, k), V.pid(st, k)
        eng.oblige(st, ('P16',), 'a slot of another waiter is kept, or cleared because that waiter is gone',
                   Or(mine, Eq(p0, 0), And(Eq(p1, p0), samebytes([V.hnb(st, k, j) for j in range(NL)], [self.V0.hnb(st, k, j) for j in range(NL)])), And(Eq(p1, 0), self.gone0(st))))
        eng.oblige(st, ('P16',), 'a free slot stays free', Or(mine, Not(Eq(p0, 0)), Eq(p1, 0)))
    def wf1(self, eng, st, V):
        eng.oblige(st, ('P16', 'P15', 'P17'), 'registered names are well formed', Implies(Not(Eq(V.pid(st, self.k), 0)), self.wellformed(V, st, self.k)))
    def wakeinv(self, eng, st, V):
        k, d = self.k, self.d
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        O(('P19', 'P17', 'P15'), 'every recorded connection is an open descriptor of its own', self.I1(V, st, k))
        O(('P19', 'P17'), 'every open connection is recorded', And(Not(Eq(V.own(st, d), PEND)), self.I2(V, st, d)))
        O(('P17',), 'every recorded connection leads to the recorded name', self.CN(V, st, k))
        O(('P17',), 'a handle at the registry sequence number is connected to exactly the registered waiters', Implies(Eq(toint(self.get(eng, st, 'seqno')), self.seq1(eng, st)), self.synced(V, st, k)))
        self.handlesame(eng, st, ('flags', 'h', 'iov.iov_base', 'iov.iov_len', 'hdr.msg_iov', 'hdr.msg_iovlen', 'hdr.msg_name', 'hdr.msg_control', 'hdr.msg_controllen'))
    def handlesame(self, eng, st, fs):
        for f in fs:
            o, sz = self.M[f]
            x = eng.cell(st, st.mem['w'], o, sz); y = eng.cell(st, self.w0, o, sz)
            z = lambda v: 0 if v is None else v
            if not same(z(x), z(y)): eng.oblige(st, ('P15', 'P17'), 'handle field %s unchanged' % f, Eq(z(x), z(y)))

# ------------------------------------------------------------------ wake
class BWake(BW):
    fn = 'bw_wake'
    def setup(self, eng):
        st = self.begin(eng); self.mkreg(eng, st); self.mkhandle(eng, st, 'wake'); self.w0 = st.mem['w']
        eng.start(st, 'bw_wake', [Ptr('w', 0)])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, st.mem); k = self.k
        v = simp(toint(rv))
        self.others(eng, st, V); self.noticed(eng, st, V); self.wf1(eng, st, V); self.wakeinv(eng, st, V)
        O(('P19',), 'no memory is allocated or freed', st.w['heap'] == ('w',))
        p0 = self.V0.pid(st, k); n0 = self.V0.hn(st, k)
        ok = eng.decide(st, Eq(v, 0))
        if ok is None: O(('P17',), 'the result is 0 or -1', Or(Eq(v, 0), Eq(v, NEG1))); ok = True
        if ok: O(('P17', 'P08'), 'every registered waiter is woken, or dropped because it is gone', Or(Eq(p0, 0), self.WOKEN(Z(n0)), And(Eq(V.pid(st, k), 0), self.gone0(st))))
        else:
            O(('P17', 'P08'), 'failure is reported as -1', Eq(v, NEG1))
            O(('P17', 'P08'), 'waking fails only if a system call fails', zb(st.w['sysfail']))

class BOpen(BW):
    """bw_open(flags, h, &fd)"""
    def __init__(self, mode): self.omode = mode
    fn = 'bw_open'
    def setup(self, eng):
        st = self.begin(eng); self.mkreg(eng, st)
        self.mode = None
        self.seal(eng, st)
        r = Reg('fdout', 4, 'undef'); st.mem['fdout'] = r
        if self.omode in ('wake', 'wait'): fl = {'wake': 2, 'wait': 4}[self.omode]; self.mode = self.omode
        else: fl = {'none': 0, 'both': 6}[self.omode]
        eng.start(st, 'bw_open', [fl, Ptr('h', 0)], [Ptr('fdout', 0)])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, st.mem); k, d = self.k, self.d
        p = eng.pick(st, rv)
        p0, p1 = self.V0.pid(st, k), V.pid(st, k)
        self.wf1(eng, st, V)
        if p.r is None:
            self.others(eng, st, V); self.noticed(eng, st, V)
            O(('P19',), 'a failed open leaves no memory', not st.w['heap'])
            O(('P19', 'P16'), 'a failed open leaves no descriptor', Eq(V.own(st, d), -1))
            if self.omode in ('wake', 'wait'):
                sf = st.w['sysfail']
                O(('P16', 'P17') if self.omode == 'wait' else ('P17',), 'opening fails only if a system call fails or the registry is full', Or(zb(sf), Not(Eq(p1, 0)) if self.omode == 'wait' else False))
            return
        O(('P16', 'P17'), 'the handle returned is the one made', bool(p.r == 'w' and isc(simp(p.o)) and simp(p.o) == 0 and st.w['heap'] == ('w',)))
        O(('P16', 'P15'), 'a handle needs exactly one mode', self.omode in ('wake', 'wait'))
        if p.r != 'w' or self.omode not in ('wake', 'wait'): return
        self.w0 = st.mem['w']
        O(('P16', 'P17', 'P15'), 'the handle remembers its registry and mode', And(self.ispt(self.get(eng, st, 'h'), 'h'), Eq(toint(self.get(eng, st, 'flags')), 2 if self.omode == 'wake' else 4)))
        if self.omode == 'wake':
            self.others(eng, st, V); self.noticed(eng, st, V); self.wakeinv(eng, st, V)
            O(('P17',), 'a new waker is connected to exactly the registered waiters', self.synced(V, st, k))
            O(('P17', 'P15'), 'a wakeup is one byte', And(Eq(toint(self.get(eng, st, 'iov.iov_len')), 1), Eq(toint(self.get(eng, st, 'hdr.msg_iovlen')), 1), self.ispt(self.get(eng, st, 'iov.iov_base'), 'w', self.M['zero'][0]), self.ispt(self.get(eng, st, 'hdr.msg_iov'), 'w', self.M['iov'][0])))
            return
        sl = toint(self.get(eng, st, 'slotno')); l, sf, ef = [toint(self.get(eng, st, f)) for f in ('listenfd', 'selffd', 'epollfd')]
        O(('P16', 'P15'), 'a slot of the registry is taken', And(Z(sl) >= 0, Z(sl) < N))
        mine = Eq(k, sl)
        self.others(eng, st, V, mine); self.noticed(eng, st, V)
        O(('P16',), 'the slot taken was free or its waiter is gone', Implies(mine, Or(Eq(p0, 0), self.gone0(st))))
        O(('P16', 'P17'), 'the slot taken holds the process id of the caller', Implies(mine, Eq(p1, self.PID)))
        b = [x for x in st.w.get('bound', ()) if eng.valid(st, Eq(x[0], l))]
        O(('P16', 'P17', 'P09'), 'the slot taken holds the own name of the socket waited on', And(bool(b), Implies(mine, Eq(V.hn(st, k), b[0][1]))) if b else False)
        for x in (l, sf, ef): O(('P16', 'P19', 'P09', 'P15'), 'the descriptors of the handle are open', And(Z(x) >= 0, Z(x) < 1 << 20, Eq(V.own(st, x), PEND)))
        O(('P19', 'P15'), 'the descriptors of the handle are distinct', And(Not(Eq(l, sf)), Not(Eq(l, ef)), Not(Eq(sf, ef))))
        O(('P19',), 'no other descriptor is left open', Implies(Not(Eq(V.own(st, d), -1)), Or(Eq(d, l), Eq(d, sf), Eq(d, ef))))
        if b: O(('P09',), 'the handle can wake itself', Eq(V.conn(st, sf), b[0][1]))
        ep = st.w.get('ep', ())
        O(('P08', 'P17', 'P20'), 'a wait watches exactly the socket woken, and recognises it', And(len(ep) == 1 and Eq(ep[0][0], l), len(ep) == 1 and Eq(ep[0][1], l), Eq(st.w.get('epfd', -2), ef)))
        O(('P09', 'P15'), 'the descriptor handed out is the socket woken', Eq(toint(eng.cell(st, st.mem['fdout'], 0, 4)), l) if st.mem['fdout'].cells else False)
        O(('P15', 'P19', 'P09'), 'drained wakeups go to the discard buffer', And(Z(toint(self.get(eng, st, 'iov.iov_len'))) >= 1, Z(toint(self.get(eng, st, 'iov.iov_len'))) <= self.M['discard'][1], Eq(toint(self.get(eng, st, 'hdr.msg_iovlen')), 1), self.ispt(self.get(eng, st, 'iov.iov_base'), 'w', self.M['discard'][0]), self.ispt(self.get(eng, st, 'hdr.msg_iov'), 'w', self.M['iov'][0])))
        dr = self.get(eng, st, 'drain')
        O(('P15', 'P19'), 'the drain table is not allocated yet', (isinstance(dr, Ptr) and dr.r is None) or (isc(dr) and dr == 0))
        fdk = V.fd(st, k)
        O(('P19',), 'a waiter has no connections', Eq(fdk, NEG1))

class BSame(BW):
    """calls of a waiter that leave the registry and all descriptors alone"""
    def same1(self, eng, st, V):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        k = self.k; b = lambda V: [V.hnb(st, k, j) for j in range(NL)]
        O(('P16', 'P17'), 'the registry is unchanged', And(Eq(V.pid(st, k), self.V0.pid(st, k)), samebytes(b(V), b(self.V0)), Eq(self.seq1(eng, st), self.hseq)))
        O(('P19',), 'the open descriptors are unchanged', Eq(V.own(st, self.d), self.V0.own(st, self.d)))
        self.handlesame(eng, st, ('flags', 'h', 'seqno', 'slotno', 'listenfd', 'selffd', 'epollfd', 'iov.iov_base', 'iov.iov_len', 'hdr.msg_iov', 'hdr.msg_iovlen'))
        dr = self.get(eng, st, 'drain')
        hp = set(st.w['heap'])
        has = isinstance(dr, Ptr) and dr.r == 'drain'
        O(('P19', 'P15'), 'memory is held by the handle only', bool((has and hp == {'w', 'drain'} and simp(dr.o) == 0) or ((isinstance(dr, Ptr) and dr.r is None or isc(dr) and dr == 0) and hp == {'w'})))
        if has:
            q = st.mem['drain'].parts[0]; s = st.fork(); j = fresh('msg'); s.add(z3.And(j >= 0, j < q.count))
            eng.oblige(s, ('P15', 'P09'), 'the drain table stays usable', And(peq(q.val[16](s, j), Ptr('w', self.M['iov'][0])), Eq(q.val[24](s, j), 1)))
    def prep(self, eng):
        st = self.begin(eng); self.mkreg(eng, st); self.mkhandle(eng, st, 'wait'); self.w0 = st.mem['w']
        return st

class BForce(BSame):
    fn = 'bw_force'
    def __init__(self, drained): self.drained = drained
    def setup(self, eng):
        st = self.prep(eng)
        self.want = z3.Int('want_ready'); st.add(z3.And(self.want >= 0, self.want < 1 << 32))
        eng.start(st, 'bw_force', [Ptr('w', 0), self.want])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, st.mem); v = simp(toint(rv))
        self.same1(eng, st, V)
        O(('P09',), 'the result is 0 or -1', Or(Eq(v, 0), Eq(v, NEG1)))
        O(('P09',), 'forcing readiness makes the descriptor ready exactly if asked', Implies(Eq(v, 0), zb(st.w['qn']) == (self.want != 0)))
        O(('P09',), 'forcing readiness fails only if a system call fails', Or(Eq(v, 0), zb(st.w['sysfail'])))

class BWait(BSame):
    fn = 'bw_wait_ul'
    def setup(self, eng):
        st = self.prep(eng); st.w['ready'] = 'none'; st.w['taken'] = 0
        eng.start(st, 'bw_wait_ul', [Ptr('w', 0)])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, st.mem); v = simp(toint(rv))
        self.same1(eng, st, V)
        O(('P20',), 'a wait reports another descriptor exactly if one ended it', Eq(Eq(v, (1 << 32) - 3), st.w['ready'] == 'other') if isinstance(Eq(v, (1 << 32) - 3), z3.BoolRef) else (Eq(v, (1 << 32) - 3) == (st.w['ready'] == 'other')))
        O(('P08', 'P20'), 'a wait succeeds only when this handle was woken', Implies(Eq(v, 0), st.w['ready'] == 'own'))
        O(('P08', 'P20', 'P09'), 'a wakeup that ended a wait is taken, and no other', Implies(Eq(v, 0), st.w['taken'] >= 1) if st.w['ready'] == 'own' else st.w['taken'] == 0)
        O(('P08', 'P20'), 'a wait fails only if a system call fails', Or(Eq(v, 0), Eq(v, (1 << 32) - 3), And(Eq(v, NEG1), zb(st.w['sysfail']))))

class BCtl(BSame):
    fn = 'bw_ctl'
    def __init__(self, known): self.known = known
    def setup(self, eng):
        st = self.prep(eng)
        fd = z3.Int('pollfd'); st.add(z3.And(fd >= 0, fd < 1 << 20)); self.pfd = fd
        if self.known: fl = 16
        else: fl = z3.Int('flag'); st.add(z3.And(fl >= 0, fl < 1 << 32, fl != 16))
        eng.start(st, 'bw_ctl', [Ptr('w', 0), fl], [fd])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, st.mem); v = simp(toint(rv)); ep = st.w['ep']
        self.same1(eng, st, V)
        O(('P20',), 'the result is 0 or -1', Or(Eq(v, 0), Eq(v, NEG1)))
        if self.known:
            ok = len(ep) == 2 and And(Eq(ep[1][0], self.pfd), Eq(ep[1][1], self.pfd))
            O(('P20',), 'success adds exactly the given descriptor to the wait set', Implies(Eq(v, 0), ok))
            O(('P20',), 'failure adds nothing', Implies(Not(Eq(v, 0)), len(ep) == 1))
            O(('P20',), 'adding fails only if a system call fails', Or(Eq(v, 0), zb(st.w['sysfail'])))
        else: O(('P20',), 'an unknown request is refused and changes nothing', And(Eq(v, NEG1), len(ep) == 1))

class BClose(BW):
    fn = 'bw_close'
    def __init__(self, mode, drained=False): self.cmode, self.drained = mode, drained
    def setup(self, eng):
        st = self.begin(eng); self.mkreg(eng, st); self.mkhandle(eng, st, self.cmode); self.w0 = st.mem['w']
        eng.start(st, 'bw_close', [Ptr('w', 0)])
        return st
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        V = View(self, {x: st.mem[x] for x in ('h', 'K')}); k, d = self.k, self.d
        O(('P19', 'P16'), 'closing releases every descriptor', Eq(V.own(st, d), -1))
        O(('P19',), 'closing releases all memory', not st.w['heap'])
        mine = Eq(k, self.slotno) if self.cmode == 'wait' else False
        self.others(eng, st, V, mine); self.noticed(eng, st, V); self.wf1(eng, st, V)
        if self.cmode == 'wait': O(('P16', 'P19'), 'closing releases the slot of the handle', Implies(mine, Eq(V.pid(st, k), 0)))
