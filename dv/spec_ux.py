"""Contracts of lib/ux.c, the liveness probe.

The kernel's table is a byte array T with lines [LS(k),LS(k+1)), line 0 being the
header; line k>=1 holds an inode column [I0(k),I0(k)+IL(k)) of digits, then a
newline or one space and the name, which runs to the newline.  A descriptor
directory is a list of ND entries, each with a type and link text.  All of these
are uninterpreted functions, so a proof holds for every content."""
import z3
from sym import *
import sym, libc
from libc import Spec, fail, NEG1, NEG1L, errno_set
from ring import Ty_named
Z = lambda x: z3.IntVal(x) if isc(x) else x
MAXSZ = 1 << 40
NL10, SP = 10, 32

class UX(Spec):
    def unroll(self, key): return False
    def contract(self, eng, st, name):
        if name == self.fn: return None
        return {'bw_log': libc.log}.get(name) or getattr(self, 'c_' + name, None)
    def begin(self, eng):
        self.eng = eng
        st = self.base_state(eng)
        st.w['sysfail'] = z3.BoolVal(False)
        return st
    def region(self, st, name, size, closure, esz=1, kind='mem', ro=False):
        r = Reg(name, size if esz == 1 else lmul(size, esz), 'undef', kind, ro=ro); st.mem[name] = r
        r.parts = [Part(name, 0, esz, size, {0: (esz, 'int')}, {0: closure})]
        return r
    def clean(self, eng, st, keep=()):
        eng.oblige(st, ('P19', 'P15'), 'no memory is left allocated', tuple(st.w['heap']) == tuple(keep))
        eng.oblige(st, ('P19',), 'no descriptor is left open', not st.w['fds'] and not st.w.get('dirs'))
    def allkeys(self, mods, eng, st):
        """integer locations and pointer locations of a loop"""
        ik, pk = [], []
        for k in mods:
            if k[0] in ('part', 'ghost'): continue
            v = eng.getmod(st, k)
            if isinstance(v, (Ptr, CondPtr)) or isinstance(mods[k], frozenset): pk.append(k)
            elif v is not None and not isinstance(v, (Undef, bool, z3.BoolRef, Bits)): ik.append(k)
        return ik, pk
    def neg(self, rv): return Z(toint(rv)) >= 1 << 31

# ------------------------------------------------------------------ get_col
class Col(UX):
    """columns of an arbitrary text: column j (1..NC) is [CS(j),CE(j)), the line ends at E"""
    fn = 'get_col'
    def setup(self, eng):
        st = self.begin(eng)
        I_ = z3.Int
        self.N, self.E, self.NC, self.col = I_('buflen'), I_('lineend'), I_('ncols'), I_('col')
        N, E, NC = self.N, self.E, self.NC
        st.add(z3.And(N >= 0, N < MAXSZ, E >= 0, E <= N, NC >= 0, self.col >= 1, self.col < 1 << 31))
        def span(s, a, t):
            j = a[0]
            s.add(z3.Implies(z3.And(Z(j) >= 1, Z(j) <= NC), z3.And(t >= 0, t < self.CE(s, j), self.CE(s, j) <= E)))
        self.CE = Fn('CE', 1, pair=lambda a, t, b, u: And(Implies(Z(a[0]) < Z(b[0]), z3.Implies(z3.And(Z(a[0]) >= 1, Z(b[0]) <= NC), t < u)),
                                                         Implies(Z(b[0]) < Z(a[0]), z3.Implies(z3.And(Z(b[0]) >= 1, Z(a[0]) <= NC), u < t))))
        def order(a, t, b, u):
            o = []
            for (x, v, y, w) in ((a[0], t, b[0], u), (b[0], u, a[0], t)):
                o.append(z3.Implies(z3.And(Z(x) < Z(y), Z(x) >= 1, Z(y) <= NC), self.CE.f(Z(x)) < w))
            return And(*o)
        self.CS = Fn('CS', 1, hook=span, pair=order)
        def kb(s, a, t):
            i = Z(a[0])
            s.add(z3.Implies(z3.And(i >= 0, i <= E), z3.And(t >= 0, t <= NC, z3.Implies(t >= 1, self.CS(s, t) < i), z3.Implies(t < NC, i <= self.CS(s, t + 1)))))
        self.KB = Fn('KB', 1, hook=kb)      # columns that start before position i
        def text(s, a, t):
            i = Z(a[0]); k = self.KB(s, a[0])
            incol = z3.Or(z3.And(k >= 1, i < self.CE(s, k)), z3.And(k < NC, i == self.CS(s, k + 1)))
            s.add(z3.Implies(z3.And(i >= 0, i < E), z3.And(t != NL10, (t != SP) == incol)))
            s.add(z3.Implies(z3.And(i == E, i < N), t == NL10))
        self.T = Fn('T', 1, hook=text, rng=(0, 256))
        self.region(st, 'tab', N, lambda s, i: self.T(s, i), ro=True)
        r = Reg('len', 8, 'undef'); st.mem['len'] = r
        eng.start(st, self.fn, [self.col, Ptr('len', 0), Ptr('tab', 0), N])
        if len(st.frames[-1].f.params) != 4: raise Unsupported('signature of get_col')
        return st
    def terms(self, eng, st, v0):
        return [('KB', lambda s, it: self.KB(s, it)), ('curlen', self.curlen), ('CS', lambda s, it: self.CS(s, self.KB(s, it)))]
    def curlen(self, s, it):
        k = self.KB(s, it)
        return z3.If(z3.And(k >= 1, it <= self.CE(s, k)), it - self.CS(s, k), z3.IntVal(0))
    def guards(self, eng, st): return [('true', lambda s, it: z3.BoolVal(True))]
    def nullterms(self, eng, st): return [('nocol', lambda s, it: self.KB(s, it) == 0)]
    def bounds(self, eng, st): return [('E', lambda s: self.E), ('N', lambda s: self.N)]
    def cands(self, eng, st, mods):
        def stopc(e, s, g, it):
            return z3.And(self.KB(s, it) <= self.col, z3.Implies(self.KB(s, it) == self.col, it <= self.CE(s, self.col)))
        out = []
        ik, pk = self.allkeys(mods, eng, st)
        NC, E, KB, CE, CS = self.NC, self.E, self.KB, self.CE, self.CS
        pos = lambda v: z3.IntVal(-1) if isinstance(v, CondPtr) or (isinstance(v, Ptr) and v.r != 'tab') else Z(v.o) if isinstance(v, Ptr) else Z(toint(v))
        for k in ik + pk:
            v0 = eng.getmod(st, k); p0 = pos(v0)
            out += [('%s<=E' % (k,), lambda e, s, g, it, k=k: z3.And(pos(g(k)) <= E, pos(g(k)) >= 0)),
                    ('%s between columns' % (k,), lambda e, s, g, it, k=k: z3.And(z3.Implies(KB(s, pos(g(k))) >= 1, pos(g(k)) >= CE(s, KB(s, pos(g(k))))))),
                    ('%s KB kept' % (k,), lambda e, s, g, it, k=k, p0=p0: KB(s, pos(g(k))) == KB(s, p0)),
                    ('%s KB+1' % (k,), lambda e, s, g, it, k=k, p0=p0: KB(s, pos(g(k))) <= KB(s, p0) + 1),
                    ('%s in column' % (k,), lambda e, s, g, it, k=k, p0=p0: z3.And(pos(g(k)) >= p0, pos(g(k)) <= CE(s, KB(s, p0) + 1)))]
            for i in ik:
                if i != k: out.append(('%s counts %s' % (i, k), lambda e, s, g, it, k=k, i=i: Z(toint(g(i))) == KB(s, pos(g(k)))))
        for i in ik: out.append(('%s<col' % (i,), lambda e, s, g, it, i=i: Z(toint(g(i))) < self.col))
        return out + [('col', stopc), ('it<=E', lambda e, s, g, it: it <= self.E)]
    def at_end(self, eng, st, rv):
        O = lambda t, n, f: eng.oblige(st, t, n, f)
        st.model = None
        has = self.col <= self.NC
        cs, ce = self.CS(st, self.col), self.CE(st, self.col)
        for s, null in self.split(eng, st, rv):
            if null: eng.oblige(s, ('P18',), 'a column that exists is found', Not(has))
            else:
                p = eng.pick(s, rv)
                eng.oblige(s, ('P18', 'P15'), 'the column found is the one sought', And(has, p.r == 'tab', Eq(p.o, cs)))
                eng.oblige(s, ('P18', 'P15'), 'its length is exact', Eq(eng.load(s, Ptr('len', 0), I(64)), ce - cs))
        self.clean(eng, st)
    def split(self, eng, st, p):
        nul = peq(p, NULL)
        for c, n in ((nul, True), (Not(nul), False)):
            c = simp(c)
            if c is False: continue
            s = st.fork(); s.model = None
            if c is not True: s.add(c)
            if eng.feasible(s): yield s, n

# ------------------------------------------------------------------ has_socket_name
class Name(UX):
    """mode yes: no line matches -> never 1.  mode no: line K, list entry NI match -> never 0.
    mode any: an arbitrary table (memory safety and leaks only)"""
    fn = 'has_socket_name'
    def __init__(self, mode): self.mode = mode
    def setup(self, eng):
        st = self.begin(eng)
        I_ = z3.Int
        self.FS, self.NLN, self.NI, self.SLEN = I_('tablesize'), I_('lines'), I_('ninodes'), I_('namelen')
        self.KW, self.NW = I_('witness_line'), I_('witness_inode')
        FS, NLN = self.FS, self.NLN
        st.add(z3.And(FS >= 0, FS < MAXSZ, self.NI >= 0, self.NI <= 1 << 20, self.SLEN >= 1, self.SLEN < 108))
        wf = self.wf = self.mode != 'any'
        if wf: st.add(z3.And(FS >= 1, NLN >= 1, NLN <= FS))
        def ls(s, a, t):
            k = Z(a[0])
            s.add(z3.And(z3.Implies(k == 0, t == 0), z3.Implies(k == NLN, t == FS)))
        def mono(a, t, b, u):
            a, b = Z(a[0]), Z(b[0]); v = z3.And(a >= 0, b >= 0, a <= NLN, b <= NLN)
            return z3.And(z3.Implies(z3.And(v, a < b), t < u), z3.Implies(z3.And(v, b < a), u < t))
        self.LS = Fn('LS', 1, hook=ls, pair=mono)
        def ln(s, a, t):
            i = Z(a[0]); self.LS(s, 0); self.LS(s, NLN)
            s.add(z3.Implies(z3.And(i >= 0, i < FS), z3.And(t >= 0, t < NLN, self.LS(s, t) <= i, i < self.LS(s, t + 1))))
        self.LN = Fn('LN', 1, hook=ln)
        self.IL = Fn('IL', 1, rng=(1, 21))
        def i0(s, a, t):
            k = Z(a[0])
            # six columns and their separators precede the inode
            s.add(z3.Implies(z3.And(k >= 1, k < NLN), z3.And(t >= self.LS(s, k) + 12, t + self.IL(s, k) < self.LS(s, k + 1),
                  t + self.IL(s, k) + 1 != self.LS(s, k + 1) - 1)))
        self.I0 = Fn('I0', 1, hook=i0)
        def val(a, t, b, u):
            o = []
            for (x, v, y, w) in ((a, t, b, u), (b, u, a, t)):
                k, m, k2, m2 = Z(x[0]), Z(x[1]), Z(y[0]), Z(y[1])
                o.append(z3.Implies(z3.And(k == k2, m2 == m + 1, m >= 0, m < self.IL.f(k)), w == 10 * v + self.T.f(self.I0.f(k) + m) - 48))
            return z3.And(*o)
        self.VAL = Fn('VAL', 2, hook=lambda s, a, t: s.add(z3.Implies(Z(a[1]) == 0, t == 0)), pair=val, rng=(0, 1 << 64))
        def text(s, a, t):
            if not wf: return
            i = Z(a[0]); k = self.LN(s, a[0]); v = z3.And(i >= 0, i < FS)
            s.add(z3.Implies(v, (t == NL10) == (i == self.LS(s, k + 1) - 1)))
            d0, d1 = self.I0(s, k), self.I0(s, k) + self.IL(s, k)
            s.add(z3.Implies(z3.And(v, k >= 1), z3.And(z3.Implies(z3.And(i >= d0, i < d1), z3.And(t >= 48, t <= 57)),
                                                       z3.Implies(z3.And(i == d1, i < self.LS(s, k + 1) - 1), t == SP))))
        self.T = Fn('T', 1, hook=text, rng=(0, 256))
        self.EQB = z3.Function('EQB', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
        def inode(s, a, t):
            if self.mode == 'yes':
                for (b, u) in s.touched.get(('eqk',), ()): s.add(self.nomatch(s, b, a[0], t))
                s.touched[('inn',)] = s.touched.get(('inn',), ()) + ((a[0], t),)
        self.INN = Fn('listed', 1, hook=inode, rng=(0, 1 << 64))
        self.region(st, 'inodes', self.NI, lambda s, i: self.INN(s, i), 8, ro=True)
        self.S = Fn('S', 1, hook=lambda s, a, t: s.add(z3.And(z3.Implies(Z(a[0]) == self.SLEN, t == 0), z3.Implies(z3.And(Z(a[0]) >= 0, Z(a[0]) < self.SLEN), z3.And(t != 0, t != NL10)))), rng=(0, 256))
        self.region(st, 'name', self.SLEN + 1, lambda s, i: self.S(s, i), ro=True)
        st.w['k'] = 0
        if self.mode == 'no':
            K, n = self.KW, self.NW
            st.add(z3.And(K >= 1, K < NLN, n >= 0, n < self.NI))
            self.LS(st, K); self.LS(st, K + 1)
            st.add(self.EQ(st, K)); st.add(self.INN(st, n) == self.VAL(st, K, self.IL(st, K)))
        eng.start(st, self.fn, [Ptr('inodes', 0), self.NI, Ptr('name', 0)])
        if len(st.frames[-1].f.params) != 3: raise Unsupported('signature of has_socket_name')
        return st
    def N0(self, s, k): return self.I0(s, k) + self.IL(s, k) + 1
    def LE(self, s, k): return self.LS(s, ladd(k, 1)) - 1
    def EQ(self, s, k):
        """the name on line k is exactly the one sought"""
        a, e = self.N0(s, k), self.LE(s, k)
        return z3.And(a <= e, e - a == self.SLEN, self.EQB(a, 0, self.SLEN))
    def nomatch(self, s, k, n, t):
        return z3.Not(z3.And(Z(k) >= 1, Z(k) < self.NLN, self.EQ(s, k), Z(n) >= 0, Z(n) < self.NI, t == self.VAL(s, k, self.IL(s, k))))
    def touchk(self, s, k):
        """mode yes: instantiate 'line k does not match' for every list entry seen"""
        key = ('eqk', k if isc(k) else k.get_id())
        if self.mode != 'yes' or key in s.touched: return
        s.touched[key] = (k, k)
        s.touched[('eqk',)] = s.touched.get(('eqk',), ()) + ((k, k),)
        for (n, t) in s.touched.get(('inn',), ()): s.add(self.nomatch(s, k, n, t))
    # contracts of callees
    def c_slurp_special(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        eng.oblige(st, ('P18',), 'the socket table of the kernel is read', eng.cstring(st, p) == '/proc/net/unix')
        f = fail(eng, st, NULL)
        if 'slurp' in st.mem: raise Unsupported('table read twice')
        self.region(st, 'slurp', self.FS, lambda s, i: self.T(s, i), kind='heap')
        st.w['heap'] = st.w['heap'] + ('slurp',)
        eng.store(st, av[1], I(64), self.FS)
        return [(st, Ptr('slurp', 0)), f]
    def c_get_col(self, eng, st, av, args, ins):
        if len(av) != 4: raise Unsupported('signature of get_col')
        col, lp, p, bl = toint(av[0]), av[1], eng.pick(st, av[2]), toint(av[3])
        eng.oblige(st, ('P15', 'P18'), 'get_col is given a part of the table', And(p.r == 'slurp', Z(bl) <= self.FS - Z(p.o), Z(p.o) >= 0, st.mem[p.r].alive if p.r in st.mem else False))
        if p.r != 'slurp': raise PathEnd()
        out = []
        L = simp(p.o)
        none = st.fork(); eng.store(none, lp, I(64), self.freshlen(none))
        if self.wf:
            k = self.LN(st, L)
            if eng.valid(st, z3.And(L == self.LS(st, k), k >= 1, k < self.NLN, Z(L) + Z(bl) >= self.LS(st, ladd(k, 1)))) and isc(col) and col == 7:
                st.w['k'] = k; self.touchk(st, k)
                eng.store(st, lp, I(64), self.IL(st, k))
                return [(st, Ptr('slurp', self.I0(st, k)))]
        o, n = fresh('col'), fresh('collen')
        st.add(z3.And(o >= L, n >= 1, o + n <= Z(L) + Z(bl)))
        eng.store(st, lp, I(64), n)
        return [(none, NULL), (st, Ptr('slurp', o))]
    def freshlen(self, s):
        n = fresh('len'); s.add(z3.And(n >= 0, n < 1 << 64)); return n
    def strlen(self, eng, st, p):
        p = eng.pick(st, p)
        if p.r != 'name' or not (isc(p.o) and p.o == 0): raise Unsupported('strlen')
        return [(st, self.SLEN)]
    def memcmp(self, eng, st, av, n):
        a, b = eng.pick(st, av[0]), eng.pick(st, av[1])
        for p in (a, b): eng.byterange(st, p, n, 'memcmp')
        if a.r == 'name': a, b = b, a
        r = fresh('cmp'); st.add(z3.And(r >= 0, r < 1 << 32))
        if a.r == 'slurp' and b.r == 'name':
            st.add((r == 0) == self.EQB(Z(a.o), Z(b.o), Z(n)))
            st.add(z3.Implies(Z(n) == 0, r == 0))
        return [(st, r)]
    # invariants
    def terms(self, eng, st, v0):
        t = []
        if self.wf:
            t += [('LS(it+1)', lambda s, it: self.LS(s, it + 1)), ('LS(it)', lambda s, it: self.LS(s, it)),
                  ('VAL', lambda s, it: self.VAL(s, s.w['k'], it))]
        return t
    def bounds(self, eng, st): return [('FS', lambda s: self.FS), ('NI', lambda s: self.NI), ('SLEN', lambda s: self.SLEN)]
    def cands(self, eng, st, mods):
        if not self.wf: return []
        ik, pk = self.allkeys(mods, eng, st)
        out = []
        off = lambda v: Z(v.o) if isinstance(v, Ptr) else z3.IntVal(-1)
        for c in (0, 1):
            out.append(('it+%d<=lines' % c, lambda e, s, g, it, c=c: it + c <= self.NLN))
            if self.mode == 'no': out.append(('it+%d<=K' % c, lambda e, s, g, it, c=c: it + c <= self.KW))
        out.append(('it<=IL', lambda e, s, g, it: it <= self.IL(s, s.w['k'])))
        for k in pk:
            v0 = eng.getmod(st, k)
            if isinstance(v0, Ptr) and v0.r == 'slurp':
                out.append(('%s in line' % (k,), lambda e, s, g, it, k=k, v0=v0: off(g(k)) <= self.LE(s, self.LN(s, v0.o))))
                out.append(('%s is a line' % (k,), lambda e, s, g, it, k=k: z3.Or(off(g(k)) == self.FS, off(g(k)) == self.LS(s, self.LN(s, off(g(k)))))))
                if self.mode == 'no':
                    out.append(('%s <= K' % (k,), lambda e, s, g, it, k=k: off(g(k)) <= self.LS(s, self.KW)))
        if self.mode == 'no':
            for k in ik:
                out.append(('%s <= n*' % (k,), lambda e, s, g, it, k=k: Implies(Z(s.w['k']) == self.KW, Z(toint(g(k))) <= self.NW)))
                out.append(('%s > n*' % (k,), lambda e, s, g, it, k=k: Implies(Z(s.w['k']) == self.KW, Z(toint(g(k))) > self.NW)))
        return out
    def at_end(self, eng, st, rv):
        O = lambda t, n, f: eng.oblige(st, t, n, f)
        st.model = None
        v = Z(toint(rv))
        O(('P18',), 'the answer is yes, no or unknown', z3.Or(v == 0, v == 1, self.neg(rv)))
        sf = st.w['sysfail']
        if self.mode == 'yes':
            O(('P18', 'P16'), 'no yes unless a listed socket has exactly this name', v != 1)
            O(('P18',), 'the answer is no unless a system call fails', z3.Or(zb(sf), v == 0))
        if self.mode == 'no':
            O(('P18', 'P16'), 'no no if a listed socket has exactly this name', v != 0)
            O(('P18',), 'the answer is yes unless a system call fails', z3.Or(zb(sf), v == 1))
        self.clean(eng, st)

# ------------------------------------------------------------------ slurp_special
class Slurp(UX):
    """the file has FS bytes; ghost pos is the file position, ghost good says that
    buffer bytes [0,pos) are the file's, ghost cap the size of the allocation"""
    fn = 'slurp_special'
    def setup(self, eng):
        st = self.begin(eng)
        self.FS = z3.Int('filesize'); st.add(z3.And(self.FS >= 0, self.FS < MAXSZ))
        r = Reg('len', 8, 'undef'); st.mem['len'] = r
        st.mem['file'] = Reg('file', 16, 'undef', ro=True)
        st.mem['dead'] = Reg('dead', 0); st.mem['dead'].alive = False
        st.w.update(pos=0, good=z3.BoolVal(True), cap=0, zcap=0)
        eng.start(st, self.fn, [Ptr('file', 0), Ptr('len', 0)])
        if len(st.frames[-1].f.params) != 2: raise Unsupported('signature of slurp_special')
        return st
    def c_open(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        eng.oblige(st, ('P18',), 'the file named is opened', p.r == 'file' and isc(p.o) and p.o == 0)
        eng.oblige(st, ('P18',), 'the file is opened for reading', Eq(Z(toint(av[1])) % 4, 0))
        f = fail(eng, st, NEG1)
        if st.w.get('opened'): raise Unsupported('file opened twice')
        st.w['opened'] = True
        return [(st, libc.newfd(eng, st, 'file')), f]
    def alloc(self, eng, st, size, default, nk=None):
        return self.mkbuf(eng, st, size)
    def mkbuf(self, eng, st, size):
        if 'slurp' in st.mem: raise Unsupported('second buffer')
        st.w['cap'] = size
        def junk(s, i):
            return fresh('byte')     # contents are only tracked by ghost good
        self.region(st, 'slurp', 1 << 62, junk, kind='heap')
        return 'slurp'
    def realloc(self, eng, st, av, ins):
        size = simp(toint(av[1])); f = fail(eng, st, NULL, [12])
        p = av[0]
        p = eng.pick(st, p)
        if p.r is None:
            self.mkbuf(eng, st, size)
            st.w['heap'] = st.w['heap'] + ('slurp',)
            return [(st, Ptr('slurp', 0)), f]
        eng.oblige(st, ('P15', 'P19'), 'realloc of the live buffer', And(p.r == 'slurp', Eq(p.o, 0), p.r in st.w['heap']))
        if p.r != 'slurp': raise PathEnd()
        st.w['good'] = And(zb(st.w['good']), Z(size) >= Z(st.w['pos']))
        st.w['cap'] = size
        self.stale(st)
        return [(st, Ptr('slurp', 0)), f]
    def stale(self, st):
        """pointers into the block before realloc are dead"""
        def dead(v):
            if isinstance(v, Ptr): return Ptr('dead', v.o) if v.r == 'slurp' else v
            if isinstance(v, CondPtr): return CondPtr(v.c, dead(v.a), dead(v.b))
            return v
        for fr in st.frames: fr.regs = {k: dead(v) for k, v in fr.regs.items()}
        for rn in list(st.mem):
            r = st.mem[rn]
            if any(isinstance(v, (Ptr, CondPtr)) for _, v in r.cells.values()):
                w = st.wreg(rn); w.cells = {o: (s, dead(v)) for o, (s, v) in w.cells.items()}
    def on_access(self, eng, st, p, size, write):
        if p.r != 'slurp' or st.w.get('_in'): return
        eng.oblige(st, ('P15',), 'access stays inside the allocation', And(Z(p.o) >= 0, Z(p.o) + Z(toint(size)) <= Z(st.w['cap'])))
    def on_store(self, eng, st, r, part, off, size, v):
        if r.name == 'slurp': st.w['good'] = z3.BoolVal(False)
    def c_read(self, eng, st, av, args, ins):
        e = libc.findfd(eng, st, av[0])
        eng.oblige(st, ('P15', 'P18'), 'read from the open file', e is not None)
        if e is None: raise PathEnd()
        l = Z(simp(toint(av[2])))
        p = eng.pick(st, av[1])
        if p.r != 'slurp':
            eng.oblige(st, ('P15',), 'read into the buffer', False); raise PathEnd()
        eng.oblige(st, ('P15',), 'read stays inside the allocation', z3.And(Z(p.o) >= 0, Z(p.o) + l <= Z(st.w['cap'])))
        # no endless loop of reads that ask for nothing: the buffer grows in between
        if not eng.valid(st, l > 0):
            eng.oblige(st, ('P18',), 'a read asks for more bytes or the buffer has grown', z3.Or(l > 0, Z(st.w['cap']) > Z(st.w['zcap'])))
            st.w['zcap'] = z3.If(l > 0, Z(st.w['zcap']), Z(st.w['cap']))
        f = fail(eng, st, NEG1L)
        nr = fresh('nr'); pos = Z(st.w['pos'])
        st.add(z3.And(nr >= 0, nr <= l, nr <= self.FS - pos, (nr == 0) == z3.Or(l == 0, pos == self.FS)))
        st.w['good'] = z3.And(zb(st.w['good']), z3.Or(nr == 0, Z(p.o) == pos))
        st.w['pos'] = pos + nr
        return [(st, nr), f]
    def exact(self, eng, k, cands): return None
    def bounds(self, eng, st):
        return [('FS', lambda s: self.FS), ('2FS+20000', lambda s: 2 * self.FS + 20000), ('4FS+40000', lambda s: 4 * self.FS + 40000)]
    def cands(self, eng, st, mods):
        ik, pk = self.allkeys(mods, eng, st)
        G = lambda s, n: Z(s.w[n])
        out = [('zcap<cap', lambda e, s, g, it: z3.Or(G(s, 'zcap') < G(s, 'cap'), G(s, 'cap') == 0)), ('pos<=FS', lambda e, s, g, it: G(s, 'pos') <= self.FS), ('pos<cap', lambda e, s, g, it: z3.Or(G(s, 'pos') < G(s, 'cap'), G(s, 'cap') == 0)), ('pos<=cap', lambda e, s, g, it: G(s, 'pos') <= G(s, 'cap')), ('good', lambda e, s, g, it: zb(s.w['good'])),
               ('cap<=2FS+20000', lambda e, s, g, it: G(s, 'cap') <= 2 * self.FS + 20000)]
        for k in ik:
            I_ = lambda g, k=k: Z(toint(g(k)))
            out += [('%s==pos' % (k,), lambda e, s, g, it, I_=I_: I_(g) == G(s, 'pos')), ('%s==cap' % (k,), lambda e, s, g, it, I_=I_: I_(g) == G(s, 'cap')),
                    ('%s==cap-pos' % (k,), lambda e, s, g, it, I_=I_: I_(g) == G(s, 'cap') - G(s, 'pos')),
                    ('%s>=pos' % (k,), lambda e, s, g, it, I_=I_: I_(g) >= G(s, 'pos')),
                    ('%s>pos' % (k,), lambda e, s, g, it, I_=I_: I_(g) > G(s, 'pos')),
                    ('%s>=cap' % (k,), lambda e, s, g, it, I_=I_: I_(g) >= G(s, 'cap')),
                    ('%s==1=>eof' % (k,), lambda e, s, g, it, I_=I_: z3.Implies(I_(g) == 1, G(s, 'pos') == self.FS)),
                    ('%s!=0=>eof' % (k,), lambda e, s, g, it, I_=I_: z3.Implies(I_(g) != 0, G(s, 'pos') == self.FS)),
                    ('%s==0=>eof' % (k,), lambda e, s, g, it, I_=I_: z3.Implies(I_(g) == 0, G(s, 'pos') == self.FS))]
        for k in pk:
            out += [('%s at pos' % (k,), lambda e, s, g, it, k=k: And(isinstance(g(k), Ptr) and g(k).r == 'slurp', Eq(g(k).o, G(s, 'pos')) if isinstance(g(k), Ptr) else False))]
        return out
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda t, n, f, s=st: eng.oblige(s, t, n, f)
        p = eng.pick(st, rv)
        if p.r is None:
            O(('P18',), 'fails only if a system call fails', st.w['sysfail'])
            self.clean(eng, st)
        else:
            O(('P18', 'P15'), 'the buffer is returned', And(p.r == 'slurp', Eq(p.o, 0), 'slurp' in st.w['heap']))
            n = eng.load(st, Ptr('len', 0), I(64))
            O(('P18', 'P15'), 'the whole file is read', And(Eq(n, self.FS), Eq(st.w['pos'], self.FS)))
            O(('P18',), 'the buffer holds exactly the bytes of the file', st.w['good'])
            O(('P15',), 'the size is within the allocation', Z(n) <= Z(st.w['cap']))
            self.clean(eng, st, ('slurp',))

# ------------------------------------------------------------------ get_socket_inodes
class Inodes(UX):
    fn = 'get_socket_inodes'
    ghost_havoc = {'path': ()}
    def setup(self, eng):
        st = self.begin(eng)
        I_ = z3.Int
        self.ND, self.MAX, self.pid = I_('entries'), I_('max_inodes'), I_('pid')
        ND = self.ND
        st.add(z3.And(ND >= 0, ND < 1 << 31, self.MAX >= 0, self.MAX < 1 << 20, self.pid >= 1, self.pid < 1 << 22))
        ok = lambda j: z3.And(Z(j) >= 0, Z(j) < ND)
        self.LL, self.DL, self.TY = Fn('linklen', 1, rng=(1, 4096)), Fn('digits', 1, rng=(1, 21)), Fn('dtype', 1, rng=(0, 256))
        self.POS = Fn('POS', 1)
        def sock(s, a, t):
            j = a[0]; c = self.CNT(s, j)
            s.add(z3.Implies(z3.And(ok(j), t == 1), z3.And(self.TY(s, j) == 10, self.LL(s, j) == 9 + self.DL(s, j), self.POS.f(Z(c)) == Z(j))))
        self.SOCK = Fn('SOCK', 1, hook=sock, rng=(0, 2))
        def cnt(a, t, b, u):
            o = []
            for (x, v, y, w) in ((Z(a[0]), t, Z(b[0]), u), (Z(b[0]), u, Z(a[0]), t)):
                o.append(z3.Implies(z3.And(x >= 0, x < y), v + self.SOCK.f(x) <= w))
                o.append(z3.Implies(z3.And(x >= 0, y == x + 1), v + self.SOCK.f(x) == w))
            return z3.And(*o)
        self.CNT = Fn('CNT', 1, hook=lambda s, a, t: s.add(z3.And(z3.Implies(Z(a[0]) == 0, t == 0), t >= 0)), pair=cnt)
        P = b'socket:['
        def text(s, a, t):
            j, i = Z(a[0]), Z(a[1]); d = self.DL(s, a[0])
            pre = z3.And(*[z3.Implies(i == n, t == c) for n, c in enumerate(P)])
            s.add(z3.Implies(z3.And(ok(a[0]), self.SOCK(s, a[0]) == 1), z3.And(pre, z3.Implies(z3.And(i >= 8, i < 8 + d), z3.And(t >= 48, t <= 57)), z3.Implies(i == 8 + d, t == 93))))
        self.TX = Fn('TX', 2, hook=text, rng=(0, 256))
        def val(a, t, b, u):
            o = []
            for (x, v, y, w) in ((a, t, b, u), (b, u, a, t)):
                k, m, k2, m2 = Z(x[0]), Z(x[1]), Z(y[0]), Z(y[1])
                o.append(z3.Implies(z3.And(k == k2, m2 == m + 1, m >= 0, m < self.DL.f(k)), w == 10 * v + self.TX.f(k, 8 + m) - 48))
            return z3.And(*o)
        self.VAL = Fn('VALX', 2, hook=lambda s, a, t: s.add(z3.Implies(Z(a[1]) == 0, t == 0)), pair=val, rng=(0, 1 << 64))
        self.OLD = Fn('old', 1, rng=(0, 1 << 64))      # what the array held before
        self.region(st, 'inodes', self.MAX, lambda s, i: self.OLD(s, i), 8)
        r = Reg('nin', 8, 'undef'); st.mem['nin'] = r; r.cells[0] = (8, 0)
        st.mem['dirent'] = Reg('dirent', 280, 'undef')
        st.mem['DIR'] = Reg('DIR', 0, kind='opaque')
        st.w.update(DP=0, j=0, path=(), dirs=())
        self.CNT(st, 0); self.CNT(st, ND)
        eng.start(st, self.fn, [self.pid, Ptr('inodes', 0), self.MAX, Ptr('nin', 0)])
        if len(st.frames[-1].f.params) != 4: raise Unsupported('signature of get_socket_inodes')
        return st
    def INO(self, s, j): return self.VAL(s, j, self.DL(s, j))
    def c_snprintf(self, eng, st, av, args, ins):
        p, n, fmt = eng.pick(st, av[0]), toint(av[1]), eng.cstring(st, eng.pick(st, av[2]))
        if not isc(n): raise Unsupported('snprintf of unknown size')
        eng.byterange(st, p, n, 'snprintf', True)
        kind = {'/proc/%u/fd': 'fd', '/proc/%d/fd': 'fd', '/proc/%u/fd/%s': 'link', '/proc/%d/fd/%s': 'link'}.get(fmt)
        if kind is None: raise Unsupported('snprintf format')
        eng.oblige(st, ('P18',), 'the path names the process asked about', Eq(toint(av[3]), self.pid))
        j = None
        if kind == 'link':
            q = eng.pick(st, av[4])
            if q.r != 'dirent' or q.o != 19: raise Unsupported('snprintf argument')
            j = st.w['j']
        sc = fresh('plen'); lim = 18 if kind == 'fd' else 29
        st.add(z3.And(sc >= 10, sc < lim))
        st.w['path'] = tuple(x for x in st.w['path'] if x[0] != p.r)
        if n >= lim: st.w['path'] += ((p.r, kind, j),)
        return [(st, sc)]
    def tag(self, eng, st, p, kind):
        p = eng.pick(st, p)
        for x in st.w['path']:
            if x[0] == p.r and isc(p.o) and p.o == 0 and x[1] == kind: return x
        return None
    def on_store(self, eng, st, r, part, off, size, v):
        if any(x[0] == r.name for x in st.w['path']): st.w['path'] = tuple(x for x in st.w['path'] if x[0] != r.name)
    def c_opendir(self, eng, st, av, args, ins):
        eng.oblige(st, ('P18',), 'the descriptor directory of the process is opened', self.tag(eng, st, av[0], 'fd') is not None)
        f = fail(eng, st, NULL)
        if st.w['dirs']: raise Unsupported('directory opened twice')
        st.w['dirs'] = ('DIR',); st.w['DP'] = 0
        return [(st, Ptr('DIR', 0)), f]
    def isdir(self, eng, st, p):
        p = eng.pick(st, p)
        ok = p.r == 'DIR' and bool(st.w['dirs'])
        eng.oblige(st, ('P15', 'P19'), 'the directory stream is open', ok)
        if not ok: raise PathEnd()
    def c_readdir(self, eng, st, av, args, ins):
        self.isdir(eng, st, av[0])
        j = Z(st.w['DP'])
        e = st.fork(); e.model = None; e.add(j >= self.ND)
        st.model = None; st.add(j < self.ND)
        w = st.wreg('dirent'); w.cells = {18: (1, self.TY(st, j))}; w.fills = []
        st.w['j'] = j; st.w['DP'] = j + 1
        self.SOCK(st, j); self.CNT(st, j + 1)
        out = []
        if eng.feasible(e): out.append((e, NULL))
        if eng.feasible(st): out.append((st, Ptr('dirent', 0)))
        return out
    def c_closedir(self, eng, st, av, args, ins):
        self.isdir(eng, st, av[0]); st.w['dirs'] = ()
        if 'errno' in st.mem: errno_set(eng, st)
        return [(st, 0)]
    def c_readlink(self, eng, st, av, args, ins):
        x = self.tag(eng, st, av[0], 'link')
        eng.oblige(st, ('P18',), 'the link of the current entry is read', And(x is not None, Eq(x[2], st.w['j']) if x else False))
        if x is None: raise PathEnd()
        j = x[2]; n = toint(av[2])
        r, loc, off = eng.byterange(st, av[1], n, 'readlink', True)
        if loc is None or not isc(n): raise Unsupported('readlink buffer')
        f = fail(eng, st, NEG1L)
        L = self.LL(st, j); m = simp(z3.If(L < n, L, z3.IntVal(n)))
        t8 = [self.TX(st, j, i) for i in range(8)]
        st.add(z3.Implies(z3.And(self.SOCK(st, j) == 0, L >= 8), z3.Or(*[t != c for t, c in zip(t8, b'socket:[')])))
        eng.bset(st, r, loc, m, lambda s, i: self.TX(s, j, i))
        return [(st, m), f]
    def terms(self, eng, st, v0):
        return [('CNT', lambda s, it: self.CNT(s, it)), ('VAL', lambda s, it: self.VAL(s, s.w['j'], it))]
    def bounds(self, eng, st): return [('MAX', lambda s: self.MAX), ('ND', lambda s: self.ND)]
    def cands(self, eng, st, mods):
        return [('it<=DL', lambda e, s, g, it: z3.Implies(self.SOCK(s, s.w['j']) == 1, it <= self.DL(s, s.w['j']))), ('it<=ND', lambda e, s, g, it: it <= self.ND), ('CNT<=MAX', lambda e, s, g, it: self.CNT(s, it) <= self.MAX)]
    def templates(self, eng, st, k):
        if k[1] == 'inodes':
            o = st.mem['inodes'].parts[0].val[0]
            def tm(it):
                def f(s, i):
                    return z3.If(Z(i) < self.CNT(s, it), self.INO(s, self.POS(s, i)), Z(o(s, i)))
                return f
            return [('listed', tm)]
        return []
    def exact(self, eng, k, cands):
        if k[0] == 'part' and k[1] != 'inodes': return True
        if k == ('world', 'j') or k[0] == 'cell' and k[1] in ('dirent', 'errno'): return True
        return None
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda s, t, n, f: eng.oblige(s, t, n, f)
        v = Z(toint(rv)); tot = self.CNT(st, self.ND)
        O(st, ('P18',), 'the result is 0 or negative', z3.Or(v == 0, self.neg(rv)))
        bad = st.fork(); bad.model = None; bad.add(v != 0)
        if eng.feasible(bad): O(bad, ('P18',), 'fails only if a system call fails or there are too many sockets', z3.Or(zb(bad.w['sysfail']), tot > self.MAX))
        st.add(v == 0)
        if eng.feasible(st):
            n = eng.load(st, Ptr('nin', 0), I(64))
            O(st, ('P18', 'P16'), 'every socket of the process is listed, each once', Eq(n, tot))
            j = z3.Int('anyentry'); s = st.fork(); s.model = None
            s.add(z3.And(j >= 0, j < self.ND, self.SOCK(s, j) == 1)); c = self.CNT(s, j); self.CNT(s, j + 1)
            O(s, ('P18', 'P16'), 'the inode of each listed socket is exact', Eq(s.mem['inodes'].parts[0].val[0](s, c), self.INO(s, j)))
        self.clean(eng, st); self.clean(eng, bad)

# ------------------------------------------------------------------ has_pid_socket
class Probe(UX):
    fn = 'has_pid_socket'
    def setup(self, eng):
        st = self.begin(eng)
        self.pid = z3.Int('pid'); st.add(z3.And(self.pid >= 1, self.pid < 1 << 22))
        self.GONE, self.MATCH = z3.Bool('process_gone'), z3.Bool('holds_the_socket')
        st.add(z3.Not(z3.And(self.GONE, self.MATCH)))
        st.mem['name'] = Reg('name', 8, 'undef', ro=True)
        st.w.update(listed=(), many=False)
        eng.start(st, self.fn, [self.pid, Ptr('name', 0)])
        if len(st.frames[-1].f.params) != 2: raise Unsupported('signature of has_pid_socket')
        return st
    def c_kill(self, eng, st, av, args, ins):
        eng.oblige(st, ('P18',), 'the probe sends no signal and asks about this process', And(Eq(toint(av[1]), 0), Eq(toint(av[0]), self.pid)))
        a, b = st.fork(), st.fork()
        for s in (a, b, st): s.model = None
        a.add(self.GONE); errno_set(eng, a, [3])
        b.add(z3.Not(self.GONE)); errno_set(eng, b, [1])
        st.add(z3.Not(self.GONE))
        return [(s, v) for s, v in ((st, 0), (a, NEG1), (b, NEG1)) if eng.feasible(s)]
    def c_get_socket_inodes(self, eng, st, av, args, ins):
        if len(av) != 4: raise Unsupported('signature of get_socket_inodes')
        p, mx, q = eng.pick(st, av[1]), toint(av[2]), eng.pick(st, av[3])
        O = lambda t, n, f: eng.oblige(st, t, n, f)
        O(('P18',), 'the sockets of this process are listed', Eq(toint(av[0]), self.pid))
        x = eng.load(st, q, I(64))
        if isinstance(x, Undef): O(('P18', 'P15'), 'the list starts empty', False); raise PathEnd()
        O(('P18', 'P15'), 'the list starts empty', Eq(x, 0))
        r = st.mem[p.r]
        O(('P15',), 'the list is as large as stated', And(Eq(p.o, 0), lmul(mx, 8) <= r.size))
        O(('P18',), 'the list holds at least 1000 sockets', Z(mx) >= 1000)
        f = fail(eng, st, NEG1); m = st.fork(); m.w['many'] = True
        g = st.fork(); g.model = None; g.add(self.GONE)
        st.model = None; st.add(z3.Not(self.GONE))
        n = fresh('n'); st.add(z3.And(n >= 0, n <= mx))
        eng.store(st, q, I(64), n); st.w['listed'] = (p.r, n)
        return [(s, v) for s, v in ((st, 0), (f[0], NEG1), (m, NEG1)) if eng.feasible(s)]
    def c_has_socket_name(self, eng, st, av, args, ins):
        if len(av) != 3: raise Unsupported('signature of has_socket_name')
        p, q = eng.pick(st, av[0]), eng.pick(st, av[2])
        O = lambda t, n, f: eng.oblige(st, t, n, f)
        L = st.w['listed']
        O(('P18', 'P15'), 'the sockets of the process are looked up', And(bool(L), p.r == L[0] if L else False, Eq(p.o, 0), Eq(toint(av[1]), L[1]) if L else False))
        O(('P18',), 'the name asked about is looked up', q.r == 'name' and isc(q.o) and q.o == 0)
        return [(st, z3.If(self.MATCH, z3.IntVal(1), z3.IntVal(0))), fail(eng, st, NEG1)]
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda t, n, f: eng.oblige(st, t, n, f)
        v = Z(toint(rv))
        O(('P18',), 'the answer is yes, no or unknown', z3.Or(v == 0, v == 1, self.neg(rv)))
        O(('P18', 'P16'), 'yes only if the process holds the socket', z3.Implies(v == 1, self.MATCH))
        O(('P18', 'P16'), 'no only if the process is gone or lacks the socket', z3.Implies(v == 0, z3.Not(self.MATCH)))
        O(('P18',), 'unknown only if a system call fails or there are too many sockets', z3.Implies(self.neg(rv), z3.Or(zb(st.w['sysfail']), zb(st.w['many']))))
        self.clean(eng, st)
