"""Contracts of util/shr-tool.c: hex decoding, frame decoding, the subscriber,
the read/publish/tee output paths and the publisher's client handling.

Byte contents are uninterpreted functions: M(k) the message taken from the ring,
B(i) the subscriber's buffer, H(i) the hex argument.  Frames of the buffer start
at FP(k) and have length LEN(k); NF of them are complete."""
import re, z3
from sym import *
import sym, libc
from libc import Spec, fail, NEG1, NEG1L, errno_set
from spec_ux import UX, Z
BUF, IOV, CFG = '@buf_bss', '@iov_bss', '@cfg'
SZMAX = (1 << 63) - 1

def gfields(m, name):
    """members of the (anonymous) structure of a global variable"""
    for k, s in m.meta.items():
        if 'DIGlobalVariable(' in s and (m._mget(s, 'name') or '').strip('"') == name:
            return m._fields(m._strip(m._mget(s, 'type')))
    raise Unsupported('global %s has no debug record' % name)
def enumval(m, name):
    for k, s in m.meta.items():
        if 'DIEnumerator(' in s and (m._mget(s, 'name') or '').strip('"') == name: return int(re.search(r'value: (-?\d+)', s).group(1))
    raise Unsupported('no enumerator ' + name)

class Tool(UX):
    memtags = ('P21',)
    def unroll(self, key): return True
    def mkcfg(self, eng, st, mode, contents):
        m = eng.m
        self.fo = gfields(m, 'cfg')
        t, init, _ = m.globals.get(CFG, (None, None, None))
        if t is None: raise Unsupported('no global cfg')
        r = Reg(CFG, m.size(t), 'sym'); st.mem[CFG] = r
        inits = {m.foff(t, i): c[1] for i, (et, c) in enumerate(init[1]) if c[0] == 'g'}
        if inits.get(self.fo['buf'][0]) != BUF or inits.get(self.fo['sub_iov'][0]) != IOV: raise Unsupported('buffers of cfg')
        self.BUFLEN = m.size(m.globals[BUF][0]); self.NUMIOV = m.size(m.globals[IOV][0]) // 16
        self.region(st, BUF, self.BUFLEN, contents)
        for f in ('shr', 'o1', 'o2'): st.mem['R' + f] = Reg('R' + f, 0, kind='opaque'); self.put(st, f, Ptr('R' + f, 0))
        self.put(st, 'buf', Ptr(BUF, 0)); self.put(st, 'sub_iov', Ptr(IOV, 0))
        self.put(st, 'mode', enumval(m, mode))
        self.nonneg(st, 'verbose', 1 << 31)
    def put(self, st, f, v):
        o, s = self.fo[f]; st.wreg(CFG).cells[o] = (s, v)
    def get(self, eng, st, f):
        o, s = self.fo[f]
        v = eng.cell(st, st.mem[CFG], o, s)
        return v if isinstance(v, (Ptr, CondPtr)) else simp(toint(v))
    def nonneg(self, st, f, lim, lo=0):
        v = z3.Int('cfg_' + f); st.add(z3.And(v >= lo, v < lim)); self.put(st, f, v); return v
    def bytesat(self, eng, st, p):
        """closure j -> byte of memory at p+j"""
        p = eng.pick(st, p)
        r = st.mem.get(p.r)
        if r is None or not r.alive or r.kind == 'opaque': return None
        if r.parts and r.parts[0].stride == 1: return lambda s, j: r.parts[0].val[0](s, ladd(p.o, j))
        if not isc(r.size) or r.size > 64: return None
        bs = [eng.cell(st, r, i, 1) for i in range(r.size)]
        if isc(p.o) and any(b is None or isinstance(b, (Ptr, CondPtr, Undef)) for b in bs): bs = [0 if b is None or isinstance(b, (Ptr, CondPtr, Undef)) else b for b in bs]
        def f(s, j):
            i = ladd(p.o, j); t = z3.IntVal(-1)
            for k, b in enumerate(bs):
                if b is None or isinstance(b, (Ptr, CondPtr, Undef)): continue
                t = z3.If(Z(i) == k, Z(toint(b)), t)
            return simp(t)
        return f
    def content(self, eng, st, tags, name, p, n, want):
        """every byte j<n at p is want(j)"""
        g = self.bytesat(eng, st, p)
        if g is None: eng.oblige(st, tags, name, False); return
        s = st.fork(); s.model = None
        j = fresh('j'); s.add(z3.And(j >= 0, j < Z(n)))
        if not eng.feasible(s): return
        v = g(s, j)
        eng.oblige(s, tags, name, False if isinstance(v, Undef) else Eq(v, want(s, j)))
    def inrange(self, eng, st, tags, name, p, n):
        if not isinstance(p, (Ptr, CondPtr)): eng.oblige(st, tags, name, False); raise PathEnd()
        p = eng.pick(st, p); r = st.mem.get(p.r)
        ok = And(Z(p.o) >= 0, Z(p.o) + Z(n) <= Z(r.size)) if r is not None and r.alive and r.kind != 'opaque' else False
        eng.oblige(st, tags, name, ok)
        if ok is False: raise PathEnd()
    def c_exit(self, eng, st, av, args, ins):
        self.at_end(eng, st, NEG1); raise PathEnd()
    def c_fflush(self, eng, st, av, args, ins): return [(st, 0)]
    def c_htonl(self, eng, st, av, args, ins):
        v = Z(toint(av[0])); B = [(v / (1 << 8 * i)) % 256 for i in range(4)]
        return [(st, simp(sum(B[i] * (1 << 8 * (3 - i)) for i in range(4))))]
    c_ntohl = c_htonl
    def c_inet_ntoa(self, eng, st, av, args, ins): return [(st, Ptr('EXT', 0))]
    def ok0(self, eng, st, rv): return simp(Z(toint(rv)) < 1 << 31)

# ------------------------------------------------------------------ unhex
def ishex(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
def digit(c): return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
class Unhex(Tool):
    """mode ok: all of a non-empty even number of characters are hex digits; bad: not"""
    fn = 'unhex'; memtags = ('P23',)
    def __init__(self, mode): self.mode = mode
    def setup(self, eng):
        st = self.begin(eng)
        L = self.LEN = z3.Int('len'); W = self.W = z3.Int('witness')
        st.add(z3.And(L >= 0, L < 1 << 17))
        if self.mode == 'ok': st.add(z3.And(L > 0, L % 2 == 0))
        if self.mode == 'odd': st.add(z3.Or(L == 0, L % 2 == 1))
        if self.mode == 'bad': st.add(z3.And(L > 0, W >= 0, W < L))
        def ch(s, a, t):
            i = Z(a[0])
            s.add(z3.And(z3.Implies(i == L, t == 0), z3.Implies(z3.And(i >= 0, i < L), z3.And(t != 0, ishex(t) if self.mode == 'ok' else True))))
            if self.mode == 'bad': s.add(z3.Implies(i == W, z3.Not(ishex(t))))
        self.H = Fn('H', 1, hook=ch, rng=(0, 256))
        self.region(st, '@h', L + 1, lambda s, i: self.H(s, i))
        self.h0 = st.mem['@h'].parts[0].val[0]
        r = Reg('ctype', 768, 'undef', ro=True); st.mem['ctype'] = r
        def cls(s, i):
            x = Z(i) - 128; b = [freshb('ct') for _ in range(16)]
            s.add(z3.Implies(z3.And(x >= 0, x < 256), b[12] == ishex(x)))
            return Bits(16, b)
        r.parts = [Part('ctype', 0, 2, 384, {0: (2, 'int')}, {0: cls})]
        r = Reg('ctloc', 8, ro=True); r.cells[0] = (8, Ptr('ctype', 256)); st.mem['ctloc'] = r
        eng.start(st, self.fn, [Ptr('@h', 0)])
        if len(st.frames[-1].f.params) != 1: raise Unsupported('signature of unhex')
        return st
    def strlen(self, eng, st, p):
        p = eng.pick(st, p)
        if p.r == '@h' and isc(p.o) and p.o == 0 and st.mem['@h'].parts[0].val[0] is self.h0: return [(st, self.LEN)]
        if p.r != '@h': raise Unsupported('strlen')
        n = fresh('strlen'); st.add(z3.And(n >= 0, Z(p.o) + n <= self.LEN)); g = self.bytesat(eng, st, p)
        st.add(Eq(g(st, n), 0)); return [(st, n)]
    def c___ctype_b_loc(self, eng, st, av, args, ins): return [(st, Ptr('ctloc', 0))]
    def c_isxdigit(self, eng, st, av, args, ins):
        c = Z(toint(av[0])); r = fresh('isx'); st.add(z3.And(r >= 0, r < 1 << 31, (r != 0) == z3.And(c < 256, ishex(c)))); return [(st, r)]
    def c_tolower(self, eng, st, av, args, ins):
        c = Z(toint(av[0])); return [(st, simp(z3.If(z3.And(c >= 65, c <= 90), c + 32, c)))]
    def c_toupper(self, eng, st, av, args, ins):
        c = Z(toint(av[0])); return [(st, simp(z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))]
    def c_sscanf(self, eng, st, av, args, ins):
        if eng.cstring(st, eng.pick(st, av[1])) not in ('%2x', '%02x', '%2X') or len(av) != 3: raise Unsupported('sscanf format')
        self.inrange(eng, st, ('P23',), 'sscanf reads the argument', av[0], 1)
        g = self.bytesat(eng, st, av[0])
        st.model = None
        a = Z(toint(g(st, 0))); 
        two = st.fork(); b = Z(toint(g(two, 1))); hx = z3.And(ishex(a), ishex(b))
        one = two.fork()
        two.add(hx); one.add(z3.Not(hx))
        out = []
        if eng.feasible(two):
            eng.store(two, av[2], I(32), simp(16 * digit(a) + digit(b))); out.append((two, 1))
        if eng.feasible(one):
            n = one.fork(); out += [(n, 0), (one, 1)]
            u = fresh('u'); one.add(z3.And(u >= 0, u < 256)); eng.store(one, av[2], I(32), u)
        return out
    c___isoc23_sscanf = c___isoc99_sscanf = c_sscanf
    def VAL(self, s, k): return 16 * digit(self.H(s, lmul(k, 2))) + digit(self.H(s, ladd(lmul(k, 2), 1)))
    def bounds(self, eng, st): return [('LEN', lambda s: self.LEN), ('LEN/2', lambda s: self.LEN / 2)]
    def cands(self, eng, st, mods):
        out = [('2it<=LEN', lambda e, s, g, it: 2 * it <= self.LEN), ('it<=LEN', lambda e, s, g, it: it <= self.LEN)]
        if self.mode == 'bad': out += [('2it<=W', lambda e, s, g, it: 2 * it <= self.W), ('it<=W', lambda e, s, g, it: it <= self.W)]
        return out
    def templates(self, eng, st, k):
        if k[1] != '@h': return []
        o = st.mem['@h'].parts[0].val[0]
        return [('decoded', lambda it: lambda s, i: simp(z3.If(Z(i) < Z(it), Z(toint(self.VAL(s, i))), Z(toint(o(s, i))))))]
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda n, f, s=st: eng.oblige(s, ('P23',), n, f)
        v = Z(toint(rv))
        if self.mode != 'ok':
            O('anything but an even number of hex digits is refused', z3.Or(v == 0, v >= 1 << 31)); return
        O('a string of hex digits is accepted and denotes half as many bytes', v == self.LEN / 2)
        s = st.fork(); s.model = None; k = z3.Int('anybyte'); s.add(z3.And(k >= 0, 2 * k < self.LEN))
        O('every byte is the one the digits denote', Eq(s.mem['@h'].parts[0].val[0](s, k), self.VAL(s, k)), s)

# ------------------------------------------------------------------ decode_frames
class Frames(Tool):
    """mode any, or zero: a complete frame is empty"""
    fn = 'decode_frames'
    def __init__(self, mode='any'): self.mode = mode
    def setup(self, eng):
        st = self.begin(eng)
        U, NF, KZ = self.U, self.NF, self.KZ = z3.Int('used'), z3.Int('frames'), z3.Int('empty_frame')
        def ln(s, a, t):
            k = Z(a[0]); fp = self.FP(s, a[0])
            b = [self.B(s, ladd(fp, i)) for i in range(4)]
            s.add(z3.Implies(z3.And(k >= 0, k <= NF, fp + 4 <= U), t == b[0] + 256 * b[1] + 65536 * b[2] + (1 << 24) * b[3]))
        self.LEN = Fn('LEN', 1, hook=ln, rng=(0, 1 << 32))
        def step(a, t, b, u):
            a, b = Z(a[0]), Z(b[0]); v = z3.And(a >= 0, b >= 0, a <= NF, b <= NF); o = []
            for x, p, y, q in ((a, t, b, u), (b, u, a, t)):
                o += [z3.Implies(z3.And(v, x < y), z3.And(q >= p + 4 + self.LEN.f(x), q >= p + 4 * (y - x))), z3.Implies(z3.And(v, y == x + 1), q == p + 4 + self.LEN.f(x))]
            return z3.And(*o)
        self.FP = Fn('FP', 1, hook=lambda s, a, t: s.add(z3.And(z3.Implies(Z(a[0]) == 0, t == 0), z3.Implies(z3.And(Z(a[0]) >= 0, Z(a[0]) <= NF), z3.And(t >= 4 * Z(a[0]), t <= U)))), pair=step)
        self.B = Fn('B', 1, rng=(0, 256))
        self.mkcfg(eng, st, 'mode_sub', lambda s, i: self.B(s, i))
        self.put(st, 'sub_buf_used', U)
        st.add(z3.And(U >= 0, U <= self.BUFLEN, NF >= 0, NF <= U))
        self.FP(st, 0); fn, ln_ = self.FP(st, NF), self.LEN(st, NF)
        big = ln_ + 4 > self.BUFLEN
        # what follows the complete frames: no whole header, an incomplete frame, or one too long to hold
        st.add(z3.Or(fn + 4 > U, fn + 4 + ln_ > U))
        self.OVER = z3.And(fn + 4 <= U, big)
        if self.mode == 'zero': st.add(z3.And(KZ >= 0, KZ < NF, self.LEN(st, KZ) == 0)); self.FP(st, KZ)
        self.OLD = Fn('oldptr', 1); self.OLDL = Fn('oldlen', 1, rng=(0, 1 << 64))
        r = Reg(IOV, self.NUMIOV * 16); st.mem[IOV] = r
        r.parts = [Part('frames', 0, 16, self.NUMIOV, {0: (8, 'ptr'), 8: (8, 'int')}, {0: lambda s, i: Ptr(BUF, self.OLD(s, i)), 8: lambda s, i: self.OLDL(s, i)})]
        st.w.update(sent=0, refused=z3.BoolVal(False))
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of decode_frames')
        return st
    # the ring
    def take(self, eng, st, cnt):
        """the ring takes the next cnt frames, or refuses"""
        f = st.fork(); f.w['refused'] = z3.BoolVal(True); f.w['sysfail'] = z3.BoolVal(True)
        f.trace = f.trace + (('fail', 'ring', eng.curline(f)),)
        r0 = Z(st.w['sent'])
        if self.mode == 'zero': st.add(z3.Not(z3.And(r0 <= self.KZ, self.KZ < r0 + cnt)))
        st.w['sent'] = simp(r0 + cnt)
        n = fresh('nw'); st.model = None; st.add(z3.And(n >= 1, n <= SZMAX))
        return [(s, v) for s, v in ((st, n), (f, NEG1L)) if eng.feasible(s)]
    def ring(self, eng, st, p):
        p = eng.pick(st, p)
        eng.oblige(st, ('P21',), 'frames are written to the ring of the subscriber', p.r == 'Rshr')
    def c_shr_writev(self, eng, st, av, args, ins):
        self.ring(eng, st, av[0])
        v, n = eng.pick(st, av[1]), Z(simp(toint(av[2])))
        if v.r is None or v.r not in st.mem: eng.oblige(st, ('P21',), 'the batch is given', False); raise PathEnd()
        sent = Z(st.w['sent'])
        O = lambda s, nm, f: eng.oblige(s, ('P21',), nm, f)
        O(st, 'the batch holds only frames not yet written', z3.And(n >= 0, sent + n <= self.NF))
        s = st.fork(); s.model = None; k = z3.Int('anyframe'); s.add(z3.And(k >= 0, k < n))
        if eng.feasible(s):
            fp, ln = self.FP(s, sent + k), self.LEN(s, sent + k); self.FP(s, sent + k + 1)
            if not v.r == IOV: eng.inone = 1
            p = eng.load(s, Ptr(v.r, ladd(v.o, lmul(k, 16))), PTR); l = eng.load(s, Ptr(v.r, ladd(v.o, ladd(lmul(k, 16), 8))), I(64))
            if isinstance(p, Undef) or isinstance(l, Undef): O(s, 'every entry of the batch is set', False); raise PathEnd()
            O(s, 'entry k of the batch is frame sent+k of the stream', And(peq(p, Ptr(BUF, fp + 4)), Eq(l, ln)))
        self.intact(eng, st)
        return self.take(eng, st, n)
    def intact(self, eng, st):
        self.content(eng, st, ('P21',), 'the bytes of the frames are the bytes received', Ptr(BUF, 0), self.U, lambda s, j: self.B(s, j))
    def c_shr_write(self, eng, st, av, args, ins):
        self.ring(eng, st, av[0]); sent = Z(st.w['sent'])
        fp, ln = self.FP(st, sent), self.LEN(st, sent); self.FP(st, sent + 1)
        eng.oblige(st, ('P21',), 'the next frame of the stream is written', And(sent < self.NF, peq(eng.pick(st, av[1]), Ptr(BUF, fp + 4)), Eq(toint(av[2]), ln)))
        self.intact(eng, st)
        return self.take(eng, st, 1)
    # invariants
    def terms(self, eng, st, v0):
        return [('FP', lambda s, it: self.FP(s, it)), ('U-FP', lambda s, it: self.U - self.FP(s, it)), ('FP-4', lambda s, it: self.FP(s, it) + 4)]
    def bounds(self, eng, st): return [('U', lambda s: self.U), ('NF', lambda s: self.NF)]
    def cands(self, eng, st, mods):
        def link(e, s, g, it):
            self.LEN(s, it); self.FP(s, it); self.FP(s, it + 1)
            return it <= self.NF
        return [('it<=NF', link), ('sent==it', lambda e, s, g, it: Z(s.w['sent']) == it), ('4it<=U', lambda e, s, g, it: 4 * it <= self.U)] + ([('it<=KZ', lambda e, s, g, it: it <= self.KZ)] if self.mode == 'zero' else [])
    def loop_assume(self, eng, st, it): self.LEN(st, it); self.FP(st, it); self.FP(st, simp(it + 1))
    def templates(self, eng, st, k):
        if k[1] != IOV: return []
        o = st.mem[IOV].parts[0].val
        if k[3] == 0:
            def old(s, i):
                p = o[0](s, i)
                return p.o if isinstance(p, Ptr) and p.r == BUF else self.OLD(s, i)
            def tm(d): return lambda it: lambda s, i: Ptr(BUF, simp(z3.If(Z(i) < Z(it), self.FP(s, i) + d, Z(old(s, i)))))
            return [('frame starts', tm(4)), ('frame headers', tm(0))]
        return [('frame lengths', lambda it: lambda s, i: simp(z3.If(Z(i) < Z(it), self.LEN(s, i), Z(toint(o[8](s, i))))))]
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda n, f, s=st: eng.oblige(s, ('P21',), n, f)
        v = Z(toint(rv))
        bad = st.fork(); bad.model = None; bad.add(v >= 1 << 31)
        if eng.feasible(bad): O('fails only if the ring refuses a batch or a frame is too long', z3.Or(zb(bad.w['refused']), self.OVER), bad)
        st.add(v < 1 << 31)
        if not eng.feasible(st): return
        O('a refused batch is reported', z3.Not(zb(st.w['refused'])))
        O('a frame too long to hold is refused', z3.Not(self.OVER))
        if self.mode == 'zero': O('an empty frame is refused', False); return
        O('every complete frame is written, each once', Eq(st.w['sent'], self.NF))
        rest = simp(self.U - self.FP(st, self.NF)); u = self.get(eng, st, 'sub_buf_used')
        O('the incomplete tail stays in the buffer', Eq(u, rest))
        O('the buffer has room for more', Z(u) < self.BUFLEN)
        self.content(eng, st, ('P21',), 'the tail kept is the tail received', Ptr(BUF, 0), rest, lambda s, j: self.B(s, ladd(self.FP(s, self.NF), j)))

# ------------------------------------------------------------------ do_subscriber
class Subscriber(Tool):
    fn = 'do_subscriber'
    def setup(self, eng):
        st = self.begin(eng)
        self.B0, self.N = Fn('B0', 1, rng=(0, 256)), Fn('N', 1, rng=(0, 256))
        self.mkcfg(eng, st, 'mode_sub', lambda s, i: self.B0(s, i))
        self.U = self.nonneg(st, 'sub_buf_used', self.BUFLEN); self.fd = self.nonneg(st, 'sub_fd', 1 << 20)
        st.w.update(used=self.U, pending=False, dfail=z3.BoolVal(False), _want=lambda s, j: self.B0(s, j))
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of do_subscriber')
        return st
    def c_read(self, eng, st, av, args, ins, fl=0):
        O = lambda n, f: eng.oblige(st, ('P21',), n, f)
        O('the connection is read', Eq(toint(av[0]), self.fd))
        p, n = eng.pick(st, av[1]), simp(toint(av[2])); used = Z(st.w['used'])
        O('bytes are appended to the ones kept', And(p.r == BUF, Eq(p.o, used) if p.r == BUF else False))
        if p.r != BUF: raise PathEnd()
        O('a read has room for at least one byte', Z(n) >= 1)
        r, loc, off = eng.byterange(st, p, n, 'read', True)
        f = fail(eng, st, NEG1L); e = st.fork()
        nr = fresh('nr'); st.model = None; st.add(z3.And(nr >= 1, nr <= Z(n)))
        old = st.w['_want']; N = Fn('N', 1, rng=(0, 256))
        eng.bset(st, r, loc, nr, lambda s, i: N(s, i))
        st.w['_want'] = lambda s, j: z3.If(Z(j) < used, Z(toint(old(s, j))), N(s, lsub(j, used)))
        st.w['used'] = simp(used + nr); st.w['pending'] = True
        return [(s, v) for s, v in ((st, nr), (e, 0), f) if eng.feasible(s)]
    def c_recv(self, eng, st, av, args, ins):
        if not (isc(simp(toint(av[3]))) and simp(toint(av[3])) & 2 == 0): raise Unsupported('recv flags')
        return self.c_read(eng, st, av, args, ins)
    def c_decode_frames(self, eng, st, av, args, ins):
        if av: raise Unsupported('signature of decode_frames')
        O = lambda n, f: eng.oblige(st, ('P21',), n, f)
        O('every byte received is decoded', Eq(self.get(eng, st, 'sub_buf_used'), st.w['used']))
        want = st.w['_want']
        self.content(eng, st, ('P21',), 'the bytes decoded are the bytes received', Ptr(BUF, 0), st.w['used'], want)
        f = st.fork(); f.w['dfail'] = z3.BoolVal(True)
        f.trace = f.trace + (('fail', 'decode', eng.curline(f)),)
        u = fresh('rest'); st.model = None; st.add(z3.And(u >= 0, u < self.BUFLEN, u <= Z(st.w['used'])))
        B = Fn('B', 1, rng=(0, 256)); w = st.wreg(BUF); w.parts[0] = w.parts[0].with_(0, lambda s, i: B(s, i))
        self.put(st, 'sub_buf_used', u); st.w.update(used=u, pending=False, _want=lambda s, j: B(s, j))
        return [(st, 0), (f, NEG1)]
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda n, f, s=st: eng.oblige(s, ('P21',), n, f)
        v = Z(toint(rv))
        O('the buffer holds what is left to decode', Eq(self.get(eng, st, 'sub_buf_used'), st.w['used'])) if not eng.valid(st, v >= 1 << 31) else None
        O('a refused batch stops the subscriber', z3.Implies(zb(st.w['dfail']), v >= 1 << 31))
        O('bytes received are decoded at once', z3.Or(zb(st.w['dfail']), z3.Not(zb(st.w['pending']))))
        s = st.fork(); s.model = None; s.add(v < 1 << 31)
        if eng.feasible(s): self.content(eng, s, ('P21',), 'the bytes kept are the bytes received', Ptr(BUF, 0), s.w['used'], s.w['_want'])

# ------------------------------------------------------------------ handle_io
class Out(Tool):
    """mode read, pub, tee: one message from the ring to the output"""
    fn = 'handle_io'
    def __init__(self, mode):
        self.mode = mode; self.memtags = ('P22',)
        self.tags = ('P22', 'P21') if mode == 'pub' else ('P22',)
    def setup(self, eng):
        st = self.begin(eng)
        self.M, self.OLDB = Fn('M', 1, rng=(0, 256)), Fn('oldbyte', 1, rng=(0, 256))
        self.mkcfg(eng, st, 'mode_' + self.mode, lambda s, i: self.OLDB(s, i))
        self.block = self.nonneg(st, 'block', 1 << 31); self.nread = self.nonneg(st, 'nread', 1 << 62); self.max = self.nonneg(st, 'max_msgs', 1 << 64)
        self.fd = self.nonneg(st, 'fd', 1 << 20); self.ep = self.nonneg(st, 'epoll_fd', 1 << 20)
        self.pfx = self.nonneg(st, 'pub_len_prefix', 2)
        if self.mode == 'pub':
            self.pub = self.nonneg(st, 'pub_fd', 1 << 20, 3); st.add(z3.And(self.pub != self.fd, self.pub != self.ep))
            self.put(st, 'block', 0) if False else None
        st.w.update(total=0, written=0, t1=0, t2=0, taken=False, rfail=z3.BoolVal(False), wfail=z3.BoolVal(False), wintr=z3.BoolVal(False), closed=False, polled=True)
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of handle_io')
        return st
    def hdr(self): return z3.If(self.pfx != 0, z3.IntVal(4), z3.IntVal(0)) if self.mode == 'pub' else z3.IntVal(0)
    def want(self, s, k):
        """byte k of what the output must receive"""
        h, n, k = self.hdr(), Z(s.w['total']), Z(k)
        m = self.M(s, simp(k - h))
        if self.mode != 'pub': return m
        return z3.If(k < h, z3.If(k == 0, n % 256, z3.If(k == 1, (n / 256) % 256, z3.If(k == 2, (n / 65536) % 256, (n / (1 << 24)) % 256))), m)
    def due(self, s): return z3.If(Z(s.w['total']) == 0, z3.IntVal(0), Z(s.w['total']) + self.hdr())
    def c_shr_read(self, eng, st, av, args, ins):
        O = lambda n, f: eng.oblige(st, self.tags, n, f)
        O('the message comes from the source ring', eng.pick(st, av[0]).r == 'Rshr')
        O('the previous message is passed on before the next is taken', not st.w['taken'])
        n = simp(toint(av[2]))
        r, loc, off = eng.byterange(st, av[1], n, 'shr_read', True)
        if loc is None: raise Unsupported('shr_read into a local object')
        st.w['taken'] = True
        f = st.fork(); f.w['rfail'] = z3.BoolVal(True); f.trace = f.trace + (('fail', 'shr_read', eng.curline(f)),)
        fv = fresh('err'); f.model = None; f.add(z3.And(fv >= (1 << 64) - 4, fv < 1 << 64))
        e = st.fork()
        nr = fresh('nr'); st.model = None; st.add(z3.And(nr >= 1, nr <= Z(n), nr <= SZMAX))
        eng.bset(st, r, loc, nr, lambda s, i: self.M(s, i))
        st.w['total'] = nr
        return [(s, v) for s, v in ((st, nr), (e, 0), (f, fv)) if eng.feasible(s)]
    # output to a descriptor
    def c_write(self, eng, st, av, args, ins, kind='write'):
        O = lambda n, f: eng.oblige(st, self.tags, n, f)
        fd, n = simp(toint(av[0])), Z(simp(toint(av[2])))
        O('output goes to its descriptor', And(self.mode in ('read', 'pub'), Eq(fd, 1 if self.mode == 'read' else self.pub)))
        O('nothing is written after a failure', z3.Or(z3.Not(zb(st.w['wfail'])), zb(st.w['wintr'])))
        O('the client is still connected', not st.w['closed'])
        self.inrange(eng, st, self.tags, 'output comes from a live object', av[1], n)
        wr = Z(st.w['written'])
        O('no more than the message is written', z3.And(n >= 0, wr + n <= self.due(st)))
        self.content(eng, st, self.tags, 'the bytes written continue the message exactly', av[1], n, lambda s, j: self.want(s, simp(wr + j)))
        f, fv = fail(eng, st, NEG1L)
        f.w['wfail'] = z3.BoolVal(True); f.w['wintr'] = simp_b(Eq(eng.load(f, Ptr('errno', 0), I(32)), 4))
        st.w['wfail'] = z3.BoolVal(False)
        nw = fresh('nw'); st.model = None; st.add(z3.And(nw >= 0, nw <= n, z3.Implies(n >= 1, nw >= 1)))
        st.w['written'] = simp(wr + nw)
        return [(st, nw), (f, fv)]
    def c_send(self, eng, st, av, args, ins): return self.c_write(eng, st, av, args, ins)
    def close(self, eng, st, fd):
        fd = simp(toint(fd))
        if self.mode != 'pub': eng.oblige(st, self.tags, 'no descriptor is closed', False); raise PathEnd()
        eng.oblige(st, self.tags, 'only the client is closed, once', And(Eq(fd, self.pub), not st.w['closed']))
        st.w['closed'] = True
        return [(st, 0)]
    def c_epoll_ctl(self, eng, st, av, args, ins):
        op, fd = simp(toint(av[1])), simp(toint(av[2]))
        eng.oblige(st, self.tags, 'the epoll set is the one of the tool', Eq(toint(av[0]), self.ep))
        f = fail(eng, st, NEG1)
        if op != 2:
            ev = eng.load(st, eng.pick(st, av[3]), I(32))
            if eng.valid(st, Eq(fd, self.fd)): st.w['polled'] = simp_b(Not(Eq(ev, 0)))
        else:
            if eng.valid(st, Eq(fd, self.fd)): st.w['polled'] = False
        return [(st, 0), f]
    # output to rings
    def c_shr_write(self, eng, st, av, args, ins):
        O = lambda n, f: eng.oblige(st, self.tags, n, f)
        p = eng.pick(st, av[0]); which = {'Ro1': 't1', 'Ro2': 't2'}.get(p.r) if self.mode == 'tee' else None
        O('messages are written to a target ring', which is not None)
        if which is None: raise PathEnd()
        n = Z(simp(toint(av[2])))
        O('the whole message is written', Eq(n, st.w['total']))
        self.inrange(eng, st, self.tags, 'output comes from a live object', av[1], n)
        self.content(eng, st, self.tags, 'the bytes written are the message', av[1], n, lambda s, j: self.M(s, j))
        O('each target receives the message once', Eq(st.w[which], 0))
        f = st.fork(); f.w['wfail'] = z3.BoolVal(True); f.trace = f.trace + (('fail', 'shr_write', eng.curline(f)),)
        fv = fresh('err'); f.model = None; f.add(z3.And(fv >= (1 << 64) - 4, fv < 1 << 64))
        st.w[which] = 1
        r = fresh('nw'); st.model = None; st.add(z3.And(r >= 1, r <= SZMAX))
        return [(st, r), (f, fv)]
    def terms(self, eng, st, v0):
        return [('written', lambda s, it: Z(s.w['written'])), ('total-written', lambda s, it: Z(s.w['total']) - Z(s.w['written'])), ('due-written', lambda s, it: self.due(s) - Z(s.w['written'])),
                ('hdr-written', lambda s, it: self.hdr() - Z(s.w['written'])), ('written-hdr', lambda s, it: Z(s.w['written']) - self.hdr()), ('total', lambda s, it: Z(s.w['total']))]
    def bounds(self, eng, st): return [('due', lambda s: self.due(s)), ('hdr', lambda s: self.hdr())]
    def exact(self, eng, k, cands):
        # how many bytes each write accepts is not determined; the invariants relate the counters to it
        return True if k == ('world', 'written') or k[0] == 'cell' and k[1] == 'errno' else None
    def cands(self, eng, st, mods):
        W = lambda s: Z(s.w['written'])
        out = [('written<=due', lambda e, s, g, it: W(s) <= self.due(s)), ('written<due', lambda e, s, g, it: W(s) < self.due(s)), ('written<=hdr', lambda e, s, g, it: W(s) <= self.hdr()), ('written<hdr', lambda e, s, g, it: W(s) < self.hdr()), ('written>=hdr', lambda e, s, g, it: W(s) >= self.hdr()),
               ('it<=written', lambda e, s, g, it: it <= W(s)), ('no failure', lambda e, s, g, it: z3.Not(zb(s.w['wfail']))),
               ('interrupted', lambda e, s, g, it: z3.Implies(zb(s.w['wfail']), z3.And(zb(s.w['wintr']), W(s) < self.due(s)))),
               ('interrupted header', lambda e, s, g, it: z3.Implies(zb(s.w['wfail']), z3.And(zb(s.w['wintr']), W(s) < self.hdr())))]
        ik, pk = self.allkeys(mods, eng, st)
        T = {'written': W, 'total-written': lambda s: Z(s.w['total']) - W(s), 'due-written': lambda s: self.due(s) - W(s), 'hdr-written': lambda s: self.hdr() - W(s), 'written-hdr': lambda s: W(s) - self.hdr()}
        for k in ik:
            if k == ('world', 'written'): continue
            for n, t in T.items(): out.append(('%s==%s' % (k, n), lambda e, s, g, it, k=k, t=t: Z(toint(g(k))) == t(s)))
        for k in pk:
            for n, t in T.items(): out.append(('off %s==%s' % (k, n), lambda e, s, g, it, k=k, t=t: Eq(g(k).o, t(s)) if isinstance(g(k), Ptr) else False))
        return out
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda n, f, s=st: eng.oblige(s, self.tags, n, f)
        v = Z(toint(rv)); neg = v >= 1 << 31; W = st.w
        wf, rf, tot = zb(W['wfail']), zb(W['rfail']), Z(W['total'])
        O('the ring is read', W['taken'])
        if self.mode == 'tee':
            O('both targets receive the message', z3.Or(wf, rf, tot == 0, z3.And(Z(W['t1']) == 1, Z(W['t2']) == 1)))
            O('a refusal stops the tee', z3.Implies(wf, neg))
            O('stops only if a ring refuses', z3.Implies(neg, z3.Or(wf, rf)))
            return
        O('the whole message is written', z3.Or(wf, rf, Z(W['written']) == self.due(st)))
        if self.mode == 'read':
            O('a failed write stops the reader', z3.Implies(wf, neg))
            O('stops only on a failure, the end of the data or the requested count', z3.Implies(neg, z3.Or(wf, rf, z3.And(tot == 0, self.block == 0), z3.And(self.max > 0, self.nread + 1 >= self.max))))
            return
        p = self.get(eng, st, 'pub_fd')
        O('a failed write drops the client', z3.Implies(wf, z3.And(Z(p) == NEG1, zb(W['closed']))))
        O('a client is dropped only if writing fails', z3.Or(wf, z3.And(zb(Eq(p, self.pub)), z3.Not(zb(W['closed'])))))
        O('without a client the ring is not polled', z3.Implies(wf, z3.Or(neg, z3.Not(zb(W['polled'])))))
        O('stops only on a failure', z3.Implies(neg, z3.Or(rf, zb(W['sysfail']))))

def simp_b(x):
    x = simp(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x

# ------------------------------------------------------------------ the publisher's client
class Client(Tool):
    """accept_client (client connected or not before) and handle_client; invariant:
    the ring is polled only while a client is connected"""
    memtags = ('P22',)
    def __init__(self, fn, has=True): self.fn, self.has = fn, has
    def setup(self, eng):
        st = self.begin(eng)
        self.mkcfg(eng, st, 'mode_pub', lambda s, i: fresh('b'))
        self.fd = self.nonneg(st, 'fd', 1 << 20); self.ep = self.nonneg(st, 'epoll_fd', 1 << 20); self.lst = self.nonneg(st, 'listen_fd', 1 << 20)
        if self.has:
            self.pub = self.nonneg(st, 'pub_fd', 1 << 20, 3); st.add(z3.And(self.pub != self.fd, self.pub != self.ep, self.pub != self.lst))
            st.w['fds'] = ((self.pub, 'client', None),)
        else: self.put(st, 'pub_fd', NEG1)
        st.w.update(polled=z3.BoolVal(self.has), gone=False, watched=z3.BoolVal(self.has), nacc=0)
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of ' + self.fn)
        return st
    def c_accept(self, eng, st, av, args, ins):
        eng.oblige(st, ('P22',), 'connections come from the listener', Eq(toint(av[0]), self.lst))
        if st.w['nacc']: raise Unsupported('second accept')
        f = fail(eng, st, NEG1)
        for i in (1, 2):
            p = eng.pick(st, av[i])
        p = eng.pick(st, av[1])
        if p.r in st.mem: w = st.wreg(p.r); w.default = 'sym'; w.cells = {}; w.fills = []
        fd = libc.newfd(eng, st, 'new'); st.add(z3.And(fd != self.fd, fd != self.ep, fd != self.lst)); st.w['nacc'] = 1; self.new = fd
        return [(st, fd), f]
    def c_recv(self, eng, st, av, args, ins):
        eng.oblige(st, ('P22',), 'the client is asked', self.has and Eq(toint(av[0]), self.pub))
        n = simp(toint(av[2])); p = eng.pick(st, av[1])
        self.inrange(eng, st, ('P22',), 'recv stays inside its buffer', p, n)
        w = st.wreg(p.r); w.default = 'sym'; w.cells = {}; w.fills = []
        f = fail(eng, st, NEG1L); f[0].w['gone'] = True
        e = st.fork(); e.w['gone'] = True
        nr = fresh('nr'); st.model = None; st.add(z3.And(nr >= 1, nr <= Z(n)))
        return [(st, nr), (e, 0), f]
    c_read = c_recv
    def c_epoll_ctl(self, eng, st, av, args, ins):
        op, fd = simp(toint(av[1])), simp(toint(av[2]))
        eng.oblige(st, ('P22',), 'the epoll set is the one of the tool', Eq(toint(av[0]), self.ep))
        f = fail(eng, st, NEG1)
        if op == 2: on = False
        else: on = simp_b(Not(Eq(eng.load(st, eng.pick(st, av[3]), I(32)), 0)))
        if eng.valid(st, Eq(fd, self.fd)): st.w['polled'] = on
        elif st.w['nacc'] and eng.valid(st, Eq(fd, self.new)):
            st.w['watched'] = on
            d = eng.load(st, Ptr(eng.pick(st, av[3]).r, ladd(eng.pick(st, av[3]).o, 4)), I(32))
            eng.oblige(st, ('P22',), 'events of the client name the client', Eq(d, fd))
        return [(st, 0), f]
    def at_end(self, eng, st, rv):
        st.model = None
        O = lambda n, f, s=st: eng.oblige(s, ('P22',), n, f)
        v = Z(toint(rv)); neg = v >= 1 << 31; W = st.w; sf = zb(W['sysfail'])
        p = self.get(eng, st, 'pub_fd')
        fds = [e[0] for e in W['fds']]
        O('at most one client is connected', len(fds) <= 1)
        if len(fds) == 0: O('no client is recorded that is not connected', z3.Or(sf, Eq(p, NEG1)) if not isc(p) else Eq(p, NEG1))
        if len(fds) == 1: O('the connected client is the one recorded', Eq(p, fds[0]))
        O('without a client the ring is not polled', z3.Or(neg, sf, Z(p) != NEG1, z3.Not(zb(W['polled']))))
        O('with a client the ring is polled', z3.Or(neg, Z(p) == NEG1, zb(W['polled'])))
        if self.fn == 'accept_client':
            if self.has: O('a connected client is kept', Eq(p, self.pub))
            else: O('a new client is recorded', z3.Or(sf, And(bool(W['nacc']), Eq(p, self.new if W['nacc'] else -1))))
        else:
            O('a client is dropped when it disconnects, and only then', zb(Eq(p, NEG1)) == z3.BoolVal(bool(W['gone'])))
            O('a client that sends data is kept', z3.Or(zb(W['gone']), z3.Not(neg)))

# ------------------------------------------------------------------ main
class Main(Tool):
    """main in one of its modes: it hands the other functions what their contracts require, reacts to
    their results, and (writehex) writes exactly the decoded bytes.
    Argument i of the command line is the object ARG+i*2^20; which of them are operands is getopt's business."""
    fn = 'main'; unrolls = 16
    READ = ('read', 'read_hex', 'pub')
    def __init__(self, mode):
        self.mode = mode
        self.tags = {'write_hex': ('P23',), 'sub': ('P21',), 'pub': ('P22', 'P21')}.get(mode, ('P22',))
        self.memtags = self.tags
    def setup(self, eng):
        st = self.begin(eng)
        self.cmd = self.mode.replace('_', '')
        self.argc = z3.Int('argc'); st.add(z3.And(self.argc >= 2, self.argc < 1 << 20))
        st.mem['ARG'] = Reg('ARG', 1 << 41, 'undef', ro=True)
        B = Fn('argbyte', 1, rng=(0, 256), hook=lambda s, a, t: s.add(z3.Implies(Z(a[0]) == (1 << 41) - 1, t == 0)))   # every string ends
        st.mem['ARG'].parts = [Part('ARG', 0, 1, 1 << 41, {0: (1, 'int')}, {0: lambda s, i: B(s, i)})]
        r = Reg('argv', lmul(self.argc, 8)); st.mem['argv'] = r
        r.parts = [Part('argv', 0, 8, self.argc, {0: (8, 'ptr')}, {0: lambda s, i: Ptr('ARG', lmul(i, 1 << 20))})]
        for d in ('DUP', 'HEX', 'ADDR', 'Rsrc'): st.mem[d] = Reg(d, 0, kind='opaque')
        if CFG not in eng.m.globals: raise Unsupported('no global cfg')
        self.fo = gfields(eng.m, 'cfg'); eng.glob(st, CFG)
        self.put(st, 'fs_type', Ptr('DUP', 0))
        st.w.update(op0=None, base=None, opened=(), watch=(), ready=None, stopped=z3.BoolVal(False), uh=None, wrote=0, wbad=False, hexdup=False)
        eng.start(st, self.fn, [self.argc, Ptr('argv', 0)])
        if len(st.frames[-1].f.params) != 2: raise Unsupported('signature of main')
        return st
    def extglobal(self, eng, st, name):
        return {'@optind': 1, '@optarg': NULL}.get(name, Ptr('EXT', 0))
    def O(self, st, n, f, eng=None): self.eng.oblige(st, self.tags, n, f)
    def argno(self, eng, st, p):
        p = eng.pick(st, p)
        if p.r != 'ARG': return None
        o = simp(Z(p.o) / (1 << 20))
        return o if eng.valid(st, Z(p.o) % (1 << 20) == 0) else None
    # ---- the command line
    def c_usage(self, eng, st, av, args, ins): raise PathEnd()
    def c_exit(self, eng, st, av, args, ins): self.at_end(eng, st, av[0]); raise PathEnd()
    def c_strcmp(self, eng, st, av, args, ins):
        a, b = eng.pick(st, av[0]), eng.pick(st, av[1])
        if a.r != 'ARG': a, b = b, a
        n = self.argno(eng, st, a)
        if n is None or not eng.valid(st, Eq(n, 1)): raise Unsupported('strcmp')
        c = eng.cstring(st, b)
        if c == '?': raise Unsupported('strcmp')
        if c == self.cmd: return [(st, 0)]
        v = fresh('cmp'); st.add(z3.And(v >= 1, v < 1 << 32)); return [(st, v)]
    def c_try_delegate(self, eng, st, av, args, ins):
        self.O(st, 'the mode is recognised', False); raise PathEnd()
    def c_strdup(self, eng, st, av, args, ins):
        n = self.argno(eng, st, av[0])
        if n is not None and self.mode in ('write_hex', 'pub', 'sub') and eng.valid(st, Eq(n, 2)): return [(st, Ptr('HEX' if self.mode == 'write_hex' else 'ADDR', 0))]
        return [(st, Ptr('DUP', fresh('dup')))]
    def c_getopt(self, eng, st, av, args, ins):
        p = eng.pick(st, av[1]); ops = eng.cstring(st, eng.pick(st, av[2]))
        if p.r != 'argv' or not ops: raise Unsupported('getopt')
        base = simp(Z(p.o) / 8); ac = Z(toint(av[0]))
        skip = 1 if self.mode in ('write_hex', 'pub', 'sub') else 0
        self.O(st, 'the arguments before the options are skipped', And(Eq(base, 1 + skip), Eq(ac, self.argc - 1 - skip)))
        opi, opa = eng.glob(st, '@optind'), eng.glob(st, '@optarg')
        e = st.fork(); e.model = None
        k = fresh('optind'); st.model = None; st.add(z3.And(k >= 1, k <= ac)); eng.store(st, opi, I(32), k)
        a = fresh('optarg'); st.add(z3.And(a >= 0, a < 1 << 40)); eng.store(st, opa, PTR, Ptr('ARG', a))
        v = fresh('opt'); st.add(z3.Or(v == 63, *[v == ord(c) for c in ops if c.isalnum()]))
        k = fresh('operand'); e.add(z3.And(k >= 1, k <= ac)); eng.store(e, opi, I(32), k); e.w['op0'] = k; e.w['base'] = 1 + skip
        return [(e, NEG1), (st, v)]
    def c_atoi(self, eng, st, av, args, ins):
        v = fresh('atoi'); st.add(z3.And(v >= 0, v < 1 << 32)); return [(st, v)]
    def c_sscanf(self, eng, st, av, args, ins):
        z = st.fork(); z.model = None
        v = fresh('scan'); st.model = None; st.add(z3.And(v >= 0, v < 1 << 64)); eng.store(st, av[2], I(64), v)
        one = st.fork()
        if len(av) > 3: u = fresh('unit'); st.add(z3.And(u >= 0, u < 256)); eng.store(st, av[3], I(8), u)
        return [(z, 0), (one, 1)] + ([(st, 2)] if len(av) > 3 else [])
    c___isoc23_sscanf = c___isoc99_sscanf = c_sscanf
    def c_free(self, eng, st, av, args, ins): return [(st, None)]
    def c_munmap(self, eng, st, av, args, ins): return [(st, 0)]
    # ---- rings
    def operand(self, eng, st, k, n):
        return n is not None and st.w['op0'] is not None and Eq(n, simp(Z(st.w['base']) + st.w['op0'] + k))
    def c_shr_open(self, eng, st, av, args, ins):
        fl = simp(toint(av[1])); n = self.argno(eng, st, av[0])
        if not isc(fl): raise Unsupported('open flags')
        rd, wr, nb = fl >> 13 & 1, fl >> 14 & 1, fl >> 15 & 1
        k = next((k for k in range(3 if self.mode == 'tee' else 1) if eng.valid(st, zb(self.operand(eng, st, k, n)))), None)
        self.O(st, 'the rings opened are the operands, each once', k is not None and 'ring%d' % k not in st.w['opened'])
        if k is None: raise PathEnd()
        want = (1, 0) if self.mode in self.READ or self.mode == 'tee' and k == 0 else (0, 1)
        self.O(st, 'the source is opened for reading and a target for writing', (rd, wr) == want)
        if wr: self.O(st, 'a target waits for space and is written at once', nb == 0 and fl >> 16 & 1 == 0)
        nm = 'ring%d' % k; st.w['opened'] = st.w['opened'] + (nm,)
        f = fail(eng, st, NULL)
        st.mem[nm] = Reg(nm, 0, kind='opaque')
        return [(st, Ptr(nm, 0)), f]
    def c_shr_close(self, eng, st, av, args, ins): return [(st, None)]
    def c_shr_get_selectable_fd(self, eng, st, av, args, ins):
        self.O(st, 'the descriptor is the one of the source ring', eng.pick(st, av[0]).r == 'ring0')
        f = fail(eng, st, NEG1)
        return [(st, libc.newfd(eng, st, 'ring')), f]
    # ---- writehex
    def c_unhex(self, eng, st, av, args, ins):
        self.O(st, 'the hex argument is decoded, once', And(peq(eng.pick(st, av[0]), Ptr('HEX', 0)), st.w['uh'] is None))
        bad = st.fork(); bad.model = None; bad.w['uh'] = 0
        v = fresh('refused'); bad.add(z3.Or(v == 0, z3.And(v >= 1 << 31, v < 1 << 32)))
        n = fresh('bytes'); st.model = None; st.add(z3.And(n >= 1, n < 1 << 17)); st.w['uh'] = n
        return [(st, n), (bad, v)]
    def c_shr_write(self, eng, st, av, args, ins):
        u = st.w['uh']
        self.O(st, 'only decoded bytes are written', self.mode == 'write_hex' and u is not None and not (isc(u) and u == 0))
        if u is None: raise PathEnd()
        self.O(st, 'exactly the decoded bytes are written, once', And(eng.pick(st, av[0]).r == 'ring0', peq(eng.pick(st, av[1]), Ptr('HEX', 0)), Eq(toint(av[2]), u), st.w['wrote'] == 0))
        st.w['wrote'] = 1
        f = st.fork(); f.w['wbad'] = True; f.model = None
        v = fresh('err'); f.add(z3.And(v >= (1 << 64) - 4, v < 1 << 64))
        return [(st, u), (f, v)]
    # ---- sockets
    def sock(self, eng, st, f):
        self.O(st, 'sockets are set up in their mode', self.mode == {'listen_fd': 'pub', 'sub_fd': 'sub'}[f])
        self.O(st, 'the address is the one given', peq(eng.pick(st, self.get(eng, st, 'addr_spec')), Ptr('ADDR', 0)))
        e = st.fork(); e.model = None
        b, bv = fail(eng, st, NEG1)
        fd = libc.newfd(eng, st, f); self.put(st, f, fd)
        b2 = st.fork(); b2.w['sysfail'] = True
        return [(st, 0), (b, NEG1), (b2, NEG1)]
    def c_setup_listener(self, eng, st, av, args, ins): return self.sock(eng, st, 'listen_fd')
    def c_setup_subscriber(self, eng, st, av, args, ins): return self.sock(eng, st, 'sub_fd')
    # ---- signals and polling
    def ok(self, eng, st, av, args, ins): return [(st, 0)]
    c_sigfillset = c_sigemptyset = c_sigaddset = c_sigprocmask = c_alarm = ok
    def c_signalfd(self, eng, st, av, args, ins):
        f = fail(eng, st, NEG1); return [(st, libc.newfd(eng, st, 'signal')), f]
    def c_epoll_create(self, eng, st, av, args, ins):
        f = fail(eng, st, NEG1); return [(st, libc.newfd(eng, st, 'epoll')), f]
    c_epoll_create1 = c_epoll_create
    def kindof(self, eng, st, fd):
        e = libc.findfd(eng, st, simp(toint(fd))); return e[1] if e else None
    def c_epoll_ctl(self, eng, st, av, args, ins):
        op, k = simp(toint(av[1])), self.kindof(eng, st, av[2])
        self.O(st, 'the epoll set is the one of the tool', self.kindof(eng, st, av[0]) == 'epoll')
        self.O(st, 'a known descriptor is watched', k is not None)
        if op != 1 or k is None: raise Unsupported('epoll_ctl')
        p = eng.pick(st, av[3])
        ev, d = eng.load(st, p, I(32)), eng.load(st, Ptr(p.r, ladd(p.o, 4)), I(32))
        self.O(st, 'events name their descriptor', Eq(toint(d), toint(av[2])))
        if self.mode == 'pub' and k == 'ring': self.O(st, 'without a client the ring is not polled', Eq(toint(ev), 0))
        f = fail(eng, st, NEG1)
        st.w['watch'] = st.w['watch'] + (k,)
        return [(st, 0), f]
    def fdof(self, st, k): return next((e[0] for e in st.w['fds'] if e[1] == k), None)
    def c_epoll_wait(self, eng, st, av, args, ins):
        self.O(st, 'the epoll set is the one of the tool', self.kindof(eng, st, av[0]) == 'epoll')
        self.O(st, 'an error stops the tool', z3.Not(zb(st.w['stopped'])))
        self.O(st, 'what is ready is handled', st.w['ready'] is None)
        if not eng.valid(st, Eq(toint(av[2]), 1)): raise Unsupported('epoll_wait for several events')
        tmo = Z(simp(toint(av[3]))); neg = tmo >= 1 << 31
        self.O(st, 'only a reader stops waiting', Or(self.mode in ('read', 'read_hex'), neg))
        out = [fail(eng, st, NEG1)]
        t = st.fork(); t.model = None; t.add(z3.Not(neg))
        if eng.feasible(t): t.w['ready'] = 'none'; out.append((t, 0))
        p = eng.pick(st, av[1])
        for k in st.w['watch'] + (('client',) if self.mode == 'pub' else ()):
            s = st.fork(); s.model = None
            pub = self.get(eng, s, 'pub_fd')
            if k == 'client' or self.mode == 'pub' and k == 'ring': s.add(zb(Not(Eq(pub, NEG1))))
            if not eng.feasible(s): continue
            u = fresh('ev'); s.add(z3.And(u >= 0, u < 1 << 32))
            eng.store(s, p, I(32), u); eng.store(s, Ptr(p.r, ladd(p.o, 4)), I(32), pub if k == 'client' else self.fdof(s, k))
            s.w['ready'] = k; out.append((s, 1))
        return out
    def handler(self, eng, st, kinds):
        self.O(st, 'an error stops the tool', z3.Not(zb(st.w['stopped'])))
        self.O(st, 'what is ready is handled by its function', st.w['ready'] in kinds)
        st.w['ready'] = None
        b = st.fork(); b.w['stopped'] = z3.BoolVal(True); b.trace = b.trace + (('fail', 'handler', eng.curline(b)),)
        return b
    def pre(self, eng, st):
        """what the contracts of the handlers assume"""
        self.O(st, 'the ring is open', peq(eng.pick(st, self.get(eng, st, 'shr')), Ptr('ring0', 0)))
        self.O(st, 'the mode is the one asked for', Eq(self.get(eng, st, 'mode'), enumval(eng.m, 'mode_' + self.mode)))
        self.O(st, 'the buffer is the one reserved', peq(eng.pick(st, self.get(eng, st, 'buf')), Ptr(BUF, 0)))
    def havoc_int(self, eng, st, f, lo, hi):
        v = fresh('cfg_' + f); st.add(z3.And(v >= lo, v < hi)); self.put(st, f, v); return v
    def client(self, eng, st):
        """pub_fd after a handler: none, or a descriptor of its own"""
        v = fresh('pub_fd'); st.model = None
        st.add(z3.Or(v == NEG1, z3.And(v >= 3, v < 1 << 20, *[v != Z(e[0]) for e in st.w['fds']]))); self.put(st, 'pub_fd', v)
    def c_handle_io(self, eng, st, av, args, ins):
        b = self.handler(eng, st, ('ring', 'none') if self.mode in ('read', 'read_hex') else ('ring',))
        self.pre(eng, st)
        if self.mode == 'tee':
            for o, r in (('o1', 'ring1'), ('o2', 'ring2')): self.O(st, 'each target is open', peq(eng.pick(st, self.get(eng, st, o)), Ptr(r, 0)))
        if self.mode == 'pub':
            self.O(st, 'the prefix is sent or not', z3.Or(zb(Eq(self.get(eng, st, 'pub_len_prefix'), 0)), zb(Eq(self.get(eng, st, 'pub_len_prefix'), 1))))
            for s in (st, b): self.client(eng, s)
        for s in (st, b): s.model = None; self.havoc_int(eng, s, 'nread', 0, 1 << 62)
        return [(st, 0), (b, NEG1)]
    def c_do_subscriber(self, eng, st, av, args, ins):
        b = self.handler(eng, st, ('sub_fd',)); self.pre(eng, st)
        self.O(st, 'the batch is the one reserved', peq(eng.pick(st, self.get(eng, st, 'sub_iov')), Ptr(IOV, 0)))
        self.O(st, 'the buffer has room', Z(self.get(eng, st, 'sub_buf_used')) < eng.m.size(eng.m.globals[BUF][0]))
        for s in (st, b): s.model = None; self.havoc_int(eng, s, 'sub_buf_used', 0, eng.m.size(eng.m.globals[BUF][0]))
        return [(st, 0), (b, NEG1)]
    def c_handle_signal(self, eng, st, av, args, ins):
        b = self.handler(eng, st, ('signal',)); return [(st, 0), (b, NEG1)]
    def c_accept_client(self, eng, st, av, args, ins):
        b = self.handler(eng, st, ('listen_fd',)); self.pre(eng, st)
        for s in (st, b): self.client(eng, s)
        return [(st, 0), (b, NEG1)]
    def c_handle_client(self, eng, st, av, args, ins):
        b = self.handler(eng, st, ('client',)); self.pre(eng, st)
        for s in (st, b): self.client(eng, s)
        return [(st, 0), (b, NEG1)]
    def close(self, eng, st, fd): return [(st, 0)]
    # ---- invariants of the loops
    def cands(self, eng, st, mods):
        out = []
        ik, pk = self.allkeys(mods, eng, st)
        fds = [e[0] for e in st.w['fds']]
        for k in pk: out.append(('%s in a string' % (k,), lambda e, s, g, it, k=k: Z(g(k).o) < 1 << 41 if isinstance(g(k), Ptr) and g(k).r == 'ARG' else True))
        for k in ik:
            out += [('%s is 0 or 1' % (k,), lambda e, s, g, it, k=k: z3.Or(Z(toint(g(k))) == 0, Z(toint(g(k))) == 1)),
                    ('%s fits' % (k,), lambda e, s, g, it, k=k: Z(toint(g(k))) < 1000000),
                    ('%s own descriptor or none' % (k,), lambda e, s, g, it, k=k: z3.Or(Z(toint(g(k))) == NEG1, z3.And(Z(toint(g(k))) >= 0, Z(toint(g(k))) < 1 << 20, *[Z(toint(g(k))) != Z(f) for f in fds])))]
        out.append(('not stopped', lambda e, s, g, it: z3.Not(zb(s.w['stopped']))))
        return out
    def exact(self, eng, k, cands):
        return True     # the environment chooses (options, events, handlers' results); what must hold of them is in the invariants
    def at_end(self, eng, st, rv):
        st.model = None
        v = Z(simp(toint(rv))); W = st.w
        self.O(st, 'an error is reported by the exit status', z3.Or(z3.Not(zb(W['stopped'])), v % 256 != 0))
        self.O(st, 'what is ready is handled', W['ready'] is None)
        if self.mode == 'write_hex':
            done = bool(W['wrote'] == 1 and not W['wbad'])
            self.O(st, 'success means the decoded bytes were written', z3.Or(v % 256 != 0, z3.BoolVal(done)))
            self.O(st, 'a proper argument is written', z3.Or(zb(W['sysfail']), z3.BoolVal(W['uh'] is None or isc(W['uh']) and W['uh'] == 0 or W['wrote'] == 1)))
            self.O(st, 'refused only if the argument is improper or a call fails', z3.Or(v == 0, z3.BoolVal(not done)))
            self.O(st, 'the argument is decoded unless a call fails', z3.Or(z3.BoolVal(W['uh'] is not None), zb(W['sysfail'])))
