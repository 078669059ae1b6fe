"""Deductive engine: symbolic execution of one function against contracts,
loops cut by inferred inductive invariants, every obligation discharged by z3.

Integers are mathematical, kept canonical in [0,2^w) with explicit wrap-around.
Memory is split into typed regions; arrays are functional closures over
uninterpreted functions, so all queries stay quantifier free (quantified
invariants are instantiated at the terms that are read)."""
import time, itertools, sys
import z3
from ir import Unsupported, Module, I, PTR

class Fork(Exception):
    def __init__(self, c): self.c = c
class PathEnd(Exception):
    pass
class Budget(Exception):
    pass

_ctr = itertools.count()
def fresh(n='v'):
    return z3.Int('%s!%d' % (n, next(_ctr)))
def freshb(n='b'):
    return z3.Bool('%s!%d' % (n, next(_ctr)))
def isc(x):
    return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)
_SC = {}
def simp(e):
    if isinstance(e, (int, bool)): return e
    i = e.get_id()
    r = _SC.get(i)
    if r is not None: return r[1]
    v = z3.simplify(e)
    k = v.decl().kind() if z3.is_app(v) else None
    if k == z3.Z3_OP_ANUM: r = v.as_long()
    elif k == z3.Z3_OP_TRUE: r = True
    elif k == z3.Z3_OP_FALSE: r = False
    else:
        r = v; _SC[v.get_id()] = (v, v)
    _SC[i] = (e, r)
    return r
def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def And(*a):
    l = []
    for x in a:
        if x is False: return False
        if x is True: continue
        l.append(x)
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(*l)
def Or(*a):
    l = []
    for x in a:
        if x is True: return True
        if x is False: continue
        l.append(x)
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, (Ptr, CondPtr)) or isinstance(b, (Ptr, CondPtr)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return Ptr(a.r, If(c, a.o, b.o))
        return CondPtr(c, a, b)
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b: return a
        return c if a else Not(c)
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) or z3.is_bool(b):
        return z3.If(c, zb(a), zb(b))
    if isc(a) and isc(b) and a == b: return a
    return z3.If(c, z3.IntVal(a) if isc(a) else a, z3.IntVal(b) if isc(b) else b)
def Eq(a, b):
    if isinstance(a, (Ptr, CondPtr)) or isinstance(b, (Ptr, CondPtr)):
        return peq(a, b)
    if isc(a) and isc(b): return a == b
    if isc(b) and isinstance(b, bool): return a if b else Not(a)
    if isc(a) and isinstance(a, bool): return b if a else Not(b)
    return a == b
def same(a, b):
    """syntactic identity"""
    if a is b: return True
    if isc(a) or isc(b): return isc(a) and isc(b) and a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r == b.r and same(a.o, b.o)
    if isinstance(a, CondPtr) and isinstance(b, CondPtr): return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Bits) and isinstance(b, Bits): return a.w == b.w and all(same(x, y) for x, y in zip(a.b, b.b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return False

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r, self.o = r, o
    def __repr__(self): return '&%s+%s' % (self.r, self.o)
class CondPtr:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return '(%s?%s:%s)' % (self.c, self.a, self.b)
NULL = Ptr(None, 0)
class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()
def peq(a, b):
    if isinstance(a, CondPtr): return If(a.c, zb(peq(a.a, b)), zb(peq(a.b, b)))
    if isinstance(b, CondPtr): return peq(b, a)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        x, y = (a, b) if isinstance(a, Ptr) else (b, a)
        if isc(y) and y == 0: return peq(x, NULL)
        return False
    if a.r != b.r: return False
    return Eq(a.o, b.o)

class Bits:
    """bit-vector as a list of booleans (flag words)"""
    __slots__ = ('w', 'b')
    def __init__(self, w, b): self.w, self.b = w, list(b)
    @staticmethod
    def const(w, v): return Bits(w, [bool(v >> i & 1) for i in range(w)])
    def int(self):
        k = 0; t = []
        for i, x in enumerate(self.b):
            if x is True: k += 1 << i
            elif x is not False: t.append(z3.If(x, z3.IntVal(1 << i), z3.IntVal(0)))
        if not t: return k
        return z3.Sum(t + ([z3.IntVal(k)] if k else []))
def toint(v):
    if isinstance(v, Bits): return v.int()
    if isinstance(v, bool): return int(v)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

_LC, _OC, _keep = {}, {}, []
def _atom(x):
    i = x.get_id()
    return {i: (1, x)}, 0
def lin(e):
    """linear form: ({id: (coef, atom)}, const); cached per AST"""
    if isc(e): return {}, e
    i = e.get_id()
    r = _LC.get(i)
    if r is not None: return r[1]
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM: r = ({}, e.as_long())
    elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB or k == z3.Z3_OP_UMINUS:
        d, c = {}, 0
        for n, ch in enumerate(e.children()):
            sg = -1 if (k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and n)) else 1
            d2, c2 = lin(ch); c += sg * c2
            for j, (q, x) in d2.items():
                v = (d[j][0] if j in d else 0) + sg * q
                if v: d[j] = (v, x)
                else: d.pop(j, None)
        r = (d, c)
    elif k == z3.Z3_OP_MUL and e.num_args() == 2:
        x, y = e.arg(0), e.arg(1)
        if z3.is_int_value(y): x, y = y, x
        if z3.is_int_value(x):
            q = x.as_long(); d2, c2 = lin(y)
            r = ({j: (q * w, z) for j, (w, z) in d2.items()} if q else {}, q * c2)
        else: r = _atom(e)
    else: r = _atom(e)
    _LC[i] = (e, r)
    return r
def unlin(d, k):
    t = []
    for i in sorted(d):
        c, x = d[i]
        t.append(x if c == 1 else z3.IntVal(c) * x)
    if not t: return k
    if k: t.append(z3.IntVal(k))
    r = t[0] if len(t) == 1 else z3.Sum(t)
    i = r.get_id()
    if i not in _LC: _LC[i] = (r, (d, k))
    return r
def _key(x): return ('c', x) if isc(x) else x.get_id()
def lcomb(a, b, m):
    """a + m*b"""
    if isc(a) and isc(b): return a + m * b
    ck = (_key(a), _key(b), m)
    r = _OC.get(ck)
    if r is not None: return r[0]
    d1, k1 = lin(a); d2, k2 = lin(b)
    d1 = dict(d1)
    for i, (c, x) in d2.items():
        v = (d1[i][0] if i in d1 else 0) + m * c
        if v: d1[i] = (v, x)
        else: d1.pop(i, None)
    r = unlin(d1, k1 + m * k2)
    _OC[ck] = (r, a, b)
    return r
def ladd(a, b): return lcomb(a, b, 1)
def lmul(a, n):
    if isc(a): return a * n
    return lcomb(0, a, n) if n else 0
def lsub(a, b): return lcomb(a, b, -1)

# ---------------------------------------------------------------- memory
class Part:
    """array part of a region: `count` records of `stride` bytes from `base`.
    fields: {foff: (size, kind)}, kind int|ptr|bytes; val: {foff: closure}"""
    __slots__ = ('name', 'base', 'stride', 'count', 'fields', 'val')
    def __init__(self, name, base, stride, count, fields, val):
        self.name, self.base, self.stride, self.count, self.fields, self.val = name, base, stride, count, fields, val
    def with_(self, foff, f):
        v = dict(self.val); v[foff] = f
        return Part(self.name, self.base, self.stride, self.count, self.fields, v)

class Reg:
    __slots__ = ('name', 'size', 'cells', 'fills', 'parts', 'default', 'alive', 'kind', 'attr', 'ro')
    def __init__(self, name, size, default='undef', kind='mem', ro=False):
        self.name, self.size, self.default, self.kind, self.ro = name, size, default, kind, ro
        self.cells, self.fills, self.parts, self.alive, self.attr = {}, [], [], True, {}
    def copy(self):
        r = Reg(self.name, self.size, self.default, self.kind, self.ro)
        r.cells = dict(self.cells); r.fills = list(self.fills); r.parts = list(self.parts)
        r.alive = self.alive; r.attr = dict(self.attr)
        return r

class Frame:
    __slots__ = ('f', 'blk', 'ip', 'prev', 'regs', 'dst', 'va', 'allocas', 'unroll', 'nargs')
    def copy(self):
        n = Frame()
        for k in Frame.__slots__: setattr(n, k, getattr(self, k))
        n.regs = dict(self.regs); n.allocas = list(self.allocas); n.unroll = dict(self.unroll)
        return n

class State:
    def __init__(self):
        self.pc, self.frames, self.mem, self.w, self.model, self.trace = [], [], {}, {}, None, ()
        self.touched = {}; self.approx = False
    def fork(self):
        s = State()
        s.pc = list(self.pc); s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.w = dict(self.w); s.model = self.model; s.trace = self.trace
        s.touched = dict(self.touched); s.approx = self.approx
        return s
    def reg(self, r):
        return self.mem[r]
    def wreg(self, r):
        n = self.mem[r].copy(); self.mem[r] = n
        return n
    def add(self, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        self.pc.append(f)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(f, model_completion=True)): self.model = None
            except z3.Z3Exception:
                self.model = None
    @property
    def fr(self): return self.frames[-1]

class Fn:
    """uninterpreted spec function with instantiation hook.
    hook(st, args) is called once per distinct argument tuple and path."""
    def __init__(self, name, arity=1, hook=None, pair=None, rng=None):
        self.name = name
        self.f = z3.Function(name + '!%d' % next(_ctr), *([z3.IntSort()] * (arity + 1)))
        self.hook, self.pair, self.rng = hook, pair, rng
        self.key = self.f.name()
    def __call__(self, st, *a):
        a = tuple(simp(x) for x in a)
        k = (self.key,) + tuple(x if isc(x) else x.get_id() for x in a)
        t = self.f(*[z3.IntVal(x) if isc(x) else x for x in a])
        if k not in st.touched:
            st.touched[k] = (a, t)
            if self.rng: st.add(z3.And(t >= self.rng[0], t < self.rng[1]))
            if self.pair:
                lk = ('L', self.key)
                old = st.touched.get(lk, ())
                st.touched[lk] = old + ((a, t),)
                for (b, u) in old:
                    st.add(zb(self.pair(b, u, a, t)))
            if self.hook: self.hook(st, a, t)
        return t

class Oblig:
    __slots__ = ('tags', 'name', 'fn', 'line', 'ok', 'why', 'model', 'secs', 'trace', 'goal', 'pc', 'backend', 'approx')

# ---------------------------------------------------------------- engine
class Engine:
    def __init__(self, mod, spec, budget=600):
        self.m, self.spec = mod, spec
        self.sv = z3.SolverFor('QF_UFLIA') if 0 else z3.Solver()
        self.sv.set('timeout', 4000)
        self.sv.set('random_seed', 1)
        self.stk = []          # list of [facts...] chunks, flattened
        self.lv = []           # (length) per push level
        self.nq = 0; self.tq = 0.0; self.nob = 0
        self.sinks = [[]]
        self.loops = {}; self.live = {}
        self.nounroll = set()
        self.t0 = time.time(); self.budget = budget
        self.gl = {}
        self.noted = set()
        self.paths = 0
        self.quiet = 0         # >0: speculative
        self.invs = []
        self.debug = False
        self.undecided = []
        self.only = None; self.nskip = 0; self.approx = set(); self.fnseen = set(); self.contracts_used = set(); self.quietlog = False

    # ---- solver
    def sync(self, st):
        pc = st.pc
        n = 0
        m = min(len(pc), len(self.stk))
        while n < m and pc[n] is self.stk[n]: n += 1
        while self.lv and self.lv[-1] + 0 > n or (self.lv and len(self.stk) > n):
            k = self.lv.pop(); self.sv.pop(); del self.stk[k:]
            if len(self.stk) <= n: break
        n = len(self.stk)
        if n < len(pc):
            self.lv.append(n); self.sv.push()
            new = pc[n:]
            self.sv.add(*[zb(f) for f in new]); self.stk += new
    def check(self, st, *extra, to=4000):
        if time.time() - self.t0 > self.budget: raise Budget()
        t = time.time()
        self.sync(st)
        self.sv.set('timeout', to)
        r = self.sv.check(*[zb(e) for e in extra])
        self.nq += 1
        dt = time.time() - t; self.tq += dt
        if self.debug and dt > 1: print('   slow query %.1fs %s %s' % (dt, r, str(extra)[:200]), file=sys.stderr)
        return r
    def inmodel(self, st, f):
        """True/False/None: value of f in the cached model of st"""
        if st.model is None: return None
        try:
            v = st.model.eval(zb(f), model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None
    def feasible(self, st, f=True):
        f = simp(f)
        if f is False: return False
        if self.inmodel(st, f): return True
        r = self.check(st, f)
        if r == z3.sat:
            m = self.sv.model()
            if f is True or st.model is None: st.model = m if f is True else st.model
            self._m = m
            return True
        self._m = None
        return r != z3.unsat
    def valid(self, st, f, to=4000):
        f = simp(f)
        if f is True: return True
        if f is False:
            return not self.feasible(st)
        if self.inmodel(st, f) is False: return False
        r = self.check(st, z3.Not(f), to=to)
        if r == z3.sat and st.model is None: st.model = self.sv.model()
        return r == z3.unsat
    def decide(self, st, f):
        """True / False / None under pc"""
        f = simp(f)
        if isinstance(f, bool): return f
        m = self.inmodel(st, f)
        if m is not False and self.valid(st, f): return True
        if m is not True and self.valid(st, z3.Not(f)): return False
        return None
    def need(self, st, f):
        """decide f or fork the path on it"""
        d = self.decide(st, f)
        if d is None: raise Fork(f)
        return d

    # ---- obligations
    def oblige(self, st, tags, name, f, line=None):
        f = simp(f)
        if 'P15' in tags and self.spec.memtags: tags = tuple(tags) + self.spec.memtags
        if self.only is not None and len(self.sinks) == 1 and f is not True and f is not False and self.only not in (tags if isinstance(tags, tuple) else (tags,)):
            self.nskip += 1
            return True
        o = Oblig(); o.tags = tags if isinstance(tags, tuple) else (tags,)
        o.name = name; o.line = self.curline(st) if line is None else line
        o.fn = st.frames[-1].f.name if st.frames else self.spec.fn
        o.approx = st.approx
        o.why = ''; o.model = None; o.trace = st.trace; o.goal = o.pc = None; o.backend = 'z3'
        t = time.time()
        if f is True:
            o.ok = True; o.backend = 'simplifier'
        else:
            if self.inmodel(st, f) is False:
                r = self.check(st, z3.Not(zb(f)), to=4000)
                r = z3.sat if r != z3.unsat else r
            else:
                r = self.check(st, z3.Not(zb(f)), to=20000)
            if r == z3.unknown:
                r = self.second(st, f)
            o.ok = r == z3.unsat
            if not o.ok:
                o.why = 'counterexample' if r == z3.sat else 'unknown'
                if r == z3.sat:
                    try: o.model = self.sv.model()
                    except z3.Z3Exception: o.model = None
            o.goal = f; o.pc = list(st.pc) if (self.spec.keep or not o.ok) else None
        o.secs = time.time() - t
        self.sinks[-1].append(o)
        if not o.ok:
            st.add(zb(f))
            if self.debug and len(self.sinks) == 1 and not self.quietlog:
                print('   FAIL', o.tags, o.name, o.fn, o.line, o.why, file=sys.stderr)
        return o.ok
    def second(self, st, f):
        s = z3.SimpleSolver(); s.set('timeout', 15000); s.set('random_seed', 7)
        s.add(*[zb(x) for x in st.pc]); s.add(z3.Not(zb(f)))
        return s.check()
    def curline(self, st):
        for fr in reversed(st.frames):
            b = fr.f.blocks.get(fr.blk, [])
            if fr.ip < len(b):
                return self.m.line(b[fr.ip])
        return 0
    def fail(self, st, tags, name):
        self.oblige(st, tags, name, False)

    # ---- arithmetic
    def wrap(self, st, e, w, lo_ok=False):
        """bring an exact integer result into [0,2^w)"""
        e = simp(e)
        M = 1 << w
        if isc(e): return e % M
        inm = st.model
        if self.valid(st, z3.And(e >= 0, e < M)): return e
        if self.valid(st, z3.And(e >= -M, e < 2 * M)):
            r = z3.If(e < 0, e + M, z3.If(e >= M, e - M, e))
            if self.valid(st, e < M): r = z3.If(e < 0, e + M, e)
            elif self.valid(st, e >= 0): r = z3.If(e >= M, e - M, e)
            return r
        return e % M
    def signed(self, st, e, w):
        if isinstance(e, Bits): e = e.int()
        if isc(e): return e - (1 << w) if e >= 1 << (w - 1) else e
        if self.valid(st, e < (1 << (w - 1))): return e
        return z3.If(e < (1 << (w - 1)), e, e - (1 << w))
    def unsigned(self, e, w):
        if isc(e): return e % (1 << w)
        return simp(z3.If(e < 0, e + (1 << w), e))
    def arith(self, st, op, w, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, ('P15',), 'use of uninitialised value'); return fresh()
        if op in ('and', 'or', 'xor', 'shl', 'lshr'):
            return self.bitop(st, op, w, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r != b.r: self.fail(st, ('P15',), 'subtraction of unrelated pointers'); return fresh()
                return self.wrap(st, lsub(a.o, b.o), w)
            raise Unsupported('pointer arithmetic ' + op)
        a, b = toint(a), toint(b)
        if isc(a) and isc(b):
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.fail(st, ('P15',), 'division by zero'); raise PathEnd()
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            q = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: a // b,
                 'urem': lambda: a % b, 'sdiv': lambda: q(sa, sb), 'srem': lambda: sa - sb * q(sa, sb),
                 'ashr': lambda: sa >> b}[op]()
            return r % (1 << w)
        if op == 'add': return self.wrapadd(st, a, b, w)
        if op == 'sub': return self.wrap(st, lsub(a, b), w)
        if op == 'mul':
            if isc(a): a, b = b, a
            if not isc(b): raise Unsupported('nonlinear multiplication')
            if b >= 1 << (w - 1):
                b -= 1 << w
                return self.wrap(st, lmul(self.signed(st, a, w), b), w)
            return self.wrap(st, lmul(a, b), w)
        if op == 'ashr':
            if isc(b): return self.unsigned(self.signed(st, a, w) / z3.IntVal(1 << b), w)
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(st, a, w), self.signed(st, b, w)
            if isc(sb) and sb > 0 and (isc(sa) or self.valid(st, sa >= 0)):
                return simp(sa / sb if op == 'sdiv' else sa % sb)
            if isc(sb) and sb > 0:
                q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                return self.unsigned(q if op == 'sdiv' else sa - sb * q, w)
            raise Unsupported(op)
        if op in ('udiv', 'urem'):
            if isc(b):
                if b == 0: self.fail(st, ('P15',), 'division by zero'); raise PathEnd()
                return simp(a / z3.IntVal(b) if op == 'udiv' else a % z3.IntVal(b))
            self.oblige(st, ('P15',), 'divisor is not zero', b > 0)
            if op == 'udiv': raise Unsupported('udiv by variable')
            r = self.spec.urem(self, st, a, b)
            if r is not None: return r
            if self.valid(st, a < b): return a
            if self.valid(st, a < 2 * b): return simp(z3.If(a < b, a, a - b))
            r = fresh('rem'); st.add(z3.And(r >= 0, r < b, r <= a))
            return r
        raise Unsupported(op)
    def wrapadd(self, st, a, b, w):
        # adding a canonical "negative" constant is a subtraction
        M = 1 << w
        if isc(b) and b >= M // 2: return self.wrap(st, ladd(a, b - M), w)
        if isc(a) and a >= M // 2: return self.wrap(st, ladd(b, a - M), w)
        return self.wrap(st, ladd(a, b), w)
    def tobits(self, st, v, w):
        if isinstance(v, Bits): return v
        v = toint(v)
        if isc(v): return Bits.const(w, v)
        k = ('bits', v.get_id(), w)
        if k in st.touched: return st.touched[k][1]
        bs = [freshb('bit') for _ in range(w)]
        r = Bits(w, bs)
        st.add(v == r.int())
        st.touched[k] = (v, r)
        return r
    def bitop(self, st, op, w, a, b):
        if isinstance(a, (z3.BoolRef, bool)) and w == 1:
            b = bool(b) if isc(b) else b
            return {'and': And, 'or': Or}[op](a, b) if op != 'xor' else Not(a) if b is True else (a if b is False else z3.Xor(zb(a), zb(b)))
        if isc(a) and isc(b):
            a, b = int(a), int(b)
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << b, 'lshr': a >> b}[op] % (1 << w)
        if op in ('shl', 'lshr'):
            if not isc(b): raise Unsupported('variable shift')
            if isinstance(a, Bits):
                z = [False] * b
                return Bits(w, (z + a.b)[:w] if op == 'shl' else (a.b + z)[b:b + w])
            a = toint(a)
            return self.wrap(st, lmul(a, 1 << b), w) if op == 'shl' else simp(a / z3.IntVal(1 << b))
        if op == 'and' and isc(b) and not isinstance(a, Bits) and 16 <= w <= 64 and b:
            c = (1 << w) - 1 - b
            if c and (c & (c + 1)) == 0:
                x = toint(a); return simp(x - x % z3.IntVal(c + 1))
        if op == 'and' and isc(b) and not isinstance(a, Bits) and (b & (b + 1)) == 0:
            return simp(toint(a) % z3.IntVal(b + 1))
        if op == 'xor':
            for u, v in ((a, b), (b, a)):
                if isc(v) and int(v) == (1 << w) - 1 and not isinstance(u, Bits): return simp(((1 << w) - 1) - toint(u))
        x, y = self.tobits(st, a, w), self.tobits(st, b, w)
        f = {'and': And, 'or': Or, 'xor': lambda p, q: simp(z3.Xor(zb(p), zb(q)))}[op]
        return Bits(w, [simp(f(p, q)) for p, q in zip(x.b, y.b)])
    def icmp(self, st, c, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            self.fail(st, ('P15',), 'branch on uninitialised value'); return freshb()
        if t.k == 'p' or isinstance(a, (Ptr, CondPtr)) or isinstance(b, (Ptr, CondPtr)):
            if c == 'eq': return simp(peq(a, b))
            if c == 'ne': return simp(Not(peq(a, b)))
            a, b = self.pick(st, a), self.pick(st, b)
            if a.r != b.r:
                self.fail(st, ('P15',), 'comparison of unrelated pointers'); return freshb()
            x, y = a.o, b.o
            c = c[1:] if c[0] in 'us' else c
        else:
            w = t.w
            if isinstance(a, Bits) or isinstance(b, Bits):
                if c in ('eq', 'ne') and (isinstance(a, Bits) or isc(a)) and (isinstance(b, Bits) or isc(b)):
                    p, q = self.tobits(st, a, w), self.tobits(st, b, w)
                    e = And(*[simp(Eq(x, y)) for x, y in zip(p.b, q.b)])
                    return simp(e if c == 'eq' else Not(e))
                if isinstance(a, Bits) and isc(b) and c in ('uge', 'ult') and b and b & (b - 1) == 0:
                    e = Or(*a.b[b.bit_length() - 1:])
                    return simp(e if c == 'uge' else Not(e))
                if isinstance(a, Bits) and isc(b) and c in ('ugt', 'ule') and (b + 1) & b == 0:
                    e = Or(*a.b[b.bit_length():])
                    return simp(e if c == 'ugt' else Not(e))
            a, b = toint(a), toint(b)
            if c[0] == 's':
                if isc(b) and not isc(a) and b < (1 << (w-1)) and c in ('slt', 'sge') and b == 0:
                    e = a >= (1 << (w - 1))
                    return simp(e if c == 'slt' else z3.Not(e))
                x, y = self.signed(st, a, w), self.signed(st, b, w)
            else:
                x, y = a, b
            c = c[1:] if c[0] in 'us' else c
        if c == 'eq': return simp(Eq(x, y))
        if c == 'ne': return simp(Not(Eq(x, y)))
        if isc(x) and isc(y):
            return {'t': {'gt': x > y, 'lt': x < y, 'ge': x >= y, 'le': x <= y}[c]}['t']
        return simp({'gt': lambda: x > y, 'lt': lambda: x < y, 'ge': lambda: x >= y, 'le': lambda: x <= y}[c]())

    # ---- pointers and memory
    def pick(self, st, p):
        while isinstance(p, CondPtr):
            p = p.a if self.need(st, p.c) else p.b
        if isc(p): p = NULL if p == 0 else Ptr('INT', p)
        return p
    def newreg(self, st, name, size, default='undef', ty=None, kind='mem', ro=False):
        n = name
        if n in st.mem:
            n = '%s.%d' % (name, next(_ctr))
        r = Reg(n, size, default, kind, ro)
        if ty is not None: self.layout(r, ty, 0)
        st.mem[n] = r
        return n
    def layout(self, r, ty, base, name=''):
        t = self.m.res(ty)
        if t.k == 's':
            for i, e in enumerate(t.el): self.layout(r, e, base + self.m.foff(t, i))
        elif t.k == 'a' and t.n > 1 and not (t.el.k in 'ip' and t.n <= 4 and self.m.size(t.el) > 1):
            el = self.m.res(t.el); fl = {}
            if el.k in 'ip':
                fl[0] = (self.m.size(el), 'ptr' if el.k == 'p' else 'int')
            elif el.k == 's':
                for i, e in enumerate(el.el):
                    e2 = self.m.res(e)
                    if e2.k in 'ip': fl[self.m.foff(el, i)] = (self.m.size(e2), 'ptr' if e2.k == 'p' else 'int')
                    elif e2.k == 'a' and self.m.res(e2.el).k == 'i' and e2.el.w == 8: fl[self.m.foff(el, i)] = (e2.n, 'bytes')
                    elif e2.k == 's':
                        for j, e3 in enumerate(e2.el):
                            e4 = self.m.res(e3)
                            if e4.k in 'ip': fl[self.m.foff(el, i) + self.m.foff(e2, j)] = (self.m.size(e4), 'ptr' if e4.k == 'p' else 'int')
                            else: return
                    else: return
            elif el.k == 'a' and self.m.res(el.el).k == 'i' and el.el.w == 8: fl[0] = (el.n, 'bytes')
            else: return
            self.addpart(r, name or 'arr%d' % base, base, self.m.size(el), t.n, fl)
    def addpart(self, r, name, base, stride, count, fields, val=None):
        v = {}
        for fo, (sz, kind) in fields.items():
            if val and fo in val: v[fo] = val[fo]
            elif r.default == 'zero':
                v[fo] = (lambda st, i: NULL) if kind == 'ptr' else (lambda st, i, *j: 0)
            elif r.default == 'sym' and kind != 'ptr':
                fn = Fn(name + '_%s' % fo, 2 if kind == 'bytes' else 1, rng=(0, 256 if kind == 'bytes' else 1 << (8 * sz)))
                v[fo] = (lambda fn: lambda st, *i: fn(st, *i))(fn)
            else:
                v[fo] = (lambda st, *i: UNDEF)
        r.parts.append(Part(name, base, stride, count, fields, v))
    def resolve(self, st, p, size, what, write=False):
        """-> (reg, None, off) for a cell or (reg, (part index, idx, foff, rest), None)"""
        p = self.pick(st, p)
        if p.r is None or p.r == 'INT':
            self.fail(st, ('P15',), '%s through null or invalid pointer' % what); raise PathEnd()
        r = st.mem.get(p.r)
        if r is None or r.kind == 'opaque':
            self.fail(st, ('P15',), '%s of an object that is not accessible' % what); raise PathEnd()
        if not r.alive:
            self.fail(st, ('P15',), '%s after free/unmap (%s)' % (what, r.name)); raise PathEnd()
        if write and r.ro:
            self.fail(st, ('P15',), 'write to read-only object ' + r.name); raise PathEnd()
        o = simp(p.o)
        best = None; odd = []
        for pi in range(len(r.parts) - 1, -1, -1):
            q = r.parts[pi]
            rel = lsub(o, q.base) if not (isc(o) and isc(q.base)) else o - q.base
            if isc(rel):
                if rel < 0: continue
                if isc(q.count):
                    if rel >= q.stride * q.count: continue
                idx, fo = rel // q.stride, rel % q.stride
            else:
                if isc(o) and not isc(q.base): continue
                d, k = lin(rel)
                fo = k % q.stride
                if any(c % q.stride for c, _ in d.values()): odd.append((pi, q, rel)); continue
                idx = unlin({i: (c // q.stride, x) for i, (c, x) in d.items()}, (k - fo) // q.stride)
            hit = None
            for f0, (sz, kind) in q.fields.items():
                if kind == 'bytes':
                    if f0 <= fo < f0 + sz: hit = (f0, fo - f0)
                elif fo == f0 and (size is None or size <= sz or q.stride == 1): hit = (f0, 0)
                elif f0 < fo < f0 + sz: hit = (f0, fo - f0)
            if hit is None: continue
            n = 0 if (size is None or size <= q.stride) else (size + q.stride - 1) // q.stride - 1
            inb = And(idx >= 0 if not isc(idx) else idx >= 0, ladd(idx, n) < q.count if not (isc(idx) and isc(q.count)) else idx + n < q.count)
            cand = (pi, idx, hit[0], hit[1], inb)
            if inb is True or self.valid(st, inb):
                return r, cand, None
            if best is None: best = cand
        for pi, q, rel in odd:
            # an offset that is a multiple of the element size only by what is known about it
            for f0, (sz, kind) in q.fields.items():
                if kind == 'bytes' or size is not None and size > sz: continue
                k = ('odd', r.name, pi, f0, rel.get_id())
                if k in st.touched: idx = st.touched[k][1]
                else:
                    if not self.valid(st, (rel - f0) % q.stride == 0): continue
                    idx = fresh('idx'); st.add(rel == q.stride * idx + f0); st.touched[k] = (rel, idx)
                inb = simp(And(idx >= 0, zb(idx < q.count)))
                cand = (pi, idx, f0, 0, inb)
                if inb is True or self.valid(st, inb): return r, cand, None
                if best is None: best = cand
                break
        if isc(o):
            sz = r.size
            if size is not None:
                ok = And(o >= 0, o + size <= sz if isc(sz) else ladd(sz, -(o + size)) >= 0)
                if ok is True or self.valid(st, ok): return r, None, o
        else:
            # variable index into a small constant-size object: split on the possible offsets
            if isc(r.size) and r.size <= 64 and best is None and size:
                for k in range(0, r.size - size + 1, size):
                    if self.feasible(st, o == k):
                        if self.need(st, o == k): return r, None, k
        if best is not None and self.quiet == 0 or best is not None:
            self.oblige(st, ('P15',), '%s stays inside %s' % (what, r.parts[best[0]].name), best[4])
            if not self.feasible(st): raise PathEnd()
            return r, best, None
        self.fail(st, ('P15',), '%s stays inside %s' % (what, r.name)); raise PathEnd()

    def load(self, st, p, ty):
        size = self.m.size(ty)
        p = self.pick(st, p)
        self.spec.on_access(self, st, p, size, False)
        r, part, off = self.resolve(st, p, size, 'load')
        if part:
            pi, idx, fo, rest, _ = part
            q = r.parts[pi]; sz, kind = q.fields[fo]
            if kind == 'bytes':
                bs = [q.val[fo](st, idx, rest + i) for i in range(size)]
                return self.glue(st, bs)
            if rest or sz != size:
                if q.stride == 1 and sz == 1:
                    return self.glue(st, [q.val[fo](st, ladd(idx, i)) for i in range(size)])
                raise Unsupported('partial field load')
            v = q.val[fo](st, idx)
            if ty.k == 'p' and isc(v): v = NULL if v == 0 else Ptr('INT', v)
            if ty.k == 'i' and isinstance(v, (Ptr, CondPtr)): raise Unsupported('pointer loaded as integer')
            return self.unpick(v)
        v = self.cell(st, r, off, size)
        if v is None:
            v = self.defcell(st, r, off, size, ty)
        if ty.k == 'p' and isc(v): v = NULL if v == 0 else Ptr('INT', v)
        return v
    def unpick(self, v): return v
    def glue(self, st, bs):
        if any(isinstance(b, Undef) for b in bs): return UNDEF
        if len(bs) == 1: return bs[0]
        t = 0
        for i, b in enumerate(bs): t = ladd(t, lmul(toint(b), 1 << (8 * i)))
        return t
    def cell(self, st, r, off, size):
        c = r.cells.get(off)
        if c and c[0] == size: return c[1]
        for o, (s, v) in r.cells.items():
            if o < off + size and off < o + s:
                # sub-access of a cell
                if o <= off and off + size <= o + s and not isinstance(v, (Ptr, CondPtr, Undef)):
                    v = toint(v); k = off - o
                    if isc(v): return (v >> (8 * k)) % (1 << (8 * size))
                    return simp((v / z3.IntVal(1 << (8 * k))) % z3.IntVal(1 << (8 * size)))
                # several cells
                bs = []
                for j in range(size):
                    b = self.cell(st, r, off + j, 1) if size > 1 else None
                    if b is None: b = self.defcell(st, r, off + j, 1, I(8))
                    bs.append(b)
                return self.glue(st, bs)
        for lo, hi, v in r.fills:
            if lo <= off and off + size <= hi:
                if isinstance(v, Undef): return UNDEF
                if isc(v): return sum(v << (8 * i) for i in range(size))
                return self.glue(st, [v] * size)
            if lo < off + size and off < hi: raise Unsupported('load across a memset boundary')
        return None
    def defcell(self, st, r, off, size, ty):
        if r.default == 'zero': return NULL if ty.k == 'p' else 0
        if r.default == 'sym':
            if ty.k == 'p': v = Ptr('INT', fresh('ip'))
            else:
                v = fresh('%s_%d' % (r.name, off)); st.add(z3.And(v >= 0, v < (1 << (8 * size))))
            st.wreg(r.name).cells[off] = (size, v)
            return v
        return UNDEF
    def store(self, st, p, ty, v):
        size = self.m.size(ty)
        p = self.pick(st, p)
        self.spec.on_access(self, st, p, size, True)
        if isinstance(v, bool): v = int(v)
        r, part, off = self.resolve(st, p, size, 'store', True)
        self.spec.on_store(self, st, r, part, off, size, v)
        w = st.wreg(r.name)
        if part:
            pi, idx, fo, rest, _ = part
            q = w.parts[pi]; sz, kind = q.fields[fo]
            old = q.val[fo]
            if kind == 'bytes':
                w.parts[pi] = q.with_(fo, self.bupd2(old, idx, rest, size, v))
            elif q.stride == 1 and sz == 1 and size > 1:
                bs = [self.byteof(v, i) for i in range(size)]
                def f(st, i, old=old, idx=idx, bs=bs):
                    x = old(st, i)
                    for k, b in enumerate(bs): x = self.ite(st, Eq(i, ladd(idx, k)), b, x)
                    return x
                w.parts[pi] = q.with_(fo, f)
            else:
                if rest or sz != size: raise Unsupported('partial field store')
                w.parts[pi] = q.with_(fo, lambda st, i: self.upd(st, i, idx, v, old))
        else:
            self.setcell(w, off, size, v)
        self.spec.after_store(self, st, r.name, part, off, size, v)
    def upd(self, st, i, idx, v, old):
        c = simp(Eq(i, idx))
        if c is True: return v
        if c is False: return old(st, i)
        d = self.decide(st, c) if isinstance(v, (Ptr, CondPtr, Undef)) else None
        if d is True: return v
        if d is False: return old(st, i)
        return self.ite(st, c, v, old(st, i))
    def ite(self, st, c, a, b):
        c = simp(c)
        if c is True: return a
        if c is False: return b
        if isinstance(a, Undef) or isinstance(b, Undef):
            d = self.decide(st, c)
            if d is True: return a
            if d is False: return b
            raise Fork(c)
        if isinstance(a, Bits): a = a.int()
        if isinstance(b, Bits): b = b.int()
        return If(c, a, b)
    def byteof(self, v, i):
        if isinstance(v, Undef): return v
        v = toint(v)
        if isc(v): return (v >> (8 * i)) & 255
        return simp((v / z3.IntVal(1 << (8 * i))) % z3.IntVal(256)) if i else simp(v % z3.IntVal(256))
    def bupd2(self, old, idx, rest, size, v):
        bs = [v] if size == 1 else [self.byteof(v, i) for i in range(size)]
        def f(st, i, j):
            x = old(st, i, j)
            for k, b in enumerate(bs):
                x = self.ite(st, And(Eq(i, idx), Eq(j, rest + k)), b, x)
            return x
        return f
    def setcell(self, w, off, size, v):
        for o, (s, ov) in list(w.cells.items()):
            if o < off + size and off < o + s and not (o == off and s == size):
                if off <= o and o + s <= off + size: del w.cells[o]
                elif isinstance(ov, (Ptr, CondPtr)): raise Unsupported('partial overwrite of a pointer')
                else:
                    # split the old cell in bytes
                    del w.cells[o]
                    for k in range(s):
                        if not (off <= o + k < off + size): w.cells[o + k] = (1, self.byteof(ov, k))
        w.cells[off] = (size, v)

    # byte ranges --------------------------------------------------------
    def byterange(self, st, p, n, what, write=False):
        """resolve a byte range -> (reg, pi, idx, foff, rest) for byte parts, or (reg, None, off)"""
        p = self.pick(st, p)
        self.spec.on_access(self, st, p, n, write)
        if p.r is None or p.r == 'INT' or p.r not in st.mem or st.mem[p.r].kind == 'opaque':
            self.fail(st, ('P15',), what + ' through null or invalid pointer'); raise PathEnd()
        r = st.mem[p.r]
        if not r.alive:
            self.fail(st, ('P15',), what + ' after free/unmap'); raise PathEnd()
        if write and r.ro:
            self.fail(st, ('P15',), 'write to read-only object'); raise PathEnd()
        o = simp(p.o); best = None
        for pi in range(len(r.parts) - 1, -1, -1):
            q = r.parts[pi]
            rel = lsub(o, q.base)
            for f0, (sz, kind) in q.fields.items():
                if kind == 'int' and sz == 1 and q.stride == 1:
                    if isc(rel) and (rel < 0): continue
                    inb = simp(And(Eq(rel, rel) if 0 else zb(rel >= 0) if not isc(rel) else rel >= 0, zb(ladd(rel, n) <= q.count) if not (isc(rel) and isc(n) and isc(q.count)) else rel + n <= q.count))
                    if inb is True or (inb is not False and self.valid(st, inb)): return r, (pi, rel, f0, None), None
                    if best is None or not isc(q.base): best = best or (pi, rel, f0, None, inb)
                elif kind == 'bytes':
                    if isc(rel): idx, fo = rel // q.stride, rel % q.stride
                    else:
                        d, k = lin(rel); fo = k % q.stride
                        if any(c % q.stride for c, _ in d.values()): continue
                        idx = unlin({i: (c // q.stride, x) for i, (c, x) in d.items()}, (k - fo) // q.stride)
                    if not (f0 <= fo < f0 + sz): continue
                    inb = simp(And(Eq(0, 0), idx >= 0, idx < q.count, n <= sz - (fo - f0)))
                    if inb is True or (inb is not False and self.valid(st, inb)): return r, (pi, idx, f0, fo - f0), None
                    if not isc(rel): best = (pi, idx, f0, fo - f0, inb)
        if isc(o) and isc(n):
            ok = And(o >= 0, o + n <= r.size if isc(r.size) else r.size >= o + n)
            if ok is True or self.valid(st, ok): return r, None, o
        if best:
            self.oblige(st, ('P15',), '%s stays inside %s' % (what, r.parts[best[0]].name), best[4])
            if not self.feasible(st): raise PathEnd()
            return r, best[:4], None
        self.fail(st, ('P15',), '%s stays inside %s' % (what, r.name)); raise PathEnd()
    def bget(self, r, loc):
        """closure j -> byte at (range start + j)"""
        pi, idx, fo, rest = loc
        q = r.parts[pi]; f = q.val[fo]
        if rest is None: return lambda st, j: f(st, ladd(idx, j))
        return lambda st, j: f(st, idx, ladd(rest, j))
    def bset(self, st, r, loc, n, g):
        """overwrite n bytes of the range with closure g(st,j)"""
        pi, idx, fo, rest = loc
        w = st.wreg(r.name); q = w.parts[pi]; old = q.val[fo]
        if rest is None:
            def f(st, i):
                c = simp(And(Eq(1, 1), zb(i >= idx) if not (isc(i) and isc(idx)) else i >= idx, zb(i < ladd(idx, n)) if not (isc(i) and isc(idx) and isc(n)) else i < idx + n))
                if c is False: return old(st, i)
                if c is True: return g(st, lsub(i, idx))
                return self.lazyite(st, c, lambda: g(st, lsub(i, idx)), lambda: old(st, i))
        else:
            def f(st, i, j):
                c = simp(And(Eq(i, idx), j >= rest, zb(j < ladd(rest, n)) if not (isc(j) and isc(n)) else j < rest + n))
                if c is False: return old(st, i, j)
                if c is True: return g(st, lsub(j, rest))
                return self.lazyite(st, c, lambda: g(st, lsub(j, rest)), lambda: old(st, i, j))
        w.parts[pi] = q.with_(fo, f)
    def lazyite(self, st, c, a, b):
        d = self.decide(st, c)
        if d is True: return a()
        if d is False: return b()
        return self.ite(st, c, a(), b())
    def memcpy(self, st, d, s, n):
        n = simp(toint(n))
        if isc(n) and n == 0: return
        if not isc(n):
            d0 = self.decide(st, n == 0)
            if d0 is True: return
            if d0 is None:
                dd, ss = d, s
                if isinstance(d, CondPtr) or isinstance(s, CondPtr): raise Fork(n == 0)
                if any(x.r in (None, 'INT') or not st.mem[x.r].alive for x in (self.pick(st, d), self.pick(st, s))): raise Fork(n == 0)
        d, s = self.pick(st, d), self.pick(st, s)
        e = self.element(st, d, n) or self.element(st, s, n)
        if e:
            # a structure copied into or out of an array of structures: field by field
            vs = [(f0, t, self.load(st, Ptr(s.r, ladd(s.o, f0)), t)) for f0, t in e]
            for f0, t, v in vs: self.store(st, Ptr(d.r, ladd(d.o, f0)), t, v)
            return
        rs, ls, os_ = self.byterange(st, s, n, 'memcpy source')
        rd, ld, od = self.byterange(st, d, n, 'memcpy destination', True)
        self.spec.on_bytes(self, st, rd, ld, od, n)
        if ls and ld:
            g = self.bget(rs, ls)
            self.bset(st, rd, ld, n, g)
        elif ls is None and ld is None:
            # cell wise struct copy
            w = st.wreg(rd.name)
            for o, (sz, v) in list(w.cells.items()):
                if od <= o and o + sz <= od + n: del w.cells[o]
                elif o < od + n and od < o + sz: raise Unsupported('memcpy overlaps a cell')
            src = st.mem[rs.name]
            for o, (sz, v) in src.cells.items():
                if os_ <= o and o + sz <= os_ + n: w.cells[od + o - os_] = (sz, v)
                elif o < os_ + n and os_ < o + sz: raise Unsupported('memcpy of part of a cell')
            fl = []
            for lo, hi, v in src.fills:
                lo2, hi2 = max(lo, os_), min(hi, os_ + n)
                if lo2 < hi2: fl.append((od + lo2 - os_, od + hi2 - os_, v))
            fl.append((od, od + n, 0 if src.default == 'zero' else UNDEF))
            w.fills = fl + w.fills
            for pi, q in enumerate(w.parts):
                if isc(q.base) and od <= q.base and isc(q.count) and q.base + q.stride * q.count <= od + n:
                    sp = [x for x in src.parts if isc(x.base) and x.base - os_ == q.base - od and x.stride == q.stride]
                    if not sp: raise Unsupported('memcpy into array part')
                    w.parts[pi] = Part(q.name, q.base, q.stride, q.count, q.fields, sp[0].val)
                elif isc(q.base) and isc(q.count) and q.base < od + n and od < q.base + q.stride * q.count: raise Unsupported('memcpy over part of an array')
        elif ld is None and ls and isc(n) and n <= 64:
            g = self.bget(rs, ls); w = st.wreg(rd.name)
            for i in range(n): self.setcell(w, od + i, 1, g(st, i))
        elif ls is None and ld and isc(n) and n <= 64:
            bs = []
            for i in range(n):
                b = self.cell(st, rs, os_ + i, 1)
                bs.append(self.defcell(st, rs, os_ + i, 1, I(8)) if b is None else b)
            def g(st, j):
                if isc(j): return bs[j]
                x = bs[-1]
                for k in range(n - 1): x = self.ite(st, Eq(j, k), bs[k], x)
                return x
            self.bset(st, rd, ld, n, g)
        else:
            raise Unsupported('memcpy shape')
        self.spec.after_bytes(self, st, rd.name, ld, od, n)
    def element(self, st, p, n):
        if not isc(n) or n < 2 or p.r not in st.mem: return None
        for q in st.mem[p.r].parts:
            if q.stride != n or isc(p.o) and isc(q.base) and (isc(q.count) and not (q.base <= p.o < q.base + q.stride * q.count) or p.o < q.base): continue
            if any(kind == 'bytes' for sz, kind in q.fields.values()) or sum(sz for sz, kind in q.fields.values()) != n or len(q.fields) < 2: continue
            return [(f0, I(8 * sz) if kind == "int" else PTR) for f0, (sz, kind) in sorted(q.fields.items())]
        return None
    def memset(self, st, d, v, n):
        n = simp(toint(n)); v = toint(v)
        if isc(n) and n == 0: return
        d = self.pick(st, d)
        r0 = st.mem.get(d.r)
        if isc(n) and isc(d.o) and r0 is not None and r0.alive and r0.kind != 'opaque' and not (r0.parts and isc(r0.parts[0].base) and r0.parts[0].stride == 1 and len(r0.parts) == 1 and d.o >= r0.parts[0].base and d.o + n <= r0.parts[0].base + (r0.parts[0].count if isc(r0.parts[0].count) else 0)):
            self.spec.on_access(self, st, d, n, True)
            ok = And(d.o >= 0, d.o + n <= r0.size if isc(r0.size) else r0.size >= d.o + n)
            hit = [i for i, q in enumerate(r0.parts) if isc(q.base) and isc(q.count) and q.base <= d.o and d.o + n <= q.base + q.stride * q.count and not (d.o == q.base and n == q.stride * q.count)]
            if not hit:
                if not (ok is True or self.valid(st, ok)):
                    self.oblige(st, ('P15',), 'memset stays inside ' + r0.name, ok)
                if r0.ro: self.fail(st, ('P15',), 'write to read-only object'); raise PathEnd()
                self.spec.on_bytes(self, st, r0, None, d.o, n)
                w = st.wreg(d.r); lo, hi = d.o, d.o + n
                for o, (sz, x) in list(w.cells.items()):
                    if lo <= o and o + sz <= hi: del w.cells[o]
                    elif o < hi and lo < o + sz: raise Unsupported('memset over part of a cell')
                w.fills = [(lo, hi, v)] + [x for x in w.fills if not (lo <= x[0] and x[1] <= hi)]
                for pi, q in enumerate(w.parts):
                    if not (isc(q.base) and isc(q.count)): continue
                    plo, phi = q.base, q.base + q.stride * q.count
                    if lo <= plo and phi <= hi:
                        nv = {}
                        for fo, (sz, kind) in q.fields.items():
                            k = (NULL if v == 0 else Ptr('INT', v)) if kind == 'ptr' else (v if kind == 'bytes' or sz == 1 else sum(v << (8 * i) for i in range(sz)))
                            nv[fo] = (lambda k: lambda st, *i: k)(k)
                        w.parts[pi] = Part(q.name, q.base, q.stride, q.count, q.fields, nv)
                    elif plo < hi and lo < phi: raise Unsupported('memset over part of an array')
                self.spec.after_bytes(self, st, d.r, None, d.o, n)
                return
        r, loc, off = self.byterange(st, d, n, 'memset', True)
        if loc is None: raise Unsupported('memset shape')
        self.spec.on_bytes(self, st, r, loc, off, n)
        self.bset(st, r, loc, n, lambda st, j: v)
        self.spec.after_bytes(self, st, r.name, loc, off, n)
    def bytes_of(self, st, p, n, what='read'):
        """list of n (concrete) bytes at p"""
        r, loc, off = self.byterange(st, p, n, what)
        if loc:
            g = self.bget(r, loc)
            return [g(st, i) for i in range(n)]
        out = []
        for i in range(n):
            b = self.cell(st, r, off + i, 1)
            out.append(self.defcell(st, r, off + i, 1, I(8)) if b is None else b)
        return out

    # ---- operands
    def glob(self, st, name):
        if name in st.mem: return Ptr(name, 0)
        if name in self.m.funcs: return Ptr('FN' + name, 0)
        t, init, const = self.m.globals.get(name, (None, None, False))
        if t is None: raise Unsupported('global ' + name)
        r = Reg(name, self.m.size(t), 'undef', ro=const)
        if init is None:
            r.default = 'sym'; r.kind = 'ext'
            v = self.spec.extglobal(self, st, name)
            if v is not None: r.cells[0] = (self.m.size(t), v)
        elif self.spec.globalinit(name, const):
            self.ginit(r, t, init, 0)
        else:
            r.default = 'sym'
            self.layout(r, t, 0)
        st.mem[name] = r
        for o, (z, v) in list(r.cells.items()):
            if isinstance(v, tuple): r.cells[o] = (z, self.glob(st, v[1]))
        return Ptr(name, 0)
    def ginit(self, r, t, c, off):
        t = self.m.res(t)
        if c[0] == 'zero':
            r.default = 'zero' if off == 0 else r.default
            if off == 0 and t.k == 'a' and self.m.size(t.el) == 1: r.attr['str'] = b''
            if off == 0: self.layout(r, t, 0)
            else: r.fills.append((off, off + self.m.size(t), 0))
        elif c[0] == 'str':
            b = c[1]
            self.addpart(r, r.name, off, 1, len(b), {0: (1, 'int')}, {0: self.conststr(b)})
            if off == 0: r.attr['str'] = b
        elif c[0] == 'c': r.cells[off] = (self.m.size(t), c[1] % (1 << (8 * self.m.size(t))))
        elif c[0] == 'null': r.cells[off] = (8, NULL)
        elif c[0] == 'g': r.cells[off] = (8, ('lazyg', c[1]))
        elif c[0] == 'agg':
            if t.k == 'a':
                es = self.m.size(t.el)
                if self.m.res(t.el).k == 'i' and es == 1 and False: pass
                for i, (et, ev) in enumerate(c[1]): self.ginit(r, et, ev, off + i * es)
            else:
                for i, (et, ev) in enumerate(c[1]): self.ginit(r, et, ev, off + self.m.foff(t, i))
    def conststr(self, b):
        def f(st, i):
            i = simp(i)
            if isc(i): return b[i] if 0 <= i < len(b) else 0
            x = z3.IntVal(b[-1] if b else 0)
            for k in range(len(b) - 1): x = z3.If(i == k, z3.IntVal(b[k]), x)
            return x
        return f
    def val(self, st, v, t=None):
        k = v[0]
        if k == 'r':
            x = st.fr.regs[v[1]]
            return x
        if k == 'c':
            if t is not None and t.k == 'i':
                if t.w == 1: return bool(v[1])
                return v[1] % (1 << t.w)
            return v[1]
        if k == 'null': return NULL
        if k == 'g': return self.glob(st, v[1])
        if k == 'undef': return UNDEF
        if k == 'zero': return NULL if t.k == 'p' else 0
        if k == 'f': return ('fp',)
        if k == 'ce':
            x = self.val(st, v[3], v[2])
            if v[1] == 'inttoptr': return NULL if isc(x) and x == 0 else Ptr('INT', x)
            return x
        if k == 'gep': return self.gep(st, v[1], [(t2, self.val(st, x, t2)) for t2, x in v[2]])
        raise Unsupported('operand ' + k)
    def gep(self, st, ty, ops):
        p = ops[0][1]
        off = 0; t = ty
        for i, (it, iv) in enumerate(ops[1:]):
            if i == 0:
                off = ladd(off, lmul(self.gidx(st, iv, it), self.m.size(t)))
                continue
            t = self.m.res(t)
            if t.k == 's':
                off = ladd(off, self.m.foff(t, iv)); t = t.el[iv]
            elif t.k == 'a':
                off = ladd(off, lmul(self.gidx(st, iv, it), self.m.size(t.el))); t = t.el
            else: raise Unsupported('gep')
        if isc(off) and off == 0: return p
        p = self.pick(st, p)
        if p.r is None:
            return Ptr(None, ladd(p.o, off))
        return Ptr(p.r, ladd(p.o, off))
    def gidx(self, st, v, t):
        if isinstance(v, Undef): self.fail(st, ('P15',), 'uninitialised index'); return fresh()
        return self.signed(st, toint(v), t.w)

    # ---- execution
    def start(self, st, fname, args, va=None):
        f = self.m.funcs.get('@' + fname)
        if f is None or not f.defined: raise Unsupported('function %s not found' % fname)
        self.push(st, f, args, None, va or [])
    def push(self, st, f, args, dst, va):
        self.fnseen.add(f.name)
        if len(st.frames) > 12: raise Unsupported('call depth')
        fr = Frame(); fr.f = f; fr.blk = f.entry; fr.ip = 0; fr.prev = None; fr.dst = dst; fr.va = va
        fr.allocas = []; fr.unroll = {}; fr.nargs = len(f.params)
        fr.regs = {n: a for (t, n), a in zip(f.params, args)}
        st.frames.append(fr)
    def loopinfo(self, f):
        if f.name in self.loops: return self.loops[f.name]
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'jmp': succ[b] = [t.a[0]]
            elif t.op == 'br': succ[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch': succ[b] = [t.a[1]] + [x for _, x in t.a[2]]
            else: succ[b] = []
        # reachable
        seen = []; stk = [f.entry]; ss = set()
        while stk:
            b = stk.pop()
            if b in ss: continue
            ss.add(b); seen.append(b); stk += succ[b]
        pred = {b: [] for b in ss}
        for b in ss:
            for x in succ[b]: pred[x].append(b)
        dom = {b: set(ss) for b in ss}; dom[f.entry] = {f.entry}
        ch = True
        while ch:
            ch = False
            for b in seen:
                if b == f.entry: continue
                n = set.intersection(*[dom[p] for p in pred[b]]) | {b} if pred[b] else {b}
                if n != dom[b]: dom[b] = n; ch = True
        loops = {}
        for b in ss:
            for h in succ[b]:
                if h in dom[b]:
                    body = loops.setdefault(h, {h}); wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x); wl += pred[x]
        self.loops[f.name] = loops
        return loops
    def explore(self, st0, stop=None, base=0):
        """run to completion.  stop=(depth, header, blocks): also collect back edges and exits"""
        out = {'ret': [], 'back': [], 'exit': []}
        stack = [st0]
        while stack:
            st = stack.pop()
            try:
                self.run(st, stack, out, stop, base)
            except PathEnd:
                pass
        return out
    def run(self, st, stack, out, stop, base):
        while True:
            if time.time() - self.t0 > self.budget: raise Budget()
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.blk][fr.ip]
            snap = (len(st.pc), fr.ip, dict(st.mem), dict(st.w), len(self.sinks[-1]), st.trace)
            try:
                r = self.step(st, ins, stack, out, stop, base)
            except Fork as fk:
                # undo partial effects, then split
                n, ip, mem, w, no, tr = snap
                st.mem, st.w, st.trace = mem, w, tr
                self.sinks[-1][no:] = [x for x in self.sinks[-1][no:] if not x.ok]
                fr.ip = ip
                b = st.fork(); b.model = None
                a = st; a.model = None
                a.add(zb(fk.c)); b.add(Not(zb(fk.c)))
                if self.feasible(b): stack.append(b)
                if not self.feasible(a): return
                continue
            if r == 'stop': return
    def step(self, st, ins, stack, out, stop, base):
        fr = st.frames[-1]; op = ins.op; A = ins.a
        if op in ('jmp', 'br', 'switch'):
            if op == 'jmp':
                return self.goto(st, A[0], stack, out, stop)
            if op == 'br':
                c = self.val(st, A[0], I(1))
                if isinstance(c, Undef): self.fail(st, ('P15',), 'branch on uninitialised value'); c = freshb()
                if isc(c): return self.goto(st, A[1] if c else A[2], stack, out, stop)
                c = zb(c)
                ft = self.feasible(st, c)
                mt = self._m if ft and not self.inmodel(st, c) else st.model
                ff = self.feasible(st, z3.Not(c))
                mf = self._m if ff and not self.inmodel(st, z3.Not(c)) else st.model
                if ft and ff:
                    b = st.fork(); b.model = mf; b.add(z3.Not(c))
                    if self.goto(b, A[2], stack, out, stop) != 'stop': stack.append(b)
                    st.model = mt; st.add(c)
                    return self.goto(st, A[1], stack, out, stop)
                if ft: st.add(c); return self.goto(st, A[1], stack, out, stop)
                if ff: st.add(z3.Not(c)); return self.goto(st, A[2], stack, out, stop)
                return 'stop'
            v = toint(self.val(st, A[0], ins.ty)); w = ins.ty.w
            if isc(v):
                for cv, b in A[2]:
                    if cv % (1 << w) == v: return self.goto(st, b, stack, out, stop)
                return self.goto(st, A[1], stack, out, stop)
            for cv, b in A[2]:
                c = v == cv % (1 << w)
                if self.feasible(st, c):
                    s2 = st.fork(); s2.model = None; s2.add(c)
                    if self.goto(s2, b, stack, out, stop) != 'stop': stack.append(s2)
                st.add(z3.Not(c))
            if self.feasible(st): return self.goto(st, A[1], stack, out, stop)
            return 'stop'
        if op == 'ret':
            v = self.val(st, A, ins.ty) if A is not None else None
            for r in fr.allocas:
                st.mem.pop(r, None)
            if len(st.frames) - 1 == base:
                self.paths += 1
                out['ret'].append((st, v)); return 'stop'
            st.frames.pop()
            if fr.dst: st.frames[-1].regs[fr.dst] = v
            st.frames[-1].ip += 1
            return
        if op == 'unreachable':
            return 'stop'
        if op == 'call':
            return self.call(st, ins, stack)
        if op == 'phi':
            raise Unsupported('phi position')
        v = self.eval(st, ins)
        if ins.dst: fr.regs[ins.dst] = v
        fr.ip += 1
    def eval(self, st, ins):
        op, A = ins.op, ins.a
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return self.arith(st, op, ins.ty.w, self.val(st, A[0], ins.ty), self.val(st, A[1], ins.ty))
        if op == 'icmp':
            return self.icmp(st, A[0], ins.ty, self.val(st, A[1], ins.ty), self.val(st, A[2], ins.ty))
        if op == 'load': return self.load(st, self.val(st, A[0], PTR), ins.ty)
        if op == 'store': return self.store(st, self.val(st, A[1], PTR), ins.ty, self.val(st, A[0], ins.ty))
        if op == 'getelementptr':
            return self.gep(st, ins.ty, [(t, self.val(st, v, t)) for t, v in A])
        if op == 'alloca':
            n = 1
            if A[0]:
                n = toint(self.val(st, A[0][1], A[0][0]))
                if not isc(n): raise Unsupported('variable length array')
            r = self.newreg(st, 'a%d%s' % (len(st.frames), ins.dst), self.m.size(ins.ty) * n, 'undef', ins.ty if n == 1 else None)
            st.fr.allocas.append(r)
            return Ptr(r, 0)
        if op == 'trunc':
            t, v = A; v = self.val(st, v, t); w = ins.ty.w
            if isinstance(v, Undef): return v
            if isinstance(v, Bits): return Bits(w, v.b[:w])
            if w == 1:
                v = toint(v)
                return simp(v % 2 == 1) if not isc(v) else bool(v & 1)
            if isinstance(v, bool): return int(v)
            if isc(v): return v % (1 << w)
            if self.valid(st, v < (1 << w)): return v
            M = 1 << t.w
            if self.valid(st, Or(v < (1 << w), v >= M - (1 << w))): return simp(z3.If(v < (1 << w), v, v - (M - (1 << w))))
            return simp(v % (1 << w))
        if op == 'zext':
            t, v = A; v = self.val(st, v, t)
            if isinstance(v, Bits): return Bits(ins.ty.w, v.b + [False] * (ins.ty.w - v.w))
            return toint(v) if not isinstance(v, Undef) else v
        if op == 'sext':
            t, v = A; v = self.val(st, v, t)
            if isinstance(v, Undef): return v
            if t.w == 1: return simp(z3.If(zb(v), z3.IntVal((1 << ins.ty.w) - 1), z3.IntVal(0)))
            if isinstance(v, Bits) : v = v.int()
            v = toint(v)
            if isc(v): return self.signed(st, v, t.w) % (1 << ins.ty.w)
            h = 1 << (t.w - 1)
            if self.valid(st, v < h): return v
            return simp(z3.If(v < h, v, v + ((1 << ins.ty.w) - (1 << t.w))))
        if op == 'ptrtoint':
            v = self.val(st, A[1], A[0])
            v = self.pick(st, v)
            if v.r is None: return v.o
            return v
        if op == 'inttoptr':
            v = self.val(st, A[1], A[0])
            if isinstance(v, (Ptr, CondPtr)): return v
            if isc(v) and v == 0: return NULL
            return Ptr('INT', v)
        if op == 'bitcast' or op == 'freeze':
            return self.val(st, A[1] if op == 'bitcast' else A[0][1], A[0] if op == 'bitcast' else A[0][0])
        if op == 'select':
            c = self.val(st, A[0], I(1)); a = self.val(st, A[1], ins.ty); b = self.val(st, A[2], ins.ty)
            if isinstance(c, Undef): self.fail(st, ('P15',), 'select on uninitialised value'); c = freshb()
            return self.ite(st, c, a, b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'uitofp', 'sitofp'): return ('fp',)
        if op == 'fcmp': return freshb('fcmp')
        if op in ('fptoui', 'fptosi'):
            v = fresh('fp'); st.add(z3.And(v >= 0, v < (1 << ins.ty.w))); return v
        raise Unsupported(op + ' ' + str(ins.text) + (': ' + str(A) if op == 'unsupported' else ''))

    # ---- calls
    def call(self, st, ins, stack):
        fr = st.frames[-1]
        callee, args = ins.a
        if not callee.startswith('@'): raise Unsupported('indirect call')
        name = callee[1:]
        av = [self.val(st, v, t) if v is not None else None for t, v in args]
        if name == '__assert_fail':
            self.fail(st, ('P15', 'ASSERT'), 'internal assertion holds: ' + self.cstring(st, av[0]))
            return 'stop'
        h = self.spec.contract(self, st, name)
        if h is not None: self.contracts_used.add(name)
        if h is None:
            f = self.m.funcs.get(callee)
            if f is not None and f.defined:
                n = len(f.params)
                if sum(1 for x in st.frames if x.f is f) > 1: raise Unsupported('recursion of ' + name)
                self.push(st, f, av[:n], ins.dst, av[n:])
                return
            h = self.libc(name)
        if h is None: raise Unsupported('call of unknown function ' + name)
        self.contracts_used.add(name)
        base = len(st.pc)
        outs = h(self, st, av, args, ins)
        if outs is None: outs = [(st, None)]
        live = []
        for s2, rv in outs:
            if rv is not None and ins.dst: s2.frames[-1].regs[ins.dst] = rv
            elif ins.dst: s2.frames[-1].regs[ins.dst] = UNDEF
            s2.frames[-1].ip += 1
            live.append(s2)
        if not live: return 'stop'
        for s2 in live:
            if s2 is not st: stack.append(s2)
        if st not in live: return 'stop'
    def libc(self, name):
        import libc
        return libc.TABLE.get(name)
    def cstring(self, st, p):
        try:
            r = st.mem.get(p.r) or st.mem[self.glob(st, p.r).r]
            if not isc(p.o): return '?'
            return r.attr['str'][p.o:].split(b'\0')[0].decode()
        except Exception:
            return '?'

    # ---- control flow and loops
    def enter_block(self, st, blk):
        fr = st.frames[-1]
        prev = fr.blk
        ins = fr.f.blocks[blk]; i = 0; nv = {}
        while ins[i].op == 'phi':
            for v, b in ins[i].a:
                if b == prev: nv[ins[i].dst] = self.val(st, v, ins[i].ty); break
            else: raise Unsupported('phi edge')
            i += 1
        fr.regs.update(nv)
        fr.prev, fr.blk, fr.ip = prev, blk, i
    def goto(self, st, blk, stack, out, stop):
        fr = st.frames[-1]
        loops = self.loopinfo(fr.f)
        depth = len(st.frames)
        if stop and depth == stop[0] and blk not in stop[2]:
            self.enter_block(st, blk); out['exit'].append(st); return 'stop'
        if blk in loops:
            body = loops[blk]
            if stop and depth == stop[0] and blk == stop[1]:
                self.enter_block(st, blk); out['back'].append(st); return 'stop'
            if fr.blk in body and blk != fr.blk or (fr.blk == blk and blk in body and fr.prev in body and False):
                # back edge of a loop that is not being cut: must not happen
                raise Unsupported('irreducible control flow')
            self.enter_block(st, blk)
            for s2 in self.loop(st, blk, body):
                # continue each exit state; it may itself leave the enclosing loop
                if stop and len(s2.frames) == stop[0] and s2.frames[-1].blk not in stop[2]:
                    out['exit'].append(s2)
                elif stop and len(s2.frames) == stop[0] and s2.frames[-1].blk == stop[1]:
                    out['back'].append(s2)
                else:
                    stack.append(s2)
            return 'stop'
        self.enter_block(st, blk)
        return
    def loop(self, st, hdr, body):
        fr = st.frames[-1]
        key = (fr.f.name, hdr)
        depth = len(st.frames)
        stop = (depth, hdr, body)
        exits = []
        # 1. complete unrolling of loops that provably iterate at most twice
        self.spec.ust = st; most = getattr(self.spec, 'unrollforks', 8)
        if key not in self.nounroll and self.spec.unroll(key):
            self.sinks.append([]); ex = []; cur = [st.fork()]; ok = True
            try:
                for k in range(self.spec.unrolls):
                    nxt = []
                    for s in cur:
                        o = self.explore(s, stop, depth - 1)
                        ex += o['exit']; nxt += o['back']
                        if len(nxt) > most: break
                    cur = nxt
                    if not cur or len(cur) > most or k == self.spec.unrolls - 1: break
                ok = not cur
            except Unsupported:
                ok = False
            obs = self.sinks.pop()
            if ok:
                self.sinks[-1] += obs
                return self.merge(st, ex)
            self.nounroll.add(key)
        # 2. cut
        return self.cut(st, stop, key, 0)
    def cut(self, st, stop, key, peeled):
        depth = stop[0]
        mods = {}; strides = {}
        # initial guess: the phis of the header
        for ins in st.fr.f.blocks[stop[1]]:
            if ins.op != 'phi': break
            mods[('phi', ins.dst)] = None
        cands = None
        arrsel = {}
        rounds = 0
        dropped = set()
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported('loop inference does not converge')
            it = fresh('it')
            sh = st.fork()
            sh.add(it >= 0)
            sh.trace = st.trace + (('loop', self.curline(st)),)
            hv = {}
            for k in sorted(mods, key=str): hv[k] = self.havoc(st, sh, k, mods[k], it, arrsel)
            self.spec.loop_assume(self, sh, it)
            if cands is None:
                self.strides = strides
                cands = self.gencands(st, mods, it)
                cands = self.basefilter(st, cands, mods)
                cands = [c for c in cands if c[0] not in dropped]
            self.spec.cands_ready(self, st, sh, cands, it, mods)
            for n, f in cands: sh.add(zb(f(self, sh, lambda k: self.getmod(sh, k), it)))
            if not self.feasible(sh):
                pass
            self.sinks.append([])
            self.quiet += 1
            try:
                o = self.explore(sh.fork(), stop, depth - 1)
            finally:
                self.quiet -= 1
                obs = self.sinks.pop()
            backs = []
            for b in o['back']:
                if self.feasible(b): backs.append(b)
            # new modified locations?
            new = {}
            peel = False
            ns = self.newstrides(sh, backs, mods, strides)
            for b in backs:
                for k, info in self.diff(sh, b, depth):
                    if k[0] == 'conc': peel = True; pk = k
                    elif k not in mods: new[k] = info
                    elif info is not None and mods[k] != info:
                        if mods[k] is None: new[k] = info
                        elif isinstance(info, frozenset) and not info <= mods[k]: new[k] = mods[k] | info
            if peel:
                if self.debug: print('   peel', pk, file=sys.stderr)
                if peeled >= 2: raise Unsupported('loop head states disagree: %s' % (pk,))
                self.sinks.append([])
                o = self.explore(st.fork(), stop, depth - 1)
                obs = self.sinks.pop(); self.sinks[-1] += obs
                ex = o['exit']
                for b in o['back']:
                    ex += self.cut(b, stop, key, peeled + 1)
                return ex
            if new:
                mods.update(new)
                for k, info in new.items():
                    if k[0] in ('phi', 'cell') and info is not None:
                        # include entry region
                        pass
                cands = None
                continue
            if ns: cands = None; continue
            # check candidates
            bad = False
            for b in backs:
                fs = [(n, f(self, b, lambda k: self.getmod(b, k), it + 1)) for n, f in cands]
                drop = self.houdini(b, fs)
                if drop:
                    bad = True; dropped |= drop
                    cands = [c for c in cands if c[0] not in drop]
            for k in [k for k in mods if k[0] == 'part']:
                for b in backs:
                    if not self.arrcheck(st, b, k, arrsel, it + 1):
                        arrsel[k] = arrsel.get(k, 0) + 1; bad = True
                        if self.debug: print('   template refuted', k, self.armsg, file=sys.stderr)
                        break
            if bad: continue
            ap = [k for k in mods if self.inexact(st, k, cands, arrsel)]
            if ap:
                for k in ap: self.approx.add('%s line %s: %s' % (key[0], self.curline(st), k))
                for x in obs: x.approx = True
                for x in o['exit']: x.approx = True
            self.sinks[-1] += obs
            if self.debug and len(self.sinks) == 1 and not self.quiet:
                print('   loop %s line %s rounds %d backs %d exits %d\n      mods %s\n      inv %s' % (key, self.curline(st), rounds, len(backs), len(o['exit']), [str(k) for k in mods], [n for n, _ in cands]), file=sys.stderr)
            self.invs.append((key, [n for n, _ in cands], [str(k) + ':' + str(arrsel.get(k, 0)) for k in mods if k[0] == 'part']))
            return self.merge(st, o['exit'])
    def newstrides(self, sh, backs, mods, strides):
        """constant steps of the loop's variables, for the candidates entry + step * it"""
        found = False
        for k in mods:
            if k[0] not in ('phi', 'cell'): continue
            for b in backs[:4]:
                x, y = self.getmod(sh, k), self.getmod(b, k)
                if isinstance(x, CondPtr): x = x.b if isinstance(x.a, Ptr) and x.a.r is None else x.a
                if isinstance(y, CondPtr): y = y.b if isinstance(y.a, Ptr) and y.a.r is None else y.a
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is not None and x.r == y.r: x, y = x.o, y.o
                if isinstance(x, Bits) or isinstance(y, Bits) or not (isc(x) or isinstance(x, z3.ArithRef)) or not (isc(y) or isinstance(y, z3.ArithRef)): continue
                d = lsub(y, x)
                if isc(d) and d not in (0, 1, -1) and abs(d) < 1 << 20 and d not in strides.setdefault(k, set()): strides[k].add(d); found = True
        return found
    def inexact(self, st, k, cands, arrsel):
        if k[0] == 'ghost': return False
        x = self.spec.exact(self, k, cands)
        if x is not None: return not x
        if k[0] == 'part': return arrsel.get(k, 0) >= len(self.spec.templates(self, st, k))
        ks = str(k)
        return not any((n.startswith(ks) or n.startswith('off ' + ks)) and ('==' in n or 'iff' in n or n.endswith(' const')) or (ks in n and n.endswith(' const')) for n, _ in cands)
    def mergekey(self, s):
        fk = tuple((f.f.name, f.blk, f.ip, f.dst, id(f.va) if f.va else 0) for f in s.frames)
        return fk
    def vsame(self, x, y):
        if x is y or same(x, y): return True
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return all(self.vsame(p, q) for p, q in zip(x, y))
        if not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and type(x) is type(y) and isinstance(x, (str, frozenset)): return x == y
        return False
    def mergeable(self, a, b):
        if self.mergekey(a) != self.mergekey(b): return False
        for f, g in zip(a.frames, b.frames):
            if f.allocas != g.allocas: return False
            for k in set(f.regs) | set(g.regs):
                x, y = f.regs.get(k), g.regs.get(k)
                if not self.vsame(x, y):
                    # dead values may differ
                    if k in f.regs and k in g.regs and self.livein(f, k): return False
        if set(a.mem) != set(b.mem) or set(a.w) != set(b.w): return False
        for k in a.w:
            if not self.vsame(a.w[k], b.w[k]): return False
        for k in a.mem:
            p, q = a.mem[k], b.mem[k]
            if p is q: continue
            if p.alive != q.alive or not same(p.size, q.size) or len(p.parts) != len(q.parts) or p.fills != q.fills or set(p.cells) != set(q.cells): return False
            for o in p.cells:
                if not self.vsame(p.cells[o], q.cells[o]): return False
            for x, y in zip(p.parts, q.parts):
                if any(x.val[f] is not y.val[f] for f in x.val): return False
        return True
    def livein(self, fr, reg):
        """may register reg be read after the current point of frame fr?"""
        key = (fr.f.name, fr.blk, fr.ip)
        lv = self.live.get(key)
        if lv is None:
            f = fr.f; lv = set(); seen = set(); wl = [(fr.blk, fr.ip)]
            if fr is not None:
                while wl:
                    b, ip = wl.pop()
                    if (b, ip) in seen: continue
                    seen.add((b, ip))
                    for ins in f.blocks[b][ip:]:
                        for r in ins.uses(): lv.add(r)
                    t = f.blocks[b][-1]
                    for x in ([t.a[0]] if t.op == 'jmp' else [t.a[1], t.a[2]] if t.op == 'br' else [t.a[1]] + [y for _, y in t.a[2]] if t.op == 'switch' else []):
                        wl.append((x, 0))
            self.live[key] = lv
        return reg in lv
    def merge(self, st0, ex):
        """join states at the same program point that differ only in their path conditions"""
        if len(ex) < 2 or not self.merging: return ex
        out = []
        for s in ex:
            for g in out:
                if len(g) < 12 and self.mergeable(g[0], s): g.append(s); break
            else: out.append([s])
        res = []
        for g in out:
            if len(g) == 1: res.append(g[0]); continue
            n = 0
            m = min(len(x.pc) for x in g)
            while n < m and all(x.pc[n] is g[0].pc[n] for x in g[1:]): n += 1
            alts = [And(*[zb(f) for f in x.pc[n:]]) for x in g]
            s = g[0].fork(); s.pc = s.pc[:n]; s.model = g[0].model
            f = Or(*alts)
            if f is not True: s.pc.append(zb(f))
            t = {}
            for k, v in g[0].touched.items():
                if k[0] == 'L':
                    o = [dict((id(e[1]) if not isinstance(e[1], z3.ExprRef) else e[1].get_id(), e) for e in x.touched.get(k, ())) for x in g[1:]]
                    t[k] = tuple(e for e in v if all(e[1].get_id() in d for d in o))
                elif k[0] == 'bits':
                    if all(x.touched.get(k) is v for x in g[1:]): t[k] = v
                elif all(k in x.touched for x in g[1:]): t[k] = v
            s.touched = t
            s.trace = g[0].trace; s.approx = any(x.approx for x in g)
            res.append(s)
        return res
    merging = True
    def houdini(self, b, fs):
        """names of formulas not implied by b"""
        drop = set()
        live = []
        for n, f in fs:
            f = simp(f)
            if f is True: continue
            if f is False: drop.add(n); continue
            if self.inmodel(b, f) is False: drop.add(n); continue
            live.append((n, f))
        while live:
            r = self.check(b, Or(*[z3.Not(zb(f)) for n, f in live]), to=6000)
            if r == z3.unsat: return drop
            if r == z3.sat:
                m = self.sv.model()
                l2 = []
                for n, f in live:
                    if z3.is_true(m.eval(f, model_completion=True)): l2.append((n, f))
                    else: drop.add(n)
                if len(l2) == len(live):
                    r = z3.unknown
                live = l2
            if r == z3.unknown:
                l2 = []
                for n, f in live:
                    if self.check(b, z3.Not(zb(f)), to=4000) != z3.unsat: drop.add(n)
                return drop
        return drop
    def getmod(self, st, k):
        if k[0] == 'phi': return st.frames[-1].regs[k[1]]
        if k[0] == 'cell':
            r = st.mem[k[1]]
            v = self.cell(st, r, k[2], k[3])
            return 0 if v is None and r.default == 'zero' else v
        if k[0] == 'world': return st.w[k[1]]
        return None
    def setmod(self, st, k, v):
        if k[0] == 'phi': st.frames[-1].regs[k[1]] = v
        elif k[0] == 'cell': self.setcell(st.wreg(k[1]), k[2], k[3], v)
        elif k[0] == 'world': st.w[k[1]] = v
    def width(self, st, k):
        if k[0] == 'phi':
            for ins in st.frames[-1].f.blocks[st.frames[-1].blk]:
                if ins.op == 'phi' and ins.dst == k[1]: return ins.ty
            # value of an outer frame register
            return I(64)
        if k[0] == 'cell': return I(8 * k[3])
        return I(64)
    def havoc(self, st, sh, k, info, it, arrsel):
        """replace location k in sh by an arbitrary value of the right shape"""
        if k[0] == 'part':
            _, rn, pi, fo = k
            w = sh.wreg(rn); q = w.parts[pi]
            n = arrsel.get(k, 0)
            g = self.spec.havocpart(self, st, sh, k, it)
            if g is not None:
                w.parts[pi] = q.with_(fo, g)
                return None
            tm = self.spec.templates(self, st, k)
            if n < len(tm):
                g = tm[n][1](it)
            elif n == len(tm) or q.fields[fo][1] == 'ptr':
                kind = q.fields[fo][1]
                if kind == 'ptr':
                    rs = info or frozenset()
                    fn = Fn('hv_p')
                    rs = sorted(x for x in rs if x is not None)
                    if len(rs) != 1: raise Unsupported('havoc of a pointer array')
                    g = lambda st2, i: Ptr(rs[0], fn(st2, i))
                else:
                    sz = q.fields[fo][0]
                    fn = Fn('hv_%s_%s' % (q.name, fo), 2 if kind == 'bytes' else 1, rng=(0, 256 if kind == 'bytes' else 1 << (8 * sz)))
                    g = lambda st2, *i: fn(st2, *i)
            else: raise Unsupported('array havoc')
            w.parts[pi] = q.with_(fo, g)
            return None
        if k[0] == 'ghost':
            sh.w[k[1]] = self.spec.ghost_havoc[k[1]]; return None
        v0 = self.getmod(st, k)
        if k[0] == 'world':
            nv = freshb('w_' + k[1]) if isinstance(v0, (bool, z3.BoolRef)) else fresh('w_' + k[1])
            if not isinstance(v0, (bool, z3.BoolRef)): sh.add(nv >= 0)
        elif isinstance(v0, (Ptr, CondPtr)) or isinstance(info, frozenset):
            rs = set(info or ()) | self.ptrregs(v0)
            nn = sorted(x for x in rs if x is not None)
            if len(nn) > 1: raise Unsupported('loop-carried pointer into several objects %s' % nn)
            if not nn: nv = NULL
            else:
                p = Ptr(nn[0], fresh('off'))
                nv = CondPtr(freshb('isnull'), NULL, p) if None in rs else p
        elif isinstance(v0, Bits):
            nv = Bits(v0.w, [freshb('hb') for _ in range(v0.w)])
        elif isinstance(v0, (bool, z3.BoolRef)):
            nv = freshb('hb')
        else:
            t = self.width(st, k)
            nv = fresh('h_' + str(k[1]).strip('%') + (str(k[2]) if k[0] == 'cell' else ''))
            sh.add(z3.And(nv >= 0, nv < (1 << t.w)))
            if isinstance(v0, Undef):
                nv = nv   # uninitialised at entry: any value (conservative only if read after a write)
        self.setmod(sh, k, nv)
        return nv
    def ptrregs(self, v):
        if isinstance(v, Ptr): return {v.r}
        if isinstance(v, CondPtr): return self.ptrregs(v.a) | self.ptrregs(v.b)
        return set()
    def diff(self, sh, b, depth):
        """locations whose value at the back edge differs from the loop head"""
        out = []
        fa, fb = sh.frames[depth - 1], b.frames[depth - 1]
        blk = sh.frames[-1].f.blocks[fa.blk]
        for ins in blk:
            if ins.op != 'phi': break
            x, y = fa.regs[ins.dst], fb.regs[ins.dst]
            if not same(x, y):
                out.append((('phi', ins.dst), frozenset(self.ptrregs(x) | self.ptrregs(y)) if self.ptrregs(y) else None))
        for rn, r in sh.mem.items():
            q = b.mem.get(rn)
            if q is None: continue
            if q is r: continue
            if q.alive != r.alive: out.append((('conc', 'alive ' + rn), None)); continue
            if not same(q.size, r.size): out.append((('conc', 'size ' + rn), None)); continue
            if self.spec.ignore_region(rn): continue
            offs = {(o, s) for o, (s, v) in r.cells.items()} | {(o, s) for o, (s, v) in q.cells.items()}
            for o, s in offs:
                x, y = self.cell(sh, r, o, s), self.cell(b, q, o, s)
                if x is None and r.default == 'sym': continue
                if x is None and y is not None and r.default == 'zero': x = 0
                if not same(x, y):
                    # overlapping cells of different size
                    pr = self.ptrregs(y) | self.ptrregs(x)
                    out.append((('cell', rn, o, s), frozenset(pr) if pr else None))
            if len(q.parts) != len(r.parts): out.append((('conc', 'parts ' + rn), None)); continue
            for pi, (p1, p2) in enumerate(zip(r.parts, q.parts)):
                for fo in p1.val:
                    if p1.val[fo] is not p2.val[fo]:
                        out.append((('part', rn, pi, fo), None))
        for k in set(sh.w) | set(b.w):
            x, y = sh.w.get(k), b.w.get(k)
            if k.startswith('_') or x is y: continue
            if same(x, y) or (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and type(x) == type(y) and not isinstance(x, (Ptr, CondPtr, Bits)) and x == y): continue
            if k in self.spec.ghost_havoc: out.append((('ghost', k), None)); continue
            if isinstance(x, bool) and isinstance(y, bool): out.append((('conc', 'ghost ' + k), None)); continue
            if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)): out.append((('world', k), None))
            elif isinstance(x, (int, z3.ArithRef)) and isinstance(y, (int, z3.ArithRef)): out.append((('world', k), None))
            else: out.append((('conc', 'ghost ' + k), None))
        return out
    # candidates: (name, f(eng, st, get, it) -> formula)
    def gencands(self, st, mods, it):
        out = []
        ints = []
        for k in sorted(mods, key=str):
            if k[0] in ('part', 'ghost'): continue
            v0 = self.getmod(st, k)
            nm = '%s' % (k,)
            if isinstance(v0, Undef) or v0 is None: continue
            if isinstance(v0, (bool, z3.BoolRef)):
                out.append((nm + '==entry', lambda e, s, g, i, k=k, v0=v0: Eq(zb(g(k)), zb(v0))))
                out.append((nm + '==T', lambda e, s, g, i, k=k: zb(g(k))))
                out.append((nm + '==F', lambda e, s, g, i, k=k: Not(zb(g(k)))))
                continue
            if isinstance(v0, Bits):
                for bi in range(v0.w):
                    out.append((nm + '.bit%d' % bi, lambda e, s, g, i, k=k, bi=bi, v0=v0: Eq(e.tobits(s, g(k), v0.w).b[bi], v0.b[bi])))
                continue
            if isinstance(v0, (Ptr, CondPtr)):
                out += self.ptrcands(st, k, v0, mods)
                continue
            ints.append((k, v0))
            out += self.intcands(st, k, v0, lambda g, k=k: g(k))
        for (k1, v1), (k2, v2) in itertools.combinations(ints, 2):
            if k1[-1] == k2[-1] or True:
                out.append(('%s-%s const' % (k1, k2), lambda e, s, g, i, k1=k1, k2=k2, v1=v1, v2=v2: toint(g(k1)) - toint(g(k2)) == toint(v1) - toint(v2)))
                out.append(('%s+%s const' % (k1, k2), lambda e, s, g, i, k1=k1, k2=k2, v1=v1, v2=v2: toint(g(k1)) + toint(g(k2)) == toint(v1) + toint(v2)))
        out += self.spec.cands(self, st, mods)
        return out
    def intcands(self, st, k, v0, acc):
        nm = str(k)
        v0 = toint(v0)
        Z = lambda x: z3.IntVal(x) if isc(x) else x
        out = []
        def c(n, f): out.append((nm + n, f))
        c('==entry', lambda e, s, g, i: Z(toint(acc(g))) == v0)
        for d in sorted({1, -1} | self.strides.get(k, set())):
            c('==entry%+d*it' % d, lambda e, s, g, i, d=d: Z(toint(acc(g))) == v0 + d * i)
        if isc(v0) and v0 < 1 << 31 and k[0] == 'phi' and not isinstance(self.getmod(st, k), (Ptr, CondPtr)):
            # counting down past zero
            w = 1 << self.m.size(self.width(st, k)) * 8
            c('==entry-1*it mod', lambda e, s, g, i: z3.Or(Z(toint(acc(g))) == v0 - i, z3.And(i == v0 + 1, Z(toint(acc(g))) == w - 1)))
        c('==it+1', lambda e, s, g, i: Z(toint(acc(g))) == i + 1)
        c('<=entry', lambda e, s, g, i: Z(toint(acc(g))) <= v0)
        c('>=entry', lambda e, s, g, i: Z(toint(acc(g))) >= v0)
        c('==0', lambda e, s, g, i: Z(toint(acc(g))) == 0)
        c('0/1', lambda e, s, g, i: Z(toint(acc(g))) <= 1)
        c('>0', lambda e, s, g, i: Z(toint(acc(g))) > 0)
        for tn, T in self.spec.terms(self, st, v0):
            c('==%s' % tn, lambda e, s, g, i, T=T: Z(toint(acc(g))) == T(s, i))
            c('==entry+%s' % tn, lambda e, s, g, i, T=T: Z(toint(acc(g))) == v0 + T(s, i))
            c('==entry-%s' % tn, lambda e, s, g, i, T=T: Z(toint(acc(g))) == v0 - T(s, i))
        for gn, G in self.spec.guards(self, st):
            for tn, T in self.spec.gterms(self, st):
                c('%s=>==%s' % (gn, tn), lambda e, s, g, i, T=T, G=G: Implies(G(s, i), Z(toint(acc(g))) == T(s, i)))
        for tn, t in self.spec.bounds(self, st):
            c('<=%s' % tn, lambda e, s, g, i, t=t: Z(toint(acc(g))) <= t(s))
            c('<%s' % tn, lambda e, s, g, i, t=t: Z(toint(acc(g))) < t(s))
            c('+it<=%s' % tn, lambda e, s, g, i, t=t: Z(toint(acc(g))) + i <= t(s))
        return out
    def ptrcands(self, st, k, v0, mods):
        out = []
        nm = str(k)
        def off(v, reg):
            while isinstance(v, CondPtr): v = v.b if isinstance(v.a, Ptr) and v.a.r is None else v.a
            return v.o
        def isnull(v):
            if isinstance(v, CondPtr): return Or(And(v.c, isnull(v.a)), And(Not(v.c), isnull(v.b)))
            return v.r is None
        rs = self.ptrregs(v0) | set(mods[k] or ())
        if None in rs:
            out.append((nm + ' null', lambda e, s, g, i: isnull(g(k))))
            out.append((nm + ' nonnull', lambda e, s, g, i: Not(isnull(g(k)))))
            for gn, G in self.spec.guards(self, st):
                for tn, T in self.spec.nullterms(self, st):
                    out.append((nm + ' %s=>null iff %s' % (gn, tn), lambda e, s, g, i, G=G, T=T: Implies(G(s, i), Eq(zb(isnull(g(k))), zb(T(s, i))))))
        if isinstance(v0, Ptr) and v0.r is not None:
            for n, f in self.intcands(st, k, v0.o, lambda g: off(g(k), None)):
                out.append(('off ' + n, lambda e, s, g, i, f=f: Or(isnull(g(k)), f(e, s, g, i)) if self.isptr(g(k)) else f(e, s, g, i)))
        elif isinstance(v0, CondPtr) and None in self.ptrregs(v0) and len(self.ptrregs(v0)) == 2 and isinstance(v0.a, Ptr) and isinstance(v0.b, Ptr):
            for n, f in self.intcands(st, k, off(v0, None), lambda g: off(g(k), None)):
                out.append(('off ' + n, lambda e, s, g, i, f=f: Or(isnull(g(k)), f(e, s, g, i)) if self.isptr(g(k)) else f(e, s, g, i)))
        else:
            for n, f in self.intcands(st, k, 0, lambda g: off(g(k), None)):
                if '==entry' in n or '<=entry' in n or '>=entry' in n: continue
                out.append(('off ' + n, lambda e, s, g, i, f=f: Or(isnull(g(k)), f(e, s, g, i))))
        return out
    def isptr(self, v): return isinstance(v, (Ptr, CondPtr))
    def basefilter(self, st, cands, mods):
        b = st.fork()
        zero = z3.IntVal(0)
        fs = []
        for n, f in cands:
            try:
                fs.append((n, f(self, b, lambda k: self.getmod(b, k), zero)))
            except (AttributeError, TypeError, z3.Z3Exception):
                fs.append((n, False))
        if b.model is None: self.feasible(b)
        drop = self.houdini(b, fs)
        return [c for c in cands if c[0] not in drop]
    def arrcheck(self, st0, b, k, arrsel, itn):
        """does the selected template describe array k at the back edge?"""
        n = arrsel.get(k, 0)
        tm = self.spec.templates(self, st0, k)
        if n >= len(tm): return True
        _, rn, pi, fo = k
        q = b.mem[rn].parts[pi]
        kind = q.fields[fo][1]
        s2 = b.fork()
        self.armsg = 'base'
        if ('base', k, n) not in arrsel:
            s3 = st0.fork()
            arrsel[('base', k, n)] = self.arreq(s3, st0.mem[rn].parts[pi], fo, kind, tm[n][1](z3.IntVal(0)))
        if not arrsel[('base', k, n)]: return False
        self.armsg = 'step'
        return self.arreq(s2, q, fo, kind, tm[n][1](itn))
    def arreq(self, s2, q, fo, kind, g):
        i = fresh('ix'); s2.add(And(i >= 0, i < q.count))
        if kind == 'bytes':
            j = fresh('jx'); s2.add(And(j >= 0, j < q.fields[fo][0]))
            x, y = q.val[fo](s2, i, j), g(s2, i, j)
        else:
            x, y = q.val[fo](s2, i), g(s2, i)
        if isinstance(x, Undef) or isinstance(y, Undef): return isinstance(x, Undef) and isinstance(y, Undef)
        r = self.valid(s2, Eq(x, y), to=15000)
        if not r: self.armsg += ' %s' % ((x, y),)
        return r
