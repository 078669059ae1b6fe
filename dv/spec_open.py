"""Contracts of shr_open (on an arbitrary file, and on any ring this library can
have produced) and shr_init."""
import z3
from sym import *
import sym, libc
from libc import fail, NEG1, NEG1L, errno_set
from ring import *
from spec_shr import Z
from spec_api import Api
from ir import PTR, I
KEEPEXIST, APPDATA, MAXMSGS, FENCE = 0, 2, 4, 12
MAPFAIL = Ptr('INT', (1 << 64) - 1)
SSMAX = (1 << 63) - 1
O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_PATH = 0o100, 0o200, 0o1000, 0o2000, 0o10000000

class Base(Api):
    def base(self, eng):
        self.offs(eng)
        st = self.base_state(eng)
        st.mem['path'] = Reg('path', 0, kind='opaque')
        self.ringfd = None
        st.w.update(lock=False, acq=None, eff=(), force=None, openforce=None, last=None, lastread=None, lockfail=False, synced=False, dirty=False, msyncfail=False,
                    woke_w2r=False, woke_r2w=False, try_w2r=False, try_r2w=False, slept=False, pollfd=False, waitfail=False, mapped=False, unmapped=False, mlocked=False, fstat=False, bwopen=(), closed=(), opened=(), locked=False)
        return st
    def alloc(self, eng, st, size, default, nk=None): return None
    def release(self, eng, st):
        if not st.w['lock']: return
        self.on_release2(eng, st)
        st.w.update(lock=False, acq=None, force=None, synced=False)
    def on_release2(self, eng, st): pass
    def filearg(self, eng, st, p, what):
        p = eng.pick(st, p)
        eng.oblige(st, ('P11', 'P12', 'P15'), '%s is given the name of the ring file' % what, p.r == 'path')
        if p.r != 'path': raise PathEnd()
    def ringfile(self, eng, st, fd, what):
        e = libc.findfd(eng, st, fd)
        ok = e is not None and e[1] == 'ring'
        eng.oblige(st, ('P11', 'P12', 'P15'), '%s is given the descriptor of the ring file' % what, bool(ok))
        if not ok: raise PathEnd()
        return e
    def mapargs(self, eng, st, av):
        O = lambda nm, f: eng.oblige(st, ('P12', 'P11', 'P15'), nm, f)
        self.ringfile(eng, st, av[4], 'mmap')
        O('the ring is mapped once', not st.w['mapped'])
        if st.w['mapped']: raise PathEnd()
        a = eng.pick(st, av[0])
        O('the mapping address is left to the kernel', a.r is None)
        O('the mapping may be read and written', Eq(toint(av[2]), 3))
        fl = simp(toint(av[3]))
        O('the mapping is shared', isc(fl) and fl & 3 == 1 and not fl & 0x10)
        O('the mapping starts at the start of the file', Eq(toint(av[5]), 0))
    def c_mlock(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        ok = p.r == 'ring' and isc(simp(p.o)) and simp(p.o) == 0
        eng.oblige(st, ('P26', 'P15'), 'locking in memory starts at the mapping', bool(ok))
        eng.oblige(st, ('P26', 'P15'), 'locking in memory covers the whole mapping', Eq(toint(av[1]), self.stsize))
        f = fail(eng, st, NEG1, note='mlockfail')
        st.w['mlocked'] = True
        return [(st, 0), f]

# ------------------------------------------------------------------ open
class Open(Base):
    fn = 'shr_open'
    def __init__(self, role, ri=False): self.hrole = role; self.ri = ri
    def setup(self, eng):
        st = self.base(eng)
        if self.ri:
            keep = dict(st.w)
            self.mkring(eng, st)
            st.w.update(keep)
        else: self.anyring(eng, st)
        b = [z3.Bool('f%d' % i) for i in range(32)]
        if self.hrole in ('r', 'w'): b[RDONLY] = self.hrole == 'r'; b[WRONLY] = self.hrole == 'w'
        else:
            st.add(z3.Implies(z3.Not(z3.Or(*b[:FENCE])), b[RDONLY] == b[WRONLY])) if self.hrole == 'bad' else None
        self.flags = Bits(32, b)
        self.role = None; self.r2wnull = True
        eng.start(st, 'shr_open', [Ptr('path', 0), self.flags], [])
        return st
    def anyring(self, eng, st):
        """a file of any size with any content"""
        self.stsize = z3.Int('st_size'); st.add(z3.And(self.stsize >= 0, self.stsize < 1 << 63))
        r = Reg('ring', self.stsize, 'undef'); r.kind = 'ring'; st.mem['ring'] = r
        c = r.cells
        self.gf = Bits(32, [z3.Bool('g%d' % i) for i in range(32)])
        self.V = {}
        for f, (o, sz) in self.RF.items():
            if f in ('magic', 'gflags', 'd') or sz > 8 or sz == 0 or f.startswith(('w2r', 'r2w')): continue
            v = z3.Int('h_' + f); st.add(z3.And(v >= 0, v < 1 << (8 * sz))); c[o] = (sz, v); self.V[f] = v
        c[self.RF['gflags'][0]] = (4, self.gf)
        self.n, self.mm, self.pad, self.app = self.V['n'], self.V['mm'], self.V['pad_len'], self.V['app_len']
        mg = eng.m.globals['@magic'][1][1]
        self.MG = Fn('MG', 1, rng=(0, 256))
        eng.addpart(r, 'magic', 0, 1, len(mg), {0: (1, 'int')}, {0: lambda s, i: self.MG(s, i)})
        self.magic = mg
        self.immut = {self.RF[x][0]: x for x in ('magic', 'gflags', 'n', 'mm', 'pad_len', 'mv_len', 'app_len')}
        self.ring0 = r
    def alloc(self, eng, st, size, default, nk=None):
        F = self.SF
        if isc(size) and size == eng.m.size(Ty_named(eng, '%struct.shr')) and default == 'zero' and 's' not in st.mem:
            st.mem['s'] = Reg('s', size, 'zero', kind='heap'); return 's'
        if default == 'undef' and 'cbuf' not in st.mem and 'ring' in st.mem and st.w['mapped']:
            r = Reg('cbuf', size, 'undef', kind='heap'); st.mem['cbuf'] = r
            eng.addpart(r, 'write buffer', 0, 1, size, {0: (1, 'int')}, {0: lambda s, i: UNDEF}); return 'cbuf'
        if default == 'zero' and nk is not None and nk[1] == 16 and 'ciov' not in st.mem:
            r = Reg('ciov', size, 'zero', kind='heap'); st.mem['ciov'] = r
            eng.addpart(r, 'buffered message table', 0, 16, nk[0], {0: (8, 'ptr'), 8: (8, 'int')}, {0: lambda s, i: NULL, 8: lambda s, i: 0}); return 'ciov'
        return None
    def c_open(self, eng, st, av, args, ins):
        self.filearg(eng, st, av[0], 'open')
        fl = simp(toint(av[1]))
        if not isc(fl): raise Unsupported('open mode')
        O = lambda nm, f: eng.oblige(st, ('P12',), nm, f)
        O('the ring file is opened for reading and writing', fl & 3 == 2)
        O('opening a ring creates and truncates nothing', not fl & (O_CREAT | O_TRUNC | O_APPEND | O_PATH))
        f = fail(eng, st, NEG1, note='openfail')
        return [(st, libc.newfd(eng, st, 'ring')), f]
    def c_fstat(self, eng, st, av, args, ins):
        self.ringfile(eng, st, av[0], 'fstat')
        p = eng.pick(st, av[1])
        f = fail(eng, st, NEG1, note='fstatfail')
        M = eng.m.members['stat']
        for nm, (o, sz) in M.items():
            if sz > 8 or sz not in (1, 2, 4, 8): continue
            q = Ptr(p.r, ladd(p.o, o))
            if nm == 'st_size': v = self.stsize
            else:
                v = fresh('st'); st.add(z3.And(v >= 0, v < 1 << (8 * sz)))
            eng.store(st, q, I(8 * sz), v)
        st.w['fstat'] = True
        return [(st, 0), f]
    def c_stat(self, eng, st, av, args, ins): raise Unsupported('stat by name')
    def c_mmap(self, eng, st, av, args, ins):
        self.mapargs(eng, st, av)
        n = toint(av[1])
        eng.oblige(st, ('P12', 'P15'), 'the whole file is mapped, and no more', Eq(n, self.stsize))
        f = fail(eng, st, MAPFAIL, note='mmapfail')
        st.w['mapped'] = True
        st.add(self.stsize > 0)
        if not eng.feasible(st): return [f]
        return [(st, Ptr('ring', 0)), f]
    def acquire(self, eng, st):
        if self.ri:
            a = self.fill_ring(eng, st)
        else:
            a = Acq(); a.reg = st.mem['ring']
            for f in HF: setattr(a, f, self.V[f])
        a.sq = a.smd = 0
        st.w.update(lock=True, locked=True, acq=a, rec=a, force=None, synced=False, dirty=False)
    def on_release2(self, eng, st):
        a = st.w['acq']
        st.w['openforce'] = st.w['force']
        st.w['unsynced'] = st.w['dirty']
        eng.oblige(st, ('P12', 'P01', 'P03', 'P13', 'P14'), 'opening changes no message, counter or application data', st.mem['ring'] is a.reg or self.same_ring(eng, st, a))
        st.mem['ring'] = self.ring0 if st.mem['ring'].alive else st.mem['ring']
    def same_ring(self, eng, st, a):
        r = st.mem['ring']
        if any(p.val[f] is not q.val[f] for p, q in zip(r.parts, a.reg.parts) for f in p.val): return False
        if set(r.cells) != set(a.reg.cells): return False
        return And(*[Eq(toint(r.cells[o][1]), toint(a.reg.cells[o][1])) for o in r.cells if not same(toint(r.cells[o][1]), toint(a.reg.cells[o][1]))])
    def c_bw_open(self, eng, st, av, args, ins):
        if self.hrole not in ('r', 'w'):
            eng.fail(st, ('P12',), 'no waiter is registered for an invalid mode'); raise PathEnd()
        d = st.w['dirty']
        out = super().c_bw_open(eng, st, av, args, ins)
        for s, v in out:
            m = s.mem.get(getattr(v, 'r', None))
            if m is None or m.attr.get('mode') != 'wait': s.w['dirty'] = d if m is not None else True
        return out
    def wf(self, a, app=True):
        V = self.V; n = V['n']
        mg = And(*[Eq(self.MG(self.wst, i), b) for i, b in enumerate(self.magic)])
        tot = ladd(ladd(ladd(V['n'], V['pad_len']), ladd(V['mv_len'], V['app_len'])), self.ringsz)
        return And(self.stsize >= self.ringsz + 1, mg, tot <= self.stsize, V['u'] <= n, V['i'] < n, V['r'] < V['mm'])
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        w = st.w
        O(('P07', 'P19'), 'the ring lock is released when the call returns', not w['lock'])
        fb = self.flags.b
        bad = Or(*fb[:FENCE]) if self.hrole in ('r', 'w') else True
        if self.hrole == 'any': bad = Or(Eq(zb(fb[RDONLY]), zb(fb[WRONLY])), *fb[:FENCE])
        rv = eng.pick(st, rv)
        if rv.r is None:
            O(('P19',), 'a failed open leaves no memory behind', not w['heap'])
            O(('P19',), 'a failed open leaves no descriptor open', not w['fds'])
            O(('P19', 'P16'), 'a failed open leaves no waiter registered', not w['bwopen'])
            O(('P19',), 'a failed open leaves no mapping behind', w['unmapped'] or not w['mapped'])
            if w['sysfail']: return
            if self.ri: O(('P12',), 'a ring of this library is refused only for an invalid mode or a failed system call', bad)
            else:
                self.wst = st
                O(('P12',), 'opening is refused only for an ill-formed file, an invalid mode or a failed system call', Or(bad, Not(self.wf(None)) if w['mapped'] else False, self.stsize < self.ringsz + 1))
            return
        O(('P12', 'P15'), 'a handle is returned', rv.r == 's' and 's' in w['heap'] and isc(simp(rv.o)) and simp(rv.o) == 0)
        if rv.r != 's': return
        O(('P12', 'P25'), 'an invalid mode is refused', Not(bad))
        if self.hrole not in ('r', 'w'):
            O(('P12', 'P25'), 'an invalid mode is refused', False); return
        O(('P07', 'P12'), 'the ring is checked under the lock', w['locked'])
        if not w['locked']: return
        a = w['rec']
        if not self.ri:
            self.wst = st
            for nm, f in (('a file too short to be a ring is refused', self.stsize >= self.ringsz + 1), ('a file without the ring signature is refused', And(*[Eq(self.MG(st, i), b) for i, b in enumerate(self.magic)])),
                          ('a file shorter than its recorded layout is refused', ladd(ladd(ladd(self.V['n'], self.V['pad_len']), ladd(self.V['mv_len'], self.V['app_len'])), self.ringsz) <= self.stsize),
                          ('a fill level beyond the capacity is refused', self.V['u'] <= self.V['n']), ('a write position outside the data area is refused', self.V['i'] < self.V['n']), ('a read slot beyond the slots is refused', self.V['r'] < self.V['mm'])):
                O(('P12',), nm, f)
        O(('P19', 'P15'), 'the ring stays mapped', not w['unmapped'])
        # the state every other contract assumes of a handle
        PT = ('buf', 'w2r', 'r2w', 'c.buf', 'c.iov')
        g = lambda f: eng.load(st, Ptr('s', self.SF[f][0]), PTR if f in PT else I(8 * self.SF[f][1]))
        H = lambda tags, f, x: O(tags, 'handle field %s is set up' % f, Eq(toint(g(f)), x))
        wr = self.hrole == 'w'
        rf = [e for e in w['fds'] if e[1] == 'ring']
        O(('P19',), 'an open handle owns one ring descriptor', len(rf) == 1 and len(w['fds']) == 1)
        if rf: H(('P15', 'P07'), 'ring_fd', rf[0][0])
        p = eng.pick(st, g('buf')); O(('P15',), 'handle field buf is set up', p.r == 'ring' and isc(simp(p.o)) and simp(p.o) == 0)
        H(('P15',), 'n', self.n); H(('P15',), 'mm', self.mm); H(('P15', 'P19', 'P26'), 's.st_size', self.stsize)
        H(('P05', 'P12'), 'q', a.q); H(('P05',), 'md', 0)
        fl = eng.tobits(st, g('flags'), 32)
        O(('P25', 'P12'), 'the handle records the mode asked for', And(*[simp(Eq(zb(x), zb(y))) for x, y in zip(fl.b, fb)]))
        wl, rl = eng.pick(st, g('w2r')), eng.pick(st, g('r2w'))
        O(('P08', 'P15'), 'the line from writers to readers is open', wl.r == 'bw_w2r' and wl.r in w['bwopen'])
        if wr:
            need = And(Not(fb[NONBLOCK]), Not(self.gf.b[DROP]))
            O(('P08', 'P25'), 'a writer that may have to wait can be woken', Or(Not(need), rl.r == 'bw_r2w'))
        else: O(('P08', 'P15'), 'the line from readers to writers is open', rl.r == 'bw_r2w')
        O(('P15', 'P19'), 'exactly the open lines are in the handle', set(w['bwopen']) == {x.r for x in (wl, rl) if x.r is not None})
        x = w.get('waitfd')
        wv = toint(g('wait_fd'))
        O(('P09', 'P15'), 'the wait descriptor is the one of the line waited on, or -1', Eq(wv, x if x is not None else NEG1))
        hp = {'s'}
        cb, ci = eng.pick(st, g('c.buf')), eng.pick(st, g('c.iov'))
        if wr:
            isb = eng.decide(st, fb[BUFFERED])
            if isb is None: isb = cb.r is not None
            O(('P10', 'P25'), 'a write buffer is set up exactly when asked for', Eq(zb(fb[BUFFERED]), zb(isb)))
        else: isb = False
        if isb:
            hp |= {'cbuf', 'ciov'}
            ok = cb.r == 'cbuf' and ci.r == 'ciov' and isc(simp(cb.o)) and simp(cb.o) == 0 and isc(simp(ci.o)) and simp(ci.o) == 0
            O(('P10', 'P15'), 'the write buffer and its table are allocated', ok)
            if ok:
                cs, ct = toint(g('c.sz')), toint(g('c.vt'))
                O(('P10', 'P15'), 'the write buffer is as large as recorded', Eq(cs, st.mem['cbuf'].size))
                O(('P10', 'P15'), 'the table of buffered messages is as large as recorded', Eq(lmul(ct, 16), st.mem['ciov'].size))
                O(('P10',), 'what is buffered fits an empty ring', And(zb(Z(cs) <= self.n), zb(Z(ct) <= self.mm)))
                O(('P10',), 'the write buffer can hold something', And(zb(Z(cs) >= 1), zb(Z(ct) >= 1)))
                H(('P10', 'P15'), 'c.n', 0); H(('P10', 'P15'), 'c.vm', 0)
        else:
            O(('P10', 'P15'), 'no write buffer otherwise', cb.r is None and ci.r is None)
            for f in ('c.sz', 'c.n', 'c.vt', 'c.vm'): H(('P10', 'P15', 'P14'), f, 0)
        O(('P19',), 'an open handle owns its memory and no more', set(w['heap']) == hp)
        if not wr:
            fv = w['openforce']
            O(('P09',), 'the initial readiness of a reader is set', fv is not None)
            if fv is not None:
                un = z3.If(self.gf.b[FARM], a.mp > 0, a.m > 0) if self.ri else self.V['u'] > 0
                O(('P09',), 'the descriptor of a new reader is ready exactly if there are unread messages', Eq(zb(Not(Eq(fv, 0))), un))
        O(('P26',), 'a synchronous ring is flushed before success is reported', Or(Not(self.gf.b[SYNC]), not w.get('unsynced', False)))
        O(('P26',), 'a ring to be locked in memory is locked before success is reported', Or(Not(self.gf.b[MLOCK]), w['mlocked']))
    def c_munmap(self, eng, st, av, args, ins):
        eng.oblige(st, ('P15', 'P19'), 'only what was mapped is unmapped', st.w['mapped'] and not st.w['unmapped'])
        if st.w['unmapped'] or not st.w['mapped']: raise PathEnd()
        return super().c_munmap(eng, st, av, args, ins)

# ------------------------------------------------------------------ init
class Init(Base):
    fn = 'shr_init'
    hrole = None
    def __init__(self, app, mx): self.wapp, self.wmx = app, mx
    def setup(self, eng):
        st = self.base(eng)
        self.role = None
        n = self.n = z3.Int('data_sz'); st.add(z3.And(n >= 0, n < 1 << 64))
        b = [z3.Bool('f%d' % i) for i in range(32)]
        b[APPDATA], b[MAXMSGS] = self.wapp, self.wmx
        self.flags = Bits(32, b); self.gf = Bits(32, [False] * 32)
        self.app = 0; va = []
        if self.wapp:
            self.app = z3.Int('appsize'); st.add(z3.And(self.app >= 0, self.app < 1 << 64))
            self.AP = Fn('AP', 1, rng=(0, 256))
            r = Reg('appbuf', self.app, 'undef'); r.ro = True; st.mem['appbuf'] = r
            eng.addpart(r, 'application data given', 0, 1, self.app, {0: (1, 'int')}, {0: lambda s, i: self.AP(s, i)})
            va += [Ptr('appbuf', 0), self.app]
        dflt = z3.Int('dfltmsgs')
        st.add(z3.And(100 * (dflt - 100) <= n, n < 100 * (dflt - 100) + 100))
        if self.wmx:
            x = z3.Int('max_msgs'); st.add(z3.And(x >= 0, x < 1 << 64)); va.append(x)
            self.mm = z3.If(x == 0, dflt, x)
        else: self.mm = dflt
        m = z3.Int('mm_wanted'); st.add(m == self.mm); self.mm = m
        pad, k = z3.Int('pad_wanted'), z3.Int('padk')
        st.add(z3.And(pad >= 0, pad < 8, n + pad == 8 * k)); self.pad = pad
        self.tot = ladd(ladd(ladd(n, pad), lmul(m, 16)), ladd(self.app, self.ringsz))
        self.exists = z3.Bool('exists')
        st.w.update(file='init', fsize=None, trerr=None, unlinkfail=False, rec=None)
        self.stsize = None
        eng.start(st, 'shr_init', [Ptr('path', 0), n, self.flags], va)
        return st
    def acquire(self, eng, st): st.w.update(lock=True, locked=True)
    def fileis(self, st): return {'init': self.exists, 'none': False, 'new': True, 'reused': True}[st.w['file']]
    def c_access(self, eng, st, av, args, ins):
        self.filearg(eng, st, av[0], 'access')
        if simp(toint(av[1])) != 0: raise Unsupported('access mode')
        ex = self.fileis(st)
        f = fail(eng, st, NEG1, note='accessfail')
        out = [f]
        n = st.fork(); n.model = None; n.add(zb(Not(ex))); errno_set(eng, n)
        if eng.feasible(n): out.append((n, NEG1))
        st.add(zb(ex))
        if eng.feasible(st): out.insert(0, (st, 0))
        return out
    def c_unlink(self, eng, st, av, args, ins):
        self.filearg(eng, st, av[0], 'unlink')
        O = lambda nm, f: eng.oblige(st, ('P11',), nm, f)
        fs = st.w['file']
        if fs == 'init':
            O('with keep-existing an existing file is left untouched', Or(Not(self.flags.b[KEEPEXIST]), Not(self.exists)))
            O('a file is removed only when it is known to exist', True)
        elif fs == 'none': O('only a file that existed before or was created here is removed', False)
        f = fail(eng, st, NEG1, note='unlinkfail')
        st.w['file'] = 'none'
        if fs == 'init': st.add(self.exists)
        if not eng.feasible(st): return [f]
        return [(st, 0), f]
    def c_open(self, eng, st, av, args, ins):
        self.filearg(eng, st, av[0], 'open')
        fl = simp(toint(av[1]))
        if not isc(fl): raise Unsupported('open mode')
        O = lambda nm, f: eng.oblige(st, ('P11',), nm, f)
        O('the new file is opened for reading and writing', fl & 3 == 2 and not fl & (O_APPEND | O_PATH))
        O('the ring file is created, and only if no other exists', bool(fl & O_CREAT and fl & O_EXCL))
        ex = self.fileis(st)
        if not st.w.get('accessfail'): O('an existing file is removed before the new one is created', Not(ex))
        f = fail(eng, st, NEG1, note='openfail')
        st.add(zb(Not(ex)))
        if not eng.feasible(st): return [f]
        st.w['file'] = 'new'
        if len(av) < 3: O('a mode is given for the new file', False)
        else:
            md = simp(toint(av[2])); O('the owner may read and write the new file', isc(md) and md & 0o600 == 0o600)
        return [(st, libc.newfd(eng, st, 'ring')), f]
    def c_ftruncate(self, eng, st, av, args, ins):
        self.ringfile(eng, st, av[0], 'ftruncate')
        n = toint(av[1])
        f = fail(eng, st, NEG1, note='truncfail')
        f[0].w['trerr'] = eng.cell(f[0], f[0].mem['errno'], 0, 4)
        st.add(zb(Z(n) < 1 << 63))
        if not eng.feasible(st): return [f]
        st.w['fsize'] = n
        return [(st, 0), f]
    def c_mmap(self, eng, st, av, args, ins):
        self.mapargs(eng, st, av)
        n = toint(av[1])
        if st.w['fsize'] is not None: eng.oblige(st, ('P11', 'P15'), 'no more is mapped than the file holds', zb(Z(n) <= st.w['fsize']))
        else:
            # hugetlbfs: the mapping gives the file its size, and ftruncate says EINVAL
            eng.oblige(st, ('P11', 'P15'), 'the file gets its size before it is mapped', Eq(st.w['trerr'], 22) if st.w['trerr'] is not None else False)
            st.w['fsize'] = n
        f = fail(eng, st, MAPFAIL, note='mmapfail')
        st.add(zb(Z(n) > 0)); st.add(zb(Z(n) < BIG * 16))
        if not eng.feasible(st): return [f]
        st.w['mapped'] = True; self.stsize = n
        r = Reg('ring', n, 'zero'); r.kind = 'ring'; st.mem['ring'] = r
        self.immut = {}
        mg = eng.m.globals['@magic'][1][1]; self.magic = mg
        zero = lambda s, i: 0
        eng.addpart(r, 'magic', 0, 1, len(mg), {0: (1, 'int')}, {0: zero})
        self.app0 = zero
        d = ladd(self.n, self.pad)
        eng.addpart(r, 'ring data', self.OFFD, 1, self.n, {0: (1, 'int')}, {0: zero})
        eng.addpart(r, 'app data', ladd(ladd(d, lmul(self.mm, 16)), self.OFFD), 1, self.app, {0: (1, 'int')}, {0: zero})
        return [(st, Ptr('ring', 0)), f]
    def on_store(self, eng, st, r, part, off, size, v): pass
    def on_bytes(self, eng, st, r, loc, off, n): pass
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        w = st.w; v = simp(toint(rv)); T = ('P11',); fb = self.flags.b
        O(('P07', 'P19'), 'the ring lock is released when the call returns', not w['lock'])
        O(('P19', 'P11'), 'creating a ring leaves no descriptor open', not w['fds'])
        O(('P19',), 'creating a ring leaves no mapping behind', w['unmapped'] or not w['mapped'])
        O(('P19',), 'creating a ring leaves no memory behind', not w['heap'])
        ok = eng.decide(st, Eq(v, 0))
        if ok is None: ok = False; O(T, 'the result is decided by what happened', False)
        bad = Or(Eq(self.n, 0), *fb[FENCE:])
        if not ok:
            O(T, 'errors are reported as -1', Eq(v, NEG1))
            O(T, 'a failed creation leaves no ring file behind', w['file'] != 'new' or w['unlinkfail'])
            if not w['sysfail']: O(T, 'creation is refused only for its arguments or after a failed system call', Or(bad, self.tot + 8 > SSMAX))
            return
        O(T, 'invalid flags and a zero size are refused', Not(bad))
        if w['file'] == 'init':
            O(T, 'success without a new file only to keep an existing one', And(fb[KEEPEXIST], self.exists)); return
        O(T, 'success leaves a new ring file', w['file'] == 'new' and w['mapped'])
        if w['file'] != 'new' or not w['mapped']: return
        O(T + ('P07',), 'the ring is set up under the lock', w['locked'])
        O(T + ('P12', 'P15'), 'the file is large enough for all it records', zb(Z(w['fsize']) >= self.tot))
        O(T, 'the sizes can be represented', self.tot <= SSMAX)
        r = st.mem['ring']
        exp = dict(n=self.n, mm=self.mm, pad_len=self.pad, mv_len=lmul(self.mm, 16), app_len=self.app)
        what = dict(n='byte capacity', mm='message limit', pad_len='padding', mv_len='size of the message table', app_len='length of the application data')
        g = lambda f: eng.load(s2, Ptr('ring', self.RF[f][0]), I(8 * self.RF[f][1]))
        s2 = st.fork(); s2.w['lock'] = True; s2.wreg('ring').alive = True
        for f, x in exp.items():
            tags = T + (('P13',) if f == 'app_len' else ()) + ('P12', 'P15')
            O(tags, 'the %s of the new ring is as asked for' % what[f], Eq(toint(g(f)), x))
        gfl = eng.tobits(st, g('gflags'), 32)
        want = {DROP: Or(fb[DROP], fb[FARM]), FARM: fb[FARM], SYNC: fb[SYNC], MLOCK: fb[MLOCK]}
        O(T + ('P04', 'P05', 'P26'), 'the modes of the new ring are as asked for', And(*[simp(Eq(zb(gfl.b[i]), zb(want.get(i, False)))) for i in range(32)]))
        known = {self.RF[f][0] for f in list(exp) + ['gflags']}
        bad = [o for o, (sz, x) in r.cells.items() if o not in known and o < self.OFFD]
        O(T + ('P12', 'P14'), 'everything else in the control area of the new ring is zero', And(*[simp(Eq(toint(r.cells[o][1]), 0)) if not isinstance(r.cells[o][1], (Ptr, CondPtr)) else self.isnull(r.cells[o][1]) for o in bad]))
        mg = [r.parts[0].val[0](st, i) for i in range(len(self.magic))]
        O(T + ('P12',), 'the new ring carries the signature', And(*[simp(Eq(x, y)) for x, y in zip(mg, self.magic)]))
        if self.wapp:
            t = st.fork(); y = fresh('y'); t.add(z3.And(y >= 0, y < self.app))
            if eng.feasible(t): eng.oblige(t, T + ('P13',), 'the new ring holds the application data given', Eq(t.mem['ring'].parts[2].val[0](t, y), self.AP(t, y)))
    def c_munmap(self, eng, st, av, args, ins):
        eng.oblige(st, ('P15', 'P19'), 'only what was mapped is unmapped', st.w['mapped'] and not st.w['unmapped'])
        if st.w['unmapped'] or not st.w['mapped']: raise PathEnd()
        return super().c_munmap(eng, st, av, args, ins)
