"""Contracts of the remaining calls of src/shr.c on an open handle: shr_flush,
shr_close, shr_stat, shr_farm_stat, shr_appdata, shr_get_selectable_fd, shr_ctl
and the wrappers shr_write, shr_read."""
import z3
from sym import *
import sym, libc
from libc import fail, NEG1, NEG1L, errno_set
from ring import *
from spec_shr import ShrSpec, flush_contract, Z
M3 = (1 << 64) - 3

class Api(ShrSpec):
    """common to the calls below: sync tracking and the contracts they share"""
    role0 = None
    def __init__(self, role=None): self.hrole = role or self.role0
    def setup(self, eng):
        st = self.begin(eng)
        self.mkhandle(eng, st, self.hrole)
        st.w.update(changed=False, effsync=True, closed=(), unmapped=False, opened=(), nflush=0)
        self.args(eng, st)
        self.snapshot(st)
        return st
    def O(self, eng, s, tags, nm, f): return eng.oblige(s, tags, nm, f)
    def ringsame(self, st, a): return st.mem['ring'] is a.reg
    def c_bw_open(self, eng, st, av, args, ins):
        flags, h = simp(toint(av[0])), eng.pick(st, av[1])
        self.need_lock(eng, st, 'bw_open')
        line = None
        for l in ('w2r', 'r2w'):
            if h.r == 'ring' and isc(simp(h.o)) and simp(h.o) == self.RF[l][0]: line = l
        eng.oblige(st, ('P15', 'P16'), 'bw_open is given a registry of this ring', line is not None)
        if line is None: raise PathEnd()
        mode = {2: 'wake', 4: 'wait'}.get(flags)
        eng.oblige(st, ('P15', 'P16'), 'bw_open is asked for one mode', mode is not None)
        if mode is None: raise PathEnd()
        want = 'wait' if (self.hrole == 'r') == (line == 'w2r') else 'wake'
        eng.oblige(st, ('P08', 'P17', 'P25'), 'readers wait and writers wake on w2r; writers wait and readers wake on r2w', mode == want)
        st.w['dirty'] = True
        f = fail(eng, st, NULL, note='bwopenfail')
        if mode == 'wait':
            fd = fresh('wfd'); st.add(z3.And(fd >= 0, fd < 1 << 20))
            for x in st.w['fds']: st.add(Not(Eq(fd, x[0])))
            p = eng.pick(st, av[2]) if len(av) > 2 else NULL
            eng.oblige(st, ('P15',), 'a wait mode open passes a place for the descriptor', p.r is not None)
            if p.r is None: raise PathEnd()
            eng.store(st, p, I(32), fd)
            st.w['waitfd'] = fd
        st.w['bwopen'] = st.w.get('bwopen', ()) + ('bw_' + line,)
        st.w['opened'] = st.w.get('opened', ()) + (line,)
        st.mem['bw_' + line] = Reg('bw_' + line, 0, kind='opaque'); st.mem['bw_' + line].attr.update(line=line, mode=mode)
        return [(st, Ptr('bw_' + line, 0)), f]
    def c_bw_close(self, eng, st, av, args, ins):
        rn, at = self.bwof(eng, st, av[0], None, 'bw_close')
        self.need_lock(eng, st, 'bw_close')
        st.w['bwopen'] = tuple(x for x in st.w['bwopen'] if x != rn)
        st.w['closed'] = st.w.get('closed', ()) + (at['line'],)
        st.w['dirty'] = True
        return [(st, None)]
    def c_bw_ctl(self, eng, st, av, args, ins):
        rn, at = self.bwof(eng, st, av[0], 'wait', 'bw_ctl')
        flag = simp(toint(av[1]))
        f = fail(eng, st, NEG1, note='ctlfail')
        st.w['ctl'] = (at['line'], flag, toint(av[2]) if len(av) > 2 else None)
        return [(st, 0), f]
    def c_munmap(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        ok = p.r == 'ring' and isc(simp(p.o)) and simp(p.o) == 0 and st.mem['ring'].alive
        eng.oblige(st, ('P15', 'P19'), 'the mapping is unmapped once, from its start', bool(ok))
        if not ok: raise PathEnd()
        eng.oblige(st, ('P15', 'P19'), 'the whole mapping is unmapped', Eq(toint(av[1]), self.stsize))
        st.w['unmapped'] = True
        st.wreg('ring').alive = False
        return [(st, 0)]
    def on_release(self, eng, st, a, g):
        if st.mem['ring'] is not a.reg:
            st.w['changed'] = True
            st.w['effsync'] = bool(st.w['synced'] and not st.w['dirty'])
    def success_sync(self, eng, s):
        if s.w['changed']: eng.oblige(s, ('P26',), 'a synchronous ring is flushed before success is reported', Or(Not(self.gf.b[SYNC]), bool(s.w['effsync'])))
    def session(self, eng, st, a):
        """by default these calls leave messages, counters and application data alone"""
        if st.mem['ring'] is not a.reg:
            self.check_frame(eng, st, a)
            self.frame_msgs(eng, st, a)
            self.stats(eng, st, a, {})
        self.on_release(eng, st, a, a)
    def frame_msgs(self, eng, st, a):
        eng.oblige(st, ('P01', 'P03', 'P12', 'P13', 'P14'), 'this call leaves the messages of the ring alone', self.unchanged(eng, st, a, HF))
        for nm, pi in (('ring data', 'D'), ('message slots', 'MV')):
            p0, p1 = a.reg.parts[self.PI[pi]], st.mem['ring'].parts[self.PI[pi]]
            if any(p0.val[f] is not p1.val[f] for f in p0.val): eng.fail(st, ('P01', 'P03', 'P12', 'P13'), 'this call leaves the %s alone' % nm)

# ------------------------------------------------------------------ flush
class Flush(Api):
    fn, role0 = 'shr_flush', 'w'
    has_iov = False
    may_change = ('wait_fd', 'r2w')
    def args(self, eng, st):
        self.wait = z3.Int('wait'); st.add(z3.And(self.wait >= 0, self.wait < 1 << 32))
        eng.start(st, 'shr_flush', [Ptr('s', 0), self.wait])
    def c_shr_writev(self, eng, st, av, args, ins):
        fl = eng.tobits(st, self.sget(eng, st, 'flags'), 32)
        r = flush_contract(self, eng, st, av)
        blocking_wanted = Or(Not(self.flags.b[NONBLOCK]), self.wait != 0)
        eng.oblige(st, ('P25',), 'a flush blocks exactly when the mode or the caller asks for it', Eq(zb(Not(fl.b[NONBLOCK])), zb(blocking_wanted)))
        return r
    def at_end(self, eng, st, rv):
        O = lambda s, tags, nm, f: eng.oblige(s, tags, nm, f)
        for s, kind in self.positive(eng, st, rv):
            v = toint(rv)
            self.at_return(eng, s, rv)
            n1, m1 = toint(self.sget(eng, s, 'c.n')), toint(self.sget(eng, s, 'c.vm'))
            for f in ('c.buf', 'c.iov', 'c.sz', 'c.vt'):
                x, y = self.sget(eng, s, f), eng.cell(s, self.s0, *self.SF[f])
                if not same(x, y): O(s, ('P10', 'P15'), 'write buffer geometry unchanged', Eq(x, y))
            for rn, r0 in (('cbuf', self.cbuf0), ('ciov', self.ciov0)):
                if any(s.mem[rn].parts[0].val[f] is not r0.parts[0].val[f] for f in r0.parts[0].val): O(s, ('P10',), 'the buffered messages are not altered', False)
            if s.w['flushed']:
                O(s, ('P10',), 'a buffer moved to the ring is emptied', And(Eq(n1, 0), Eq(m1, 0)))
                O(s, ('P10', 'P02'), 'a successful flush returns the bytes moved', Eq(v, self.cn))
            else:
                O(s, ('P10',), 'a buffer not moved to the ring stays whole', And(Eq(n1, self.cn), Eq(m1, self.cvm)))
                O(s, ('P10',), 'nothing moved is not reported as success', kind != 'pos')
                if kind == 'zero':
                    bl = Or(Not(self.flags.b[NONBLOCK]), self.wait != 0)
                    O(s, ('P10', 'P25'), 'zero means an empty buffer or a full ring and no wish to wait', Or(Eq(self.cn, 0), And(s.w['flushzero'], Not(bl))))
                else:
                    O(s, ('P20',), 'a watched descriptor yields -3', Eq(Eq(v, M3), bool(s.w['pollfd'])))
                    O(s, ('P10', 'P25'), 'an error only after a failed system call or wait', bool(s.w['sysfail'] or s.w['pollfd']))
            if s.w['nflush'] == 0 and not s.w['sysfail']: O(s, ('P10',), 'a non-empty buffer is passed to the ring', Eq(self.cn, 0))
            for l in s.w['opened']:
                O(s, ('P19', 'P25'), 'a wait line opened for the flush is kept in the handle', self.sget(eng, s, l) == Ptr('bw_' + l, 0) if False else self.isptr(self.sget(eng, s, l), 'bw_' + l))
                O(s, ('P19', 'P25'), 'a wait line is opened only if there is none', self.r2wnull)
                x = s.w.get('waitfd')
                if x is not None: O(s, ('P09', 'P15'), 'its descriptor is recorded', Eq(toint(self.sget(eng, s, 'wait_fd')), x))
            if not s.w['opened']:
                x, y = self.sget(eng, s, 'r2w'), eng.cell(s, self.s0, *self.SF['r2w'])
                if not same(x, y): O(s, ('P15', 'P25', 'P19'), 'the wait line is unchanged', Eq(zb(self.isnull(x)), zb(self.isnull(y))))
    def isptr(self, v, rn): return isinstance(v, Ptr) and v.r == rn

# ------------------------------------------------------------------ close
class Close(Api):
    fn = 'shr_close'
    def args(self, eng, st):
        st.w['flushcalls'] = 0
        eng.start(st, 'shr_close', [Ptr('s', 0)])
    def c_shr_flush(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        eng.oblige(st, ('P10',), 'close flushes this handle', p.r == 's')
        eng.oblige(st, ('P15', 'P10'), 'only a writer is flushed', self.hrole == 'w')
        eng.oblige(st, ('P07',), 'the lock is not held across the flush', not st.w['lock'])
        eng.oblige(st, ('P10', 'P15'), 'the handle is still whole when it is flushed', bool(st.mem['s'].alive and st.mem['ring'].alive and 'bw_w2r' in st.w['bwopen'] and (self.hrole == 'r' or (st.mem['cbuf'].alive and st.mem['ciov'].alive))))
        w = simp(toint(av[1]))
        eng.oblige(st, ('P25',), 'closing a non-blocking handle does not wait', Or(Not(self.flags.b[NONBLOCK]), Eq(w, 0)))
        st.w['flushcalls'] = st.w['flushcalls'] + 1
        e = fail(eng, st, NEG1L, note='flushfail')
        z = st.fork(); z.w['flushzero'] = True
        # a successful flush empties the buffer
        r = fresh('nr'); st.add(z3.And(r > 0, r < (1 << 63)))
        w_ = st.wreg('s'); eng.setcell(w_, self.SF['c.n'][0], 8, 0); eng.setcell(w_, self.SF['c.vm'][0], 8, 0)
        return [(st, r), (z, 0), e]
    def closed(self, eng, st, e):
        if st.w.get('lock') and e[1] == 'ring':
            self.release(eng, st)
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        O(('P07', 'P19'), 'the ring lock is released when the call returns', not st.w['lock'])
        if self.hrole == 'w': O(('P10',), 'a non-empty buffer is flushed by close', Or(Eq(self.cn, 0), st.w['flushcalls'] >= 1))
        O(('P10',), 'close flushes at most once', st.w['flushcalls'] <= 1)
        if not st.w['lockfail']:
            O(('P19', 'P16'), 'the wake/wait line w2r is closed', 'w2r' in st.w['closed'])
            O(('P19', 'P16'), 'the wake/wait line r2w is closed if open', Or(self.r2wnull if self.hrole == 'w' else False, 'r2w' in st.w['closed']))
        O(('P19',), 'every line is closed once', len(set(st.w['closed'])) == len(st.w['closed']))
        O(('P19',), 'the mapping is released', bool(st.w['unmapped']))
        if self.hrole == 'w':
            b = self.flags.b[BUFFERED]
            for rn in ('cbuf', 'ciov'): O(('P19',), 'the write buffer is freed', Or(Not(b), rn not in st.w['heap']))
        O(('P19',), 'the handle is freed', 's' not in st.w['heap'])
        O(('P19',), 'the ring descriptor is closed', len(st.w['fds']) == 0)

# ------------------------------------------------------------------ stat
class Stat(Api):
    fn = 'shr_stat'
    def args(self, eng, st):
        M = eng.m.members['shr_stat']; self.ST = M
        st.mem['ustat'] = Reg('ustat', eng.m.size(Ty_named(eng, '%struct.shr_stat')), 'undef')
        r = Reg('ureset', 16, 'undef'); st.mem['ureset'] = r
        self.rsec, self.rusec = z3.Int('reset_sec'), z3.Int('reset_usec')
        for x in (self.rsec, self.rusec): st.add(z3.And(x >= 0, x < 1 << 64))
        r.cells[0] = (8, self.rsec); r.cells[8] = (8, self.rusec); r.ro = True
        self.noreset = z3.Bool('reset_null')
        st.w['statrec'] = None
        eng.start(st, 'shr_stat', [Ptr('s', 0), Ptr('ustat', 0), CondPtr(self.noreset, NULL, Ptr('ureset', 0))])
    def session(self, eng, st, a):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        reset = False
        if st.mem['ring'] is not a.reg:
            self.frame_fixed(eng, st, a)
            self.frame_msgs(eng, st, a)
            g = lambda f: toint(eng.cell(st, st.mem['ring'], *self.RF['stat.' + f]))
            same_all = And(*[Eq(g(f), getattr(a, 's_' + f)) for f in STATS])
            zero = And(*[Eq(g(f), 0) for f in STATS])
            start = And(Eq(g('start.tv_sec'), self.rsec), Eq(g('start.tv_usec'), self.rusec))
            if eng.valid(st, And(zero, start)): reset = True
            O(('P14',), 'statistics change only by a requested reset', Or(And(same_all, Eq(g('start.tv_sec'), a.s_start_tv_sec), Eq(g('start.tv_usec'), a.s_start_tv_usec)), And(Not(self.noreset), zero, start)))
        st.w['statrec'] = (a, reset)
        self.on_release(eng, st, a, a)
    def frame_fixed(self, eng, st, a):
        for f in ('gflags', 'n', 'mm', 'pad_len', 'mv_len', 'app_len'):
            x, y = self.rget(eng, st, f), eng.cell(st, a.reg, *self.RF[f])
            if not same(x, y): eng.oblige(st, ('P12', 'P15', 'P01', 'P14'), 'fixed ring field %s unchanged' % f, zb(Eq(toint(x), toint(y))))
        if not self.mag_same(st, a): eng.fail(st, ('P12',), 'ring signature unchanged')
        if a.reg.parts[self.PI['APP']].val[0] is not st.mem['ring'].parts[self.PI['APP']].val[0]: eng.fail(st, ('P13',), 'application data unchanged')
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        self.at_return(eng, st, rv)
        v = simp(toint(rv))
        ok = eng.decide(st, Eq(v, 0))
        if ok is None: ok = False; O(('P14',), 'the result is decided by what happened', False)
        if not ok:
            O(('P14',), 'errors are reported as -1', Eq(v, NEG1))
            O(('P14',), 'an error only after a failed system call', bool(st.w['sysfail'])); return
        O(('P14',), 'success only if the lock was obtained', not st.w['lockfail'])
        rec = st.w['statrec']
        O(('P14',), 'statistics are taken under the lock', rec is not None)
        if rec is None: return
        a, reset = rec
        O(('P14',), 'a requested reset zeroes the counters and records the start time', Or(self.noreset, reset))
        self.success_sync(eng, st)
        g = lambda f: eng.cell(st, st.mem['ustat'], *self.ST[f])
        def chk(f, x, what):
            y = g(f)
            if y is None or isinstance(y, Undef): O(('P14',), '%s is reported' % what, False); return
            O(('P14',), '%s is reported exactly' % what, Eq(toint(y), toint(x)))
        for f in STATS: chk(f, getattr(a, 's_' + f), 'counter ' + f)
        chk('start.tv_sec', a.s_start_tv_sec, 'the start time'); chk('start.tv_usec', a.s_start_tv_usec, 'the start time')
        chk('bn', self.n, 'the byte capacity'); chk('mm', self.mm, 'the slot count'); chk('bu', a.u, 'the unread byte count'); chk('mu', a.m, 'the unread message count')
        chk('cn', self.sget(eng, st, 'c.sz'), 'the buffer size'); chk('cm', self.sget(eng, st, 'c.vm'), 'the buffered message count'); chk('cb', self.sget(eng, st, 'c.n'), 'the buffered byte count')
        y = g('flags')
        x = eng.tobits(st, y, 32) if y is not None and not isinstance(y, Undef) else None
        O(('P14',), 'the ring modes are reported exactly', And(*[simp(Eq(zb(p), zb(q))) for p, q in zip(x.b, self.gf.b)]) if x is not None else False)

class FarmStat(Api):
    fn, role0 = 'shr_farm_stat', 'r'
    may_change = ('md',)
    def args(self, eng, st):
        self.rs = z3.Int('reset'); st.add(z3.And(self.rs >= 0, self.rs < 1 << 32))
        eng.start(st, 'shr_farm_stat', [Ptr('s', 0), self.rs])
    def at_end(self, eng, st, rv):
        self.at_return(eng, st, rv)
        eng.oblige(st, ('P05',), 'the drop count is reported', Eq(toint(rv), self.hmd))
        eng.oblige(st, ('P05',), 'the drop count is zeroed exactly when asked', Eq(toint(self.sget(eng, st, 'md')), z3.If(self.rs != 0, z3.IntVal(0), self.hmd)))
        eng.oblige(st, ('P05',), 'the reader position is unchanged', Eq(toint(self.sget(eng, st, 'q')), self.hq))

# ------------------------------------------------------------------ application data
class Appdata(Api):
    fn = 'shr_appdata'
    def args(self, eng, st):
        sz = z3.Int('sz'); self.sz = sz; st.add(z3.And(sz >= 0, sz < BIG))
        self.gnull, self.pnull, self.snull = z3.Bool('get_null'), z3.Bool('getp_null'), z3.Bool('set_null')
        # both at once needs a buffer to fetch into; neither is not a request
        st.add(z3.Not(z3.And(z3.Not(self.gnull), self.pnull, z3.Not(self.snull)))); st.add(z3.Not(z3.And(self.gnull, self.snull)))
        self.G0, self.S0 = Fn('G0', 1, rng=(0, 256)), Fn('S0', 1, rng=(0, 256))
        for nm, fn in (('getbuf', self.G0), ('setbuf', self.S0)):
            r = Reg(nm, sz, 'undef'); st.mem[nm] = r
            eng.addpart(r, 'caller buffer', 0, 1, sz, {0: (1, 'int')}, {0: (lambda fn: lambda s, i: fn(s, i))(fn)})
        st.mem['setbuf'].ro = True
        self.gb0 = st.mem['getbuf'].parts[0].val[0]
        g = Reg('getp', 8, 'undef'); g.cells[0] = (8, CondPtr(self.pnull, NULL, Ptr('getbuf', 0))); st.mem['getp'] = g
        z = Reg('szp', 8, 'undef'); z.cells[0] = (8, sz); st.mem['szp'] = z
        st.w['apprec'] = None
        eng.start(st, 'shr_appdata', [Ptr('s', 0), CondPtr(self.gnull, NULL, Ptr('getp', 0)), CondPtr(self.snull, NULL, Ptr('setbuf', 0)), Ptr('szp', 0)])
    def app_ok(self, eng, st, a, p1): return True
    def on_release(self, eng, st, a, g):
        super().on_release(eng, st, a, g)
        eng.oblige(st, ('P13',), 'one locked session', st.w['apprec'] is None)
        st.w['apprec'] = (a, a.reg.parts[self.PI['APP']].val[0], st.mem['ring'].parts[self.PI['APP']].val[0])
    def at_return(self, eng, st, rv):
        h = st.w['heap']; st.w['heap'] = self.heap0
        super().at_return(eng, st, rv)
        st.w['heap'] = h
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        self.at_return(eng, st, rv)
        v = simp(toint(rv))
        ok = eng.decide(st, Eq(v, 0))
        if ok is None: ok = False; O(('P13',), 'the result is decided by what happened', False)
        rec = st.w['apprec']
        def each(nm, n, get, want):
            t = st.fork(); y = fresh('y'); t.add(z3.And(y >= 0, y < n))
            if eng.feasible(t):
                x = get(t, y)
                eng.oblige(t, ('P13',), nm, Eq(x, want(t, y)) if not isinstance(x, Undef) else False)
        A0 = lambda t, y: self.APP(t, y)
        newheap = [h for h in st.w['heap'] if h not in self.heap0]
        if not ok:
            O(('P13',), 'errors are reported as -1', Eq(v, NEG1))
            if not st.w['sysfail']:
                O(('P13',), 'refused only for a length that does not match', Or(Eq(self.app, 0), z3.If(self.snull, z3.And(z3.Not(self.pnull), self.sz < self.app), self.sz != self.app)))
            if not st.w['msyncfail']:
                if rec is not None and rec[1] is not rec[2]: each('a call that fails leaves the stored data alone', self.app, rec[2], A0)
                O(('P13', 'P19'), 'a call that fails keeps no memory', not newheap)
            if st.mem['getbuf'].parts[0].val[0] is not self.gb0 and not st.w['msyncfail']: each('a call that fails leaves the caller buffer alone', self.sz, st.mem['getbuf'].parts[0].val[0], lambda t, y: self.G0(t, y))
            return
        O(('P13',), 'success only if the lock was obtained', not st.w['lockfail'] and rec is not None)
        if rec is None: return
        self.success_sync(eng, st)
        O(('P13',), 'a ring without application data gives -1', self.app != 0)
        szo = toint(eng.cell(st, st.mem['szp'], 0, 8))
        pg = eng.cell(st, st.mem['getp'], 0, 8)
        g, p, sset = [eng.decide(st, x) for x in (self.gnull, self.pnull, self.snull)]
        for x in (self.gnull, self.snull):
            if eng.decide(st, x) is None: raise Fork(x) if False else Unsupported('argument shape undecided')
        if g is False and p is None: raise Unsupported('argument shape undecided')
        if sset:
            if rec[1] is not rec[2]: each('fetching leaves the stored data alone', self.app, rec[2], A0)
            O(('P13',), 'the length returned is the stored length', Eq(szo, self.app))
            if p:
                q = pg if isinstance(pg, Ptr) else eng.pick(st, pg)
                O(('P13',), 'a new buffer of the stored length is returned', bool(q.r in newheap and len(newheap) == 1 and isc(simp(q.o)) and simp(q.o) == 0) and Eq(st.mem[q.r].size, self.app))
                if q.r in newheap: each('the new buffer holds the stored bytes', self.app, lambda t, y: t.mem[q.r].parts[0].val[0](t, y), A0)
                return
            O(('P13',), 'fetching needs a buffer that is large enough', self.sz >= self.app)
        else:
            O(('P13',), 'storing needs exactly the stored length', Eq(self.sz, self.app))
            O(('P13',), 'the length is unchanged', Eq(szo, self.sz))
            each('the stored data is replaced by the bytes given', self.app, rec[2], lambda t, y: self.S0(t, y))
        O(('P13', 'P19'), 'no memory is allocated', not newheap)
        if g is False:
            q = pg if isinstance(pg, Ptr) else eng.pick(st, pg)
            O(('P13',), 'the caller buffer pointer is unchanged', q.r == 'getbuf')
            each('the caller buffer holds the bytes stored before', self.app, st.mem['getbuf'].parts[0].val[0], A0)
            t = st.fork(); y = fresh('y'); t.add(z3.And(y >= self.app, y < self.sz))
            if eng.feasible(t): eng.oblige(t, ('P13',), 'the rest of the caller buffer is untouched', Eq(t.mem['getbuf'].parts[0].val[0](t, y), self.G0(t, y)))

# ------------------------------------------------------------------ small calls
class GetFd(Api):
    fn = 'shr_get_selectable_fd'
    def args(self, eng, st): eng.start(st, 'shr_get_selectable_fd', [Ptr('s', 0)])
    def at_end(self, eng, st, rv):
        self.at_return(eng, st, rv)
        v = toint(rv)
        w = toint(self.sget(eng, st, 'wait_fd'))
        nb = self.flags.b[NONBLOCK]
        eng.oblige(st, ('P09',), 'the wait descriptor is given exactly to non-blocking read handles', Eq(v, z3.If(nb, Z(w), z3.IntVal(NEG1)) if self.hrole == 'r' else NEG1))
class Ctl(Api):
    fn = 'shr_ctl'
    def args(self, eng, st):
        self.flag, self.ufd = z3.Int('flag'), z3.Int('ufd')
        st.add(z3.And(self.flag >= 0, self.flag < 1 << 32, self.ufd >= 0, self.ufd < 1 << 32))
        st.w['ctl'] = None
        self.POLL = eng.m.enums.get('SHR_POLLFD', 1 << 17) if hasattr(eng.m, 'enums') else 1 << 17
        eng.start(st, 'shr_ctl', [Ptr('s', 0), self.flag], [self.ufd])
    def at_end(self, eng, st, rv):
        O = lambda tags, nm, f: eng.oblige(st, tags, nm, f)
        self.at_return(eng, st, rv)
        v = simp(toint(rv)); c = st.w['ctl']
        if c is not None:
            O(('P20',), 'a descriptor is watched only when asked', Eq(self.flag, self.POLL))
            O(('P20',), 'the descriptor is watched on the line this handle waits on', c[0] == ('w2r' if self.hrole == 'r' else 'r2w'))
            O(('P20',), 'the descriptor given is the one watched', And(c[1] == 16, Eq(c[2], self.ufd)))
            O(('P20',), 'success is reported', Eq(v, 0))
        else:
            nowait = False if self.hrole == 'r' else self.r2wnull
            O(('P20',), 'not watched only for an unknown request, a failed system call, or a handle that never waits',
              Or(self.flag != self.POLL, bool(st.w['sysfail']), nowait))
            O(('P20',), 'failure is reported', Or(Eq(v, NEG1), And(Eq(self.flag, self.POLL), nowait, Eq(v, 0))))
class Write1(Api):
    fn, role0 = 'shr_write', 'w'
    T = ('P02', 'P01', 'P03', 'P10')
    def args(self, eng, st):
        st.w['called'] = None
        self.len0 = z3.Int('len'); st.add(z3.And(self.len0 >= 0, self.len0 < 1 << 62))
        r = Reg('ubuf', self.len0, 'undef'); st.mem['ubuf'] = r; self.U = Fn('U', 1, rng=(0, 256))
        eng.addpart(r, 'caller data', 0, 1, self.len0, {0: (1, 'int')}, {0: lambda s, i: self.U(s, i)}); r.ro = True
        eng.start(st, 'shr_write', [Ptr('s', 0), Ptr('ubuf', 0), self.len0])
    def c_shr_writev(self, eng, st, av, args, ins):
        O = lambda nm, f: eng.oblige(st, self.T, nm, f)
        s_, v_ = eng.pick(st, av[0]), eng.pick(st, av[1])
        O('the write goes to the same handle, once', s_.r == 's' and st.w['called'] is None)
        O('one message is written', Eq(toint(av[2]), 1))
        b, l = eng.load(st, v_, PTR), toint(eng.load(st, Ptr(v_.r, ladd(v_.o, 8)), I(64)))
        b = eng.pick(st, b)
        O('the message is the bytes given', And(b.r == 'ubuf', Eq(b.o, 0), Eq(l, self.len0)))
        r = fresh('wr'); st.add(z3.And(r >= 0, r < 1 << 64)); st.w['called'] = r
        return [(st, r)]
    def at_end(self, eng, st, rv):
        self.at_return(eng, st, rv)
        c = st.w['called']
        eng.oblige(st, self.T + ('P20',), 'the result of the write is returned', False if c is None else Eq(toint(rv), c))
class Read1(Api):
    fn, role0 = 'shr_read', 'r'
    T = ('P06', 'P01', 'P05')
    def args(self, eng, st):
        st.w['called'] = None
        self.len0 = z3.Int('len'); st.add(z3.And(self.len0 >= 0, self.len0 < 1 << 62))
        r = Reg('ubuf', self.len0, 'undef'); st.mem['ubuf'] = r
        eng.addpart(r, 'caller buffer', 0, 1, self.len0, {0: (1, 'int')})
        eng.start(st, 'shr_read', [Ptr('s', 0), Ptr('ubuf', 0), self.len0])
    def c_shr_readv(self, eng, st, av, args, ins):
        O = lambda nm, f: eng.oblige(st, self.T, nm, f)
        s_, b, v_, n_ = eng.pick(st, av[0]), eng.pick(st, av[1]), eng.pick(st, av[3]), eng.pick(st, av[4])
        O('the read is from the same handle, once', s_.r == 's' and st.w['called'] is None)
        O('the caller buffer is passed', And(b.r == 'ubuf', Eq(b.o, 0)))
        O('the length of the caller buffer is passed', Eq(toint(av[2]), self.len0))
        O('one element is asked for', Eq(toint(eng.load(st, n_, I(64))), 1))
        eng.oblige(st, ('P15', 'P06'), 'the element vector is valid', v_.r in st.mem)
        if v_.r not in st.mem: raise PathEnd()
        eng.store(st, v_, PTR, Ptr('ubuf', 0)); eng.store(st, Ptr(v_.r, ladd(v_.o, 8)), I(64), fresh('l'))
        k = fresh('k'); st.add(z3.And(k >= 0, k <= 1)); eng.store(st, n_, I(64), k)
        r = fresh('rd'); st.add(z3.And(r >= 0, r < 1 << 64)); st.w['called'] = r
        return [(st, r)]
    def at_end(self, eng, st, rv):
        self.at_return(eng, st, rv)
        c = st.w['called']
        eng.oblige(st, self.T + ('P20', 'P25'), 'the result of the read is returned', False if c is None else Eq(toint(rv), c))
