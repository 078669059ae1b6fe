"""Contracts of the modes of shr-tool that create, write and describe rings:
main in mode create, write, writefile and status, and map.

The command line is an arbitrary sequence of options.  Argument i is the object ARG+i*2^20; ghost variables g_* hold
what the options seen so far ask for:  g_d .. g_l the letters of -m, g_size of -s, g_n of -N, g_a of -A."""
import re, z3
from sym import *
import sym, libc
from libc import Spec, fail, NEG1, NEG1L
from spec_ux import UX, Z
from spec_open import MAPFAIL
from spec_tool import Tool, Main, CFG, enumval, gfields
LETTER = {'d': 1, 'k': 0, 'f': 3, 's': 5, 'l': 6}      # letter of -m -> flag bit of shr.h
APPDATA, MAXMSGS = 2, 4
U63 = 1 << 63
def t(b): return z3.BoolVal(b)

class Cli(Main):
    READ = Main.READ + ('status',)
    def __init__(self, mode):
        Main.__init__(self, mode)
        self.tags = {'create': ('P28',), 'status': ('P30',)}.get(mode, ('P29',)); self.memtags = self.tags
        self.skip = 1 if mode == 'write_file' else 0
    unrollforks = 64
    def unroll(self, key): return self.mode == 'status' and self.ust.w['gotstat']
    def setup(self, eng):
        st = Main.setup(self, eng)
        # strings of the command line: END(a) the end of the one at a, OCC_c(a) the number of c before a
        A = st.mem['ARG']
        self.END = Fn('END', 1, hook=lambda s, a, e: s.add(z3.And(e >= Z(a[0]), e - Z(a[0]) < 1 << 20)))
        self.OCC = {}
        for c in list(LETTER) + ['_']:                     # '_' stands for every other character
            self.OCC[c] = Fn('OCC_' + c, 1, pair=lambda a, x, b, y: And(z3.Implies(Z(a[0]) <= Z(b[0]), x <= y), z3.Implies(Z(a[0]) >= Z(b[0]), x >= y)))
        def byte(s, a, v):
            x = a[0]
            e, e1 = self.END(s, x), self.END(s, ladd(x, 1))
            s.add(z3.If(v == 0, e == Z(x), e == e1))
            for c in LETTER: s.add(self.OCC[c](s, ladd(x, 1)) == self.OCC[c](s, x) + z3.If(v == ord(c), 1, 0))
            s.add(self.OCC['_'](s, ladd(x, 1)) == self.OCC['_'](s, x) + z3.If(z3.Or(v == 0, *[v == ord(c) for c in LETTER]), 0, 1))
            s.add(z3.Implies(Z(x) == (1 << 41) - 1, v == 0))
        self.BY = Fn('argbyte', 1, rng=(0, 256), hook=byte)
        A.parts = [Part('ARG', 0, 1, 1 << 41, {0: (1, 'int')}, {0: lambda s, i: self.BY(s, i)})]
        self.ATOI = Fn('ATOI', 1, rng=(0, 1 << 32))
        self.SCN, self.SCV, self.SCU = Fn('SCN', 1), Fn('SCV', 1, rng=(0, U63)), Fn('SCU', 1, rng=(0, 256))
        self.FLEN = z3.Int('filelen'); st.add(z3.And(self.FLEN >= 1, self.FLEN < U63))
        for d in ('FILE', 'APP', 'STDOUT'): st.mem[d] = Reg(d, 0, kind='opaque')
        self.put(st, 'flags', Bits.const(32, 0))
        st.w.update(g_size=z3.IntVal(0), g_bad=t(False), g_other=t(False), g_unknown=t(False), g_nset=t(False), g_n=z3.IntVal(0), g_aset=t(False), g_a=z3.IntVal(0),
                    made=z3.IntVal(0), failed=t(False), mapped=False, optat=None, stored=0, nline=z3.IntVal(0), pend=t(False), llen=z3.IntVal(0), eof=t(False), printed=(), gotstat=False, app=False, copied=False, copyfail=t(False))
        for c in LETTER: st.w['g_' + c] = t(False)
        return st
    # ---- the command line
    def c_strdup(self, eng, st, av, args, ins):
        if self.argno(eng, st, av[0]) is None and eng.pick(st, av[0]).r != 'ARG': raise Unsupported('strdup')
        return [(st, Ptr('DUP', eng.pick(st, av[0]).o))]
    def scan(self, s, a):
        n, v, u = self.SCN(s, a), self.SCV(s, a), self.SCU(s, a)
        s.add(z3.And(n >= 0, n <= 2))
        k = [z3.Or(u == ord(c), u == ord(c.upper())) for c in 'kmgt']
        val = z3.If(n == 1, v, z3.If(k[0], v * 2 ** 10, z3.If(k[1], v * 2 ** 20, z3.If(k[2], v * 2 ** 30, v * 2 ** 40))))
        return val, z3.Not(z3.Or(n == 1, z3.And(n == 2, z3.Or(*k))))
    def c_getopt(self, eng, st, av, args, ins):
        p = eng.pick(st, av[1]); ops = eng.cstring(st, eng.pick(st, av[2]))
        if p.r != 'argv' or not ops: raise Unsupported('getopt')
        base = simp(Z(p.o) / 8); ac = Z(toint(av[0])); skip = self.skip
        self.O(st, 'the arguments before the options are skipped', And(Eq(base, 1 + skip), Eq(ac, self.argc - 1 - skip)))
        takes = {c: ops[i + 1:i + 2] == ':' for i, c in enumerate(ops) if c != ':'}
        need = {'create': 'sANm', 'status': 'A'}.get(self.mode, '')
        self.O(st, 'the options of the mode are known and take an argument', all(takes.get(c) for c in need))
        opi, opa = eng.glob(st, '@optind'), eng.glob(st, '@optarg'); out = []
        def ret(v, arg):
            s = st.fork(); s.model = None
            k = fresh('optind'); s.add(z3.And(k >= 1, k <= ac)); eng.store(s, opi, I(32), k)
            a = fresh('optarg'); s.add(z3.And(a >= 0, a < 1 << 40)); eng.store(s, opa, PTR, Ptr('ARG', a) if arg else NULL)
            out.append((s, v)); return s, a
        for c in takes:
            if c == 'H' or c == 'A' and self.mode == 'write_file': continue      # options of other modes, with effects of their own
            s, a = ret(ord(c), takes[c])
            W = s.w
            if c == 's': W['g_size'], bad = self.scan(s, a); W['g_bad'] = simp(z3.Or(zb(W['g_bad']), zb(bad)))
            elif c == 'N': W['g_nset'] = t(True); W['g_n'] = self.ATOI(s, a)
            elif c == 'A': W['g_aset'] = t(True); W['g_a'] = a
            elif c == 'm':
                e = self.END(s, a)
                for l in LETTER: W['g_' + l] = simp(z3.Or(zb(W['g_' + l]), self.OCC[l](s, e) > self.OCC[l](s, a)))
                W['g_other'] = simp(z3.Or(zb(W['g_other']), self.OCC['_'](s, e) > self.OCC['_'](s, a)))
            W['optat'] = None
        ret(63, False)[0].w['g_unknown'] = t(True)
        e = st.fork(); e.model = None
        k = fresh('operand'); e.add(z3.And(k >= 1, k <= ac)); eng.store(e, opi, I(32), k); e.w['op0'] = k; e.w['base'] = 1 + skip
        return out + [(e, NEG1)]
    def argoff(self, eng, st, p):
        p = eng.pick(st, p)
        if p.r != 'ARG': raise Unsupported('number in an unknown string')
        return p.o
    def c_atoi(self, eng, st, av, args, ins): return [(st, self.ATOI(st, self.argoff(eng, st, av[0])))]
    def c_strtol(self, eng, st, av, args, ins):
        if eng.pick(st, av[1]).r is not None or not Eq(simp(toint(av[2])), 10) is True: raise Unsupported('strtol')
        v = self.ATOI(st, self.argoff(eng, st, av[0])); w = fresh('strtol'); st.add(z3.And(w >= 0, w < 1 << 64, z3.Implies(v < 1 << 31, w == v)))
        return [(st, w)]
    c_strtoul = c_strtoll = c_strtoull = c___isoc23_strtol = c___isoc23_strtoul = c___isoc23_strtoll = c___isoc23_strtoull = c_strtol
    def c_sscanf(self, eng, st, av, args, ins):
        a = self.argoff(eng, st, av[0]); f = eng.cstring(st, eng.pick(st, av[1]))
        if f not in ('%ld%c', '%lu%c', '%zu%c', '%zd%c', '%li%c') or len(av) != 4: raise Unsupported('sscanf format')
        self.scan(st, a); n = self.SCN(st, a); out = []; v, u = self.SCV(st, a), self.SCU(st, a)
        for r in (0, 1, 2):
            s = st.fork(); s.model = None; s.add(n == r)
            if not eng.feasible(s): continue
            if r >= 1: eng.store(s, av[2], I(64), v)
            if r == 2: eng.store(s, av[3], I(8), u)
            out.append((s, r % (1 << 32)))
        return out
    c___isoc23_sscanf = c___isoc99_sscanf = c_sscanf
    def c_usage(self, eng, st, av, args, ins):
        W = st.w
        none = Eq(self.nops(st), 0) if W['op0'] is not None else False
        size = z3.Or(W['g_size'] == 0, W['g_size'] >= U63) if self.mode == 'create' and W['op0'] is not None else False
        self.O(st, 'only a command line that is not understood is refused', Or(zb(W['g_bad']), zb(W['g_other']), zb(W['g_unknown']), self.argc <= 2 + self.skip, none, size))
        raise PathEnd()
    # ---- files
    def c_map(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        self.O(st, 'the file is the one named', And(p.r == 'DUP', self.want_file(st, p)) if p.r == 'DUP' else False)
        f = fail(eng, st, NULL); f[0].w['failed'] = t(True)
        eng.store(st, av[1], I(64), self.FLEN); st.w['mapped'] = True
        return [(st, Ptr('FILE', 0)), f]
    def want_file(self, st, p):
        if self.mode == 'write_file': return Eq(p.o, 2 << 20)
        return And(st.w['g_aset'], Eq(p.o, st.w['g_a']))
    # ---- create
    def c_shr_init(self, eng, st, av, args, ins):
        W = st.w; O = lambda n, f: self.O(st, n, f)
        O('rings are made in mode create', self.mode == 'create')
        n = self.argno(eng, st, av[0])
        O('every operand names a ring, in turn', self.operand(eng, st, W['made'], n))
        O('no size that was not understood is used', Not(zb(W['g_bad'])))
        O('no letter or option that is not known is accepted', z3.Not(z3.Or(zb(W['g_other']), zb(W['g_unknown']))))
        O('the size is the one asked for', z3.Implies(W['g_size'] < U63, Z(simp(toint(av[1]))) == W['g_size']))
        fl = eng.tobits(st, av[2], 32)
        for c, b in LETTER.items(): O('flag %s is set as asked for' % c, Eq(fl.b[b], zb(W['g_' + c])))
        O('a message limit is set if one is asked for', Eq(fl.b[MAXMSGS], zb(W['g_nset'])))
        O('application data is set if asked for', Eq(fl.b[APPDATA], zb(W['g_aset'])))
        O('no other flag is set', And(*[Not(zb(fl.b[i])) for i in range(32) if i not in list(LETTER.values()) + [APPDATA, MAXMSGS]]))
        rest = av[3:]
        small = z3.And(zb(W['g_nset']), W['g_n'] < 1 << 31)
        s = st.fork(); s.model = None; s.add(zb(W['g_aset']))
        if eng.feasible(s):
            ok = len(rest) >= 2 and isinstance(rest[0], (Ptr, CondPtr))
            self.O(s, 'the application data is the content of the file', And(peq(eng.pick(s, rest[0]), Ptr('FILE', 0)), s.w['mapped'], Eq(toint(rest[1]), self.FLEN)) if ok else False)
            self.O(s, 'the message limit is the one asked for', Implies(small, Eq(toint(rest[2]), s.w['g_n'])) if len(rest) >= 3 else Not(zb(s.w['g_nset'])))
        s = st.fork(); s.model = None; s.add(z3.Not(zb(W['g_aset'])))
        if eng.feasible(s):
            i = 0
            self.O(s, 'the message limit is the one asked for', Implies(small, Eq(toint(rest[0]), s.w['g_n'])) if rest and not isinstance(rest[0], (Ptr, CondPtr)) else Not(zb(s.w['g_nset'])))
        O('a ring that cannot be made stops the tool', Not(zb(W['failed'])))
        st.w['made'] = simp(W['made'] + 1)
        f = st.fork(); f.w['failed'] = t(True); f.model = None
        return [(st, 0), (f, NEG1)]
    # ---- write
    def c_shr_write(self, eng, st, av, args, ins):
        W = st.w; O = lambda n, f: self.O(st, n, f)
        O('the ring written is the one named', eng.pick(st, av[0]).r == 'ring0')
        p = eng.pick(st, av[1]); n = simp(toint(av[2]))
        O('nothing is written after a refusal', Not(zb(W['failed'])))
        if self.mode == 'write_file':
            O('the file is written whole, once', And(peq(p, Ptr('FILE', 0)), W['mapped'], Eq(n, self.FLEN), W['stored'] == 0))
            W['stored'] = 1
        elif self.mode == 'write':
            O('each line is written once', zb(W['pend']))
            O('a line is written without its newline', Z(n) == W['llen'])
            ln = W['nline']
            self.content(eng, st, self.tags, 'the bytes written are those of the line', p, n, lambda s, j: self.LB(s, ln, j))
            W['pend'] = t(False)
        else: O('nothing is written', False)
        f = st.fork(); f.w['failed'] = t(True); f.model = None
        v = fresh('err'); f.add(z3.And(v >= (1 << 64) - 4, v < 1 << 64))
        st.model = None; st.add(Z(n) >= 1)
        return [(s, v) for s, v in ((st, n), (f, v)) if eng.feasible(s)]
    def c_fgets(self, eng, st, av, args, ins):
        W = st.w
        if self.mode != 'write': raise Unsupported('fgets')
        p, n = eng.pick(st, av[0]), simp(toint(av[1]))
        self.O(st, 'every line is written before the next is read', Not(zb(W['pend'])))
        self.O(st, 'a refusal stops the tool', Not(zb(W['failed'])))
        if not eng.valid(st, Z(n) >= 1000): raise Unsupported('fgets with less than 1000 bytes: a line may come in pieces')
        r, loc, off = eng.byterange(st, p, n, 'fgets', True)
        e = st.fork(); e.model = None; e.w['eof'] = t(True)
        st.model = None
        k = fresh('line'); L = fresh('linelen'); nl = freshb('newline')
        # a line of L characters, which its newline follows unless the input ends there
        st.add(z3.And(k >= 0, L >= 0, L <= 998, z3.Or(nl, L >= 1)))
        W['nline'] = k; W['llen'] = L; W['pend'] = t(True)
        N = Fn('rest', 1, rng=(0, 256))
        def by(s, i):
            i = Z(i)
            return z3.If(i < L, self.LB(s, k, i), z3.If(z3.And(i == L, nl), 10, 0))
        eng.bset(st, r, loc, simp(L + 1 + z3.If(nl, 1, 0)), by)
        st.w['_len'] = (p.r, p.o, simp(L + z3.If(nl, 1, 0)), st.mem[p.r])
        return [(st, p), (e, NULL)]
    def LB(self, s, k, i):
        if not hasattr(self, '_LB'): self._LB = Fn('linebyte', 2, rng=(1, 256), hook=lambda s, a, v: s.add(v != 10))
        return self._LB(s, k, i)
    def strlen(self, eng, st, p):
        p = eng.pick(st, p)
        if p.r == 'APP': v = fresh('strlen'); st.add(z3.And(v >= 0, v < 1 << 62)); return [(st, v)]
        l = st.w.get('_len')
        if l is None or p.r != l[0] or not same(p.o, l[1]) or st.mem[p.r] is not l[3]: raise Unsupported('strlen')
        return [(st, l[2])]
    def theline(self, eng, st, p):
        p = eng.pick(st, p); l = st.w.get('_len')
        if l is None or p.r != l[0] or not same(p.o, l[1]) or st.mem[p.r] is not l[3]: raise Unsupported('string')
        return p, l[2]
    def c_strcspn(self, eng, st, av, args, ins):
        p, n = self.theline(eng, st, av[0])
        if eng.cstring(st, eng.pick(st, av[1])) != '\n': raise Unsupported('strcspn')
        return [(st, st.w['llen'])]
    def c_strchr(self, eng, st, av, args, ins):
        p, n = self.theline(eng, st, av[0])
        if not Eq(simp(toint(av[1])), 10) is True: raise Unsupported('strchr')
        s = st.fork(); s.model = None; s.add(n == s.w['llen']); st.model = None; st.add(n == st.w['llen'] + 1)
        return [(x, v) for x, v in ((st, Ptr(p.r, ladd(p.o, st.w['llen']))), (s, NULL)) if eng.feasible(x)]
    c_strrchr = c_strchr
    # ---- status
    STATS = {'bytes-written': 'bw', 'bytes-read': 'br', 'bytes-dropped': 'bd', 'messages-written': 'mw', 'messages-read': 'mr', 'messages-dropped': 'md',
             'ring-size': 'bn', 'bytes-ready': 'bu', 'max-messages': 'mm', 'messages-ready': 'mu'}
    ATTR = {'drop': 1, 'appdata': 2, 'farm': 3, 'mlock': 6, 'sync': 5}
    def extglobal(self, eng, st, name):
        if name == '@stdout': return Ptr('STDOUT', 0)
        return Main.extglobal(self, eng, st, name)
    def c_shr_stat(self, eng, st, av, args, ins):
        self.O(st, 'the statistics are those of the ring, and are not reset', And(eng.pick(st, av[0]).r == 'ring0', eng.pick(st, av[2]).r is None))
        f = fail(eng, st, NEG1); f[0].w['failed'] = t(True)
        p = eng.pick(st, av[1]); sf = eng.m.members['shr_stat']; self.stat = {}
        for n in self.STATS.values():
            o, z = sf[n]; v = self.stat[n] = z3.Int('stat_' + n); st.add(z3.And(v >= 0, v < 1 << 63)); eng.store(st, Ptr(p.r, ladd(p.o, o)), I(8 * z), v)
        o, z = sf['flags']; self.sflags = Bits(32, [z3.Bool('stat_flag%d' % i) for i in range(32)]); eng.store(st, Ptr(p.r, ladd(p.o, o)), I(8 * z), self.sflags)
        st.w['gotstat'] = True
        return [(st, 0), f]
    def c_shr_appdata(self, eng, st, av, args, ins):
        self.O(st, 'the application data is fetched from the ring', And(eng.pick(st, av[0]).r == 'ring0', eng.pick(st, av[2]).r is None, eng.pick(st, eng.load(st, av[1], PTR)).r is None))
        n = st.fork(); n.model = None                       # none, or a failure: the size is not set
        st.model = None; v = self.ALEN = z3.Int('applen'); st.add(z3.And(v >= 1, v < 1 << 62))
        eng.store(st, av[1], PTR, Ptr('APP', 0)); eng.store(st, av[3], I(64), v); st.w['app'] = True
        return [(st, 0), (n, NEG1)]
    def output(self, eng, st, fmt, vals):
        f = eng.cstring(st, eng.pick(st, fmt)); out = []; vals = list(vals)
        if f is None: raise Unsupported('format')
        for lit, conv in re.findall(r'([^%]+)|%([-+ 0#]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|ll|[hlzjt])?[a-zA-Z%])', f):
            if lit: out.append(lit)
            elif conv == '%': out.append('%')
            else:
                while '*' in conv: conv = conv.replace('*', '', 1); vals.pop(0)
                v = vals.pop(0)
                if conv == 's' and isinstance(v, (Ptr, CondPtr)):
                    x = eng.pick(st, v); x = eng.cstring(st, x) if x.r not in ('APP', 'EXT') else None
                    out.append(x if isinstance(x, str) else ('s', None))
                else: out.append((conv, v))
        st.w['printed'] = st.w['printed'] + tuple(out)
        r = fresh('printed'); st.add(z3.And(r >= 0, r < 1 << 31)); return [(st, r)]
    def c_printf(self, eng, st, av, args, ins): return self.output(eng, st, av[0], av[1:])
    def c_fprintf(self, eng, st, av, args, ins):
        if eng.pick(st, av[0]).r == 'STDOUT': return self.output(eng, st, av[1], av[2:])
        return libc.log(eng, st, av, args, ins)
    def c_puts(self, eng, st, av, args, ins):
        r = self.output(eng, st, av[0], ()); st.w['printed'] = st.w['printed'] + ('\n',); return r
    def c_putchar(self, eng, st, av, args, ins):
        c = simp(toint(av[0]))
        if not isc(c): raise Unsupported('putchar')
        st.w['printed'] = st.w['printed'] + (chr(c),); return [(st, c)]
    def c_fputc(self, eng, st, av, args, ins): return self.c_putchar(eng, st, av, args, ins) if eng.pick(st, av[1]).r == 'STDOUT' else [(st, 0)]
    c_putc = c__IO_putc = c_fputc
    def c_fwrite(self, eng, st, av, args, ins):
        if eng.pick(st, av[3]).r != 'STDOUT' or eng.pick(st, av[0]).r != 'APP': raise Unsupported('fwrite')
        st.w['printed'] = st.w['printed'] + (('s', None),); r = fresh('fwrite'); st.add(z3.And(r >= 0, r <= Z(toint(av[2])))); return [(st, r)]
    def c_fputs(self, eng, st, av, args, ins):
        return self.output(eng, st, av[0], ()) if eng.pick(st, av[1]).r == 'STDOUT' else [(st, 0)]
    def c_open(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0]); fl = simp(toint(av[1]))
        self.O(st, 'the file written is the one named', And(p.r == 'DUP', self.want_file(st, p)) if p.r == 'DUP' else False)
        self.O(st, 'it is created, and emptied if it exists', isc(fl) and fl & 3 in (1, 2) and bool(fl & 0o100 and fl & 0o1000 and not fl & 0o2000))
        f = fail(eng, st, NEG1); f[0].w['copyfail'] = t(True)
        return [(st, libc.newfd(eng, st, 'out')), f]
    def c_write(self, eng, st, av, args, ins):
        e = libc.findfd(eng, st, simp(toint(av[0])))
        self.O(st, 'the application data goes to the file, once', And(e is not None and e[1] == 'out', peq(eng.pick(st, av[1]), Ptr('APP', 0)), Eq(toint(av[2]), self.ALEN), not st.w['copied']))
        f = fail(eng, st, NEG1L); f[0].w['copyfail'] = t(True); st.w['copied'] = True
        return [(st, self.ALEN), f]
    def report(self, eng, st):
        W = st.w; O = lambda n, f: self.O(st, n, f)
        text = ''; seen = {}; attrs = None
        for x in W['printed']:
            if isinstance(x, str): text += x
            else:
                w = text.split(); text += ' ?'
                seen.setdefault(w[-1].rstrip(':=') if w else '', []).append(x)
        for lab, f in self.STATS.items():
            x = seen.get(lab, [])
            O('%s is shown with its value' % lab, And(len(x) == 1 and len(x[0][0]) > 1 and x[0][0][-2] in 'lzj' and x[0][0][-1] in 'diu', Eq(toint(x[0][1]), self.stat[f])) if len(x) == 1 and not isinstance(x[0][1], (Ptr, CondPtr)) else False)
        m = re.search(r'attributes(.*?)(\n|$)', text, re.S); ws = m.group(1).split() if m else []
        for a, b in self.ATTR.items(): O('attribute %s is shown if the ring has it' % a, And(m is not None, Eq(a in ws, self.sflags.b[b])))
        O('no other attribute is shown', all(w in self.ATTR or w == 'none' for w in ws))
        x = seen.get('app-data', [])
        O('the size of the application data is shown', Eq(toint(x[0][1]), self.ALEN if W['app'] else 0) if len(x) == 1 else False)
        if W['app']: O('the application data is copied out if asked for', Or(Not(zb(W['g_aset'])), W['copied'], zb(W['copyfail'])))
    # ---- invariants
    def cands(self, eng, st, mods):
        out = Main.cands(self, eng, st, mods)
        ik, pk = self.allkeys(mods, eng, st)
        fo = self.fo
        def cell(f): return ('cell', CFG) + fo[f]
        if 'flags' in fo:
            o = fo['flags']
            def fb(e, s): return e.tobits(s, self.raw(e, s, 'flags'), 32)
            if self.mode == 'create':
                for c, b in LETTER.items():
                    out.append(('flag %s as asked' % c, lambda e, s, g, it, b=b, c=c: Eq(fb(e, s).b[b], zb(s.w['g_' + c]))))
                    # inside the loop over the letters of one argument
                    b0 = eng.tobits(st, self.raw(eng, st, 'flags'), 32).b[b]
                    for k in pk: out.append(('flag %s so far %s' % (c, k), lambda e, s, g, it, k=k, b=b, c=c, b0=b0: Eq(fb(e, s).b[b], z3.Or(zb(b0), self.seen(e, s, c, g(k))))))
                    for k in ik: out.append(('flag %s so far %s' % (c, k), lambda e, s, g, it, k=k, b=b, c=c, b0=b0: Eq(fb(e, s).b[b], z3.Or(zb(b0), self.seen(e, s, c, Ptr('ARG', ladd(self.optarg(e, s), toint(g(k)))))))))
                out.append(('flag N as asked', lambda e, s, g, it: Eq(fb(e, s).b[MAXMSGS], zb(s.w['g_nset']))))
                out.append(('flag A as asked', lambda e, s, g, it: Eq(fb(e, s).b[APPDATA], zb(s.w['g_aset']))))
                out.append(('size as asked', lambda e, s, g, it: z3.Implies(s.w['g_size'] < U63, z3.And(Z(self.get(e, s, 'size')) == s.w['g_size'], z3.Not(zb(s.w['g_bad']))))))
                out.append(('no bad size', lambda e, s, g, it: z3.Not(zb(s.w['g_bad']))))
                out.append(('size not negative', lambda e, s, g, it: s.w['g_size'] >= 0))
                out.append(('limit as asked', lambda e, s, g, it: z3.Implies(z3.And(zb(s.w['g_nset']), s.w['g_n'] < 1 << 31), Z(self.get(e, s, 'max_msgs')) == s.w['g_n'])))
                for k in ik: out.append(('%s = operands made' % (k,), lambda e, s, g, it, k=k: Eq(toint(g(k)), simp(Z(s.w['op0']) + s.w['made'])) if s.w['op0'] is not None else True))
                out.append(('made <= operands', lambda e, s, g, it: s.w['made'] <= self.nops(s) if s.w['op0'] is not None else True))
        for k in pk: out.append(('%s in the string' % (k,), lambda e, s, g, it, k=k: self.inside(e, s, g(k))))
        for k in ik: out.append(('%s in the string' % (k,), lambda e, s, g, it, k=k: self.inside(e, s, Ptr('ARG', ladd(self.optarg(e, s), toint(g(k)))))))
        out.append(('no other letter', lambda e, s, g, it: z3.Not(zb(s.w['g_other']))))
        out.append(('no unknown option', lambda e, s, g, it: z3.Not(zb(s.w['g_unknown']))))
        def oth(e, s): a = self.optarg(e, s); return z3.Implies(zb(s.w['g_other']), self.OCC['_'](s, self.END(s, a)) > self.OCC['_'](s, a))
        out.append(('other letters are in this argument', lambda e, s, g, it: oth(e, s)))
        for k in pk: out.append(('no other letter so far %s' % (k,), lambda e, s, g, it, k=k: z3.Not(zb(self.seen(e, s, '_', g(k))))))
        for k in ik: out.append(('no other letter so far %s' % (k,), lambda e, s, g, it, k=k: z3.Not(zb(self.seen(e, s, '_', Ptr('ARG', ladd(self.optarg(e, s), toint(g(k)))))))))
        if self.mode == 'create':
            for k in mods:                                 # the modes gathered in a variable of the loop
                if k[0] in ('part', 'ghost', 'cell'): continue
                v = eng.getmod(st, k)
                if not isinstance(v, Bits) and not (isc(v) and v == 0): continue
                b0s = eng.tobits(st, v, 32).b
                for c, b in LETTER.items():
                    for q in pk + ik:
                        if q != k: out.append(('%s: %s so far %s' % (k, c, q), lambda e, s, g, it, k=k, q=q, b=b, c=c, b0=b0s[b]: Eq(e.tobits(s, g(k), 32).b[b], z3.Or(zb(b0), self.seen(e, s, c, self.at(e, s, g(q))))) if isinstance(g(k), Bits) else False))
                for i in range(32):
                    if i not in LETTER.values(): out.append(('%s: bit %d stays' % (k, i), lambda e, s, g, it, k=k, i=i, b0=b0s[i]: Eq(e.tobits(s, g(k), 32).b[i], zb(b0)) if isinstance(g(k), Bits) else False))
        for k in ik: out.append(('%s tells of failure' % (k,), lambda e, s, g, it, k=k: Eq(Z(toint(g(k))) % (1 << 32) >= 1 << 31, zb(s.w['failed']))))
        out.append(('file as asked', lambda e, s, g, it: self.fileok(e, s)))
        out.append(('not failed', lambda e, s, g, it: z3.Not(zb(s.w['failed']))))
        out.append(('nothing pending', lambda e, s, g, it: z3.Not(zb(s.w['pend']))))
        out.append(('made 0', lambda e, s, g, it: Eq(s.w['made'], 0)))
        return out
    def raw(self, eng, st, f):
        o, z = self.fo[f]; return eng.cell(st, st.mem[CFG], o, z)
    def nops(self, s): return simp(self.argc - Z(s.w['base']) - Z(s.w['op0']))
    def optarg(self, e, s):
        p = e.cell(s, s.mem['@optarg'], 0, 8) if '@optarg' in s.mem else None
        if isinstance(p, CondPtr): p = p.b if p.a.r is None else p.a
        return p.o if isinstance(p, Ptr) and p.r == 'ARG' else 0
    def at(self, e, s, v): return v if isinstance(v, (Ptr, CondPtr)) else Ptr('ARG', ladd(self.optarg(e, s), toint(v)))
    def seen(self, e, s, c, p):
        if not isinstance(p, Ptr) or p.r != 'ARG': return t(False)
        return self.OCC[c](s, p.o) > self.OCC[c](s, self.optarg(e, s))
    def inside(self, e, s, p):
        if not isinstance(p, Ptr) or p.r != 'ARG': return True
        a = self.optarg(e, s)
        return And(Eq(self.END(s, p.o), self.END(s, a)), Z(p.o) >= Z(a))
    def fileok(self, e, s):
        p = self.raw(e, s, 'wfile')
        if p is None: return Not(zb(s.w['g_aset']))
        if isc(p) and p == 0: return Not(zb(s.w['g_aset']))
        if isinstance(p, Ptr):
            if p.r is None: return Not(zb(s.w['g_aset']))
            return And(s.w['g_aset'], Eq(p.o, s.w['g_a'])) if p.r == 'DUP' else False
        if isinstance(p, CondPtr):
            def f(q): return Not(zb(s.w['g_aset'])) if q.r is None else And(s.w['g_aset'], Eq(q.o, s.w['g_a']))
            return Or(And(p.c, f(p.a)), And(Not(p.c), f(p.b)))
        return False
    def at_end(self, eng, st, rv):
        st.model = None
        v = Z(simp(toint(rv))); W = st.w
        O = lambda n, f: self.O(st, n, f)
        O('a failure is reported by the exit status', z3.Implies(zb(W['failed']), v % 256 != 0))
        ok = v % 256 == 0
        if self.mode == 'create':
            O('success means that every ring named was made', z3.Implies(ok, And(W['op0'] is not None, Eq(W['made'], self.nops(st))) if W['op0'] is not None else False))
            O('failure is not reported for nothing', z3.Or(ok, zb(W['failed'])))
        elif self.mode == 'write_file':
            O('success means that the file was written', z3.Implies(ok, zb(bool(W['stored']))))
            O('failure is not reported for nothing', z3.Or(ok, zb(W['failed']), zb(W['sysfail'])))
        elif self.mode == 'write':
            O('success means that every line was written', z3.Implies(ok, z3.And(zb(W['eof']), z3.Not(zb(W['pend'])))))
            O('failure is not reported for nothing', z3.Or(ok, zb(W['failed']), zb(W['sysfail'])))
        elif self.mode == 'status':
            if W['gotstat'] and not (eng.decide(st, zb(W['failed'])) is True): self.report(eng, st)
            O('success means that the ring was described', z3.Implies(ok, zb(W['gotstat'])))

# ------------------------------------------------------------------ map
class Map(Tool):
    """the whole file is mapped, or NULL is returned and nothing is left behind"""
    fn = 'map'; T = ('P28', 'P29'); memtags = T
    def setup(self, eng):
        st = self.begin(eng)
        st.mem['name'] = Reg('name', 0, kind='opaque'); st.mem['len'] = Reg('len', 8, 'undef')
        self.size = z3.Int('filesize'); st.add(z3.And(self.size >= 0, self.size < U63))
        st.w.update(maps=0, failed=t(False))
        eng.start(st, self.fn, [Ptr('name', 0), Ptr('len', 0)])
        if len(st.frames[-1].f.params) != 2: raise Unsupported('signature of map')
        return st
    def O(self, eng, st, n, f): eng.oblige(st, self.T, n, f)
    def file(self, eng, st, fd):
        e = libc.findfd(eng, st, simp(toint(fd))); self.O(eng, st, 'the file opened is the one used', e is not None)
        if e is None: raise PathEnd()
    def c_open(self, eng, st, av, args, ins):
        fl = simp(toint(av[1]))
        self.O(eng, st, 'the file named is opened for reading', And(peq(eng.pick(st, av[0]), Ptr('name', 0)), isc(fl) and fl & 3 == 0 and not fl & 0o1000 and True))
        f = fail(eng, st, NEG1); f[0].w['failed'] = t(True)
        return [(st, libc.newfd(eng, st, 'file')), f]
    def c_fstat(self, eng, st, av, args, ins):
        self.file(eng, st, av[0]); p = eng.pick(st, av[1])
        f = fail(eng, st, NEG1); f[0].w['failed'] = t(True)
        for nm, (o, sz) in eng.m.members['stat'].items():
            if sz not in (1, 2, 4, 8): continue
            v = self.size if nm == 'st_size' else fresh('st')
            st.add(z3.And(v >= 0, v < 1 << (8 * sz))); eng.store(st, Ptr(p.r, ladd(p.o, o)), I(8 * sz), v)
        return [(st, 0), f]
    def c_mmap(self, eng, st, av, args, ins):
        self.file(eng, st, av[4]); n, pr, fl = [simp(toint(av[i])) for i in (1, 2, 3)]
        self.O(eng, st, 'the whole file is mapped for reading', And(Eq(n, self.size), isc(pr) and bool(pr & 1), Eq(toint(av[5]), 0), st.w['maps'] == 0))
        st.model = None
        f = fail(eng, st, MAPFAIL); f[0].w['failed'] = t(True)
        st.mem['view'] = Reg('view', self.size, kind='opaque'); st.w['maps'] = 1
        return [(st, Ptr('view', 0)), f]
    def c_munmap(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0]); self.O(eng, st, 'only the mapping is unmapped', p.r == 'view' and st.w['maps'] == 1); st.w['maps'] = 0; return [(st, 0)]
    def at_end(self, eng, st, rv):
        p = eng.pick(st, rv); O = lambda n, f: self.O(eng, st, n, f)
        O('no descriptor is left open', not st.w['fds'])
        if p.r is None:
            O('failure gives NULL', isc(p.o) and p.o == 0); O('a failure leaves no mapping', st.w['maps'] == 0)
            O('the file is refused only if empty or after a failed system call', Or(Eq(self.size, 0), zb(st.w['failed'])))
        else:
            O('the mapping is returned', p.r == 'view' and st.w['maps'] == 1 and isc(p.o) and p.o == 0)
            O('its length is the size of the file', Eq(toint(eng.load(st, Ptr('len', 0), I(64))), self.size))

# ------------------------------------------------------------------ sockets and signals
class Net(Tool):
    """setup_listener / setup_subscriber: 0 only with a socket of its own that listens at / is connected to the address given"""
    def __init__(self, fn): self.fn = fn; self.sub = fn == 'setup_subscriber'; self.T = ('P21',) if self.sub else ('P21', 'P22'); self.memtags = self.T; self.f = 'sub_fd' if self.sub else 'listen_fd'
    def setup(self, eng):
        st = self.begin(eng)
        m = eng.m; self.fo = gfields(m, 'cfg'); ty = m.globals[CFG][0]
        st.mem[CFG] = Reg(CFG, m.size(ty), 'sym')
        st.mem['ADDR'] = Reg('ADDR', 0, kind='opaque'); self.put(st, 'addr_spec', Ptr('ADDR', 0))
        for f in ('sub_fd', 'listen_fd', 'pub_fd', 'epoll_fd', 'signal_fd'): self.put(st, f, NEG1)
        st.w.update(steps=(), parsed=False, failed=t(False))
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of ' + self.fn)
        return st
    def O(self, eng, st, n, f): eng.oblige(st, self.T, n, f)
    def fl(self, eng, st):
        f = fail(eng, st, NEG1); f[0].w['failed'] = t(True); return f
    def c_usage(self, eng, st, av, args, ins): raise PathEnd()
    def c_socket(self, eng, st, av, args, ins):
        a, b = simp(toint(av[0])), simp(toint(av[1]))
        self.O(eng, st, 'a TCP socket is made, once', isc(a) and a == 2 and isc(b) and b & 0xf == 1 and not b & 0o4000 and not st.w['fds'])
        f = self.fl(eng, st); return [(st, libc.newfd(eng, st, 'socket')), f]
    def c_parse_spec(self, eng, st, av, args, ins):
        a = self.fo['addr'][0] if 'addr' in self.fo else next(o for n, (o, s) in self.fo.items() if n == 'addr.sin_family')
        self.a0 = a
        self.O(eng, st, 'the address given is parsed', And(peq(eng.pick(st, av[0]), Ptr('ADDR', 0)), peq(eng.pick(st, av[1]), Ptr(CFG, a))))
        f = st.fork(); f.w['failed'] = t(True)
        st.w['parsed'] = True; st.model = None
        v = fresh('ip'); st.add(z3.And(v >= 0, v < 1 << 32)); st.wreg(CFG).cells[a + 4] = (4, v)
        return [(st, 0), (f, NEG1)]
    def step(self, eng, st, av, what):
        e = libc.findfd(eng, st, simp(toint(av[0])))
        self.O(eng, st, 'the socket made is the one used', e is not None)
        if what in ('bind', 'connect'): self.O(eng, st, 'the address used is the one given', And(st.w['parsed'], peq(eng.pick(st, av[1]), Ptr(CFG, self.a0)) if st.w['parsed'] else False, Eq(toint(av[2]), 16)))
        f = self.fl(eng, st); st.w['steps'] = st.w['steps'] + (what,)
        return [(st, 0), f]
    def c_setsockopt(self, eng, st, av, args, ins): return [(st, 0), self.fl(eng, st)]
    def c_bind(self, eng, st, av, args, ins): return self.step(eng, st, av, 'bind')
    def c_connect(self, eng, st, av, args, ins): return self.step(eng, st, av, 'connect')
    def c_listen(self, eng, st, av, args, ins): return self.step(eng, st, av, 'listen')
    def at_end(self, eng, st, rv):
        st.model = None
        v = Z(simp(toint(rv))); neg = z3.And(v >= 1 << 31, v < 1 << 32)
        O = lambda n, f: self.O(eng, st, n, f)
        O('the result is 0 or negative', z3.Or(v == 0, neg))
        O('a failure is reported', z3.Implies(zb(st.w['failed']), neg))
        O('success means that the socket is set up', z3.Or(neg, zb(st.w['steps'] == (('connect',) if self.sub else ('bind', 'listen')))))
        fd = self.get(eng, st, self.f); e = libc.findfd(eng, st, fd) if st.w['fds'] else None
        O('the socket is recorded', Eq(fd, NEG1) if not st.w['fds'] else e is not None)
        for f in ('sub_fd', 'listen_fd', 'pub_fd', 'epoll_fd', 'signal_fd'):
            if f != self.f: O('other descriptors are left alone', Eq(self.get(eng, st, f), NEG1))

class Signal(Tool):
    """handle_signal: 0 for the timer, which is set again; negative for every other signal or a failed read"""
    fn = 'handle_signal'; T = ('P21', 'P22'); memtags = T
    def setup(self, eng):
        st = self.begin(eng)
        m = eng.m; self.fo = gfields(m, 'cfg'); st.mem[CFG] = Reg(CFG, m.size(m.globals[CFG][0]), 'sym')
        self.fd = z3.Int('sigfd'); st.add(z3.And(self.fd >= 0, self.fd < 1 << 20)); self.put(st, 'signal_fd', self.fd)
        self.SIG = z3.Int('signo'); st.add(z3.And(self.SIG >= 1, self.SIG <= 64))
        st.w.update(got=False, timer=False)
        eng.start(st, self.fn, [])
        if st.frames[-1].f.params: raise Unsupported('signature of handle_signal')
        return st
    def O(self, eng, st, n, f): eng.oblige(st, self.T, n, f)
    def c_read(self, eng, st, av, args, ins):
        p, n = eng.pick(st, av[1]), simp(toint(av[2]))
        self.O(eng, st, 'the signal is read, once', And(Eq(toint(av[0]), self.fd), Eq(n, 128), not st.w['got']))
        f = fail(eng, st, NEG1L); st.w['got'] = True
        eng.store(st, p, I(32), self.SIG)
        return [(st, n), f]
    def c_alarm(self, eng, st, av, args, ins):
        self.O(eng, st, 'the timer is set', Z(simp(toint(av[0]))) >= 1); st.w['timer'] = True; return [(st, 0)]
    def at_end(self, eng, st, rv):
        st.model = None
        v = Z(simp(toint(rv))); neg = z3.And(v >= 1 << 31, v < 1 << 32)
        self.O(eng, st, 'a signal other than the timer stops the tool, the timer does not', z3.If(z3.And(zb(st.w['got']), self.SIG == 14), v == 0, neg))
        self.O(eng, st, 'the timer is set again', z3.Or(neg, zb(st.w['timer'])))

class Addr(Tool):
    """parse_spec: [host:]port.  host: the first colon is at HC; otherwise there is none"""
    fn = 'parse_spec'; T = ('P21', 'P22'); memtags = T
    def __init__(self, host): self.host = host
    def setup(self, eng):
        st = self.begin(eng)
        L, C = self.L, self.C = z3.Int('len'), z3.Int('colon'); st.add(z3.And(L >= 0, L < 1 << 20))
        if self.host: st.add(z3.And(C >= 0, C < L))
        def by(s, a, v):
            i = Z(a[0])
            s.add(z3.And(z3.Implies(i == L, v == 0), z3.Implies(z3.And(i >= 0, i < L), v != 0)))
            s.add(z3.And(z3.Implies(i == C, v == 58), z3.Implies(z3.And(i >= 0, i < C), v != 58)) if self.host else z3.Implies(z3.And(i >= 0, i < L), v != 58))
        self.B = Fn('spec', 1, hook=by, rng=(0, 256))
        self.region(st, '@spec', L + 1, lambda s, i: self.B(s, i))
        st.mem['sa'] = Reg('sa', 16, 'sym')
        m = eng.m; st.mem[CFG] = Reg(CFG, m.size(m.globals[CFG][0]), 'sym'); self.fo = gfields(m, 'cfg'); self.nonneg(st, 'verbose', 1 << 31)
        self.PORT = z3.Int('atoi'); st.add(z3.And(self.PORT >= 0, self.PORT < 1 << 32))
        self.IP = [z3.Int('ip%d' % i) for i in range(4)]
        for b in self.IP: st.add(z3.And(b >= 0, b < 256))
        st.w.update(port=False, host=None, nohost=False)
        eng.start(st, self.fn, [Ptr('@spec', 0), Ptr('sa', 0)])
        if len(st.frames[-1].f.params) != 2: raise Unsupported('signature of parse_spec')
        return st
    def O(self, eng, st, n, f): eng.oblige(st, self.T, n, f)
    def c_strchr(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0]); c = simp(toint(av[1]))
        if p.r != '@spec' or not isc(p.o) or p.o or not isc(c) or c != 58: raise Unsupported('strchr')
        return [(st, Ptr('@spec', self.C) if self.host else NULL)]
    def c_gethostbyname(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        self.O(eng, st, 'the host is what precedes the colon', And(self.host, p.r == '@spec', Eq(p.o, 0), Eq(self.bytesat(eng, st, Ptr('@spec', 0))(st, self.C), 0)) if self.host and p.r == '@spec' else False)
        n = st.fork(); n.model = None; n.w['nohost'] = True; st.model = None
        H = eng.m.members['hostent']; r = Reg('hostent', 32, 'sym'); st.mem['hostent'] = r
        r.cells[H['h_length'][0]] = (4, 4); r.cells[H['h_addr_list'][0]] = (8, Ptr('alist', 0))
        l = Reg('alist', 16, 'sym'); l.cells[0] = (8, Ptr('ipaddr', 0)); st.mem['alist'] = l
        a = Reg('ipaddr', 4, 'undef'); st.mem['ipaddr'] = a
        for i in range(4): a.cells[i] = (1, self.IP[i])
        z = st.fork(); z.w['nohost'] = True; z.wreg('hostent').cells[H['h_length'][0]] = (4, 0)
        st.w['host'] = True
        return [(st, Ptr('hostent', 0)), (z, Ptr('hostent', 0)), (n, NULL)]
    def c_hstrerror(self, eng, st, av, args, ins): return [(st, Ptr('EXT', 0))]
    def c___h_errno_location(self, eng, st, av, args, ins): return [(st, Ptr('errno', 0))]
    def c_atoi(self, eng, st, av, args, ins):
        p = eng.pick(st, av[0])
        self.O(eng, st, 'the port is what follows the colon', And(p.r == '@spec', Eq(p.o, ladd(self.C, 1) if self.host else 0)))
        st.w['port'] = True; return [(st, self.PORT)]
    def c_htons(self, eng, st, av, args, ins):
        v = Z(toint(av[0])); return [(st, simp((v % 256) * 256 + (v / 256) % 256))]
    def at_end(self, eng, st, rv):
        st.model = None
        v = Z(simp(toint(rv))); neg = z3.And(v >= 1 << 31, v < 1 << 32); W = st.w
        O = lambda n, f: self.O(eng, st, n, f)
        good = z3.And(self.PORT >= 1, self.PORT <= 65535)
        O('the result is 0 or negative', z3.Or(v == 0, neg))
        O('only a valid port and a known host are accepted', z3.Implies(v == 0, z3.And(good, zb(W['port']), zb(W['host'] is True) if self.host else True)))
        O('a valid address is accepted', z3.Or(v == 0, z3.Not(good) if W['port'] else False, zb(W['nohost'])))
        s = st.fork(); s.model = None; s.add(v == 0)
        if eng.feasible(s):
            b = [toint(x) for x in eng.bytes_of(s, Ptr('sa', 0), 8, 'address')]
            ip = self.IP if self.host else [0] * 4
            self.O(eng, s, 'the address is the one given', And(Eq(b[0], 2), Eq(b[1], 0), Eq(b[2], self.PORT / 256), Eq(b[3], self.PORT % 256), *[Eq(x, y) for x, y in zip(b[4:], ip)]))
        self.content(eng, st, self.T, 'the argument is left as it was', Ptr('@spec', 0), self.L, lambda s, j: self.B(s, j))
