"""Parser for the textual LLVM IR that clang emits for /repo's sources.

The verified text is the compiler's own translation of the files in /repo's
working tree (clang -O0, then mem2reg and loop-simplify).  Nothing is dropped
except debug intrinsics and attributes.  An instruction the parser does not
know raises Unsupported: the function is then reported as undecided."""
import re, subprocess, os, hashlib

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name')
    def __init__(self, k, w=0, el=None, n=0, name=None):
        self.k, self.w, self.el, self.n, self.name = k, w, el, n, name
    def __repr__(self):
        return {'i': 'i%d' % self.w}.get(self.k, self.k + (self.name or ''))

PTR = Ty('p', 64)
VOID = Ty('v')
_int = {}
def I(w):
    if w not in _int:
        _int[w] = Ty('i', w)
    return _int[w]

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|![\w.]+|\#\d+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[][(){}<>,=*|!:])''')

def toks(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Unsupported('token: ' + s[i:i+40])
        out.append(m.group(1))
        i = m.end()
    return out

class P:
    """token cursor"""
    def __init__(self, t):
        self.t, self.i = t, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def exp(self, x):
        if not self.acc(x):
            raise Unsupported('expected %s at %s' % (x, ' '.join(self.t[self.i:self.i+8])))

ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'writeonly', 'readonly', 'readnone', 'immarg',
         'zeroext', 'signext', 'inreg', 'returned', 'dso_local', 'internal', 'private', 'external', 'unnamed_addr',
         'local_unnamed_addr', 'constant', 'global', 'hidden', 'tail', 'musttail', 'notail', 'volatile', 'inbounds',
         'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'common', 'weak', 'linkonce_odr', 'noreturn', 'allocptr', 'nofree', 'fastcc', 'ccc', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'afn', 'reassoc', 'nofpclass'}

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'dbg', 'text')
    def __init__(self, op, dst, ty, a):
        self.op, self.dst, self.ty, self.a = op, dst, ty, a
        self.dbg = None
        self.text = ''
    def uses(self):
        out = []
        def go(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'r' and isinstance(v[1], str): out.append(v[1])
                else:
                    for x in v: go(x)
            elif isinstance(v, list):
                for x in v: go(x)
        go(self.a)
        return out

class Func:
    def __init__(self, name, params, ret, vararg):
        self.name, self.params, self.ret, self.vararg = name, params, ret, vararg
        self.blocks, self.order = {}, []
        self.entry = None
        self.defined = False
        self.line = 0
        self.file = ''

class Module:
    def __init__(self, text):
        self.structs, self.globals, self.funcs = {}, {}, {}
        self.meta = {}
        self.parse(text)
        self.members = {}
        self._dwarf()

    # ---- types
    def ty(self, p):
        t = p.next()
        if t == 'ptr': r = PTR
        elif t == 'void': r = VOID
        elif re.fullmatch(r'i\d+', t): r = I(int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'half'): r = Ty('f', {'double': 64, 'float': 32}.get(t, 128))
        elif t == '[':
            n = int(p.next()); p.exp('x'); e = self.ty(p); p.exp(']')
            r = Ty('a', el=e, n=n)
        elif t == '<':
            if p.peek() == '{':
                p.next(); r = Ty('s', el=self.tylist(p, '}')); p.exp('>')
                r.n = 1
            else:
                n = int(p.next()); p.exp('x'); e = self.ty(p); p.exp('>')
                r = Ty('vec', el=e, n=n)
        elif t == '{':
            r = Ty('s', el=self.tylist(p, '}'))
        elif t.startswith('%'):
            r = Ty('n', name=t)
        elif t == 'metadata':
            r = Ty('m')
        elif t == 'label':
            r = Ty('l')
        else:
            raise Unsupported('type ' + t)
        if p.peek() == '(' and t not in ('label',) and self._fnty:
            p.next(); d = 1
            while d:
                x = p.next()
                d += (x == '(') - (x == ')')
        return r
    _fnty = False
    def tylist(self, p, end):
        l = []
        while not p.acc(end):
            l.append(self.ty(p)); p.acc(',')
        return l
    def res(self, t):
        while t.k == 'n':
            s = self.structs.get(t.name)
            if s is None:
                raise Unsupported('opaque type ' + t.name)
            t = s
        return t
    def size(self, t):
        t0 = t; t = self.res(t)
        if t.k == 'i': return max(1, (t.w + 7) // 8)
        if t.k == 'p': return 8
        if t.k == 'f': return t.w // 8
        if t.k == 'a': return t.n * self.size(t.el)
        if t.k == 's':
            off = 0; al = 1
            for e in t.el:
                a = 1 if t.n else self.align(e)
                off = (off + a - 1) // a * a + self.size(e); al = max(al, a)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % t)
    def align(self, t):
        t = self.res(t)
        if t.k == 'i': return max(1, (t.w + 7) // 8)
        if t.k == 'p': return 8
        if t.k == 'f': return t.w // 8
        if t.k == 'a': return self.align(t.el)
        if t.k == 's': return 1 if t.n else max([1] + [self.align(e) for e in t.el])
        raise Unsupported('alignof %r' % t)
    def foff(self, t, i):
        t = self.res(t); off = 0
        for k, e in enumerate(t.el):
            a = 1 if t.n else self.align(e)
            off = (off + a - 1) // a * a
            if k == i: return off
            off += self.size(e)
        raise Unsupported('field')

    # ---- constants / operands
    def const(self, p, t):
        x = p.peek()
        if x.startswith('%'): p.next(); return ('r', x)
        if x.startswith('@'): p.next(); return ('g', x)
        if x == 'null': p.next(); return ('null',)
        if x in ('undef', 'poison'): p.next(); return ('undef', t)
        if x == 'zeroinitializer': p.next(); return ('zero', t)
        if x == 'true': p.next(); return ('c', 1)
        if x == 'false': p.next(); return ('c', 0)
        if x.startswith('c"'): p.next(); return ('str', self.cstr(x))
        if x in ('[', '{', '<'):
            p.next(); end = {'[': ']', '{': '}', '<': '>'}[x]
            if x == '<' and p.peek() == '{':
                p.next(); l = self.clist(p, '}'); p.exp('>')
            else:
                l = self.clist(p, end)
            return ('agg', l)
        if re.fullmatch(r'-?\d+', x): p.next(); return ('c', int(x))
        if re.match(r'-?\d+\.', x) or x.startswith('0x'): p.next(); return ('f', x)
        if x in ('inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'bitcast'):
            p.next(); p.exp('('); st = self.ty(p); v = self.const(p, st); p.exp('to'); dt = self.ty(p); p.exp(')')
            return ('ce', x, st, v, dt)
        if x == 'getelementptr':
            p.next()
            while p.peek() in ATTRS: p.next()
            p.exp('('); st = self.ty(p); p.exp(',')
            ops = []
            while not p.acc(')'):
                while p.peek() in ATTRS: p.next()
                ot = self.ty(p); ops.append((ot, self.const(p, ot))); p.acc(',')
            return ('gep', st, ops)
        raise Unsupported('const ' + ' '.join(p.t[p.i:p.i+6]))
    def clist(self, p, end):
        l = []
        while not p.acc(end):
            t = self.ty(p); l.append((t, self.const(p, t))); p.acc(',')
        return l
    def cstr(self, x):
        s = x[2:-1]; out = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i+1:i+3], 16)); i += 3
            else:
                out.append(ord(s[i])); i += 1
        return bytes(out)
    def attrs(self, p):
        while True:
            x = p.peek()
            if x in ATTRS:
                p.next()
                if p.peek() == '(' and x in ('nofpclass',):
                    while p.next() != ')': pass
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'addrspace'):
                p.next()
                if p.acc('('):
                    while p.next() != ')': pass
                elif re.fullmatch(r'\d+', p.peek() or ''): p.next()
            elif x in ('sret', 'byval', 'byref', 'elementtype', 'range', 'captures', 'memory'):
                p.next(); p.exp('('); d = 1
                while d:
                    y = p.next(); d += (y == '(') - (y == ')')
            else:
                return

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        cur = None
        for raw in lines:
            i += 1
            line = raw
            if cur is None:
                if line.startswith('%') and ' = type ' in line:
                    nm, d = line.split(' = type ', 1)
                    if d.strip() == 'opaque': continue
                    self.structs[nm.strip()] = self.ty(P(toks(d)))
                elif line.startswith('@'):
                    m = re.match(r'(@[-\w.$]+|@"[^"]*") = (.*)', line)
                    body = re.sub(r', !dbg.*$', '', m.group(2))
                    body = re.sub(r', (align|section|comdat).*$', '', body)
                    try:
                        p = P(toks(body)); const = False; ext = False
                        while p.peek() in ATTRS:
                            x = p.next()
                            const |= x == 'constant'; ext |= x == 'external'
                        t = self.ty(p)
                        self.globals[m.group(1)] = (t, None if ext or p.peek() is None else self.const(p, t), const)
                    except (Unsupported, IndexError) as e:
                        self.globals[m.group(1)] = (None, None, False)
                elif line.startswith('declare') or line.startswith('define'):
                    m = re.search(r'!dbg (!\d+)', line)
                    cur = self.fhead(line)
                    cur.dbgid = m.group(1) if m else None
                    if line.startswith('declare'):
                        self.funcs.setdefault(cur.name, cur); cur = None
                    else:
                        cur.defined = True; self.funcs[cur.name] = cur; blk = None
                elif line.startswith('!'):
                    m = re.match(r'(![\w.]+) = (.*)', line)
                    if m: self.meta[m.group(1)] = m.group(2)
            else:
                if line == '}':
                    cur = None; continue
                if not line.strip(): continue
                m = re.match(r'^([-\w.$]+|"[^"]*"):', line)
                if m:
                    blk = '%' + m.group(1); cur.blocks[blk] = []; cur.order.append(blk)
                    if cur.entry is None: cur.entry = blk
                    continue
                if blk is None:
                    blk = '%' + str(len(cur.params)) if all(n.lstrip('%').isdigit() for _, n in cur.params) else '%entry'
                    cur.blocks[blk] = []; cur.order.append(blk); cur.entry = blk
                if 'llvm.dbg.' in line or 'llvm.lifetime' in line: continue
                if getattr(self, '_sw', None) is not None:
                    self._sw += ' ' + line.strip()
                    if line.strip().startswith(']'):
                        line = self._sw; self._sw = None
                    else: continue
                elif line.strip().startswith('switch') and line.rstrip().endswith('['):
                    self._sw = line.strip(); continue
                cur.blocks[blk].append(self.lazy(line))
        for f in self.funcs.values():
            m = self.meta.get(getattr(f, 'dbgid', None) or '', '')
            x = re.search(r'line: (\d+)', m)
            f.line = int(x.group(1)) if x else 0
    def fhead(self, line):
        m = re.search(r'(@[-\w.$]+)\(', line)
        name = m.group(1)
        pre = line[:m.start()].split()
        p = P(toks(re.sub(r'^(declare|define)', '', line[:m.start()])))
        self.attrs(p); ret = self.ty(p)
        rest = line[m.end():]
        # matching paren
        d, j = 1, 0
        while d:
            d += (rest[j] == '(') - (rest[j] == ')'); j += 1
        p = P(toks(rest[:j-1])); params = []; va = False; k = 0
        while p.peek() is not None:
            if p.acc('...'): va = True; break
            t = self.ty(p); self.attrs(p)
            n = None
            if p.peek() and p.peek().startswith('%'): n = p.next()
            params.append((t, n or '%%%d' % k)); k += 1
            p.acc(',')
        return Func(name, params, ret, va)
    def lazy(self, line):
        m = re.search(r', !dbg (!\d+)', line)
        dbg = m.group(1) if m else None
        s = re.sub(r'(, ![\w.]+ ![\w.]+)+\s*$', '', line.strip())
        s = re.sub(r' #\d+$', '', s)
        try:
            ins = self.inst(s)
        except Unsupported as e:
            ins = Inst('unsupported', None, None, str(e) + ': ' + s)
        ins.dbg = dbg; ins.text = s
        return ins
    def val(self, p, t=None):
        if t is None:
            t = self.ty(p); self.attrs(p)
        return (t, self.const(p, t))
    def inst(self, s):
        p = P(toks(s)); dst = None
        if p.peek(1) == '=':
            dst = p.next(); p.next()
        while p.peek() in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv'):
            self.attrs(p); t = self.ty(p); a = self.const(p, t); p.exp(','); b = self.const(p, t)
            return Inst(op, dst, t, (a, b))
        if op in ('icmp', 'fcmp'):
            self.attrs(p); c = p.next(); t = self.ty(p); a = self.const(p, t); p.exp(','); b = self.const(p, t)
            return Inst(op, dst, t, (c, a, b))
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            self.attrs(p); t, v = self.val(p); p.exp('to'); dt = self.ty(p)
            return Inst(op, dst, dt, (t, v))
        if op == 'alloca':
            t = self.ty(p); n = None
            if p.acc(',') and p.peek() not in ('align', 'addrspace'):
                n = self.val(p)
            return Inst(op, dst, t, (n,))
        if op == 'load':
            self.attrs(p); t = self.ty(p); p.exp(','); _, v = self.val(p)
            return Inst(op, dst, t, (v,))
        if op == 'store':
            self.attrs(p); t, v = self.val(p); p.exp(','); _, q = self.val(p)
            return Inst(op, None, t, (v, q))
        if op == 'getelementptr':
            self.attrs(p); st = self.ty(p); ops = []
            while p.acc(','):
                t = self.ty(p); ops.append((t, self.const(p, t)))
            return Inst(op, dst, st, ops)
        if op == 'br':
            if p.acc('label'):
                return Inst('jmp', None, None, (p.next(),))
            _, c = self.val(p); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
            return Inst('br', None, None, (c, a, b))
        if op == 'switch':
            t, v = self.val(p); p.exp(','); p.exp('label'); d = p.next(); p.exp('['); cases = []
            while not p.acc(']'):
                ct = self.ty(p); cv = self.const(p, ct); p.exp(','); p.exp('label'); cases.append((cv[1], p.next()))
            return Inst('switch', None, t, (v, d, cases))
        if op == 'ret':
            t = self.ty(p)
            return Inst('ret', None, t, None if t.k == 'v' else self.const(p, t))
        if op == 'unreachable':
            return Inst(op, None, None, None)
        if op == 'phi':
            self.attrs(p); t = self.ty(p); inc = []
            while True:
                p.exp('['); v = self.const(p, t); p.exp(','); b = p.next(); p.exp(']'); inc.append((v, b))
                if not p.acc(','): break
            return Inst('phi', dst, t, inc)
        if op == 'select':
            self.attrs(p); _, c = self.val(p); p.exp(','); t, a = self.val(p); p.exp(','); _, b = self.val(p)
            return Inst('select', dst, t, (c, a, b))
        if op == 'call':
            self.attrs(p)
            t = self.ty(p)
            if p.peek() == '(':          # function type for varargs
                d = 0
                while True:
                    x = p.next(); d += (x == '(') - (x == ')')
                    if d == 0: break
            callee = p.next()
            if callee in ('asm',): raise Unsupported('asm')
            p.exp('('); args = []
            while not p.acc(')'):
                at = self.ty(p); self.attrs(p)
                if at.k == 'm':
                    while p.peek() not in (',', ')'): p.next()
                    args.append((at, None))
                else:
                    args.append((at, self.const(p, at)))
                p.acc(',')
            return Inst('call', dst, t, (callee, args))
        if op == 'freeze':
            t, v = self.val(p)
            return Inst('freeze', dst, t, (v,))
        if op == 'extractvalue':
            t, v = self.val(p); p.exp(','); ix = [int(p.next())]
            return Inst(op, dst, t, (v, ix))
        raise Unsupported('instruction ' + s)

    # ---- debug info
    def line(self, ins):
        m = self.meta.get(ins.dbg or '', '')
        x = re.search(r'line: (\d+)', m)
        return int(x.group(1)) if x else 0
    def _mget(self, s, k):
        m = re.search(r'\b%s: (![\d]+|"[^"]*"|[\w]+)' % k, s)
        return m.group(1) if m else None
    def _strip(self, mid):
        """follow typedef/volatile/const to the underlying type"""
        while True:
            s = self.meta.get(mid, '')
            if 'DIDerivedType' in s and re.search(r'tag: DW_TAG_(typedef|volatile_type|const_type)', s):
                mid = self._mget(s, 'baseType')
                if mid is None: return None
            else:
                return mid
    def _dwarf(self):
        """struct name (or typedef name) -> {field: (byte offset, byte size)}; nested fields as a.b"""
        self.members = {}
        comp = {}
        for k, s in self.meta.items():
            if 'DICompositeType' in s and 'DW_TAG_structure_type' in s:
                nm = self._mget(s, 'name')
                if nm and 'elements:' in s: self.members[nm.strip('"')] = self._fields(k)
        for k, s in self.meta.items():
            if 'DW_TAG_typedef' in s and 'DIDerivedType' in s:
                nm = (self._mget(s, 'name') or '').strip('"'); b = self._strip(k)
                if b and 'DW_TAG_structure_type' in self.meta.get(b, '') and 'elements:' in self.meta[b]:
                    self.members.setdefault(nm, self._fields(b))
    def _fields(self, mid, depth=0):
        s = self.meta[mid]; out = {}
        el = self._mget(s, 'elements')
        if not el: return out
        ids = re.findall(r'!\d+', self.meta.get(el, ''))
        for i in ids:
            d = self.meta.get(i, '')
            if 'DW_TAG_member' not in d: continue
            nm = (self._mget(d, 'name') or '').strip('"')
            off = int(self._mget(d, 'offset') or 0) // 8
            sz = int(self._mget(d, 'size') or 0) // 8
            bt = self._strip(self._mget(d, 'baseType') or '')
            b = self.meta.get(bt or '', '')
            if nm: out[nm] = (off, sz)
            if depth < 3 and ('DW_TAG_structure_type' in b or 'DW_TAG_union_type' in b) and 'elements:' in b:
                for n2, (o2, s2) in self._fields(bt, depth + 1).items():
                    key = nm + '.' + n2 if nm else n2
                    out[key] = (off + o2, s2)
            if depth < 3 and 'DW_TAG_array_type' in b:
                eb = self._strip(self._mget(b, 'baseType') or '')
                if 'DW_TAG_structure_type' in self.meta.get(eb or '', ''):
                    esz = int(self._mget(self.meta[eb], 'size') or 0) // 8
                    out[nm + '[]'] = (off, esz)
                    for n2, (o2, s2) in self._fields(eb, depth + 1).items():
                        out[nm + '[].' + n2] = (o2, s2)
        return out

CLANG = 'clang-18'
def compile_ir(src, incs, defs=(), work='/tmp', keep=False):
    if keep:
        c = os.path.join(work, os.path.basename(src) + '.ll')
        if os.path.exists(c): return open(c).read()
        t = compile_ir_(src, incs, defs, work)
        with open(c + '.%d' % os.getpid(), 'w') as f: f.write(t)
        os.rename(c + '.%d' % os.getpid(), c)
        return t
    return compile_ir_(src, incs, defs, work)
def compile_ir_(src, incs, defs=(), work='/tmp'):
    """compile one C file from the working tree to IR text"""
    h = hashlib.sha1((src + str(os.getpid())).encode()).hexdigest()[:10]
    a = os.path.join(work, 'dv_%s.ll' % h); b = a + '2'
    cmd = [CLANG, '-S', '-emit-llvm', '-O0', '-g', '-w', '-fno-discard-value-names' if 0 else '-fdiscard-value-names', '-Xclang', '-disable-O0-optnone', '-D_GNU_SOURCE']
    for d in incs: cmd += ['-I', d]
    for d in defs: cmd += ['-D' + d]
    r = subprocess.run(cmd + [src, '-o', a], capture_output=True, text=True)
    if r.returncode: raise Unsupported('clang: ' + r.stderr[-2000:])
    r = subprocess.run(['opt', '-S', '-passes=mem2reg,loop-simplify', a, '-o', b], capture_output=True, text=True)
    if r.returncode: raise Unsupported('opt: ' + r.stderr[-2000:])
    t = open(b).read()
    os.unlink(a); os.unlink(b)
    return t
