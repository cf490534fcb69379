"""Parser for textual LLVM IR (clang 18, opaque pointers) -- just what this repository needs.

A Module holds struct types, globals (with initialiser trees), functions (blocks of
Instr) and the debug-info needed to name fields and source lines.
Nothing here executes the program; it only reads its compiled representation.
"""
import re, os

class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'name', '_size', '_align', '_off', 'packed')
    def __init__(s, k, **kw):
        s.k = k; s.w = 0; s.el = None; s.n = 0; s.fields = None; s.name = None
        s._size = s._align = s._off = None; s.packed = False
        for a, b in kw.items(): setattr(s, a, b)
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'arr': return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct': return s.name or '{..}'
        return s.k
    def align(s):
        if s._align is None:
            if s.k == 'int': s._align = min(max(1, (s.w + 7) // 8), 8)
            elif s.k == 'ptr': s._align = 8
            elif s.k == 'double': s._align = 8
            elif s.k == 'float': s._align = 4
            elif s.k == 'x86_fp80': s._align = 16
            elif s.k in ('arr', 'vec'): s._align = s.el.align()
            elif s.k == 'struct':
                s._align = 1 if s.packed or not s.fields else max(f.align() for f in s.fields)
            else: s._align = 1
        return s._align
    def size(s):
        if s._size is None:
            if s.k == 'int': s._size = 1 << max(0, ((s.w + 7) // 8 - 1).bit_length())
            elif s.k == 'ptr' or s.k == 'double': s._size = 8
            elif s.k == 'float': s._size = 4
            elif s.k == 'x86_fp80': s._size = 16
            elif s.k in ('arr', 'vec'): s._size = s.n * s.el.size()
            elif s.k == 'struct':
                s.offsets()
            else: s._size = 0
        return s._size
    def offsets(s):
        if s._off is None:
            o = 0; r = []
            for f in s.fields or []:
                a = 1 if s.packed else f.align()
                o = (o + a - 1) // a * a
                r.append(o); o += f.size()
            a = s.align()
            s._size = (o + a - 1) // a * a
            s._off = r
        return s._off

VOID = Ty('void'); PTR = Ty('ptr'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def INT(w):
    t = _ints.get(w)
    if t is None: t = _ints[w] = Ty('int', w=w)
    return t

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'extra', 'blk', 'fn', 'idx')
    # a: operands; operand forms: ('r',name) ('c',int) ('g',name) ('null',) ('undef',) ('ce',op,...)
    def __repr__(s): return '%s = %s %s' % (s.res, s.op, s.a)

class Func:
    def __init__(s): s.name = None; s.params = []; s.blocks = {}; s.order = []; s.ret = None; s.mod = None
    def __repr__(s): return '<fn %s>' % s.name

class Global:
    __slots__ = ('name', '_ty', '_init', 'const', 'internal', 'mod', 'section', 'dbg', 'decl', 'raw', 'rel')
    # type and initialiser are parsed on first use
    def _parse(s):
        rest, s.raw = s.raw, None
        p = P(tokenize(rest), s.mod)
        s._ty = p.type(); s._init = None if s.decl else p.value(s._ty)
    @property
    def ty(s):
        if s.raw is not None: s._parse()
        return s._ty
    @property
    def init(s):
        if s.raw is not None: s._parse()
        return s._init

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"])*")|
 (?P<lid>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<gid>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>!(?:[-a-zA-Z$._0-9]*))|
 (?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?[0-9]+)|
 (?P<dots>\.\.\.)|
 (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)|
 (?P<attr>\#[0-9]+)|
 (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    r = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'): break
            raise SyntaxError('tok: %r in %r' % (s[i:i + 40], s[:200]))
        r.append((m.lastgroup, m.group(m.lastgroup))); i = m.end()
    return r

PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'readonly', 'readnone', 'nocapture', 'noalias',
    'returned', 'immarg', 'writeonly', 'inreg', 'nest', 'swiftself', 'allocptr', 'noreturn', 'allocalign', 'nofree', 'captures'}

class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.m = mod
    def peek(s): return s.t[s.i] if s.i < len(s.t) else (None, None)
    def next(s): r = s.t[s.i]; s.i += 1; return r
    def eat(s, v):
        if s.i < len(s.t) and s.t[s.i][1] == v: s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise SyntaxError('expected %r at %r in %r' % (v, s.t[s.i:s.i + 5], s.t[:12]))
    def skip_paren(s):
        s.expect('('); d = 1
        while d:
            v = s.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1
    def skip_attrs(s):
        while True:
            k, v = s.peek()
            if v in PARAM_ATTRS: s.i += 1
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'allockind', 'allocsize', 'memory', 'elementtype', 'range'):
                s.i += 1
                if s.peek()[1] == '(': s.skip_paren()
                elif v == 'align': s.i += 1
            else: return
    def type(s):
        k, v = s.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): t = INT(int(v[1:]))
            elif v == 'ptr': t = PTR
            elif v == 'void': t = VOID
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'): t = Ty(v)
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('opaque')
            elif v == 'token': t = Ty('token')
            else: raise SyntaxError('type %r %r' % (v, s.t[:15]))
        elif k == 'lid': t = s.m.named(v[1:])
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect(']')
            t = Ty('arr', n=n, el=el)
        elif v == '{' or v == '<':
            packed = False
            if v == '<':
                if s.peek()[1] == '{': s.next(); packed = True
                else:
                    n = int(s.next()[1]); s.expect('x'); el = s.type(); s.expect('>')
                    return Ty('vec', n=n, el=el)
            fs = []
            while not s.eat('}'):
                fs.append(s.type()); s.eat(',')
            if packed: s.expect('>')
            t = Ty('struct', fields=fs, packed=packed)
        else: raise SyntaxError('type %r in %r' % (v, s.t[:15]))
        while s.peek()[1] == '(':   # function type  ret (args...)
            save = s.i
            s.skip_paren()
            t = Ty('fnty', el=t)
        return t
    def value(s, ty):
        k, v = s.next()
        if k == 'lid': return ('r', v[1:].strip('"'))
        if k == 'gid': return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty.k == 'int': return ('c', int(v) & ((1 << ty.w) - 1))
            return ('f', v)
        if k == 'str':
            return ('str', unescape(v))
        if k == 'word':
            if v in ('true', 'false'): return ('c', 1 if v == 'true' else 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            if v in ('getelementptr',):
                inb = False
                while s.peek()[1] in ('inbounds', 'nuw', 'nusw'): s.next()
                s.expect('('); bt = s.type(); s.expect(',')
                args = []
                while True:
                    t = s.type(); args.append((t, s.value(t)))
                    if s.eat(')'): break
                    s.expect(',')
                return ('gep', bt, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.expect('('); t = s.type(); x = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('sub', 'add', 'icmp', 'and', 'or', 'xor', 'mul', 'select', 'shl', 'lshr', 'ashr'):
                while s.peek()[1] not in ('(',): s.next()
                s.skip_paren(); return ('undef',)
            raise SyntaxError('value %r in %r' % (v, s.t[:20]))
        if v in ('[', '{', '<'):
            if v == '<' and s.peek()[1] == '{': s.next(); close = '}'; pk = True
            else: close = {'[': ']', '{': '}', '<': '>'}[v]; pk = False
            r = []
            while not s.eat(close):
                t = s.type(); r.append((t, s.value(t))); s.eat(',')
            if pk: s.expect('>')
            return ('agg', r)
        if k == 'meta':
            # metadata operand (dbg.*): consume up to ) at depth 0
            return ('meta', v)
        raise SyntaxError('value %r in %r' % (v, s.t[:20]))

def unescape(v):
    if v.startswith('c'): v = v[1:]
    v = v[1:-1]
    out = bytearray(); i = 0
    while i < len(v):
        if v[i] == '\\':
            if v[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(v[i + 1:i + 3], 16)); i += 3
        else:
            out += v[i].encode('latin-1', 'replace'); i += 1
    return bytes(out)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'fptosi', 'fptoui',
        'sitofp', 'uitofp', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'nusw', 'samesign'}

class Module:
    def __init__(s, path, src):
        s.path = path; s.src = src
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.md = {}; s._mdraw = {}
        s.parse(open(path, encoding='latin-1').read())
    def named(s, n):
        n = n.strip('"')
        t = s.types.get(n)
        if t is None: t = s.types[n] = Ty('struct', name=n, fields=[])
        return t
    def parse(s, text):
        lines = text.split('\n')
        # pass 1: types & metadata
        for L in lines:
            if L.startswith('%') and ' = type ' in L:
                n, d = L.split(' = type ', 1)
                t = s.named(n[1:])
                if d.strip() == 'opaque': continue
                p = P(tokenize(d), s); q = p.type()
                t.fields = q.fields; t.packed = q.packed; t.k = q.k
            elif L.startswith('!') and L[1:2].isdigit():
                n, d = L.split(' = ', 1); s._mdraw[int(n[1:])] = d
        i = 0; N = len(lines)
        while i < N:
            L = lines[i]
            if L.startswith('@'):
                # initialisers of char arrays may hold anything but newlines
                s.parse_global(L)
            elif L.startswith('declare '):
                p = P(tokenize(re.sub(r'^declare\s+(!dbg !\d+ )?', '', L)), s)
                s.skip_linkage(p); 
                try: rt = p.type()
                except SyntaxError: rt = VOID
                # declare form: type may have swallowed nothing; name follows
                nm = p.next()[1][1:].strip('"')
                s.decls[nm] = rt
            elif L.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                s.parse_func(L, lines[i + 1:j]); i = j
            i += 1
    def skip_linkage(s, p):
        while True:
            k, v = p.peek()
            if v in ('dso_local', 'internal', 'external', 'private', 'local_unnamed_addr', 'unnamed_addr', 'hidden',
                     'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'linkonce_odr', 'weak', 'common', 'available_externally'):
                p.i += 1
            elif v in ('align', 'dereferenceable'): p.i += 1; p.skip_paren() if p.peek()[1] == '(' else p.next()
            else: return
    def parse_global(s, L):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
        nm = m.group(1).strip('"'); rest = m.group(2)
        g = Global(); g.name = nm; g.mod = s; g.internal = False; g.const = False; g.decl = False; g.section = None; g.raw = g._ty = g._init = None
        mm = re.search(r', section "([^"]*)"', rest)
        if mm: g.section = mm.group(1)
        mm = re.search(r'!dbg !(\d+)', rest); g.dbg = int(mm.group(1)) if mm else None
        while True:
            v, _, tail = rest.partition(' ')
            if v in ('internal', 'private'): g.internal = True
            elif v == 'external': g.decl = True
            elif v in ('dso_local', 'local_unnamed_addr', 'unnamed_addr', 'common', 'appending', 'weak', 'hidden', 'externally_initialized', 'linkonce_odr'): pass
            elif v.startswith('thread_local'): pass
            elif v == 'constant': g.const = True; rest = tail; break
            elif v == 'global': rest = tail; break
            elif v == 'alias': return
            else: raise SyntaxError(L[:200])
            rest = tail
        g.raw = rest
        s.globals[nm] = g
    def parse_func(s, head, body):
        f = Func(); f.mod = s
        m = re.search(r'!dbg !(\d+)', head); f.dbg = int(m.group(1)) if m else None
        f.internal = ' internal ' in head
        p = P(tokenize(head[len('define '):head.rindex('{')]), s)
        s.skip_linkage(p)
        f.ret = p.type()
        f.name = p.next()[1][1:].strip('"')
        p.expect('(')
        f.vararg = False
        while not p.eat(')'):
            if p.eat('...'): f.vararg = True; continue
            t = p.type(); p.skip_attrs()
            k, v = p.peek()
            nm = p.next()[1][1:].strip('"') if k == 'lid' else str(len(f.params))
            f.params.append((t, nm)); p.eat(',')
        cur = None
        i = 0
        n = len(body)
        while i < n:
            L = body[i]; i += 1
            st = L.strip()
            if not st or st.startswith(';'): continue
            if not L.startswith(' '):
                nm = L.split(':', 1)[0].strip('"')
                cur = nm; f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = 'entry'; f.blocks[cur] = []; f.order.append(cur)
            if 'call void @llvm.dbg.' in st or 'call void @llvm.lifetime' in st: continue
            if st.startswith('switch ') and st.endswith('['):
                while True:
                    L2 = body[i]; i += 1
                    st += ' ' + L2.strip()
                    if L2.strip().startswith(']'): break
            ins = s.parse_instr(st)
            ins.blk = cur; ins.fn = f; ins.idx = len(f.blocks[cur])
            f.blocks[cur].append(ins)
        s.funcs[f.name] = f
    def parse_instr(s, st):
        I = Instr(); I.res = None; I.extra = None; I.dbg = None; I.ty = VOID; I.a = []
        m = re.search(r', !dbg !(\d+)', st)
        if m: I.dbg = int(m.group(1))
        # cut trailing metadata
        st = re.sub(r'(, ![a-zA-Z.]+ !\d+)+\s*$', '', st)
        p = P(tokenize(st), s)
        if p.peek()[0] == 'lid' and p.t[1][1] == '=':
            I.res = p.next()[1][1:].strip('"'); p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
        I.op = op
        if op in BIN:
            while p.peek()[1] in FLAGS: p.next()
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            I.ty = t; I.a = [a, b]
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in FLAGS: p.next()
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            I.ty = INT(1); I.extra = (pred, t); I.a = [a, b]
        elif op in CAST:
            while p.peek()[1] in FLAGS: p.next()
            t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
            I.ty = t2; I.extra = t; I.a = [a]
        elif op == 'load':
            if p.peek()[1] in ('volatile', 'atomic'): p.next()
            t = p.type(); p.expect(','); p.type(); a = p.value(PTR)
            I.ty = t; I.a = [a]
        elif op == 'store':
            if p.peek()[1] in ('volatile', 'atomic'): p.next()
            t = p.type(); v = p.value(t); p.expect(','); p.type(); a = p.value(PTR)
            I.extra = t; I.a = [v, a]
        elif op == 'getelementptr':
            while p.peek()[1] in FLAGS: p.next()
            bt = p.type(); p.expect(','); p.type(); b = p.value(PTR)
            idx = []
            while p.eat(','):
                t = p.type(); idx.append((t, p.value(t)))
            I.ty = PTR; I.extra = (bt, idx); I.a = [b]
        elif op == 'alloca':
            t = p.type(); I.extra = (t, None)
            if p.eat(','):
                if p.peek()[1] != 'align':
                    t2 = p.type(); I.extra = (t, p.value(t2))
            I.ty = PTR
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next(); I.extra = [p.next()[1][1:].strip('"')]
            else:
                t = p.type(); I.a = [p.value(t)]; p.expect(','); p.expect('label')
                x = p.next()[1][1:].strip('"'); p.expect(','); p.expect('label')
                I.extra = [x, p.next()[1][1:].strip('"')]
        elif op == 'switch':
            t = p.type(); I.a = [p.value(t)]; p.expect(','); p.expect('label')
            d = p.next()[1][1:].strip('"'); p.expect('[')
            cs = []
            while not p.eat(']'):
                t2 = p.type(); v = p.value(t2); p.expect(','); p.expect('label')
                cs.append((v[1], p.next()[1][1:].strip('"')))
            I.extra = (t, d, cs)
        elif op == 'ret':
            t = p.type()
            I.ty = t
            if t.k != 'void': I.a = [p.value(t)]
        elif op == 'phi':
            t = p.type(); I.ty = t; inc = []
            while True:
                p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1][1:].strip('"'); p.expect(']')
                inc.append((v, b))
                if not p.eat(','): break
            I.extra = inc
        elif op == 'select':
            while p.peek()[1] in FLAGS: p.next()
            t1 = p.type(); c = p.value(t1); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
            I.ty = t; I.a = [c, a, b]
        elif op == 'call':
            while p.peek()[1] in FLAGS: p.next()
            s.skip_linkage(p); p.skip_attrs()
            t = p.type()
            if t.k == 'fnty': t = t.el
            k, v = p.next()
            callee = ('g', v[1:].strip('"')) if k == 'gid' else ('r', v[1:].strip('"')) if k == 'lid' else ('undef',)
            p.expect('(')
            args = []
            while not p.eat(')'):
                if p.eat('...'): continue
                at = p.type(); p.skip_attrs()
                if at.k == 'metadata':
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v == '(': d += 1
                        if v == ')': d -= 1
                    args.append((at, ('meta',)))
                else: args.append((at, p.value(at)))
                p.eat(',')
            I.ty = t; I.extra = callee; I.a = args
        elif op in ('unreachable',): pass
        elif op in ('freeze', 'fneg'):
            t = p.type(); I.ty = t; I.a = [p.value(t)]
        elif op == 'extractvalue' or op == 'insertvalue':
            t = p.type(); I.a = [p.value(t)]; I.ty = t
        elif op == 'va_arg':
            p.type(); I.a = [p.value(PTR)]; p.expect(','); I.ty = p.type()
        else: raise SyntaxError('instr ' + st)
        return I
    # ---------- debug info ----------
    def meta(s, n):
        r = s.md.get(n)
        if r is None:
            d = s._mdraw.get(n)
            if d is None: return None
            d = d.replace('distinct ', '')
            m = re.match(r'!(\w+)\((.*)\)$', d)
            if m:
                f = {'_k': m.group(1)}
                for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|!\w*\([^)]*\)|[^,]+)', m.group(2)):
                    f[k] = v[1:-1] if v.startswith('"') else v.strip()
            elif d.startswith('!{'):
                f = {'_k': 'tuple', 'items': [x.strip() for x in d[2:-1].split(',')] if d != '!{}' else []}
            else: f = {'_k': 'raw', 'raw': d}
            r = s.md[n] = f
        return r
    def ref(s, v):
        if v and v.startswith('!') and v[1:].isdigit(): return s.meta(int(v[1:]))
        return None
    def line(s, dbg):
        """-> (file, line)"""
        if dbg is None: return (s.src, 0)
        d = s.meta(dbg)
        if not d or d['_k'] != 'DILocation': return (s.src, 0)
        ln = int(d.get('line', 0)); sc = s.ref(d.get('scope'))
        f = None
        while sc is not None and f is None:
            f = s.ref(sc.get('file')); sc = s.ref(sc.get('scope'))
        return (f['filename'] if f else s.src, ln)
    def strip_type(s, t):
        while t is not None and t['_k'] == 'DIDerivedType' and t.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            t = s.ref(t.get('baseType'))
        return t
    def pointee(s, t):
        t = s.strip_type(t)
        if t is not None and t['_k'] == 'DIDerivedType' and t.get('tag') == 'DW_TAG_pointer_type':
            return s.strip_type(s.ref(t.get('baseType')))
        return None
    def members(s, t):
        """[(byte offset, byte size, name, type)] of a DI struct"""
        r = []
        el = s.ref(t.get('elements'))
        for it in (el or {}).get('items', []):
            m = s.ref(it)
            if m and m.get('tag') == 'DW_TAG_member':
                r.append((int(m.get('offset', 0)) // 8, int(m.get('size', 0)) // 8, m.get('name', ''), s.strip_type(s.ref(m.get('baseType')))))
        return r
    def fn_types(s, f):
        """DI types of [ret, params...]"""
        if f.dbg is None: return []
        d = s.meta(f.dbg); t = s.ref(d.get('type'))
        ts = s.ref(t.get('types')) if t else None
        return [s.strip_type(s.ref(x)) if x != 'null' else None for x in (ts or {}).get('items', [])]
    def di_struct(s, name):
        for n, d in s._mdraw.items():
            if 'DW_TAG_structure_type' in d and 'name: "%s"' % name in d:
                m = s.meta(n)
                if m.get('name') == name and m.get('elements'): return m
        return None
    def enums(s):
        """{enumerator: value}"""
        r = {}
        for n, d in s._mdraw.items():
            if 'DIEnumerator(' in d:
                m = s.meta(n); r[m['name']] = int(m['value'])
        return r
