"""Flow- and path-sensitive abstract interpretation of LLVM IR.

Domain: every integer is a vector of bits; a bit is a constant, a (possibly negated) symbol, or a
hash-consed AND/XOR of other bits (bit-level value numbering).  Branch conditions refine the state
by unit propagation only; there is no search and no solver.  Memory is a map from abstract objects
(globals, parameters, allocation sites, "what this pointer field points to") to byte cells.
States reaching a control-flow join are kept apart while they differ in the partition key and are
joined otherwise; loops are iterated to a fixed point with widening (changed cells become unknown).
"""
import sys
from collections import deque
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- bits
F, T = 0, 1
NODES = [('const',)]            # id -> ('var',tag) | ('and',a,b) | ('xor',a,b)
_cons = {}
def mk(node):
    i = _cons.get(node)
    if i is None:
        i = len(NODES); NODES.append(node); _cons[node] = i
    return i
def var(tag): return 2 * mk(('var', tag))
def neg(a): return a ^ 1
def and_(a, b):
    if a == F or b == F: return F
    if a == T: return b
    if b == T: return a
    if a == b: return a
    if a == b ^ 1: return F
    if a > b: a, b = b, a
    # absorption one level deep:  a & (a & c) = a & c ;  a & ~(a & c) stays
    for x, y in ((a, b), (b, a)):
        n = NODES[y >> 1]
        if n[0] == 'and':
            if not y & 1:
                if x in (n[1], n[2]): return y
                if x ^ 1 in (n[1], n[2]): return F
            elif x ^ 1 in (n[1], n[2]): return x
    return 2 * mk(('and', a, b))
def or_(a, b): return and_(a ^ 1, b ^ 1) ^ 1
def xor_(a, b):
    if a == F: return b
    if b == F: return a
    if a == T: return b ^ 1
    if b == T: return a ^ 1
    if a == b: return F
    if a == b ^ 1: return T
    s = (a ^ b) & 1
    a &= ~1; b &= ~1
    if a > b: a, b = b, a
    la, lb = leaves(a), leaves(b)
    if len(la) + len(lb) <= 40 and (len(la) > 1 or len(lb) > 1):
        d = sorted(la ^ lb)
        if not d: return s
        r = d[0]
        for x in d[1:]:
            k = ('xor', r, x)
            n = mk(k)
            if n not in LEAVES: LEAVES[n] = leaves(r) | {x}
            r = 2 * n
        return r ^ s
    return (2 * mk(('xor', a, b))) ^ s
LEAVES = {}
def leaves(a):
    """the xor operands of a positive literal (a canonical, flattened parity)"""
    n = NODES[a >> 1]
    if n[0] != 'xor': return frozenset((a,))
    r = LEAVES.get(a >> 1)
    if r is None:
        r = leaves(n[1] & ~1) ^ leaves(n[2] & ~1); LEAVES[a >> 1] = r
    return r
def mux(c, a, b):
    if c == T: return a
    if c == F: return b
    if a == b: return a
    if a == T and b == F: return c
    if a == F and b == T: return c ^ 1
    return or_(and_(c, a), and_(c ^ 1, b))
def const(v, w): return tuple((v >> i) & 1 for i in range(w))
def isconst(bs): return all(b < 2 for b in bs)
def cval(bs):
    r = 0
    for i, b in enumerate(bs):
        if b == 1: r |= 1 << i
        elif b: return None
    return r
def umax(bs):
    r = 0
    for i, b in enumerate(bs):
        if b != F: r |= 1 << i
    return r
def umin(bs):
    r = 0
    for i, b in enumerate(bs):
        if b == T: r |= 1 << i
    return r
def fresh_bits(tag, w): return tuple(var((tag, i)) for i in range(w))
def show(l):
    if l < 2: return str(l)
    n = NODES[l >> 1]; s = '!' if l & 1 else ''
    if n[0] == 'var': return s + str(n[1])
    return s + '(%s %s %s)' % (show(n[1]), '&' if n[0] == 'and' else '^', show(n[2]))

def ult(a, b, orequal=False):
    r = T if orequal else F
    for x, y in zip(a, b):
        # r = (y & ~x) | (~(x^y) & r)
        r = mux(xor_(x, y), y, r)
    return r
def add_bits(a, b, c=F):
    out = []
    for x, y in zip(a, b):
        s = xor_(x, y)
        out.append(xor_(s, c)); c = or_(and_(x, y), and_(c, s))
    return tuple(out)
def eq_bits(a, b):
    r = T
    for x, y in zip(a, b):
        r = and_(r, xor_(x, y) ^ 1)
        if r == F: return F
    return r

# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('base', 'lo', 'hi', 'idx')
    # base: object key or None for NULL; [lo,hi]: inclusive range of start offsets; idx identifies the symbolic index
    def __init__(s, base, lo=0, hi=None, idx=None): s.base = base; s.lo = lo; s.hi = lo if hi is None else hi; s.idx = idx
    def key(s): return (s.base, s.lo, s.hi, s.idx)
    def __eq__(s, o): return isinstance(o, Ptr) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return 'Ptr(%s+%s)' % (s.base, s.lo if s.lo == s.hi else '%s..%s' % (s.lo, s.hi))
NULL = Ptr(None)

class Infeasible(Exception): pass

class State:
    __slots__ = ('asg', 'memo', 'pend', 'mem', 'own', 'regs', 'trace', 'tags', 'blk', 'prev')
    def __init__(s):
        s.asg = {}; s.memo = {}; s.pend = (); s.mem = {}; s.own = set(); s.regs = {}; s.trace = None; s.tags = {}; s.blk = s.prev = None
    def fork(s):
        n = State(); n.asg = dict(s.asg); n.memo = s.memo; n.pend = s.pend; n.mem = dict(s.mem); s.own = set(); n.own = set()
        n.regs = dict(s.regs); n.trace = s.trace; n.tags = dict(s.tags); n.blk = s.blk; n.prev = s.prev
        s.memo = dict(s.memo); n.memo = dict(s.memo)
        return n
    def norm(s, l):
        if l < 2: return l
        m = s.memo.get(l)
        if m is not None: return m
        i = l >> 1
        a = s.asg.get(i)
        if a is not None: r = s.norm(a ^ (l & 1)) if a > 1 else a ^ (l & 1)
        else:
            n = NODES[i]
            if n[0] == 'var': r = l
            else:
                x = s.norm(n[1]); y = s.norm(n[2])
                if x == n[1] and y == n[2]: r = l
                else:
                    r = (and_ if n[0] == 'and' else xor_)(x, y)
                    if r > 1 and (r >> 1) in s.asg: r = s.norm(r)
                    r ^= l & 1
        s.memo[l] = r
        return r
    def nb(s, bs):
        for b in bs:
            if b > 1: return tuple([s.norm(x) for x in bs])
        return bs
    def assume(s, l):
        """refine with literal l true; raises Infeasible on contradiction"""
        work = [l]
        while work:
            l = s.norm(work.pop())
            if l == T: 
                if not work:
                    w2 = []
                    newp = []
                    for p in s.pend:
                        q = s.norm(p)
                        if q == T: continue
                        if q == F: raise Infeasible
                        if q != p: w2.append(q)
                        else: newp.append(p)
                    if w2: s.pend = tuple(newp); work += w2
                continue
            if l == F: raise Infeasible
            i = l >> 1; n = NODES[i]
            s.memo = {}
            if n[0] == 'var':
                s.asg[i] = T ^ (l & 1)
            elif n[0] == 'and' and not l & 1:
                s.asg[i] = T
                work += [n[1], n[2]]
            elif n[0] == 'xor':
                a, b = n[1], n[2]
                # a ^ b = v   ->  one var := other
                v = 1 ^ (l & 1)
                na, nb = NODES[a >> 1], NODES[b >> 1]
                if na[0] == 'var' and not s.contains(b, a >> 1): s.asg[a >> 1] = b ^ v ^ (a & 1)
                elif nb[0] == 'var' and not s.contains(a, b >> 1): s.asg[b >> 1] = a ^ v ^ (b & 1)
                else: s.asg[i] = v; s.pend = s.pend + (l,)
            else:
                s.asg[i] = F
                # negated AND: remember; re-examined whenever something is learnt
                s.pend = s.pend + (l,)
            # re-examine pending facts
            newp = []
            for p in s.pend:
                i2 = p >> 1; n2 = NODES[i2]
                x = s.norm(n2[1]); y = s.norm(n2[2])
                if n2[0] == 'and':
                    if x == T and y == T: raise Infeasible
                    if x == F or y == F or x == y ^ 1: continue
                    if x == T: work.append(y ^ 1)
                    elif y == T: work.append(x ^ 1)
                    elif x == y: work.append(x ^ 1)
                    else: newp.append(p)
                else:
                    v = xor_(x, y)
                    want = s.asg.get(i2, None)
                    if v < 2:
                        if want is not None and v != want: raise Infeasible
                    elif want is not None and NODES[v >> 1][0] == 'var': work.append(v if want == 1 else v ^ 1)
                    else: newp.append(p)
            s.pend = tuple(newp)
    def contains(s, l, vid, d=0):
        i = l >> 1
        if i == vid: return True
        n = NODES[i]
        if n[0] in ('const', 'var'): return False
        if d > 40: return True
        return s.contains(n[1], vid, d + 1) or s.contains(n[2], vid, d + 1)
    # ---- memory
    def obj(s, k):
        o = s.mem.get(k)
        if o is None: o = {}
        return o
    def wobj(s, k):
        o = s.mem.get(k)
        if o is None: o = s.mem[k] = {}; s.own.add(k)
        elif k not in s.own: o = s.mem[k] = dict(o); s.own.add(k)
        return o

class Report:
    def __init__(s): s.items = []

class Engine:
    """Analyses functions of a set of modules.  Subclass and override hooks."""
    max_states = 400
    inline_depth = 12
    def __init__(s, mods, main=None):
        s.mods = mods                       # list of ir.Module
        s.fn = {}
        for m in mods:
            for n, f in m.funcs.items():
                if not f.internal or n not in s.fn: s.fn[n] = f
        s.globs = {}
        for m in mods:
            for n, g in m.globals.items():
                k = (m.src, n) if g.internal else n
                if k not in s.globs or s.globs[k].decl: s.globs[k] = g
        s._live = {}; s._rpo = {}
        s.fresh_n = 0
        s.visited = set(); s.call_sites = set(); s.n_instr = 0
        s.stack = []
        s.opaque = set()                    # functions to treat as external
        s._tab = {}
        s._pt = {}
    # ---------- function lookups
    def lookup(s, name, mod):
        f = mod.funcs.get(name)
        if f is not None: return f
        f = s.fn.get(name)
        if f is not None and f.internal: return None
        return f
    def gkey(s, name, mod):
        g = mod.globals.get(name)
        if g is not None and g.internal: return ('g', (mod.src, name))
        return ('g', name)
    def ginfo(s, key): return s.globs.get(key[1])
    # ---------- CFG helpers
    def rpo(s, f):
        r = s._rpo.get(f)
        if r is None:
            succ = {b: s.succs(f, b) for b in f.order}
            seen = set(); post = []
            st = [(f.order[0], iter(succ[f.order[0]]))]; seen.add(f.order[0])
            while st:
                b, it = st[-1]
                for n in it:
                    if n not in seen: seen.add(n); st.append((n, iter(succ[n]))); break
                else: post.append(b); st.pop()
            order = post[::-1]; pos = {b: i for i, b in enumerate(order)}
            heads = set()
            preds = {b: [] for b in order}
            for b in order:
                for n in succ[b]:
                    preds[n].append(b)
                    if pos[n] <= pos[b]: heads.add(n)
            r = s._rpo[f] = (order, pos, heads, preds, succ)
        return r
    def succs(s, f, b):
        t = f.blocks[b][-1]
        if t.op == 'br': return list(dict.fromkeys(t.extra))
        if t.op == 'switch': return list(dict.fromkeys([t.extra[1]] + [c[1] for c in t.extra[2]]))
        return []
    def live(s, f):
        """block -> registers live on entry"""
        L = s._live.get(f)
        if L is not None: return L
        order, pos, heads, preds, succ = s.rpo(f)
        use = {}; de = {}
        for b in order:
            u = set(); d = set()
            for I in f.blocks[b]:
                if I.op == 'phi':
                    d.add(I.res); continue
                for o in s.operands(I):
                    if o[0] == 'r' and o[1] not in d: u.add(o[1])
                if I.res: d.add(I.res)
            use[b] = u; de[b] = d
        L = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set()
                for n in succ[b]:
                    out |= L[n]
                    for I in f.blocks[n]:
                        if I.op != 'phi': break
                        for v, pb in I.extra:
                            if pb == b and v[0] == 'r': out.add(v[1])
                n = use[b] | (out - de[b])
                if n != L[b]: L[b] = n; ch = True
        # phi results are live at block entry once evaluated
        s._live[f] = L
        return L
    def operands(s, I):
        for a in I.a:
            yield a[1] if I.op == 'call' else a
        if I.op == 'getelementptr':
            for t, v in I.extra[1]: yield v
        if I.op == 'call' and isinstance(I.extra, tuple): yield I.extra
        if I.op == 'alloca' and I.extra[1]: yield I.extra[1]
    # ---------- operand evaluation
    def fresh(s, w, why=''):
        s.fresh_n += 1
        return fresh_bits(('?', why, s.fresh_n), w)
    def val(s, st, o, ty, mod):
        k = o[0]
        if k == 'r':
            v = st.regs.get(o[1])
            if v is None: return s.havoc_val(ty, o[1])
            if isinstance(v, tuple): return st.nb(v)
            return v
        if k == 'c': return const(o[1], ty.w)
        if k == 'null': return NULL if ty.k == 'ptr' else const(0, ty.w)
        if k == 'g':
            if o[1] in mod.funcs or o[1] in mod.decls: return Ptr(('fn', o[1]))
            return Ptr(s.gkey(o[1], mod))
        if k == 'gep':
            return s.gep(st, o[1], s.val(st, o[2][0][1], o[2][0][0], mod), o[2][1:], mod)
        if k == 'undef': return s.havoc_val(ty, 'undef')
        if k == 'zero': return const(0, ty.w) if ty.k == 'int' else NULL if ty.k == 'ptr' else None
        return s.havoc_val(ty, 'op')
    def havoc_val(s, ty, why):
        if ty.k == 'int': return s.fresh(ty.w, why)
        if ty.k == 'ptr': s.fresh_n += 1; return Ptr(('unk', why, s.fresh_n))
        return None
    def gep(s, st, bt, base, idx, mod):
        if not isinstance(base, Ptr) or base.base is None: 
            if isinstance(base, Ptr): return Ptr(('unk', 'nullgep', id(bt)))
            return s.havoc_val(__import__('ir').PTR, 'gep')
        lo, hi = base.lo, base.hi; ident = base.idx
        t = bt; first = True
        for ty, v in idx:
            iv = s.val(st, v, ty, mod)
            if not first and t.k == 'struct':
                n = cval(iv); off = t.offsets()[n]; lo += off; hi += off; t = t.fields[n]; continue
            if first: el = t; n = None
            else: el = t.el; n = t.n
            sz = el.size()
            c = cval(iv)
            if c is not None:
                if ty.w and c >> (ty.w - 1): c -= 1 << ty.w
                lo += c * sz; hi += c * sz
            else:
                a, b = umin(iv), umax(iv)
                if iv[-1] != F: a, b = None, None
                s.on_index(st, iv, n, el)
                if n is not None:
                    a2 = 0 if a is None else a; b2 = n - 1 if b is None else min(b, n - 1)
                else:
                    a2, b2 = a, b
                if a2 is None: a2 = -1 << 40; b2 = 1 << 40
                lo += a2 * sz; hi += b2 * sz
                ident = (ident, iv, sz)
            if not first: t = t.el
            first = False
        return Ptr(base.base, lo, hi, ident)
    def on_index(s, st, iv, n, el): pass
    # ---------- memory
    def init_byte(s, st, k, off):
        if k[0] == 'g':
            g = s.ginfo(k)
            if g is not None and g.const and g.init is not None:
                b = s.const_bytes(k, g)
                v = b[off] if 0 <= off < len(b) else None
                if isinstance(v, int): return const(v, 8)
                if v is not None: return v
        if k[0] == 'zheap': return const(0, 8)
        return fresh_bits((k, off), 8)
    def const_bytes(s, k, g):
        r = s._tab.get(k)
        if r is None:
            r = []; s.flat(g.ty, g.init, r, g.mod); s._tab[k] = r
        return r
    def flat(s, ty, v, out, mod):
        if v[0] == 'zero' or v[0] == 'null' and ty.k != 'ptr': out += [0] * ty.size(); return
        if ty.k == 'int':
            n = ty.size(); c = v[1] if v[0] == 'c' else 0
            out += [(c >> (8 * i)) & 255 for i in range(n)]; return
        if ty.k == 'arr':
            if v[0] == 'str': out += list(v[1])
            elif v[0] == 'agg':
                for t, x in v[1]: s.flat(t, x, out, mod)
            else: out += [None] * ty.size()
            return
        if ty.k == 'struct':
            base = len(out)
            if v[0] == 'agg':
                # initialiser may carry a different (anonymous) struct type
                offs = ty.offsets(); 
                for (t, x), o in zip(v[1], offs):
                    while len(out) < base + o: out.append(0)
                    s.flat(t, x, out, mod)
                while len(out) < base + ty.size(): out.append(0)
            else: out += [None] * ty.size()
            return
        if ty.k == 'ptr':
            if v[0] == 'null': out += [('P', NULL)] + [('P+',)] * 7
            elif v[0] == 'g':
                b = ('fn', v[1]) if v[1] in mod.funcs or v[1] in mod.decls else s.gkey(v[1], mod)
                out += [('P', Ptr(b))] + [('P+',)] * 7
            else: out += [None] * 8
            return
        out += [None] * ty.size()
    def read_byte(s, st, k, off):
        o = st.mem.get(k)
        if o is not None:
            c = o.get(off)
            if c is not None: return c
            h = o.get('H')
            if h:
                for lo, hi, tag in reversed(h):
                    if lo <= off < hi: return fresh_bits((tag, k, off), 8)
        return s.init_byte(st, k, off)
    def has_cell(s, st, k, off):
        o = st.mem.get(k)
        if o is None: return False
        if off in o: return True
        for lo, hi, tag in o.get('H', ()):
            if lo <= off < hi: return True
        return False
    def load(s, st, p, ty, I=None):
        if p.base is None or ty.k in ('double', 'float', 'x86_fp80', 'struct', 'arr', 'vec'): return s.havoc_val(ty, 'ld')
        k = p.base
        if p.lo == p.hi and p.idx is None or p.lo == p.hi and k[0] != 'g': 
            off = p.lo
            if ty.k == 'ptr':
                c = s.read_byte(st, k, off)
                if c and c[0] == 'P': return c[1]
                if c and c[0] == 'P+' : return s.havoc_val(ty, 'pp')
                if c and isinstance(c[0], int) and c == const(0, 8):
                    bs = [s.read_byte(st, k, off + i) for i in range(8)]
                    if all(b == const(0, 8) for b in bs): return NULL
                o = st.mem.get(k)
                if o is not None and off in o: return Ptr(('unk', 'int', c))
                # lazily named pointee
                tag = None
                if o is not None:
                    for lo, hi, t in reversed(o.get('H', ())):
                        if lo <= off < hi: tag = t; break
                q = s.pointee(st, k, off, tag)
                s.set_ptr(st, k, off, q)
                return q
            r = []
            for i in range(ty.size()):
                c = s.read_byte(st, k, off + i)
                if c and not isinstance(c[0], int): c = fresh_bits(('ptrbits', c[1] if c[0] == 'P' else None, i), 8)
                r += c
            return st.nb(tuple(r[:ty.w]))
        return s.load_range(st, p, ty)
    def pointee(s, st, k, off, tag):
        return Ptr(('*', k, off) if tag is None else ('*', k, off, tag))
    def load_range(s, st, p, ty):
        k = p.base
        if ty.k == 'ptr':
            if k[0] == 'g':
                return Ptr(('*x', k, p.lo, p.hi, p.idx))
            return Ptr(('*x', k, p.lo, p.hi, p.idx, s.version(st, k, p.lo, p.hi)))
        w = ty.w; n = ty.size()
        g = s.ginfo(k) if k[0] == 'g' else None
        if g is not None and g.const and g.init is not None and p.idx is not None and p.idx[0] is None:
            b = s.const_bytes(k, g); iv, sz = st.nb(p.idx[1]), p.idx[2]
            return s.table(st, k, b, p.lo - umin(iv) * sz if iv[-1] == F else 0, iv, sz, n, w)
        # distinct reads of an unchanged region with the same index give the same symbol
        return fresh_bits(('ldx', k, p.lo, p.hi, p.idx, s.version(st, k, p.lo, p.hi)), w)
    def version(s, st, k, lo, hi):
        o = st.mem.get(k)
        if o is None: return 0
        return o.get('V', 0)
    def table(s, st, k, b, off0, iv, sz, n, w):
        free = [i for i, x in enumerate(iv) if x > 1]
        if len(free) > 12: return fresh_bits(('tab', k, off0, iv), w)
        base = umin(iv); ents = []
        for m in range(1 << len(free)):
            x = base
            for j, i in enumerate(free):
                if m >> j & 1: x |= 1 << i
            o = off0 + x * sz
            if o < 0 or o + n > len(b): ents.append(None); continue
            bs = b[o:o + n]
            if any(not isinstance(y, int) for y in bs): ents.append(None); continue
            ents.append(sum(y << (8 * i) for i, y in enumerate(bs)))
        good = [e for e in ents if e is not None]
        out = []
        for i in range(w):
            vs = {(e >> i) & 1 for e in good}
            if len(vs) <= 1 and len(good) == len(ents): out.append(vs.pop() if vs else F); continue
            # odd-parity shaped columns get a canonical symbol so that they can be compared
            if len(good) == len(ents):
                fit = None
                par = [bin(m).count('1') & 1 for m in range(len(ents))]
                col = [(e >> i) & 1 for e in ents]
                if col == par: fit = F
                elif col == [1 - q for q in par]: fit = T
                if fit is not None:
                    r = fit
                    for j in free: r = xor_(r, iv[j])
                    out.append(r); continue
                hit = [j for j in range(len(free)) if all(((m >> j) & 1) == col[m] for m in range(len(ents)))]
                if hit: out.append(iv[free[hit[0]]]); continue
            out.append(var(('tab', k, off0, iv, i)))
        return tuple(out)
    def set_ptr(s, st, k, off, q):
        o = st.wobj(k)
        o[off] = ('P', q)
        for i in range(1, 8): o[off + i] = ('P+',)
    def store(s, st, p, v, ty, I=None):
        if p.base is None: return
        k = p.base
        if p.lo != p.hi:
            s.havoc_range(st, k, p.lo, p.hi + ty.size(), I); return
        o = st.wobj(k)
        o['V'] = hash((o.get('V', 0), id(I)))
        if isinstance(v, Ptr): s.set_ptr(st, k, p.lo, v); return
        if ty.k != 'int':
            s.havoc_range(st, k, p.lo, p.lo + ty.size(), I); return
        n = ty.size(); v = tuple(v) + (F,) * (8 * n - len(v))
        for i in range(n):
            o[p.lo + i] = v[8 * i:8 * i + 8]
    def havoc_range(s, st, k, lo, hi, why=None):
        o = st.wobj(k)
        for x in [x for x in o if isinstance(x, int) and lo <= x < hi]: del o[x]
        s.fresh_n += 1
        h = o.get('H', ())
        h = tuple(e for e in h if not (lo <= e[0] and e[1] <= hi))
        o['H'] = h + ((lo, hi, ('hv', s.fresh_n)),)
        o['V'] = ('h', s.fresh_n)
    # ---------- instruction transfer
    def binop(s, st, op, a, b, w, I=None):
        if op == 'and': return tuple(and_(x, y) for x, y in zip(a, b))
        if op == 'or': return tuple(or_(x, y) for x, y in zip(a, b))
        if op == 'xor': return tuple(xor_(x, y) for x, y in zip(a, b))
        ca, cb = cval(a), cval(b); M = (1 << w) - 1
        if ca is not None and cb is not None:
            def sg(x): return x - (1 << w) if x >> (w - 1) else x
            if op == 'add': return const((ca + cb) & M, w)
            if op == 'sub': return const((ca - cb) & M, w)
            if op == 'mul': return const((ca * cb) & M, w)
            if op == 'shl': return const((ca << cb) & M, w) if cb < w else const(0, w)
            if op == 'lshr': return const(ca >> cb, w)
            if op == 'ashr': return const((sg(ca) >> min(cb, w)) & M, w)
            if cb:
                if op == 'udiv': return const(ca // cb, w)
                if op == 'urem': return const(ca % cb, w)
                x, y = sg(ca), sg(cb); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                if op == 'sdiv': return const(q & M, w)
                if op == 'srem': return const((x - q * y) & M, w)
        if cb is not None:
            if op == 'shl': return ((F,) * cb + a)[:w] if cb < w else const(0, w)
            if op == 'lshr': return a[cb:] + (F,) * min(cb, w) if cb < w else const(0, w)
            if op == 'ashr': return a[cb:] + (a[-1],) * min(cb, w)
            if op in ('add', 'sub') and cb == 0: return a
            if op == 'mul' and cb and cb & (cb - 1) == 0:
                n = cb.bit_length() - 1; return ((F,) * n + a)[:w]
            if op == 'mul' and cb == 0: return b
            pos = a[-1] == F
            if op in ('udiv',) or op == 'sdiv' and pos:
                if cb and cb & (cb - 1) == 0: n = cb.bit_length() - 1; return a[n:] + (F,) * n
            if op == 'urem' or op == 'srem' and pos:
                if cb and cb & (cb - 1) == 0: n = cb.bit_length() - 1; return a[:n] + (F,) * (w - n)
        if op == 'mul' and ca is not None and cb is None: return s.binop(st, op, b, a, w, I)
        if op == 'add':
            # disjoint bits: or
            if all(x == F or y == F for x, y in zip(a, b)): return tuple(x if y == F else y for x, y in zip(a, b))
            na = sum(1 for x in a if x > 1); nbb = sum(1 for x in b if x > 1)
            if cb is not None and na <= 8 or ca is not None and nbb <= 8: return add_bits(a, b)
        if op == 'sub':
            if a == b: return const(0, w)
            if cb is not None and sum(1 for x in a if x > 1) <= 8:
                return add_bits(a, tuple(x ^ 1 for x in b), T)
        hi = None
        if op == 'add': hi = umax(a) + umax(b)
        elif op == 'mul': hi = umax(a) * umax(b)
        elif op in ('udiv', 'lshr') or op == 'sdiv' and a[-1] == F and b[-1] == F: hi = umax(a)
        elif op == 'urem' or op == 'srem' and a[-1] == F and b[-1] == F: hi = min(umax(a), max(0, umax(b) - 1))
        if op in ('add', 'mul') and a > b: a, b = b, a
        tag = ('op', op, a, b)
        n = w
        if hi is not None and hi <= M: n = hi.bit_length()
        return tuple(var((tag, i)) if i < n else F for i in range(w))
    def icmp(s, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): return s.fresh(1, 'icmp')[0]
            r = s.ptr_eq(st, a, b)
            if pred == 'eq': return r
            if pred == 'ne': return r ^ 1
            return s.fresh(1, 'pcmp')[0]
        if pred == 'eq': return eq_bits(a, b)
        if pred == 'ne': return eq_bits(a, b) ^ 1
        if pred[0] == 's':
            # signed: flip the sign bits
            a = a[:-1] + (a[-1] ^ 1,); b = b[:-1] + (b[-1] ^ 1,); pred = 'u' + pred[1:]
        if pred in ('ugt', 'uge'): a, b = b, a; pred = 'ult' if pred == 'ugt' else 'ule'
        if pred == 'ult':
            if umax(a) < umin(b): return T
            if umin(a) >= umax(b): return F
        else:
            if umax(a) <= umin(b): return T
            if umin(a) > umax(b): return F
        return ult(a, b, pred == 'ule')
    def nonnull(s, k):
        """objects whose address is never NULL"""
        return k[0] in ('g', 'fn', 'alloca', 'param', 'heap', 'zheap')
    def ptr_eq(s, st, a, b):
        if a == b and (a.base is None or a.lo == a.hi): return T
        for x, y in ((a, b), (b, a)):
            if y.base is None:
                if x.base is None: return T
                if s.nonnull(x.base): return F
                if x.lo != 0 or x.hi != 0: return F
                return st.norm(s.null_lit(x.base))
        if a.base == b.base:
            if a.lo == a.hi and b.lo == b.hi: return F
            return s.fresh(1, 'peq')[0]
        if s.nonnull(a.base) and s.nonnull(b.base): return F
        x, y = sorted([a.key(), b.key()], key=repr)
        return st.norm(var(('peq', x, y)))
    def null_lit(s, k): return var(('null', k))
    # ---------- hooks
    def on_store(s, st, I, p, v, ty): pass
    def on_load(s, st, I, p, ty): pass
    def on_call(s, st, I, name, args): 
        """return list of (state, value) to model the call, or None for the default"""
        return None
    def on_branch(s, st, I, cond): pass
    def key(s, st): return ()
    def external(s, st, I, name, args, mod):
        for (ty, _), v in zip(I.a, args):
            if isinstance(v, Ptr) and v.base is not None and v.base[0] not in ('fn',):
                g = s.ginfo(v.base) if v.base[0] == 'g' else None
                if g is not None and g.const: continue
                s.havoc_range(st, v.base, -1 << 40, 1 << 40, I)
        return [(st, s.havoc_val(I.ty, name or 'icall'))]
    # ---------- running
    def run(s, f, args, st):
        """-> list of (state, return value)"""
        if len(s.stack) > s.inline_depth or f.name in s.stack: 
            raise RecursionError(f.name)
        s.stack.append(f.name); s.visited.add(f.name)
        saved = st.regs
        st.regs = {}
        for (ty, nm), v in zip(f.params, args): st.regs[nm] = v
        order, pos, heads, preds, succ = s.rpo(f)
        live = s.live(f)
        inq = {order[0]: [st]}; widened = {}
        rets = []
        import heapq
        pq = [0]; queued = {0}
        guard = 0
        seenhead = {}
        while pq:
            i = heapq.heappop(pq); queued.discard(i)
            b = order[i]
            states = inq.pop(b, [])
            if not states: continue
            guard += 1
            if guard > 20000: raise RuntimeError('no fixpoint in ' + f.name)
            # evaluate phis first
            states = s.phis(f, b, states)
            if b in heads:
                states = s.loop_head(f, b, states, live, seenhead)
            states = s.merge(states, live[b] | {I.res for I in f.blocks[b] if I.op == 'phi'}, (f.name, b))
            for st0 in states:
                for (nb, st1) in s.block(f, b, st0, rets):
                    st1.prev = b
                    inq.setdefault(nb, []).append(st1)
                    j = pos[nb]
                    if j not in queued: queued.add(j); heapq.heappush(pq, j)
        s.stack.pop()
        out = []
        d = len(s.stack) + 1
        for st1, rv in rets:
            for k in [k for k in st1.mem if k[0] == 'alloca' and k[1] == f.name and k[3] == d]: del st1.mem[k]
            st1.regs = saved if len(rets) == 1 else dict(saved)
            out.append((st1, rv))
        return s.merge_rets(out, f)
    def merge_rets(s, out, f):
        if len(out) <= 1: return out
        for st, rv in out: st.regs['$ret'] = rv
        sts = s.merge([st for st, rv in out], set(out[0][0].regs), (f.name, 'ret'))
        r = []
        for st in sts:
            rv = st.regs.pop('$ret'); r.append((st, rv))
        return r
    def phis(s, f, b, states):
        ph = [I for I in f.blocks[b] if I.op == 'phi']
        if not ph: return states
        for st in states:
            new = {}
            for I in ph:
                for v, pb in I.extra:
                    if pb == st.prev: new[I.res] = s.val(st, v, I.ty, f.mod)
            st.regs.update(new)
        return states
    def sig(s, st, live):
        """normal form of everything visible (for duplicate elimination)"""
        r = []
        for k in sorted(live):
            v = st.regs.get(k)
            r.append((k, st.nb(v) if isinstance(v, tuple) else v))
        m = []
        for k, o in st.mem.items():
            for x, c in o.items():
                if x == 'V': continue
                if x == 'H': m.append((k, 'H', c)); continue
                m.append((k, x, st.nb(c) if c and isinstance(c[0], int) else c))
        return (tuple(r), frozenset(m), tuple(sorted(st.tags.items(), key=repr)))
    def merge(s, states, live, where):
        if len(states) <= 1: return states
        d = {}
        for st in states:
            for k in [k for k in st.regs if k not in live and k != '$ret']: del st.regs[k]
            g = s.sig(st, st.regs.keys())
            q = d.get(g)
            if q is None: d[g] = st
            else: s.meet_facts(q, st)
        states = list(d.values())
        if len(states) > s.max_states or s.always_join(where):
            by = {}
            for st in states: by.setdefault(s.key(st), []).append(st)
            states = []
            for k, l in by.items():
                a = l[0]
                for b in l[1:]: a = s.join(a, b, where)
                states.append(a)
        return states
    def always_join(s, where): return False
    def meet_facts(s, a, b):
        """a := facts common to both (values are identical)"""
        if a.asg == b.asg: return
        asg = {}
        for i, v in a.asg.items():
            if b.asg.get(i) == v: asg[i] = v
            elif b.norm(2 * i) == v: asg[i] = v
        a.asg = asg; a.memo = {}
        bp = set(b.pend)
        a.pend = tuple(p for p in a.pend if p in bp)
        if a.trace is not None and b.trace is not None and len(str(b.trace)) < len(str(a.trace)): a.trace = b.trace
    def join(s, a, b, where):
        """least upper bound: bits that differ become fresh symbols"""
        r = a.fork()
        cache = {}
        def jb(x, y):
            if x == y: return x
            c = cache.get((x, y))
            if c is None:
                s.fresh_n += 1
                c = cache[(x, y)] = var(('join', where, s.fresh_n))
            return c
        def jv(x, y, why):
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return tuple(jb(p, q) for p, q in zip(a.nb(x), b.nb(y)))
            if x == y: return x
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base and x.base is not None: return Ptr(x.base, min(x.lo, y.lo), max(x.hi, y.hi), ('j', where))
                s.fresh_n += 1
                return Ptr(('unk', 'join', s.fresh_n))
            return None
        for k in list(r.regs):
            if k in b.regs: r.regs[k] = jv(a.regs[k], b.regs[k], k)
            else: del r.regs[k]
        for k in set(a.mem) | set(b.mem):
            oa, ob = a.mem.get(k, {}), b.mem.get(k, {})
            if oa is ob: continue
            o = {}
            ha, hb = oa.get('H', ()), ob.get('H', ())
            for x in set(oa) | set(ob):
                if x in ('H', 'V'): continue
                ca = oa.get(x); cb = ob.get(x)
                if ca is None: ca = s.read_byte(a, k, x)
                if cb is None: cb = s.read_byte(b, k, x)
                if ca == cb: o[x] = ca; continue
                if isinstance(ca[0], int) and isinstance(cb[0], int):
                    o[x] = tuple(jb(p, q) for p, q in zip(a.nb(ca), b.nb(cb))); continue
                # pointers
                if ca[0] == 'P' and cb[0] == 'P':
                    o[x] = ('P', jv(ca[1], cb[1], (k, x)))
                elif ca[0] == 'P' and k in b.mem and x in b.mem[k] or cb[0] == 'P' and k in a.mem and x in a.mem[k]:
                    s.fresh_n += 1; o[x] = ('P', Ptr(('unk', 'join', s.fresh_n)))
                elif ca[0] == 'P' or cb[0] == 'P':
                    # one side never touched this field: its pointee is the lazily named object
                    q = ca[1] if ca[0] == 'P' else cb[1]
                    o[x] = ('P', q) if q == s.pointee(a, k, x, None) else ('P', s.uptr())
                else: o[x] = ('P+',)
            if ha != hb: o['H'] = ha + tuple(e for e in hb if e not in ha)
            elif ha: o['H'] = ha
            if oa.get('V') != ob.get('V'):
                s.fresh_n += 1; o['V'] = ('j', s.fresh_n)
            elif 'V' in oa: o['V'] = oa['V']
            r.mem[k] = o; r.own.discard(k)
        asg = {}
        for i, v in a.asg.items():
            if b.norm(2 * i) == (v if v < 2 else b.norm(v)): asg[i] = v
        r.asg = asg; r.memo = {}
        bp = set(b.pend); r.pend = tuple(p for p in a.pend if p in bp)
        r.tags = s.join_tags(a.tags, b.tags)
        return r
    def uptr(s): s.fresh_n += 1; return Ptr(('unk', 'j', s.fresh_n))
    def join_tags(s, a, b):
        return {k: a[k] for k in a if k in b and a[k] == b[k]}
    def loop_head(s, f, b, states, live, seen):
        """widen at loop heads: one summary per partition key, cells that change become unknown"""
        out = []
        lv = live[b] | {I.res for I in f.blocks[b] if I.op == 'phi'}
        for st in states:
            for k in [k for k in st.regs if k not in lv]: del st.regs[k]
            kk = (b, s.key(st))
            old = seen.get(kk)
            if old is None:
                seen[kk] = st.fork(); out.append(st); continue
            n = s.widen(old, st, (f.name, b))
            if n is None: continue           # already covered
            seen[kk] = n.fork(); 
            out = [o for o in out if (b, s.key(o)) != kk]
            out.append(n)
        return out
    def widen(s, old, new, where):
        """join old/new; every bit that differs becomes a fresh symbol. None if new adds nothing."""
        changed = False
        r = s.join(old, new, where)
        # does r differ from old?  compare by value: any joined symbol must already be free in old
        def free(o, x, used):
            x = o.norm(x)
            return x > 1 and NODES[x >> 1][0] == 'var' and isinstance(NODES[x >> 1][1], tuple) and NODES[x >> 1][1][0] in ('join', 'wid') and x not in used
        used = set()
        for k in r.regs:
            x, y = old.regs.get(k), r.regs.get(k)
            if x == y: continue
            if isinstance(x, tuple) and isinstance(y, tuple):
                for p, q in zip(old.nb(x), y):
                    if p != q and not free(old, p, used): changed = True
                    used.add(old.norm(p))
            elif isinstance(x, Ptr) and isinstance(x.base, tuple) and x.base[:2] == ('unk', 'join'): pass
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base and x.lo != x.hi:
                # range widening
                r.regs[k] = Ptr(x.base, -1 << 40, 1 << 40, ('wid', where, k))
                if (x.lo, x.hi) != (-1 << 40, 1 << 40): changed = True
            else: changed = True
        for k in r.mem:
            for x, c in r.mem[k].items():
                if x == 'H':
                    if c != old.mem.get(k, {}).get('H', ()): changed = True
                    continue
                if x == 'V': continue
                oc = old.mem.get(k, {}).get(x)
                if oc is None:
                    oc = s.read_byte(old, k, x)
                if oc == c: continue
                if isinstance(oc[0], int) and isinstance(c[0], int):
                    for p, q in zip(old.nb(oc), c):
                        if p != q and not free(old, p, used): changed = True
                        used.add(old.norm(p))
                elif oc[0] == 'P' and isinstance(oc[1].base, tuple) and oc[1].base[:2] == ('unk', 'join'): pass
                else: changed = True
        lost = any(i not in r.asg for i in old.asg) or len(r.pend) < len(old.pend)
        if not changed and not lost: return None
        return r
    def block(s, f, b, st, rets):
        """execute one basic block; yields (succ, state)"""
        todo = [(0, st)]
        out = []
        ins = f.blocks[b]
        while todo:
            i, st = todo.pop()
            st.blk = b
            while i < len(ins):
                I = ins[i]; i += 1
                if I.op == 'phi': continue
                s.n_instr += 1
                if I.op == 'call':
                    rs = s.call(st, I, f)
                    if len(rs) == 1:
                        st, rv = rs[0]
                        if I.res: st.regs[I.res] = rv
                        continue
                    for st2, rv in rs:
                        if I.res: st2.regs[I.res] = rv
                        todo.append((i, st2))
                    break
                if I.op == 'ret':
                    rets.append((st, s.val(st, I.a[0], I.ty, f.mod) if I.a else None)); break
                if I.op == 'br':
                    if not I.a: out.append((I.extra[0], st)); break
                    c = s.val(st, I.a[0], __import__('ir').INT(1), f.mod)[0]
                    s.on_branch(st, I, c)
                    if c == T: out.append((I.extra[0], st))
                    elif c == F: out.append((I.extra[1], st))
                    else:
                        st2 = st.fork()
                        for lit, dst, q in ((c, I.extra[0], st), (c ^ 1, I.extra[1], st2)):
                            try:
                                q.assume(lit); s.refined(q)
                                out.append((dst, q))
                            except Infeasible: pass
                    break
                if I.op == 'switch':
                    v = s.val(st, I.a[0], I.extra[0], f.mod)
                    c = cval(v)
                    if c is not None:
                        d = I.extra[1]
                        for cv, lb in I.extra[2]:
                            if cv == c: d = lb
                        out.append((d, st)); break
                    bydst = {}
                    dflt = st.fork(); dead = False
                    for cv, lb in I.extra[2]:
                        q = st.fork()
                        try: q.assume(eq_bits(v, const(cv, len(v)))); s.refined(q); out.append((lb, q))
                        except Infeasible: pass
                        if not dead:
                            try: dflt.assume(eq_bits(dflt.nb(v), const(cv, len(v))) ^ 1)
                            except Infeasible: dead = True
                    if not dead: out.append((I.extra[1], dflt))
                    break
                if I.op == 'unreachable': break
                s.instr(st, I, f)
        return out
    def refined(s, st): pass
    def instr(s, st, I, f):
        op = I.op; mod = f.mod
        if op == 'load':
            p = s.val(st, I.a[0], __import__('ir').PTR, mod)
            s.on_load(st, I, p, I.ty)
            st.regs[I.res] = s.load(st, p, I.ty, I)
        elif op == 'store':
            v = s.val(st, I.a[0], I.extra, mod); p = s.val(st, I.a[1], __import__('ir').PTR, mod)
            if v is None and I.extra.k == 'int': v = s.fresh(I.extra.w)
            s.on_store(st, I, p, v, I.extra)
            s.store(st, p, v, I.extra, I)
        elif op == 'getelementptr':
            st.regs[I.res] = s.gep(st, I.extra[0], s.val(st, I.a[0], __import__('ir').PTR, mod), I.extra[1], mod)
        elif op == 'icmp':
            a = s.val(st, I.a[0], I.extra[1], mod); b = s.val(st, I.a[1], I.extra[1], mod)
            st.regs[I.res] = (st.norm(s.icmp(st, I.extra[0], a, b)),)
        elif op in ('zext', 'sext', 'trunc'):
            a = s.val(st, I.a[0], I.extra, mod); w = I.ty.w
            if op == 'trunc': st.regs[I.res] = a[:w]
            else: st.regs[I.res] = a + ((F if op == 'zext' else a[-1]),) * (w - len(a))
        elif op == 'select':
            c = s.val(st, I.a[0], __import__('ir').INT(1), mod)[0]
            a = s.val(st, I.a[1], I.ty, mod); b = s.val(st, I.a[2], I.ty, mod)
            if c == T: v = a
            elif c == F: v = b
            elif isinstance(a, tuple) and isinstance(b, tuple): v = tuple(mux(c, x, y) for x, y in zip(a, b))
            elif a == b: v = a
            else: v = s.havoc_val(I.ty, 'sel')
            st.regs[I.res] = v
        elif op == 'alloca':
            k = ('alloca', f.name, I.res, len(s.stack))
            st.mem.pop(k, None)
            st.regs[I.res] = Ptr(k)
        elif op in ('bitcast', 'freeze') :
            st.regs[I.res] = s.val(st, I.a[0], I.extra if op == 'bitcast' else I.ty, mod)
        elif op == 'ptrtoint':
            p = s.val(st, I.a[0], I.extra, mod)
            st.regs[I.res] = fresh_bits(('p2i', p.key() if isinstance(p, Ptr) else None), I.ty.w)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a = s.val(st, I.a[0], I.ty, mod); b = s.val(st, I.a[1], I.ty, mod)
            if I.ty.k != 'int' or a is None or b is None: st.regs[I.res] = s.havoc_val(I.ty, op)
            else: st.regs[I.res] = s.binop(st, op, a, b, I.ty.w, I)
        else:
            if I.res: st.regs[I.res] = s.havoc_val(I.ty, op)
    def call(s, st, I, f):
        mod = f.mod
        callee = I.extra
        name = None
        if callee[0] == 'g': name = callee[1]
        elif callee[0] == 'r':
            p = st.regs.get(callee[1])
            if isinstance(p, Ptr) and p.base and p.base[0] == 'fn': name = p.base[1]
        args = [s.val(st, v, t, mod) if t.k != 'metadata' else None for t, v in I.a]
        s.call_sites.add((f.name, I.blk, I.idx))
        r = s.on_call(st, I, name, args)
        if r is not None: return r
        if name is not None:
            if name.startswith('llvm.memset'):
                p, v, n = args[0], args[1], cval(args[2])
                if isinstance(p, Ptr) and p.base is not None:
                    if n is not None and p.lo == p.hi and n <= 65536 and cval(v) is not None:
                        o = st.wobj(p.base)
                        for i in range(n): o[p.lo + i] = v
                        o['V'] = ('ms', id(I), cval(v)) 
                    else: s.havoc_range(st, p.base, p.lo, p.hi + (n if n is not None else 1 << 40), I)
                return [(st, None)]
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                p, q, n = args[0], args[1], cval(args[2])
                if isinstance(p, Ptr) and p.base is not None:
                    if isinstance(q, Ptr) and q.base is not None and n is not None and p.lo == p.hi and q.lo == q.hi and n <= 4096:
                        cs = [s.read_byte(st, q.base, q.lo + i) for i in range(n)]
                        o = st.wobj(p.base)
                        for i, c in enumerate(cs): o[p.lo + i] = c
                        o['V'] = ('mc', id(I), q.key())
                    else: s.havoc_range(st, p.base, p.lo, p.hi + (n if n is not None else 1 << 40), I)
                return [(st, None)]
            if name.startswith('llvm.'): return [(st, s.havoc_val(I.ty, name))]
            if name not in s.opaque and name not in s.stack and len(s.stack) <= s.inline_depth:
                g = s.lookup(name, mod)
                if g is not None:
                    return s.run(g, args, st)
        return s.external(st, I, name, args, mod)
