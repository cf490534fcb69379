"""Effects of horizontal microcode: specialise the engine's cycle function to one value of one control field and
collect which cells can be stored from which cells.

Specialisation folds every expression that depends only on the field and on constants, drops the branches this
decides, and follows what is left. An effect is a pair (stored cell, cell it depends on), through data and through the
branches that decide the value; array elements count as one cell, and the address of the element is a dependence.
Helper functions of the same file are inlined (by the compiler) first, so that it does not matter how the cycle is
divided into functions."""
import re, subprocess
import build, ir, paths
from common import *

def load_inlined(tree, rel):
    p = tree.compile(rel)
    t = open(p).read(); t = re.sub(r'\bnoinline\b', '', t)
    q = p + '.i.ll'; open(q + '.0', 'w').write(t)
    build._run(['opt', '-passes=cgscc(inline),sroa', '-inline-threshold=1000000', '-S', q + '.0', '-o', q])
    return ir.Module(q, build.SRC + '/' + rel)

def names_of(m, f, ros):
    """names the cycle function can mention, in declaration order: [(kind, name, size)]"""
    used = []; seen = set(); structs = []
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g':
                if x[1] not in seen: seen.add(x[1]); used.append(x[1])
            else:
                for y in x: walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
        elif hasattr(x, 'k') and getattr(x, 'k') == 'struct' and x.name and x.name not in structs: structs.append(x.name)
    for b in f.order:
        for I in f.blocks[b]: walk(I.a); walk(I.extra)
    out = []
    for n in m.globals:
        g = m.globals[n]
        if n in seen and not g.decl and not n.startswith('.str'): out.append(('global', n, g.ty.size() if g.ty is not None else 0))
    for st in sorted(x.strip('%').strip('"') for x in structs):
        d = m.di_struct(st.replace('struct.', ''))
        if d:
            for o, z, n, t in m.members(d): out.append((st, n, z))
    return out

def alias_of(ref, cur):
    """names of the current source that stand where a reference name has disappeared -> {current: reference}"""
    import difflib
    out = {}
    for k in sorted({x[0] for x in ref}):
        a = [x[1:] for x in ref if x[0] == k]; b = [x[1:] for x in cur if x[0] == k]
        na, nb = {x[0] for x in a}, {x[0] for x in b}
        if not na - nb: continue
        for op, i, j, p, q in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
            if op != 'replace': continue
            x = [y for y in a[i:j] if y[0] not in nb]; y = [z for z in b[p:q] if z[0] not in na]
            for u, w in zip(x, y):
                if len(x) == len(y) and u[1] == w[1]: out[w[0]] = u[0]
        x = [y for y in a if y[0] not in nb and y[0] not in out.values()]; y = [z for z in b if z[0] not in na and z[0] not in out]
        if len(x) == len(y) == 1 and x[0][1] == y[0][1]: out[y[0][0]] = x[0][0]
    return out

def never_written(m):
    """internal or constant arrays of integers that are only ever read, by element: name -> values"""
    cand = {}
    for n, g in m.globals.items():
        if g.decl or not (g.const or g.internal): continue
        if g.ty is None or g.ty.k != 'arr' or g.ty.el.k != 'int': continue
        v = g.init
        if v[0] == 'str': cand[n] = list(v[1])
        elif v[0] == 'zero': cand[n] = [0] * g.ty.n
        elif isinstance(v[1], (list, tuple)) and all(x[1][0] == 'c' for x in v[1]): cand[n] = [x[1][1] for x in v[1]]
    bad = set()
    def refs(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g': yield x[1]
            else:
                for y in x: yield from refs(y)
        elif isinstance(x, list):
            for y in x: yield from refs(y)
    for f in m.funcs.values():
        geps = {}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and I.a[0][0] == 'g' and I.a[0][1] in cand: geps[I.res] = I.a[0][1]
                elif I.op == 'load': continue
                else:
                    for n in refs(I.a):
                        if n in cand: bad.add(n)
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'load': continue
                for x in I.a:
                    if isinstance(x, tuple) and x[0] == 'r' and x[1] in geps: bad.add(geps[x[1]])
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and x[1][0] == 'r' and x[1][1] in geps: bad.add(geps[x[1][1]])
    return {n: v for n, v in cand.items() if n not in bad}

M64 = (1 << 64) - 1
def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v

class Engine:
    def __init__(s, m, f, ros, own=(), alias=None):
        s.m = m; s.f = f; s.ros = ros; s.D = paths.defs(f)
        s.names = {}; s.own = own; s.fwidth = {}; s.alias = alias or {}; s.tables = never_written(m)
        s.rosoff = {s.alias.get(n, n): o for o, z, n, t in m.members(m.di_struct(ros))}; s.offros = {o: n for n, o in s.rosoff.items()}
        s.S = {b: succ(f, b) for b in f.order}
        s._cell = {}; s.fieldload = {}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'load':
                    c = s.cell(I.a[0])
                    s.fieldload[I.res] = c
        # instructions depending on nothing but one field and constants are found per specialisation
        s.uses = {}
        s.loc = {}
        for b in f.order:
            for I in f.blocks[b]: s.loc[id(I)] = b
    # --- cells -----------------------------------------------------------------------------------------------------
    def cell(s, v):
        """-> ('ros', field) | ('cell', name) | ('local', reg)"""
        k = repr(v)
        if k in s._cell: return s._cell[k]
        s._cell[k] = ('cell', '?')
        r = s._cell[k] = s._cell0(v)
        return r
    def _cell0(s, v):
        if v[0] == 'g': return ('cell', s.alias.get(v[1], v[1]))
        if v[0] == 'gep': return s.gepcell(v[1], v[2][0][1], v[2][1:])
        if v[0] == 'cast': return s.cell(v[3])
        if v[0] != 'r': return ('cell', '?')
        I = s.D.get(v[1])
        if I is None: return ('cell', 'arg:' + v[1])
        if I.op == 'alloca': return ('local', v[1])
        if I.op == 'getelementptr':
            return s.gepcell(I.extra[0], I.a[0], I.extra[1])
        if I.op == 'load':
            c = s.cell(I.a[0])
            return ('cell', '*' + str(c[1]))
        if I.op in ('phi', 'select'):
            xs = [x for x, _ in I.extra] if I.op == 'phi' else I.a[1:]
            cs = {s.cell(x) for x in xs if x != v}
            cs.discard(('cell', '?'))
            return cs.pop() if len(cs) == 1 else ('cell', '|'.join(sorted(c[1] for c in cs)))
        if I.op == 'call': return ('cell', '*' + callee(I) + '()')
        if I.op in ('inttoptr', 'bitcast', 'freeze'): return s.cell(I.a[0])
        return ('cell', '?' + I.op)
    def gepcell(s, t, base, path):
        c = s.cell(base)
        if t.k == 'struct' and len(path) >= 2:
            o = t.offsets()[path[1][1][1]]
            nm = t.name.strip('%').strip('"')
            n = s.fname(nm, o)
            if nm == 'struct.' + s.ros: return ('ros', n)
            return ('cell', n if nm.startswith('struct.CPU') or nm in s.own else nm.replace('struct.', '').lstrip('_') + '.' + n)
        return c
    def fname(s, sname, off):
        k = (sname, off)
        if k not in s.names:
            d = s.m.di_struct(sname.replace('struct.', ''))
            n = '+%d' % off
            if d:
                for o, z, nn, t in s.m.members(d):
                    if o == off: n = s.alias.get(nn, nn)
            s.names[k] = n
        return s.names[k]
    # --- specialisation --------------------------------------------------------------------------------------------
    def special(s, fixed):
        """-> (reachable blocks, removed edges, constants)"""
        f = s.f; D = s.D
        const = {r: fixed[n] for r, n in s.fieldload.items() if n in fixed}
        dead = set(); R = set(f.order)
        def val(x):
            if x[0] == 'c': return x[1]
            if x[0] == 'r': return const.get(x[1])
            return None
        for rnd in range(6):
            ch = False
            for b in f.order:
                if b not in R: continue
                for I in f.blocks[b]:
                    r = I.res
                    if not r or r in const: continue
                    c = s.fold(I, val, R, dead)
                    if c is not None: const[r] = c; ch = True
            R2 = set(); work = [f.order[0]]; dead = set()
            while work:
                b = work.pop()
                if b in R2: continue
                R2.add(b)
                t = f.blocks[b][-1]; go = s.S[b]
                if t.op in ('br', 'switch') and len(go) > 1:
                    c = val(t.a[0])
                    if c is not None:
                        if t.op == 'br': g = [t.extra[0] if c & 1 else t.extra[1]]
                        else: g = [next((l for k, l in t.extra[2] if (k - c) & ((1 << s.width(t)) - 1) == 0), t.extra[1])]
                        for x in go:
                            if x not in g: dead.add((b, x))
                        go = g
                work += go
            if R2 != R: ch = True
            R = R2
            if not ch: break
        return R, dead, const
    def width(s, t):
        x = t.a[0]; d = s.D.get(x[1]) if x[0] == 'r' else None
        return d.ty.w if d is not None and d.ty is not None and d.ty.k == 'int' else 32
    def fold(s, I, val, R, dead):
        o = I.op
        if o == 'phi':
            b = s.loc.get(id(I)) if hasattr(s, 'loc') else None
            r = None
            for x, fb in I.extra:
                if fb not in R or (fb, b) in dead: continue
                y = val(x)
                if y is None or r is not None and y != r: return None
                r = y
            return r
        if o in ('zext', 'sext', 'trunc', 'freeze'):
            x = val(I.a[0])
            if x is None: return None
            d = s.D.get(I.a[0][1]) if I.a[0][0] == 'r' else None
            w = d.ty.w if d is not None else I.ty.w
            if o == 'zext': return x & ((1 << w) - 1)
            if o == 'sext': return sx(x, w)
            return sx(x, I.ty.w) if I.ty.w > 1 else x & 1
        if o == 'icmp':
            x, y = val(I.a[0]), val(I.a[1])
            if x is None or y is None: return None
            p = I.extra[0]; w = next((s.D[a[1]].ty.w for a in I.a if a[0] == 'r' and a[1] in s.D and s.D[a[1]].ty.k == 'int'), 64)
            if p[0] == 'u' or p in ('eq', 'ne'): x &= (1 << w) - 1; y &= (1 << w) - 1
            else: x = sx(x, w); y = sx(y, w)
            p = p[1:] if p[0] in 'us' else p
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
        if o == 'select':
            c = val(I.a[0])
            if c is None: return None
            return val(I.a[1] if c & 1 else I.a[2])
        if o in ('and', 'mul'):
            x, y = val(I.a[0]), val(I.a[1])
            if x == 0 or y == 0: return 0
            if x is None or y is None: return None
            return sx(x & y if o == 'and' else x * y, I.ty.w)
        if o in ('or', 'xor', 'add', 'sub', 'shl', 'lshr', 'ashr'):
            x, y = val(I.a[0]), val(I.a[1])
            if x is None or y is None: return None
            w = I.ty.w; u = x & ((1 << w) - 1)
            if o in ('shl', 'lshr', 'ashr') and not 0 <= y < w: return None
            return sx({'or': x | y, 'xor': x ^ y, 'add': x + y, 'sub': x - y, 'shl': u << y if o == 'shl' else 0, 'lshr': u >> y if o == 'lshr' else 0, 'ashr': sx(u, w) >> y if o == 'ashr' else 0}[o], w) if w > 1 else ({'or': x | y, 'xor': x ^ y}.get(o, 0) & 1)
        return None
    def idom(s):
        if '_id' not in s.__dict__:
            f = s.f; st = [(f.order[0], iter(s.S[f.order[0]]))]; seen = {f.order[0]}; po = []; pr = {}
            for b in f.order:
                for x in set(s.S[b]): pr.setdefault(x, []).append(b)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen: seen.add(x); st.append((x, iter(s.S[x]))); break
                else: po.append(b); st.pop()
            num = {b: i for i, b in enumerate(po)}; d = {f.order[0]: f.order[0]}; ch = True
            while ch:
                ch = False
                for b in reversed(po[:-1]):
                    n = None
                    for p in pr[b]:
                        if p not in d: continue
                        if n is None: n = p
                        else:
                            a, c = n, p
                            while a != c:
                                while num[a] < num[c]: a = d[a]
                                while num[c] < num[a]: c = d[c]
                            n = a
                    if d.get(b) != n: d[b] = n; ch = True
            s._id = d
        return s._id

# A bit is 0, 1 or a node of an ordered decision diagram: a Boolean function of atoms in canonical form. An atom is
# (cell, bit), or (opaque, bit) where the opaque value stands for anything that is not followed further - calls, products,
# functions that grow too large - and is named after the cells and operations in it.
import hashlib
class N:
    __slots__ = ('k', 'lo', 'hi', 'h', 'sup', 'ng', '__weakref__')
LIMIT = 6000
OPQ = {}
_uniq = {}
_top = {}
class Overflow(Exception): pass
def hx(x): return x.h if isinstance(x, N) else b'01'[x:x + 1]
def node(k, lo, hi):
    if lo is hi: return lo
    u = (k, id(lo) if isinstance(lo, N) else lo, id(hi) if isinstance(hi, N) else hi)
    n = _uniq.get(u)
    if n is None:
        n = N(); n.k = k; n.lo = lo; n.hi = hi; n.sup = None; n.ng = None
        n.h = hashlib.md5(repr(k).encode() + hx(lo) + hx(hi)).digest()
        _uniq[u] = n
    return n
def atom(name, bit):
    return node((bit, name), 0, 1)
def support(x):
    """atoms (name, bit) a function depends on"""
    if not isinstance(x, N): return frozenset()
    if x.sup is None:
        st = [x]
        while st:
            y = st[-1]
            if y.sup is not None: st.pop(); continue
            w = [z for z in (y.lo, y.hi) if isinstance(z, N) and z.sup is None]
            if w: st += w; continue
            r = {(y.k[1], y.k[0])}
            for z in (y.lo, y.hi):
                if isinstance(z, N): r |= z.sup
            y.sup = frozenset(r); st.pop()
    return x.sup
def _apply(o, x, y, _op):
    if o == '&':
        if x is y: return x
        if not isinstance(x, N): return y if x else 0
        if not isinstance(y, N): return x if y else 0
    elif o == '|':
        if x is y: return x
        if not isinstance(x, N): return 1 if x else y
        if not isinstance(y, N): return 1 if y else x
    else:
        if x is y: return 0
        if not isinstance(x, N): return _not(y) if x else y
        if not isinstance(y, N): return _not(x) if y else x
    i, j = id(x), id(y)
    k = (o, i, j) if i < j else (o, j, i)
    r = _op.get(k)
    if r is not None: return r
    if len(_op) > LIMIT: raise Overflow
    if x.k == y.k: r = node(x.k, _apply(o, x.lo, y.lo, _op), _apply(o, x.hi, y.hi, _op))
    elif x.k < y.k: r = node(x.k, _apply(o, x.lo, y, _op), _apply(o, x.hi, y, _op))
    else: r = node(y.k, _apply(o, x, y.lo, _op), _apply(o, x, y.hi, _op))
    _op[k] = r
    return r
def _not(x):
    if not isinstance(x, N): return 1 - x
    if x.ng is None:
        x.ng = node(x.k, _not(x.lo), _not(x.hi)); x.ng.ng = x
    return x.ng
def base_atoms(bits):
    a = set(); t = set()
    for x in bits:
        for at in support(x):
            if at[0] in OPQ: a |= OPQ[at[0]][0]; t |= OPQ[at[0]][1]
            else: a.add(at)
    return a, t
def opaque(bits, tags=(), bit=0):
    a, t = base_atoms(bits); t |= set(tags)
    d = {}
    for c, k in a: d.setdefault(c, []).append(k)
    n = '{' + ' '.join([c if len(k) > 6 else '%s.%s' % (c, ','.join(map(str, sorted(k)))) for c, k in sorted(d.items())] + sorted(t)) + '}'
    OPQ[n] = (frozenset(a), frozenset(t))
    return n
def mix(bits, tag=(), neg=False):
    r = atom(opaque(bits, tag), 0)
    return NOT(r) if neg else r
def word(bits, tags, w):
    n = opaque(bits, tags)
    return tuple(atom(n, i) for i in range(w))
def NOT(x):
    if not isinstance(x, N): return 1 - x
    return _not(x)
def apply(o, x, y):
    """the limit is on the pairs visited by this one operation: what is too large does not depend on what came before"""
    if not isinstance(x, N) or not isinstance(y, N) or x is y: return _apply(o, x, y, None)
    k = (o, id(x), id(y)) if x.h < y.h else (o, id(y), id(x))
    r = _top.get(k)
    if r is None:
        try: r = _apply(o, x, y, {})
        except Overflow: r = mix((x, y), ('%',))
        _top[k] = r
    return r
def AND(x, y): return apply('&', x, y)
def OR(x, y): return apply('|', x, y)
def XOR(x, y): return apply('^', x, y)
def SEL(c, x, y):
    if c == 1 or x is y: return x
    if c == 0: return y
    return OR(AND(c, x), AND(NOT(c), y))
def EQ(x, k):
    """the bits x equal to the number k"""
    r = 1
    for i in reversed(range(len(x))):
        r = AND(r, x[i] if k >> i & 1 else NOT(x[i]))
        if r == 0: return 0
    return r
def LT(x, y):
    r = 0
    for a, b in zip(x, y): r = SEL(XOR(a, b), b, r)
    return r
def SUM(x, y, c=0):
    out = []
    for a, b in zip(x, y):
        h = XOR(a, b); out.append(XOR(h, c)); c = OR(AND(a, b), AND(h, c))
    return tuple(out)
def sized(xs):
    """none of the functions grew too large to follow"""
    return not any('%' in OPQ[a[0]][1] for x in xs for a in support(x) if a[0] in OPQ)

class Spec:
    def __init__(s, e, sp, common=()):
        s.e = e; s.f = e.f; s.D = e.D; s.common = common
        s.R, s.dead, s.const = sp
        s.em = {}; s.memo = {}; s.ctl = {}; s.busy = set(); s.cn = {}; s.pcm = {}
    def live(s, b): return [x for x in s.e.S[b] if (b, x) not in s.dead] if b in s.R else []
    def preds(s):
        if '_pr' not in s.__dict__:
            s._pr = {}
            for b in s.f.order:
                for x in set(s.live(b)): s._pr.setdefault(x, []).append(b)
        return s._pr
    def pc(s, b, top):
        """condition under which block b is reached from the blocks in top (a set, or a dominating block)"""
        k = (b, top)
        if k in s.pcm: return s.pcm[k]
        if (b in top if isinstance(top, frozenset) else b == top): return 1
        s.pcm[k] = 0                                # a back edge adds nothing to the first arrival
        r = 0; one = False
        for p in s.preds().get(b, []):
            if isinstance(top, frozenset) and p in top: one = True; continue
            r = OR(r, AND(s.pc(p, top), s.cond(p, b)))
        s.pcm[k] = 1 if one else r
        return s.pcm[k]
    def idom(s): return s.e.idom()
    def cond(s, a, e):
        """condition for leaving block a towards e"""
        t = s.f.blocks[a][-1]; go = s.live(a)
        if len(set(go)) < 2: return 1
        if t.op == 'br':
            c = s.bits(t.a[0])[0]
            return c if e == t.extra[0] else NOT(c)
        x = s.bits(t.a[0]); w = len(x); r = 0
        if e == t.extra[1]:
            for k, l in t.extra[2]:
                if l != e: r = OR(r, EQ(x, k & ((1 << w) - 1)))
            return NOT(r)
        for k, l in t.extra[2]:
            if l == e: r = OR(r, EQ(x, k & ((1 << w) - 1)))
        return r
    def when(s, Is):
        """condition under which one of the instructions is executed, seen from the blocks every value reaches"""
        r = 0
        for I in Is: r = OR(r, s.pc(s.e.loc[id(I)], s.common))
        return r
    def name(s, p):
        """cell name of an address, element indices shown as the cells they come from"""
        k = repr(p)
        if k in s.cn: return s.cn[k]
        s.cn[k] = '?'
        c = s.e.cell(p)[1]; ix = []
        q = p
        while True:
            if q[0] == 'r':
                I = s.D.get(q[1])
                if I is None or I.op != 'getelementptr': break
                path = I.extra[1]; t = I.extra[0]; q = I.a[0]
            elif q[0] == 'gep': path = q[2][1:]; t = q[1]; q = q[2][0][1]
            else: break
            for j, (ty, x) in enumerate(path):
                if j == 0 and len(path) > 1: continue
                if t.k == 'struct' and j: 
                    t = t.fields[x[1]]; continue
                b = s.bits(x)
                while len(b) > 1 and b[-1] == b[-2]: b = b[:-1]
                if all(not isinstance(y, N) for y in b): ix.append(str(sum(y << i for i, y in enumerate(b))))
                else: ix.append(show(b))
                if t.k == 'arr': t = t.el
        r = s.cn[k] = str(c) + ''.join('[%s]' % x for x in reversed(ix))
        return r
    def width(s, v):
        if v[0] == 'r':
            d = s.D.get(v[1])
            if d is not None and d.ty is not None and d.ty.k == 'int': return d.ty.w
        return 64
    def bits(s, v, w=None):
        if v[0] == 'c':
            w = w or 64
            return tuple((v[1] >> i) & 1 for i in range(w))
        if v[0] != 'r': return word((), ('const',), w or 64)
        r = v[1]
        if r in s.memo: return s.memo[r]
        I = s.D.get(r)
        if I is None: return word((), ('arg',), 64)
        w = I.ty.w if I.ty is not None and I.ty.k == 'int' else 64
        if r in s.const: x = tuple((s.const[r] >> i) & 1 for i in range(w))
        elif r in s.busy: return word((), ('loop',), w)
        else:
            s.busy.add(r); x = s.bits0(I, w); s.busy.discard(r)
            assert len(x) == w, (I, w, len(x))
        s.memo[r] = x
        return x
    def bits0(s, I, w):
        o = I.op
        if o == 'load':
            c = s.e.cell(I.a[0])
            n = 'ros.' + c[1] if c[0] == 'ros' else s.name(I.a[0])
            if c[0] == 'cell' and c[1] in s.e.tables and n.count('[') == 1:
                k = n[n.index('[') + 1:-1]
                if k.isdigit() and int(k) < len(s.e.tables[c[1]]): return s.bits(('c', s.e.tables[c[1]][int(k)]), w)
                r = s.lookup(I.a[0], s.e.tables[c[1]], w)
                if r: return r
            x = s.loaded(I, n, w)
            if c[0] == 'ros' and c[1] in s.e.fwidth: k = s.e.fwidth[c[1]]; x = x[:k] + (0,) * (w - k)
            return x
        if o in ('zext', 'sext', 'trunc', 'freeze'):
            x = s.bits(I.a[0])
            if I.a[0][0] == 'c': x = s.bits(I.a[0], w)
            if o == 'trunc' or len(x) >= w: return x[:w]
            return x + ((0 if o == 'zext' else x[-1]),) * (w - len(x))
        if o in ('and', 'or', 'xor'):
            x, y = s.bits(I.a[0], w), s.bits(I.a[1], w)
            g = {'and': AND, 'or': OR, 'xor': XOR}[o]
            return tuple(g(a, b) for a, b in zip(x, y))
        if o in ('shl', 'lshr', 'ashr'):
            x, y = s.bits(I.a[0], w), s.bits(I.a[1], w)
            if all(not isinstance(b, N) for b in y):
                k = sum(b << i for i, b in enumerate(y))
                if k < w:
                    if o == 'shl': return (0,) * k + x[:w - k]
                    return x[k:] + ((0 if o == 'lshr' else x[-1]),) * k
            r = x; f = (0 if o != 'ashr' else x[-1])
            for i, c in enumerate(y):
                k = 1 << i
                if k >= w: break
                t = (f if o != 'shl' else 0,) * k
                r = tuple(SEL(c, a, b) for a, b in zip(t + r[:w - k] if o == 'shl' else r[k:] + t, r))
            return r if sized(r) or not sized(x + y) else word(x + y, (o,), w)
        if o in ('add', 'sub'):
            x, y = s.bits(I.a[0], w), s.bits(I.a[1], w)
            r = SUM(x, y) if o == 'add' else SUM(x, tuple(NOT(b) for b in y), 1)
            return r if sized(r) or not sized(x + y) else word(x + y, (o,), w)
        if o == 'icmp':
            W = max(s.width(I.a[0]) if I.a[0][0] == 'r' else 0, s.width(I.a[1]) if I.a[1][0] == 'r' else 0) or 64
            x, y = s.bits(I.a[0], W), s.bits(I.a[1], W)
            p = I.extra[0]
            if p in ('eq', 'ne'):
                r = 1
                for a, b in zip(reversed(x), reversed(y)):
                    r = AND(r, NOT(XOR(a, b)))
                    if r == 0: break
                return (NOT(r) if p == 'ne' else r,)
            if p[0] == 's': x, y = x[:-1] + (NOT(x[-1]),), y[:-1] + (NOT(y[-1]),)
            if p[1:] in ('gt', 'le'): x, y = y, x
            r = LT(x, y)
            return (NOT(r) if p[1:] in ('le', 'ge') else r,)
        if o == 'select':
            c = s.bits(I.a[0])[0]
            return tuple(SEL(c, a, b) for a, b in zip(s.bits(I.a[1], w), s.bits(I.a[2], w)))
        if o == 'phi':
            b = s.e.loc[id(I)]
            inc = [(x, fb) for x, fb in I.extra if fb in s.R and (fb, b) not in s.dead]
            vals = [s.bits(x, w)[:w] for x, fb in inc]
            vals = [v + (v[-1],) * (w - len(v)) for v in vals]
            if not vals: return (0,) * w
            if all(v == vals[0] for v in vals): return vals[0]
            d = s.idom()[b]; cs = [AND(s.pc(fb, d), s.cond(fb, b)) for x, fb in inc]
            out = []
            for vs in zip(*vals):
                if all(v == vs[0] for v in vs): out.append(vs[0]); continue
                r = 0
                for c, v in zip(cs, vs): r = OR(r, AND(c, v))
                out.append(r)
            return tuple(out)
        if o == 'call':
            n = callee(I)
            return word([x for _, v in I.a if v[0] in ('r',) for x in s.bits(v)], (n + '()',), w)
        bs = [x for v in I.a if isinstance(v, tuple) and v[0] == 'r' for x in s.bits(v)]
        if o in ('mul', 'udiv', 'sdiv', 'urem', 'srem'):
            if o in ('mul', 'udiv', 'urem') and I.a[1][0] == 'c' and I.a[1][1] and I.a[1][1] & (I.a[1][1] - 1) == 0:
                k = I.a[1][1].bit_length() - 1; x = s.bits(I.a[0], w)
                if o == 'mul': return (0,) * k + x[:w - k]
                if o == 'udiv': return x[k:] + (0,) * k
                return x[:k] + (0,) * (w - k)
            return word(bs, (o + (str(I.a[1][1]) if I.a[1][0] == 'c' else ''),), w)
        return word(bs, (o,) if o not in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'alloca') else (), w)
    def lookup(s, p, t, w):
        """constant table, the index being a function of the cells"""
        J = s.D.get(p[1]) if p[0] == 'r' else None
        if J is None or J.op != 'getelementptr' or len(t) > 256: return None
        x = s.bits(J.extra[1][-1][1]); n = (len(t) - 1).bit_length()
        if len(x) < n: x = x + (0,) * (n - len(x))
        def pick(lo, k, b):
            if lo >= len(t): return 0
            if k < 0: return t[lo] >> b & 1
            if x[k] == 0: return pick(lo, k - 1, b)
            if x[k] == 1: return pick(lo | 1 << k, k - 1, b)
            u, v = pick(lo, k - 1, b), pick(lo | 1 << k, k - 1, b)
            return SEL(x[k], v, u)
        return tuple(pick(0, n - 1, b) for b in range(w))
    def nz(s, x): return (NOT(EQ(x, 0)),)
    def kills(s):
        """per block: position of each store to a plain cell, positions of calls"""
        if '_kl' not in s.__dict__:
            s._kl = {}; s._st = {}
            for b in s.f.order:
                if b not in s.R: continue
                for i, I in enumerate(s.f.blocks[b]):
                    if I.op == 'store':
                        c = s.e.cell(I.a[1])
                        if c[0] == 'local': continue
                        s._kl.setdefault(b, []).append((i, c, I))
                        if b not in s.common: s._st.setdefault(c, set()).add(b)
                    elif I.op == 'call' and not (callee(I).startswith('llvm.') or callee(I) in LOGS): s._kl.setdefault(b, []).append((i, None, I))
        return s._kl
    def reach(s, b):
        k = ('reach', b)
        if k not in s.pcm:
            seen = set(); work = list(s.live(b))
            while work:
                x = work.pop()
                if x in seen: continue
                seen.add(x); work += s.live(x)
            s.pcm[k] = seen
        return s.pcm[k]
    def loaded(s, I, n, w):
        """value of a load: what was stored into the same cell earlier in the block, or the cell itself - marked if the
        code particular to this value may have stored into it before"""
        b = s.e.loc[id(I)]; c = s.e.cell(I.a[0])
        idx = next(i for i, J in enumerate(s.f.blocks[b]) if J is I)
        return s.before(b, idx, c, n, w)
    def plain(s, n, w): return tuple(atom(n, i) for i in range(w))
    def before(s, b, idx, c, n, w):
        """bits of cell c (named n) just before instruction idx of block b: what the code particular to this value has
        stored, or the cell as it was; marked when that cannot be told"""
        for i, cc, J in reversed(s.kills().get(b, [])):
            if i > idx: continue
            if cc is None: return s.entry(b, c, n, w) if b in s.common else s.plain(n + "'", w)
            if cc == c:
                if J.extra.k == 'int' and J.extra.w == w and s.name(J.a[1]) == n: return s.bits(J.a[0], w)[:w]
                return s.plain(n if b in s.common else n + "'", w)
        return s.entry(b, c, n, w)
    def entry(s, b, c, n, w, join=False):
        s.kills()
        if b in s.common and not join: return s.plain(n, w)
        if not join and not any(b in s.reach(x) for x in s._st.get(c, ())) and not s.called(b): return s.plain(n, w)
        k = (b, n, w)
        if k in s.em: return s.em[k]
        s.em[k] = s.plain(n + "'", w)              # around a loop
        ps = [p for p in s.preds().get(b, []) if not join or True]
        vals = [s.plain(n, w) if p in s.common else s.before(p, 1 << 30, c, n, w) for p in ps]
        if not vals: r = s.plain(n, w)
        elif all(v == vals[0] for v in vals): r = vals[0]
        else:
            d = s.idom()[b]; cs = [AND(s.pc(p, d), s.cond(p, b)) for p in ps]; r = []
            for vs in zip(*vals):
                x = vs[0]
                if any(v != x for v in vs):
                    x = 0
                    for cc, v in zip(cs, vs): x = OR(x, AND(cc, v))
                r.append(x)
            r = tuple(r)
        s.em[k] = r
        return r
    def called(s, b):
        if '_cl' not in s.__dict__: s._cl = [x for x, l in s.kills().items() if x not in s.common and any(cc is None for i, cc, J in l)]
        return any(b == x or b in s.reach(x) for x in s._cl)
    def net(s, dests):
        """what cells hold where the code particular to this value ends, for cells it stores more than once"""
        joins = [b for b in s.f.order if b in s.common and any(p not in s.common for p in s.preds().get(b, []))]
        ends = [b for b in s.f.order if b in s.R and b not in s.common and not s.live(b)]
        out = {}
        for n, (c, w) in dests.items():
            if n.endswith('()'): continue
            l = set()
            for b in joins:
                x = tuple('.' if y is atom(n, i) else y for i, y in enumerate(s.entry(b, c, n, w, True)))
                if any(y != '.' for y in x): l.add(show(x))
            for b in ends:
                x = tuple('.' if y is atom(n, i) else y for i, y in enumerate(s.before(b, 1 << 30, c, n, w)))
                if any(y != '.' for y in x): l.add(show(x))
            out[n] = sorted(l)
        return out
    def effects(s):
        out = {}
        for b in s.f.order:
            if b not in s.R: continue
            ks = s.kills().get(b, [])
            for q, I in enumerate(s.f.blocks[b]):
                if I.op == 'store':
                    c = s.e.cell(I.a[1])
                    if c[0] == 'local': continue
                    n = s.name(I.a[1]); w = I.extra.w if I.extra.k == 'int' else 64
                    dead = False
                    for i, cc, J in ks:                       # overwritten later in the same block
                        if i > q:
                            if cc is None: break
                            if cc == c and s.name(J.a[1]) == n: dead = True; break
                    if dead: continue
                    x = s.bits(I.a[0], w)
                    x = tuple('.' if (y is atom(n, i) or y is atom(n + "'", i)) else y for i, y in enumerate(x[:w]))
                    if all(y == '.' for y in x): continue
                elif I.op == 'call':
                    n = callee(I)
                    if n.startswith('llvm.') or n in LOGS: continue
                    n += '()'; x = tuple(show(s.bits(v)) for _, v in I.a if v[0] in 'rc')
                else: continue
                out.setdefault((n, x), []).append(I)
        return out

def at_name(a): return a[0] if a[0] in OPQ and a[1] == 0 and a[0][0] == '{' and '%' in OPQ[a[0]][1] else '%s.%s' % a
def tt(b):
    """-> (atoms, truth table) of a function of few atoms"""
    at = sorted(support(b)); pos = {(a[1], a[0]): i for i, a in enumerate(at)}; r = 0
    for i in range(1 << len(at)):
        x = b
        while isinstance(x, N): x = x.hi if i >> pos[x.k] & 1 else x.lo
        if x: r |= 1 << i
    return at, r
def size(b): return len(support(b))
def literals(b):
    """-> ('&' or '|', [(atom, positive)]) for a conjunction or disjunction of atoms"""
    for o in (0, 1):
        x = b; l = []
        while isinstance(x, N):
            if x.lo == o and not isinstance(x.lo, N): l.append(((x.k[1], x.k[0]), o == 0)); x = x.hi
            elif x.hi == o and not isinstance(x.hi, N): l.append(((x.k[1], x.k[0]), o == 1)); x = x.lo
            else: l = None; break
        if l is not None: return '&|'[o], l
    return None
def spans(k):
    out = []; i = 0
    while i < len(k):
        j = i
        while j + 1 < len(k) and k[j + 1] == k[j] + 1: j += 1
        out.append(str(k[i]) if i == j else '%d-%d' % (k[i], k[j])); i = j + 1
    return ','.join(out)
def sup_text(at):
    d = {}
    for c, k in at: d.setdefault(c, []).append(k)
    return ', '.join(c if c in OPQ and k == [0] else '%s.%s' % (c, spans(sorted(k))) for c, k in sorted(d.items()))
def fmt(b, mv=()):
    if size(b) > 5:
        l = literals(b)
        if l:
            o, l = l; pos, neg = [a for a, p in l if p], [a for a, p in l if not p]
            return '(' + (' %s ' % o).join(([('all of ' if o == '&' else 'any of ') + sup_text(pos)] if pos else []) + ([('none of ' if o == '&' else 'not all ') + sup_text(neg)] if neg else [])) + ')'
        return 'F%s(%s)' % (b.h.hex()[:10], sup_text(support(b)))
    at, t = tt(b); n = len(at); M = 1 << n; full = (1 << M) - 1
    nm = [at_name(a) + ('+' if i in mv else '') for i, a in enumerate(at)]
    if n == 1: return nm[0] if t == 2 else '~' + nm[0]
    if bin(t).count('1') == 1:
        k = t.bit_length() - 1
        return '(' + ' & '.join(x if k >> i & 1 else '~' + x for i, x in enumerate(nm)) + ')'
    if bin(full ^ t).count('1') == 1:
        k = (full ^ t).bit_length() - 1
        return '(' + ' | '.join('~' + x if k >> i & 1 else x for i, x in enumerate(nm)) + ')'
    par = sum(1 << i for i in range(M) if bin(i).count('1') & 1)
    if t == par: return '(' + ' ^ '.join(nm) + ')'
    if t == full ^ par: return '~(' + ' ^ '.join(nm) + ')'
    return 'f%x(%s)' % (t, ', '.join(nm))
def show(bits):
    """runs of bits, most significant first"""
    if all(isinstance(b, str) for b in bits) and '.' not in bits: return ', '.join(bits)
    out = []; i = 0; n = len(bits)
    while i < n:
        b = bits[i]; j = i + 1
        if not isinstance(b, N):
            while j < n and bits[j] == b: j += 1
            t = str(b) + ('*%d' % (j - i) if j - i > 1 else '')
        elif size(b) > 5 and not literals(b):
            while j < n and isinstance(bits[j], N) and size(bits[j]) > 5 and not literals(bits[j]): j += 1
            if j - i == 1: t = fmt(b)
            else: t = 'F%s(%s)*%d' % (hashlib.md5(b''.join(x.h for x in bits[i:j])).hexdigest()[:10], sup_text(frozenset().union(*[support(x) for x in bits[i:j]])), j - i)
        else:
            while j < n and bits[j] is b: j += 1
            if j - i > 1: t = fmt(b) + '*%d' % (j - i)
            elif size(b) > 5: t = fmt(b)
            else:
                mv = None; at, f = tt(b)
                while j < n and isinstance(bits[j], N) and size(bits[j]) == len(at):
                    a2, f2 = tt(bits[j])
                    if f2 != f: break
                    m = tuple(q for q in range(len(at)) if a2[q] != at[q])
                    if mv is None: mv = m
                    if m != mv or any(a2[q] != (at[q][0], at[q][1] + j - i) for q in m): break
                    j += 1
                if j - i == 1: t = fmt(b)
                elif len(at) == 1: t = ('~' if f == 1 else '') + '%s<%d:%d>' % (at[0][0], at[0][1] + j - i - 1, at[0][1])
                else: t = fmt(b, mv) + '*%d' % (j - i)
        out.append(t); i = j
    while len(out) > 1 and out[-1].split('*')[0] == '0': out.pop()
    return ' '.join(reversed(out))

LOGS = {'log_print', 'log_print_s', 'log_print_c', 'print_inst', 'printf', 'fprintf', 'print_tags', 'strcat', 'strcpy', 'sprintf', 'snprintf'}
def flat(v):
    for x in v:
        if isinstance(x, (tuple, list)): yield from flat(x)
        else: yield x
def callee(I):
    if I.extra[0] == 'g': return I.extra[1]
    return 'indirect'

class Effect:
    """one way a value of the field changes a cell: what is stored (bits), under which condition, where"""
    __slots__ = ('dest', 'bits', 'cond', 'inst', 'text', 'ctext')
    def __init__(s, dest, bits, cond, inst):
        s.dest = dest; s.bits = bits; s.cond = cond; s.inst = inst
        s.text = show(bits); s.ctext = '' if cond == 1 else show((cond,))

def table(e, base, fld, values, keep=None):
    """value -> [Effect]: what the value does that not all values do"""
    fx = {v: {**base, ('cell', 'log_level'): 0, ('ros' if fld in e.rosoff else 'cell', fld): v} for v in values}
    fs = {v: e.special(x) for v, x in fx.items()}
    allb = frozenset.intersection(*[frozenset(x[0]) for x in fs.values()])
    sp = {v: Spec(e, x, allb) for v, x in fs.items()}
    full = {}
    for v in values:
        full[v] = {}
        for k, Is in sp[v].effects().items():
            for own in (False, True):
                l = [I for I in Is if (e.loc[id(I)] not in allb) == own]
                if l: full[v][k + (own,)] = (sp[v].when(l), l)
    comc = set.intersection(*[{(k, c) for k, (c, _) in x.items()} for x in full.values()])
    out = {}; nets = {}
    for v in keep or values:
        out[v] = [Effect(k[0], k[1], c, Is[0]) for k, (c, Is) in full[v].items() if (k, c) not in comc]
        ds = {}
        for x in out[v]:
            if x.inst.op == 'store' and x.inst.extra.k == 'int': ds.setdefault(x.dest, (e.cell(x.inst.a[1]), x.inst.extra.w))
        nets[v] = sp[v].net(ds)
    return out, nets
