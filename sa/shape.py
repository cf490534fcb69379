"""Shape analysis of linked-list code: an abstract interpreter over LLVM IR whose heap is a
chain of materialised nodes and non-empty list segments (possibly doubly linked), with linear
expressions for integers and normalised bit expressions for masks.

Segments are unfolded when the code dereferences their ends (case split: one node / one node
and more) and folded again at loop heads, so every loop reaches a fixed point whatever the
length of the list. Branch facts are kept as linear inequalities and (dis)equalities and used
only by syntactic entailment; no solver is involved."""
import copy, itertools
import ir
from common import loc
from result import Broken

# ------------------------------------------------------------------ expressions
# linear: ('L', const, ((sym, coef), ...))   pointers: ('p', node) ('first', seg) ('last', seg)
# ('null',) ('fn', name) ('o', name) opaque, ('adr', base, off), ('gadr', global, off/expr)
def K(c): return ('L', c, ())
def S(sym): return ('L', 0, ((sym, 1),))
def ladd(a, b, k=1):
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
        if d[s] == 0: del d[s]
    return ('L', a[1] + k * b[1], tuple(sorted(d.items(), key=repr)))
def lneg(a): return ladd(K(0), a, -1)
def lsubst(e, sym, val):
    d = dict(e[2]); c = d.pop(sym, 0)
    if not c: return e
    r = ('L', e[1], tuple(sorted(d.items(), key=repr)))
    for _ in range(abs(c)): r = ladd(r, val, 1 if c > 0 else -1)
    return r
def islin(v): return isinstance(v, tuple) and v and v[0] == 'L'

# ------------------------------------------------------------------ bit expressions (ANF over words)
# a word is a xor of terms (mask, frozenset(atoms)); kept as dict atoms -> mask
def anf(v):
    if not islin(v): return {frozenset([('v', v)]): -1}
    if not v[2]: return {frozenset(): v[1]} if v[1] else {}
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        s = v[2][0][0]
        if isinstance(s, tuple) and s[0] == 'anf': return dict((frozenset(a), m) for a, m in s[1])
        return {frozenset([s]): -1}
    return {frozenset([('lin', v)]): -1}
def unanf(d):
    d = {a: m for a, m in d.items() if m}
    if not d: return K(0)
    if list(d) == [frozenset()]: return K(d[frozenset()])
    if len(d) == 1:
        (a, m), = d.items()
        if m == -1 and len(a) == 1:
            x, = a
            if isinstance(x, tuple) and x[0] == 'lin': return x[1]
            if isinstance(x, tuple) and x[0] == 'v': return x[1]
            return S(x)
    return S(('anf', tuple(sorted(((tuple(sorted(a, key=repr)), m) for a, m in d.items()), key=repr))))
def axor(a, b):
    r = dict(a)
    for k, m in b.items():
        r[k] = r.get(k, 0) ^ m
        if not r[k]: del r[k]
    return r
def aand(a, b):
    r = {}
    for k, m in a.items():
        for l, n in b.items():
            x = k | l; v = r.get(x, 0) ^ (m & n)
            if v: r[x] = v
            else: r.pop(x, None)
    return r

def shr(e, n):
    """logical shift of a non-negative word"""
    r = {}
    for a, m in anf(e).items():
        b = frozenset(('shr', x[1], x[2] + n) if isinstance(x, tuple) and x[0] == 'shr' else ('shr', x, n) for x in a)
        v = r.get(b, 0) ^ (m >> n)
        if v: r[b] = v
        else: r.pop(b, None)
    return unanf(r)

TAGS = {'L', 'anf', 'shr', 'lin', 'v', 'o', 'p', 'op', 'add', 'sub', 'val', 'first', 'last', 'null', 'lshr', 'ashr', 'shl', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'adr', 'sym', 'b', 'fn', 'gadr', 'dangling'}
def leaves(y):
    if isinstance(y, str): return set() if y in TAGS else {y}
    if isinstance(y, tuple):
        r = set()
        for z in y: r |= leaves(z)
        return r
    return set()

class Node:
    __slots__ = ('cur', 'init', 'kind', 'size')
    def __init__(s, kind): s.cur = {}; s.init = {}; s.kind = kind; s.size = None
    def copy(s):
        n = Node(s.kind); n.cur = dict(s.cur); n.init = dict(s.init); n.size = s.size; return n
class Seg:
    __slots__ = ('next', 'prev', 'T', 'nm')
    def __init__(s, next, prev, T, nm=False): s.next = next; s.prev = prev; s.T = T; s.nm = nm
    def copy(s): return Seg(s.next, s.prev, s.T, s.nm)

class State:
    def __init__(s):
        s.nodes = {}; s.segs = {}; s.orig = []; s.g = {}; s.facts = []; s.eq = {}; s.frames = []; s.freed = set(); s.ghost = {}; s.trace = ()
    def copy(s):
        t = State()
        t.nodes = {k: v.copy() for k, v in s.nodes.items()}; t.segs = {k: v.copy() for k, v in s.segs.items()}
        t.orig = list(s.orig); t.g = dict(s.g); t.facts = list(s.facts); t.eq = dict(s.eq); t.frames = [dict(f) for f in s.frames]
        t.freed = set(s.freed); t.ghost = dict(s.ghost); t.trace = s.trace
        return t

class Abort(Exception):
    def __init__(s, key, msg): s.key = key; s.msg = msg

class Engine:
    """lay: dict(struct size, next, prev (or None), time (or None)) offsets; heads: global cells holding chain ends"""
    def __init__(s, mod, lay, spec, res, maxstates=6000):
        s.mod = mod; s.lay = lay; s.spec = spec; s.res = res; s.n = itertools.count(1); s.max = maxstates
        s.count = 0; s.derefs = 0; s.live = {}; s.loops = {}; s.funcs = set(); s.forks = 0
    def fresh(s, p): return '%s%d' % (p, next(s.n))
    # -------------------------------------------------------------- substitution in a state
    def subst(s, st, fn):
        """apply fn to every value held anywhere"""
        for n in st.nodes.values():
            for d in (n.cur, n.init):
                for k in d: d[k] = fn(d[k])
        for g in st.segs.values():
            g.next = fn(g.next); g.prev = fn(g.prev); g.T = fn(g.T) if g.T is not None else None
        for k in st.g: st.g[k] = fn(st.g[k])
        for fr in st.frames:
            for k in fr: fr[k] = fn(fr[k])
        for k in st.ghost: st.ghost[k] = fn(st.ghost[k])
        st.facts = [fn(x) for x in st.facts]
        st.eq = {tuple(fn(x) for x in k): v for k, v in st.eq.items()}
    def subst_sym(s, st, sym, val):
        def fn(v):
            if islin(v): return lsubst(v, sym, val)
            return v
        s.subst(st, fn)
    def subst_ptr(s, st, m):
        def fn(v):
            if isinstance(v, tuple):
                if v in m: return m[v]
                if v and v[0] == 'adr' and v[1] in m: return ('adr', m[v[1]], v[2])
            return v
        s.subst(st, fn)
    # -------------------------------------------------------------- facts
    def add_ge(s, st, e):
        if e[2] and e not in st.facts: st.facts.append(e)
    def prove_ge(s, st, e):
        if not e[2]: return e[1] >= 0
        fs = st.facts
        for f in fs:
            d = ladd(e, f, -1)
            if not d[2] and d[1] >= 0: return True
        for f in fs:
            d = ladd(e, f, -1)
            if len(d[2]) > 4: continue
            for g in fs:
                h = ladd(d, g, -1)
                if not h[2] and h[1] >= 0: return True
        for f in fs:
            d = ladd(e, f, -1)
            if len(d[2]) > 3: continue
            for g in fs:
                h = ladd(d, g, -1)
                if len(h[2]) > 2: continue
                for i in fs:
                    q = ladd(h, i, -1)
                    if not q[2] and q[1] >= 0: return True
        return False
    def ranges(s, st, e):
        """range facts of bit expressions with a constant mask"""
        for sym, c in e[2]:
            if isinstance(sym, tuple) and sym[0] == 'anf':
                m = 0; ok = True
                for a, k in sym[1]:
                    if k < 0: ok = False
                    m |= k
                if ok:
                    s.add_ge(st, S(sym)); s.add_ge(st, ladd(K(m), S(sym), -1))
    # -------------------------------------------------------------- unfolding
    def newnode(s, st, kind='list'):
        n = s.fresh('n'); st.nodes[n] = Node(kind); return n
    def unfold(s, st, ptr):
        """materialise the node a segment-end pointer denotes; returns list of states"""
        side, g = ptr; out = []
        if side == 'last' and s.lay.get('prev') is None: raise Broken('segment opened from the back of a singly linked list')
        for more in (False, True):
            t = st.copy(); seg = t.segs.pop(g); n = s.newnode(t); N = t.nodes[n]; p = ('p', n)
            N.init['__nm'] = seg.nm
            m = {}
            tm = None
            if seg.T is not None:
                tm = s.fresh('t'); s.add_ge(t, S(tm)); N.init[s.lay['time']] = N.cur[s.lay['time']] = S(tm)
            i = t.orig.index(g) if g in t.orig else None
            if not more:
                m[('first', g)] = m[('last', g)] = p
                N.cur[s.lay['next']] = seg.next
                if s.lay.get('prev') is not None: N.cur[s.lay['prev']] = seg.prev
                if i is not None: t.orig[i:i + 1] = [n]
                if tm: rest = K(0)
            else:
                h = s.fresh('S')
                T2 = S(s.fresh('T')) if tm else None
                if tm: s.add_ge(t, T2); rest = T2
                if side == 'first':
                    t.segs[h] = Seg(seg.next, p, T2, seg.nm)
                    m[('first', g)] = p; m[('last', g)] = ('last', h)
                    N.cur[s.lay['next']] = ('first', h)
                    if s.lay.get('prev') is not None: N.cur[s.lay['prev']] = seg.prev
                    if i is not None: t.orig[i:i + 1] = [n, h]
                else:
                    t.segs[h] = Seg(p, seg.prev, T2, seg.nm)
                    m[('first', g)] = ('first', h); m[('last', g)] = p
                    N.cur[s.lay['next']] = seg.next; N.cur[s.lay['prev']] = ('last', h)
                    if i is not None: t.orig[i:i + 1] = [h, n]
            s.subst_ptr(t, m)
            if tm:
                # T(seg) = t + rest
                T = seg.T
                val = ladd(S(tm), rest)
                if len(T[2]) == 1 and T[1] == 0 and T[2][0][1] == 1: s.subst_sym(t, T[2][0][0], val)
                else:
                    d = ladd(T, val, -1); s.add_ge(t, d); s.add_ge(t, lneg(d))
                if t.ghost.get('headmin') == ('seg', g): pass
            s.spec.unfolded(s, t, n, g, side)
            out.append(t)
        s.forks += 1
        return out
    # -------------------------------------------------------------- chain walking
    def chain(s, st, head):
        """items from the head pointer on, and the error that ended the walk (None when NULL is reached)"""
        out = []; v = head; prev = ('null',); L = s.lay
        while True:
            if v == ('null',): return out, prev, None
            if v[0] == 'p':
                n = v[1]
                if n in st.freed: return out, prev, 'leads to a freed node'
                if n in out: return out, prev, 'is circular'
                N = st.nodes[n]
                if L.get('prev') is not None and N.cur.get(L['prev']) != prev: out.append(n); return out, prev, 'has a wrong back link'
                out.append(n); prev = v; v = N.cur.get(L['next'], ('o', 'uninit'))
            elif v[0] == 'first':
                g = v[1]; G = st.segs.get(g)
                if G is None: return out, prev, 'is broken'
                if g in out: return out, prev, 'is circular'
                if L.get('prev') is not None and G.prev != prev: out.append(g); return out, prev, 'has a wrong back link'
                out.append(g); prev = ('last', g); v = G.next
            elif v[0] == 'last':
                return out, prev, 'skips nodes'
            else: return out, prev, 'leads outside the list'
    # -------------------------------------------------------------- folding at loop heads
    def fold(s, st, live):
        L = s.lay
        for fr, lv in zip(st.frames, live):
            for k in list(fr):
                if lv is not None and k not in lv: del fr[k]
        refs = set()
        def ref(v):
            if isinstance(v, tuple) and v:
                if v[0] in ('p', 'first', 'last'): refs.add(v)
                elif v[0] == 'adr': ref(v[1])
        for fr in st.frames:
            for v in fr.values(): ref(v)
        for k, v in st.ghost.items(): ref(v)
        for k, v in st.g.items():
            ref(v)
        for n, N in st.nodes.items():
            if N.kind != 'list':
                for v in N.cur.values(): ref(v)
        headcells = s.spec.heads
        for hc in headcells:
            if hc not in st.g: continue
            items, last, err = s.chain(st, st.g[hc])
            # only fold a well-formed prefix
            hrefs = set(refs)
            hv = st.g[hc]; cnt = sum(1 for fr in st.frames for v in fr.values() if v == hv)
            def pinned(x):
                if x in st.nodes:
                    if st.nodes[x].kind != 'list': return True
                    p = ('p', x)
                    # the head cell and the tail cell may point at it
                    for fr in st.frames:
                        for v in fr.values():
                            if v == p or (isinstance(v, tuple) and v and v[0] == 'adr' and v[1] == p): return True
                    for k, v in st.ghost.items():
                        if v == p: return True
                    for k, v in st.g.items():
                        if v == p and k not in s.spec.heads and k not in s.spec.tails: return True
                    N = st.nodes[x]
                    for k, v in N.init.items():
                        if k != '__nm' and N.cur.get(k) != v: return True
                    if x in st.ghost.get('keep', ()): return True
                    return False
                for fr in st.frames:
                    for v in fr.values():
                        if isinstance(v, tuple) and v and v[0] in ('first', 'last') and v[1] == x: return True
                return False
            def nm(x): return s.spec.nomatch(s, st, x) if x in st.nodes else st.segs[x].nm
            i = 0
            while i < len(items):
                a = items[i]
                if pinned(a): i += 1; continue
                j = i + 1
                while j < len(items) and not pinned(items[j]) and s.adjacent(st, items[j - 1], items[j]): j += 1
                if a in st.segs and j == i + 1: i += 1; continue
                run = items[i:j]; h = s.fresh('S')
                first = run[0]; last = run[-1]
                pv = st.nodes[first].cur.get(L['prev']) if first in st.nodes and L.get('prev') is not None else st.segs[first].prev if first in st.segs else None
                nx = st.nodes[last].cur[L['next']] if last in st.nodes else st.segs[last].next
                G = Seg(nx, pv, None, all(nm(x) for x in run))
                if L.get('time') is not None:
                    T = K(0)
                    for x in run: T = ladd(T, s.dt(st, x))
                    ns = s.fresh('T')
                    # T_new = sum; eliminate one symbol of the sum
                    piv = next((y for y, c in T[2] if c == 1), None)
                    if piv is None: raise Broken('cannot fold segment time')
                    others = ladd(T, S(piv), -1)
                    G.T = S(ns)
                    s.subst_sym(st, piv, ladd(S(ns), others, -1)); s.add_ge(st, S(ns))
                    G.next = nx
                st.segs[h] = G
                m = {}
                m[('p', first) if first in st.nodes else ('first', first)] = ('first', h)
                # pointers to the last element
                lp = ('p', last) if last in st.nodes else ('last', last)
                if lp in m:      # single node run
                    del m[lp]
                    s.retarget(st, first, last, h, True)
                else: s.retarget(st, first, last, h, False)
                st.segs[h] = G
                k = st.orig.index(run[0]) if run[0] in st.orig else None
                if k is not None: st.orig[k:k + len(run)] = [h]
                for x in run:
                    st.nodes.pop(x, None); st.segs.pop(x, None)
                items[i:j] = [h]; i += 1
    def trim(s, st, lv):
        fr = st.frames[-1]
        for k in list(fr):
            if k not in lv: del fr[k]
    def retarget(s, st, first, last, h, single):
        """redirect links into a folded run: from the left to ('first',h), from the right to ('last',h)"""
        L = s.lay
        fp = ('p', first) if first in st.nodes else ('first', first)
        lp = ('p', last) if last in st.nodes else ('last', last)
        for N in st.nodes.values():
            if N.cur.get(L['next']) == fp: N.cur[L['next']] = ('first', h)
            if L.get('prev') is not None and N.cur.get(L['prev']) == lp: N.cur[L['prev']] = ('last', h)
        for x, G in st.segs.items():
            if G.next == fp: G.next = ('first', h)
            if G.prev == lp: G.prev = ('last', h)
        for k in st.g:
            if k in s.spec.tails and st.g[k] == lp: st.g[k] = ('last', h)
            elif st.g[k] == fp: st.g[k] = ('first', h)
    def adjacent(s, st, a, b):
        if a in st.orig and b in st.orig: return st.orig.index(b) == st.orig.index(a) + 1
        return a not in st.orig and b not in st.orig
    def dt(s, st, x):
        return st.nodes[x].cur.get(s.lay['time']) if x in st.nodes else st.segs[x].T
    def gc(s, st, f, where=None):
        """drop freed nodes nothing refers to; an allocated node nothing refers to is a leak"""
        reach = set(); work = []
        def add(v):
            if isinstance(v, tuple) and v:
                if v[0] in ('p', 'first', 'last') and v[1] not in reach: reach.add(v[1]); work.append(v[1])
                elif v[0] == 'adr': add(v[1])
        for fr in st.frames:
            for v in fr.values(): add(v)
        for v in st.g.values(): add(v)
        for v in st.ghost.values(): add(v)
        while work:
            x = work.pop()
            if x in st.nodes:
                if x in st.freed: continue
                for v in st.nodes[x].cur.values(): add(v)
            else: add(st.segs[x].next)
        for x in list(st.nodes):
            if x in reach: continue
            N = st.nodes[x]
            if x not in st.freed and N.kind in ('list', 'heap', 'zero') and not s.spec.may_drop(s, st, x):
                raise Abort('leak', 'a node is unlinked (or never linked) and not freed')
            if x in st.orig: continue
            del st.nodes[x]; st.freed.discard(x)
            if 'new' in st.ghost: st.ghost['new'] = tuple(y for y in st.ghost['new'] if y != x)
    # -------------------------------------------------------------- canonical key
    def key(s, st, blk):
        ren = {}
        def name(x, p):
            if x not in ren: ren[x] = '%s#%d' % (p, len(ren))
            return ren[x]
        params = s.spec.params
        def sym(y):
            if isinstance(y, tuple): return repr(tup(y))
            if y in params: return y
            return name(y, 'v')
        def tup(y):
            if isinstance(y, str): return y if y in TAGS else sym(y)
            if isinstance(y, tuple): return tuple(tup(z) for z in y)
            return y
        def val(v):
            if islin(v):
                return ('L', v[1], tuple(sorted(((sym(y), c) for y, c in v[2]), key=repr)))
            if isinstance(v, tuple) and v:
                if v[0] in ('p', 'first', 'last'): return (v[0], name(v[1], 'x'))
                if v[0] == 'o': return ('o', v[1] if v[1] in params else name(v[1], 'o'))
                if v[0] == 'adr': return ('adr', val(v[1]), v[2])
                if v[0] == 'b': return ('b',) + tuple(val(z) if isinstance(z, tuple) else z for z in v[1:])
            return v
        out = [blk]
        done = set()
        for hc in sorted(st.g, key=repr): out.append((hc, val(st.g[hc])))
        order = []
        for hc in s.spec.heads:
            if hc in st.g: order += s.chain(st, st.g[hc])[0]
        order += [x for x in list(st.nodes) + list(st.segs) if x not in order]
        for fi, fr in enumerate(st.frames):
            for k in sorted(fr): out.append((fi, k, val(fr[k])))
        for x in order:
            if x in st.nodes:
                N = st.nodes[x]
                out.append((name(x, 'x'), N.kind, x in st.freed, tuple((k, val(v)) for k, v in sorted(N.cur.items(), key=repr)), tuple((k, val(v)) for k, v in sorted(N.init.items(), key=repr))))
            else:
                G = st.segs[x]; out.append((name(x, 'x'), val(G.next), val(G.prev), val(G.T) if G.T else None, G.nm))
        out.append(tuple(name(x, 'x') if x in st.nodes or x in st.segs else x for x in st.orig))
        for k in sorted(st.ghost): out.append((k, val(st.ghost[k]) if isinstance(st.ghost[k], tuple) else st.ghost[k]))
        known = set(ren) | set(params)
        def used(v):
            if islin(v): return all(leaves(y) <= known for y, c in v[2])
            if isinstance(v, tuple) and v and v[0] in ('o', 'p', 'first', 'last'): return v[1] in known
            return True
        st.facts = [f for f in st.facts if used(f)]
        st.eq = {k: v for k, v in st.eq.items() if all(used(x) for x in k)}
        out.append(tuple(sorted((val(f) for f in st.facts), key=repr)))
        out.append(tuple(sorted(((tuple(val(x) for x in k), v) for k, v in st.eq.items()), key=repr)))
        return repr(out)
    # -------------------------------------------------------------- values
    def ev(s, st, v, ty=None):
        k = v[0]
        if k == 'r':
            fr = st.frames[-1]
            if v[1] in fr: return fr[v[1]]
            raise Broken('use of unset register %s' % v[1])
        if k == 'c':
            c = v[1]
            if ty is not None and ty.k == 'int' and ty.w > 1 and c >= 1 << (ty.w - 1): c -= 1 << ty.w
            return K(c)
        if k == 'null': return ('null',)
        if k == 'g':
            if v[1] in s.mod.funcs or v[1] in s.mod.decls: return ('fn', v[1])
            return ('gadr', v[1], K(0))
        if k == 'gep':
            b = s.ev(st, v[2][0][1]); return s.gep(st, b, v[1], [(t, x) for t, x in v[2][1:]])
        if k == 'undef': return ('o', s.fresh('undef'))
        return ('o', s.fresh('c'))
    def gep(s, st, b, bt, idx):
        off = K(0); t = bt
        for i, (ty, x) in enumerate(idx):
            e = s.ev(st, x, ty)
            if i == 0: w = t.size()
            elif t.k in ('arr', 'vec'): t = t.el; w = t.size()
            else:
                off = ladd(off, K(t.offsets()[e[1]])); t = t.fields[e[1]]; continue
            if not islin(e): e = S(('val', e))
            for _ in range(1): off = ladd(off, ('L', e[1] * w, tuple((y, c * w) for y, c in e[2])))
        if b[0] == 'gadr': return ('gadr', b[1], ladd(b[2], off))
        if b[0] == 'adr':
            return ('adr', b[1], b[2] + off[1]) if not off[2] else ('adr', b[1], ('sym', b[2], off))
        if not off[2]:
            return ('adr', b, off[1]) if off[1] or True else b
        return ('adr', b, ('sym', 0, off))
    def split(s, p):
        if p[0] == 'adr': return p[1], p[2]
        return p, 0
    def norm(s, p):
        """('adr', base, 0) is the base itself"""
        if isinstance(p, tuple) and p and p[0] == 'adr' and p[2] == 0: return p[1]
        return p
    def deref(s, st, p, I, what):
        """-> [(state, node, offset)]"""
        b, o = s.split(p)
        s.derefs += 1
        if b[0] in ('first', 'last'):
            r = []
            for t in s.unfold(st, b):
                r += s.deref(t, s.remap(t, p, I), I, what)
            return r
        if b == ('null',): raise Abort('null', '%s through a NULL pointer' % what)
        if b[0] == 'dangling': raise Abort('dangling', '%s of an event after a function that may have freed it was called' % what)
        if b[0] == 'p':
            if b[1] in st.freed: raise Abort('uaf', '%s of a node after it was freed' % what)
            return [(st, b[1], o)]
        if b[0] == 'o' and b[1] in st.ghost.get('ptrparams', ()): return [(st, ('o', b[1]), o)]
        raise Broken('%s through an unmodelled pointer %s at %s' % (what, b, loc(I.fn, I)))
    def remap(s, t, p, I):
        """the value p after an unfolding: recompute from the instruction's address operand"""
        return s.ev(t, I.a[0] if I.op == 'load' else I.a[1] if I.op == 'store' else I.a[0][1])
    def nodefield(s, st, n, o, ty):
        N = st.nodes[n]
        if o not in N.cur:
            if N.kind == 'heap': raise Abort('uninit', 'field at offset %s of a new node is used before it is set' % (o,))
            v = s.spec.field(s, st, n, o, ty)
            N.cur[o] = N.init[o] = v
        return N.cur[o]
    # -------------------------------------------------------------- comparison
    def compare(s, st, pred, a, b, I):
        """-> [(state, bool)]"""
        a = s.norm(a); b = s.norm(b)
        if pred in ('eq', 'ne'):
            r = s.equal(st, a, b, I)
            return [(t, x if pred == 'eq' else not x) for t, x in r]
        if not islin(a) or not islin(b): a = a if islin(a) else S(('val', a)); b = b if islin(b) else S(('val', b))
        p = pred[1:]
        s.ranges(st, a); s.ranges(st, b)
        # express as e >= 0
        e = {'lt': lambda: ladd(ladd(b, a, -1), K(-1)), 'le': lambda: ladd(b, a, -1), 'gt': lambda: ladd(ladd(a, b, -1), K(-1)), 'ge': lambda: ladd(a, b, -1)}[p]()
        ne = ladd(lneg(e), K(-1))
        if s.prove_ge(st, e): return [(st, True)]
        if pred[0] == 's' or True:
            if s.prove_ge(st, ne): return [(st, False)]
        t = st.copy(); s.add_ge(st, e); s.add_ge(t, ne)
        if pred[0] == 'u' and p in ('lt', 'le') and not b[2]: s.add_ge(st, a)
        return [(st, True), (t, False)]
    def equal(s, st, a, b, I):
        if a == b: return [(st, True)]
        if islin(a) and islin(b):
            d = ladd(a, b, -1)
            if not d[2]: return [(st, d[1] == 0)]
            if len(d[2]) == 1 or any(isinstance(y, tuple) for y, c in d[2]):
                # bit expressions: normalise the comparison to x ^ y == 0
                x = unanf(axor(anf(a), anf(b))) if any(isinstance(y, tuple) for y, c in d[2]) else None
                if x is not None:
                    if x == K(0): return [(st, True)]
                    k = (x, K(0))
                    if k in st.eq: return [(st, st.eq[k])]
                    t = st.copy(); st.eq[k] = True; t.eq[k] = False
                    return [(st, True), (t, False)]
            if s.prove_ge(st, ladd(d, K(-1))) or s.prove_ge(st, ladd(lneg(d), K(-1))): return [(st, False)]
            k = (d, K(0)) if d[2][0][1] > 0 else (lneg(d), K(0))
            if k in st.eq: return [(st, st.eq[k])]
            t = st.copy(); t.eq[k] = False
            # d >= 0 known and d != 0 gives d >= 1
            if s.prove_ge(t, d): s.add_ge(t, ladd(d, K(-1)))
            elif s.prove_ge(t, lneg(d)): s.add_ge(t, ladd(lneg(d), K(-1)))
            piv = next((y for y, c in d[2] if c in (1, -1) and isinstance(y, str) and y not in s.spec.params), None) or next((y for y, c in d[2] if c in (1, -1) and isinstance(y, str)), None)
            out = []
            if s.prove_ge(st, d) and s.prove_ge(st, lneg(d)): return [(st, True)]
            if piv is not None:
                c = dict(d[2])[piv]; rest = ladd(d, S(piv), -c); s.subst_sym(st, piv, lneg(rest) if c == 1 else rest)
                # a substituted fact may have become contradictory
                if any(not f[2] and f[1] < 0 for f in st.facts): return [(t, False)]
                st.facts = [f for f in st.facts if f[2]]
            else: st.eq[k] = True
            return [(st, True), (t, False)]
        pa = a[0] in ('p', 'first', 'last'); pb = b[0] in ('p', 'first', 'last')
        if pa and pb:
            if a[1] == b[1] and a[0] != b[0]:
                out = []
                for t in s.unfold(st, a): 
                    aa, bb = s.ev(t, I.a[0]), s.ev(t, I.a[1]); out += s.equal(t, s.norm(aa), s.norm(bb), I)
                return out
            return [(st, False)]
        if (pa or pb) and (a == ('null',) or b == ('null',)): return [(st, False)]
        if a[0] == 'fn' and b[0] == 'fn' or a[0] == 'fn' and b == ('null',) or b[0] == 'fn' and a == ('null',): return [(st, False)]
        if 'dangling' in (a[0], b[0]) and ('null',) in (a, b): return [(st, False)]
        if (pa and b[0] == 'o' or pb and a[0] == 'o') and s.spec.distinct(a if not pa else b): return [(st, False)]
        k = tuple(sorted((a, b), key=repr))
        if k in st.eq: return [(st, st.eq[k])]
        t = st.copy(); st.eq[k] = True; t.eq[k] = False
        return [(st, True), (t, False)]
    # -------------------------------------------------------------- execution
    def run(s, fname, args, st):
        f = s.mod.funcs.get(fname)
        if f is None: raise Broken('function %s not found' % fname)
        return s.call(f, args, st, 0)
    def liveness(s, f):
        if f in s.live: return s.live[f]
        from common import succ
        use = {}; 
        def names(v):
            if v[0] == 'r': yield v[1]
            elif v[0] == 'gep':
                for t, x in v[2]: yield from names(x)
        gen = {b: set() for b in f.order}; kill = {b: set() for b in f.order}; phiuse = {b: set() for b in f.order}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'phi':
                    for v, p in I.extra:
                        for x in names(v): phiuse[p].add(x)
                    kill[b].add(I.res); continue
                ops = [v for t, v in I.a] if I.op == 'call' else list(I.a)
                if I.op == 'call' and I.extra[0] == 'r': ops.append(I.extra)
                if I.op == 'getelementptr': ops += [x for t, x in I.extra[1]]
                for v in ops:
                    for x in names(v):
                        if x not in kill[b]: gen[b].add(x)
                if I.res: kill[b].add(I.res)
        li = {b: set() for b in f.order}; ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set(phiuse[b])
                for x in succ(f, b): o |= li[x] - {I.res for I in f.blocks[x] if I.op == 'phi'}
                n = gen[b] | (o - kill[b]) 
                n |= {I.res for I in f.blocks[b] if I.op == 'phi'}   # keep phi results (set on entry)
                if n != li[b]: li[b] = n; ch = True
        # loop heads: targets of back edges by DFS
        heads = set(); color = {}
        st = [(f.order[0], iter(succ(f, f.order[0])))]; color[f.order[0]] = 1
        while st:
            b, it = st[-1]
            for x in it:
                if color.get(x) == 1: heads.add(x)
                elif x not in color: color[x] = 1; st.append((x, iter(succ(f, x)))); break
            else: color[b] = 2; st.pop()
        s.live[f] = (li, heads); return s.live[f]
    def call(s, f, args, st, depth):
        if depth > 6: raise Broken('call depth in %s' % f.name)
        s.funcs.add(f)
        li, heads = s.liveness(f)
        st.frames.append({n: a for (t, n), a in zip(f.params, args)})
        out = []; seen = set(); work = [(st, f.order[0], None)]
        while work:
            st, b, pred = work.pop()
            s.count += 1
            if s.count > s.max: raise Broken('state limit in %s' % f.name)
            # phis
            ph = [(I, next(v for v, p in I.extra if p == pred)) for I in f.blocks[b] if I.op == 'phi']
            vals = [(I.res, s.ev(st, v, I.ty)) for I, v in ph]
            for r, v in vals: st.frames[-1][r] = v
            if b in heads:
                s.spec.at_head(s, st, f, b)
                try:
                    s.trim(st, li[b]); s.gc(st, f)
                except Abort as a:
                    s.res.add('%s:%s:%s' % (s.spec.name, a.key, f.name), a.msg, loc(f, f.blocks[b][-1]), st.trace); continue
                s.fold(st, [None] * (len(st.frames) - 1) + [li[b]])
                k = s.key(st, b)
                if k in seen: continue
                seen.add(k)
            states = [(st, 0)]
            blk = f.blocks[b]
            try:
                while states:
                    st, i = states.pop()
                    while True:
                        I = blk[i]
                        if I.op == 'phi': i += 1; continue
                        if I.op == 'br':
                            if len(I.extra) == 1: work.append((st, I.extra[0], b)); break
                            c = s.ev(st, I.a[0])
                            for t, x in s.truth(st, c, I):
                                t.trace = (t.trace + (('%s: %s' % (loc(f, I), 'taken' if x else 'not taken')),))[-24:]
                                work.append((t, I.extra[0] if x else I.extra[1], b))
                            break
                        if I.op == 'switch': raise Broken('switch in list code %s' % loc(f, I))
                        if I.op == 'ret':
                            rv = s.ev(st, I.a[0], I.ty) if I.a else None
                            st.frames.pop(); out.append((st, rv)); break
                        if I.op == 'unreachable': break
                        cur = st
                        try: r = s.step(st, f, I, depth)
                        except Abort as a:
                            s.res.add('%s:%s:%s' % (s.spec.name, a.key, f.name), a.msg, loc(f, I), cur.trace); break
                        if len(r) == 1: st = r[0]; i += 1; continue
                        for t in r: states.append((t, i + 1))
                        break
            except Broken as ex:
                raise
        return out
    def truth(s, st, c, I):
        if isinstance(c, tuple) and c[0] == 'b': return [(st, bool(c[1]))]
        if islin(c) and not c[2]: return [(st, c[1] != 0)]
        return [(t, not x) for t, x in s.equal(st, c, K(0) if islin(c) else ('null',), I)]
    def step(s, st, f, I, depth):
        op = I.op; fr = st.frames[-1]
        if op == 'alloca':
            n = s.fresh('loc'); st.nodes[n] = Node('local'); fr[I.res] = ('p', n); return [st]
        if op == 'getelementptr':
            b = s.ev(st, I.a[0]); fr[I.res] = s.gep(st, b, I.extra[0], I.extra[1]); return [st]
        if op == 'load':
            p = s.ev(st, I.a[0])
            if p[0] == 'gadr':
                fr[I.res] = s.gload(st, p, I); return [st]
            out = []
            for t, n, o in s.deref(st, p, I, 'read'):
                if isinstance(n, tuple): t.frames[-1][I.res] = s.spec.paramfield(s, t, n, o, I.ty)
                else: t.frames[-1][I.res] = s.nodefield(t, n, o, I.ty)
                out.append(t)
            return out
        if op == 'store':
            p = s.ev(st, I.a[1])
            if p[0] == 'gadr':
                st.g[s.gcell(st, p, I)] = s.norm(s.ev(st, I.a[0], I.extra)); return [st]
            out = []
            for t, n, o in s.deref(st, p, I, 'write'):
                v = s.norm(s.ev(t, I.a[0], I.extra))
                if isinstance(n, tuple): s.spec.paramstore(s, t, n, o, v)
                else:
                    N = t.nodes[n]
                    if N.kind == 'list' and o not in N.cur: s.nodefield(t, n, o, I.extra)
                    N.cur[o] = v
                out.append(t)
            return out
        if op == 'icmp':
            ty = I.extra[1]
            a, b = s.ev(st, I.a[0], ty), s.ev(st, I.a[1], ty)
            r = []
            for t, x in s.compare(st, I.extra[0], a, b, I):
                t.frames[-1][I.res] = ('b', x); r.append(t)
            return r
        if op in ('add', 'sub'):
            a, b = s.ev(st, I.a[0], I.ty), s.ev(st, I.a[1], I.ty)
            if islin(a) and islin(b): fr[I.res] = ladd(a, b, 1 if op == 'add' else -1)
            else: fr[I.res] = S(('op', op, a, b))
            return [st]
        if op in ('and', 'or', 'xor'):
            a, b = s.ev(st, I.a[0], I.ty), s.ev(st, I.a[1], I.ty)
            if a[0] == 'b' and b[0] == 'b':
                fr[I.res] = ('b', (a[1] and b[1]) if op == 'and' else (a[1] or b[1]) if op == 'or' else a[1] != b[1]); return [st]
            A, B = anf(a), anf(b)
            fr[I.res] = unanf(aand(A, B) if op == 'and' else axor(A, B) if op == 'xor' else axor(axor(A, B), aand(A, B))); return [st]
        if op in ('ashr', 'lshr', 'shl', 'mul', 'sdiv', 'udiv', 'srem', 'urem'):
            a, b = s.ev(st, I.a[0], I.ty), s.ev(st, I.a[1], I.ty)
            if islin(a) and not a[2] and islin(b) and not b[2] and op in ('shl', 'mul'):
                fr[I.res] = K(a[1] << b[1] if op == 'shl' else a[1] * b[1])
            elif op in ('lshr', 'ashr') and islin(a) and islin(b) and not b[2]: fr[I.res] = shr(a, b[1])
            elif op in ('udiv', 'sdiv') and islin(a) and islin(b) and not b[2] and b[1] > 0 and b[1] & (b[1] - 1) == 0: fr[I.res] = shr(a, b[1].bit_length() - 1)
            elif op in ('urem', 'srem') and islin(b) and not b[2] and b[1] > 0 and b[1] & (b[1] - 1) == 0: fr[I.res] = unanf(aand(anf(a), anf(K(b[1] - 1))))
            else: fr[I.res] = S((op, a, b))
            return [st]
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = s.ev(st, I.a[0], I.extra if op not in ('freeze',) else None)
            if v[0] == 'b' and I.ty.k == 'int' and I.ty.w > 1: v = K(1 if v[1] else 0)
            if op == 'trunc' and I.ty.w == 1:
                out = []
                for t, x in s.truth(st, v, I): t.frames[-1][I.res] = ('b', x); out.append(t)
                return out
            fr[I.res] = v; return [st]
        if op == 'select':
            out = []
            for t, x in s.truth(st, s.ev(st, I.a[0]), I):
                t.frames[-1][I.res] = s.ev(t, I.a[1] if x else I.a[2], I.ty); out.append(t)
            return out
        if op == 'call': return s.do_call(st, f, I, depth)
        raise Broken('unmodelled instruction %s at %s' % (op, loc(f, I)))
    def gcell(s, st, p, I):
        off = p[2]
        return (p[1], off[1]) if not off[2] else (p[1], off)
    def gload(s, st, p, I):
        c = s.gcell(st, p, I)
        s.spec.gaccess(s, st, p, I)
        if c not in st.g:
            v = s.spec.gvalue(s, st, c, I)
            if v is None: return S(s.fresh('g')) if I.ty.k == 'int' else ('o', s.fresh('g'))
            st.g[c] = v
        return st.g[c]
    def do_call(s, st, f, I, depth):
        k, nme = I.extra if len(I.extra) == 2 else (None, None)
        args = [s.norm(s.ev(st, v, t)) if v[0] != 'meta' else None for t, v in I.a]
        if k == 'g':
            if nme.startswith('log_print') or nme in ('printf', 'fprintf', 'puts') or nme.startswith('llvm.dbg'):
                if I.res: st.frames[-1][I.res] = K(0)
                return [st]
            if nme in ('malloc', 'calloc'):
                t = st.copy(); t.frames[-1][I.res] = ('null',)
                t.ghost['oom'] = True
                n = s.fresh('n'); st.nodes[n] = Node('heap'); st.frames[-1][I.res] = ('p', n)
                if nme == 'calloc':
                    st.nodes[n].kind = 'zero'
                    for o in s.lay['fields']: st.nodes[n].cur[o] = ('null',) if s.lay['fields'][o] == 'ptr' else K(0)
                sz = args[0] if nme == 'malloc' else args[1]
                if islin(sz) and not sz[2] and sz[1] < s.lay['size']: raise Abort('alloc', 'a new node is allocated with %d bytes, the structure has %d' % (sz[1], s.lay['size']))
                st.ghost.setdefault('new', ()); st.ghost['new'] = st.ghost['new'] + (n,)
                return [st, t]
            if nme == 'free':
                a = args[0]
                if a == ('null',): return [st]
                if a[0] in ('first', 'last'):
                    out = []
                    for t in s.unfold(st, a): out += s.do_call(t, f, I, depth)
                    return out
                if a[0] == 'dangling': raise Abort('dangling', 'an event is freed after a function that may have freed it was called')
                if a[0] != 'p': raise Abort('free', 'free() of something that is not a list node')
                if a[1] in st.freed: raise Abort('double', 'a node is freed twice')
                st.freed.add(a[1]); return [st]
            if nme in ('llvm.memset.p0.i64', 'memset') and args[0][0] == 'p' and args[1] == K(0):
                for o in s.lay['fields']: st.nodes[args[0][1]].cur[o] = ('null',) if s.lay['fields'][o] == 'ptr' else K(0)
                if I.res: st.frames[-1][I.res] = args[0]
                return [st]
            g = s.mod.funcs.get(nme)
            if g is not None:
                r = s.call(g, args, st, depth + 1)
                out = []
                for t, rv in r:
                    if I.res: t.frames[-1][I.res] = rv
                    out.append(t)
                return out
            raise Broken('call to %s in list code at %s' % (nme, loc(f, I)))
        fn = s.norm(s.ev(st, ('r', nme)))
        return s.spec.icall(s, st, f, I, fn, args)

class Spec:
    """what a client supplies"""
    name = ''; params = (); heads = (); tails = ()
    def unfolded(s, E, st, n, seg, side): pass
    def may_drop(s, E, st, x): return False
    def at_head(s, E, st, f, b): pass
    def nomatch(s, E, st, n): return st.nodes[n].init.get('__nm', False)
    def distinct(s, v): return False
    def field(s, E, st, n, o, ty):
        if ty.k == 'int': return S(E.fresh('f'))
        return ('o', E.fresh('f'))
    def paramfield(s, E, st, n, o, ty): return S(E.fresh('q')) if ty.k == 'int' else ('o', E.fresh('q'))
    def paramstore(s, E, st, n, o, v): pass
    def gaccess(s, E, st, p, I): pass
    def gvalue(s, E, st, c, I): return None
    def icall(s, E, st, f, I, fn, args): raise Broken('indirect call at %s' % loc(f, I))
