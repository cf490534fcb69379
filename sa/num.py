"""Numeric abstract interpreter over LLVM IR: intervals plus difference bounds on hash-consed linear terms, a typed
memory of symbolic cells, inferred program-wide invariants for structure fields and globals, call inlining.

Every value of an i<w> register is represented by an integer term that is congruent to it modulo 2^w; conversions that
depend on the representative (zext, sext, division, comparison) first bring the term into the right window, or give up
and use a fresh bounded term.  Used to decide array-bounds obligations.  Nothing is executed and no solver is used."""
import re
import ir, build
from common import loc, succ
from result import Result, Broken

INF = float('inf')

class Atom:
    __slots__ = ('k', 'a', 'n', 'syms', 'depth')
    tab = {}; cnt = 0
    def __repr__(s):
        if s.k == 'y': return '%s.%s' % (s.a[2], s.a[3]) if len(s.a) > 3 else str(s.a)
        return '%s(%s)' % (s.k, ', '.join(map(str, s.a)))
def atom(k, *a):
    x = Atom.tab.get((k, a))
    if x is None:
        x = Atom(); x.k = k; x.a = a; Atom.cnt += 1; x.n = Atom.cnt
        x.depth = 0
        if k == 'y': x.syms = frozenset((x,))
        else:
            sy = frozenset()
            for y in a:
                if isinstance(y, (Lin, Atom)): sy |= y.syms; x.depth = max(x.depth, y.depth + 1)
            x.syms = sy
        Atom.tab[(k, a)] = x
    return x

class Lin:
    __slots__ = ('c', 't', 'syms', 'depth')
    tab = {}
    def __repr__(s):
        r = ['%s%r' % ('' if k == 1 else '%d*' % k, a) for a, k in s.t]
        if s.c or not r: r.append(str(s.c))
        return '+'.join(r)
    @property
    def const(s): return not s.t
def lin(c, t=()):
    x = Lin.tab.get((c, t))
    if x is None:
        x = Lin(); x.c = c; x.t = t; x.syms = frozenset(); x.depth = 0
        for a, k in t: x.syms |= a.syms; x.depth = max(x.depth, a.depth)
        Lin.tab[(c, t)] = x
    return x
ZERO = lin(0)
def K(c): return lin(c)
def A(a): return lin(0, ((a, 1),))
def add(x, y, k=1):
    if not y.t: return lin(x.c + k * y.c, x.t)
    if not x.t and k == 1: return lin(x.c + y.c, y.t)
    d = dict(x.t)
    for a, q in y.t:
        v = d.get(a, 0) + k * q
        if v: d[a] = v
        else: d.pop(a, None)
    return lin(x.c + k * y.c, tuple(sorted(d.items(), key=lambda p: p[0].n)))
def scale(x, k):
    if k == 0: return ZERO
    return lin(x.c * k, tuple((a, q * k) for a, q in x.t))

class Ptr:
    """pointer: base object, byte offset, the array it points into (lo, hi byte offsets) if known, alias class"""
    __slots__ = ('base', 'off', 'lim', 'cls', 'nm')
    def __init__(s, base, off, lim=None, cls=None, nm=''): s.base = base; s.off = off; s.lim = lim; s.cls = cls; s.nm = nm
    def key(s): return (s.base, s.off, s.lim, s.cls)
    def __eq__(s, o): return isinstance(o, Ptr) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def __repr__(s): return 'P(%s+%r %s %s)' % (s.base, s.off, s.lim, s.nm)
NULL = ('null',)

def syms_of(v):
    if isinstance(v, Lin): return v.syms
    if isinstance(v, Ptr):
        r = v.off.syms
        if v.base[0] in ('s', 'm'): r = r | {v.base[1]}
        if v.base[0] == 'm':
            for q, o in v.base[2]:
                if q[0] == 's': r = r | {q[1]}
        if v.lim: r = r | v.lim[0].syms | v.lim[1].syms
        return r
    return frozenset()

class Infeasible(Exception): pass

class State:
    __slots__ = ('regs', 'mem', 'facts', 'rels', 'links', 'rev', 'dirty')
    def __init__(s): s.regs = {}; s.mem = {}; s.facts = {}; s.rels = {}; s.links = {}; s.rev = None; s.dirty = {}
    def copy(s):
        t = State(); t.regs = dict(s.regs); t.mem = {c: dict(d) for c, d in s.mem.items()}; t.facts = dict(s.facts)
        t.rels = {x: dict(d) for x, d in s.rels.items()}; t.links = dict(s.links); t.rev = s.rev; t.dirty = dict(s.dirty)
        return t
    # ------------------------------------------------------------------ intervals
    def aiv(s, a, deep=True):
        lo, hi = s.facts.get(a, (-INF, INF))
        k = a.k
        if k != 'y':
            l2, h2 = s.struct_iv(a)
            if l2 > lo: lo = l2
            if h2 < hi: hi = h2
        if deep:
            d = s.rels.get(a)
            if d:
                for y, c in d.items():
                    h = s.aiv(y, False)[1] + c
                    if h < hi: hi = h
            rev = s.rev
            if rev is None:
                rev = s.rev = {}
                for x, d in s.rels.items():
                    for y in d: rev.setdefault(y, []).append(x)
            for x in rev.get(a, ()):
                l = s.aiv(x, False)[0] - s.rels[x][a]
                if l > lo: lo = l
        return lo, hi
    def struct_iv(s, a):
        k = a.k; p = a.a
        if k == 'u': return 0, (1 << p[1]) - 1
        if k == 's': return -(1 << (p[1] - 1)), (1 << (p[1] - 1)) - 1
        if k == '&':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            return 0, min(h if l >= 0 else INF, h2 if l2 >= 0 else INF)
        if k in ('|', '^'):
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l < 0 or l2 < 0 or h == INF or h2 == INF: return (-INF, INF)
            m = (1 << max(int(h).bit_length(), int(h2).bit_length())) - 1
            return (max(l, l2) if k == '|' else 0), m
        if k == '>>':
            l, h = s.iv(p[0]); return (l if l == -INF else int(l) >> p[1]), (h if h == INF else int(h) >> p[1])
        if k == '/':
            l, h = s.iv(p[0]); d = p[1]
            if l >= 0: return int(l) // d, (h if h == INF else int(h) // d)
            m = max(-l, h); return (-m if m == INF else -(int(m) // d)), (m if m == INF else int(m) // d)
        if k == '%':
            l, h = s.iv(p[0]); d = p[1]
            if l >= 0: return 0, min(h, d - 1)
            return -(d - 1), d - 1
        if k == '/v':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l >= 0 and l2 >= 1: return 0, (h if h == INF else int(h) // int(l2))
            return -INF, INF
        if k == '%v':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l >= 0 and l2 >= 1: return 0, min(h, h2 - 1)
            return -INF, INF
        if k == '*':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l >= 0 and l2 >= 0: return l * l2 if INF not in (l, l2) else INF, (0 if h == 0 or h2 == 0 else h * h2)
            return -INF, INF
        if k == '<<':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l >= 0 and 0 <= l2 and h2 <= 64: return 0, (INF if h == INF else int(h) << int(h2))
            return -INF, INF
        if k == '>>v':
            l, h = s.iv(p[0]); l2, h2 = s.iv(p[1])
            if l >= 0 and l2 >= 0: return 0, (h if h == INF or l2 > 200 else int(h) >> int(l2))
            return -INF, INF
        if k in ('le', 'eq', 'peq'): return 0, 1
        if k == 'ctype': return 0, 65535
        return -INF, INF
    def iv(s, L):
        if not L.t: return L.c, L.c
        lo = hi = L.c
        for a, k in L.t:
            l, h = s.aiv(a)
            if k > 0: lo += k * l; hi += k * h
            else: lo += k * h; hi += k * l
        if len(L.t) > 1 and s.rels:
            h = s.relub(L)
            if h < hi: hi = h
            l = -s.relub(scale(L, -1))
            if l > lo: lo = l
        return lo, hi
    def relub(s, L):
        """upper bound of L using one difference constraint per pair of atoms"""
        t = list(L.t); best = INF
        # greedy: match each positive atom with a negative one of the same coefficient
        pos = [(a, k) for a, k in t if k > 0]; neg = [(a, -k) for a, k in t if k < 0]
        used = set(); tot = L.c
        for a, k in pos:
            d = s.rels.get(a); got = None
            if d:
                for b, kb in neg:
                    if b in d and kb == k and b not in used:
                        if got is None or d[b] < got[1]: got = (b, d[b])
            if got is not None:
                alone = s.aiv(a)[1] - s.aiv(got[0])[0]
                if got[1] <= alone: used.add(got[0]); tot += k * got[1]; continue
            tot += k * s.aiv(a)[1]
        for b, kb in neg:
            if b not in used: tot -= kb * s.aiv(b)[0]
        return tot
    # ------------------------------------------------------------------ assumptions
    def tight(s, a, lo, hi):
        l, h = s.aiv(a)
        nl = max(l, lo); nh = min(h, hi)
        if nl > nh: raise Infeasible()
        if nl == l and nh == h: return
        s.facts[a] = (nl, nh)
        k = a.k; p = a.a
        if k == 'y' and a in s.links: s.unlike(a)
        if k == 'u':
            l2, h2 = s.iv(p[0]); m = 1 << p[1]
            if nh < m and l2 > nh - m and h2 < m: s.le(lin(-nh, ()) if False else add(p[0], K(nh), -1)); s.le(add(K(nl), p[0], -1))
        elif k == 's':
            l2, h2 = s.iv(p[0]); m = 1 << p[1]
            if l2 >= 0 and h2 < m and nl >= 0: s.le(add(p[0], K(nh), -1)); s.le(add(K(nl), p[0], -1))
        elif k == '>>':
            if nh != INF: s.le(add(p[0], K((int(nh) << p[1]) + (1 << p[1]) - 1), -1))
            if nl != -INF: s.le(add(K(int(nl) << p[1]), p[0], -1))
        elif k == '/':
            if nh != INF and nh >= 0: s.le(add(p[0], K(int(nh) * p[1] + p[1] - 1), -1))
            if nl != -INF and nl > 0: s.le(add(K(int(nl) * p[1]), p[0], -1))
        elif k == '&':
            if nl > 0:
                for q, m in (p, p[::-1]):
                    if m.const and len(q.t) == 1 and q.t[0][0].k == 'ctype':
                        r = [v for b, v in CTYPE.items() if m.c & b]
                        if r:
                            c = q.t[0][0].a[0]
                            s.le(add(K(min(v[0] for v in r)), c, -1)); s.le(add(c, K(max(v[1] for v in r)), -1))
                for q in p:
                    if s.iv(q)[0] >= 0: s.le(add(K(nl), q, -1))
            if nh == 0 and p[1].const:
                m = p[1].c; lowz = m & -m
                # all bits from lowz up to the top of the value: the value is below lowz
                l2, h2 = s.iv(p[0])
                if m and l2 >= 0 and h2 != INF and int(h2) | (lowz - 1) <= m | (lowz - 1): s.le(add(p[0], K(lowz - 1), -1))
        elif k == 'peq':
            if nh == 0 and len(p) == 2 and "('null', '')" in p[0] and p[1] in s.links: s.unlike(p[1], True)
        elif k == 'le':
            if nl == 1: s.le(p[0])
            if nh == 0: s.le(add(K(1), p[0], -1))
        elif k == 'eq':
            if nl == 1: s.le(p[0]); s.le(scale(p[0], -1))
            if nh == 0: s.ne0(p[0])
    def unlike(s, a, null=False):
        """the loaded value a cannot be what another cell of the same object holds: their offsets differ"""
        c = s.links[a]; d = s.mem.get(c)
        if not d: return
        lo, hi = s.aiv(a) if not null else (1, 1)
        me = [k for k, v in d.items() if isinstance(v, Lin) and v.t == ((a, 1),) and v.c == 0 or isinstance(v, Ptr) and v.base == ('s', a)]
        for k in me:
            for k2, v2 in list(d.items()):
                if k2[0] == k[0] and k2[2] == k[2] and k2[1] is not k[1]:
                    if isinstance(v2, Lin) and v2.const and not null and not lo <= v2.c <= hi or null and v2 == NULL: s.ne0(add(k[1], k2[1], -1))
    def le(s, L, depth=0):
        """assume L <= 0"""
        if not L.t:
            if L.c > 0: raise Infeasible()
            return
        lo, hi = s.iv(L)
        if hi <= 0: return
        if lo > 0: raise Infeasible()
        ivs = [(a, k, s.aiv(a)) for a, k in L.t]
        los = [k * (v[0] if k > 0 else v[1]) for a, k, v in ivs]
        for i, (a, k, v) in enumerate(ivs):
            rest = L.c
            for j, x in enumerate(los):
                if j != i: rest += x
            if rest in (INF, -INF) or rest != rest: continue
            if k > 0:
                b = -rest // k
                if b < v[1]: s.tight(a, -INF, b)
            else:
                b = -((-rest) // (-k)) if False else -(-rest // -k) if False else (rest + (-k) - 1) // (-k)
                if b > v[0]: s.tight(a, b, INF)
        if len(L.t) == 2:
            (a, k), (b, q) = L.t
            if k == -q:
                m = abs(k); c = (-L.c) // m
                if k > 0: s.rel(a, b, c)
                else: s.rel(b, a, c)
    def rel(s, x, y, c, close=True):
        d = s.rels.setdefault(x, {})
        if d.get(y, INF) <= c: return
        d[y] = c; s.rev = None
        if s.rels.get(y, {}).get(x, INF) + c < 0: raise Infeasible()
        if close:
            for z, c2 in list(s.rels.get(y, {}).items()):
                if z is not x: s.rel(x, z, c + c2, False)
            for w, dw in list(s.rels.items()):
                if w is not y and x in dw: s.rel(w, y, dw[x] + c, False)
    def unrel(s, a):
        if not s.rels: return
        s.rels.pop(a, None); s.rev = None
        for d in s.rels.values(): d.pop(a, None)
    def ne0(s, L):
        lo, hi = s.iv(L)
        if lo == hi == 0: raise Infeasible()
        if lo == 0: s.le(add(K(1), L, -1))
        elif hi == 0: s.le(add(L, K(1)))
        elif len(L.t) == 1:
            a, k = L.t[0]
            if L.c % k == 0:
                v = -L.c // k; l, h = s.aiv(a)
                if l == v: s.tight(a, v + 1, INF)
                elif h == v: s.tight(a, -INF, v - 1)
                elif a.k == 's' and v >= 0:
                    # a sign-extended value differs from v exactly when the value itself does
                    l, h = s.iv(a.a[0])
                    if l >= 0 and h < 1 << a.a[1]: s.ne0(add(a.a[0], K(-v)))
        elif len(L.t) == 2:
            (a, k), (b, q) = L.t
            if k == -q and L.c % k == 0:
                # a - b != c: sharpen an existing difference bound that touches it
                if k < 0: a, b, k = b, a, -k
                c = -L.c // k if L.t[0][1] > 0 else -L.c // k
                if s.rels.get(a, {}).get(b, INF) == c: s.rel(a, b, c - 1)
                elif s.rels.get(b, {}).get(a, INF) == -c: s.rel(b, a, -c - 1)
    def assume(s, L, truth):
        """assume the boolean term L is truth (0/1)"""
        if not L.t:
            if bool(L.c) != truth: raise Infeasible()
            return
        if len(L.t) == 1:
            a, k = L.t[0]
            if a.k in ('le', 'eq', 'peq') or s.aiv(a)[0] >= 0 and s.aiv(a)[1] <= 1:
                # value k*a + c, a in {0,1}
                ok = [v for v in (0, 1) if bool(k * v + L.c) == truth]
                if not ok: raise Infeasible()
                if len(ok) == 1: s.tight(a, ok[0], ok[0])
                return
        if truth: s.ne0(L)
        else: s.le(L); s.le(scale(L, -1))

CTYPE = {2048: (48, 57), 1024: (65, 122), 8: (48, 122), 4096: (48, 102), 8192: (9, 32), 256: (65, 90), 512: (97, 122), 4: (33, 126), 32768: (33, 126), 16384: (32, 126)}
def hull(a, b): return min(a[0], b[0]), max(a[1], b[1])

class AP:
    """abstract pointer stored in a field: may be null, known globals it may point to, least size of what it points to"""
    __slots__ = ('null', 'tg', 'size')
    def __init__(s, null=False, tg=frozenset(), size=INF): s.null = null; s.tg = tg; s.size = size
    def key(s): return (s.null, s.tg, s.size)
    def __eq__(s, o): return isinstance(o, AP) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def join(s, o):
        tg = s.tg if s.tg == o.tg else None if s.tg is None or o.tg is None else s.tg | o.tg
        if tg is not None and len(tg) > 4: tg = None
        return AP(s.null or o.null, tg, min(s.size, o.size))
    def __repr__(s): return 'AP(%s,%s,%s)' % (s.null, s.tg and sorted(s.tg), s.size)
TOPP = AP(True, None, 0)

def rng(w, signed=False): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)

PURE = {'strlen': (0, 1 << 40), 'fgetc': (-1, 255), 'getc': (-1, 255), 'toupper': None, 'tolower': None, 'strcmp': None, 'strcasecmp': None, 'strncmp': None,
        'memcmp': None, 'fprintf': None, 'printf': None, 'puts': None, 'fputs': None, 'fputc': (-1, 255), 'putc': (-1, 255), 'fflush': None, 'fclose': None, 'fopen': None,
        'free': None, 'exit': None, 'abort': None, 'rand': None, 'fseek': None, 'ftell': None, 'rewind': None, 'feof': (0, 1), 'ferror': None, 'fwrite': None,
        'close': None, 'open': None, 'lseek': None, 'write': None, 'send': None, 'usleep': None, 'perror': None, 'strerror': None, 'atoi': None, 'getenv': None,
        'strchr': None, 'strrchr': None, 'pthread_mutex_lock': None, 'pthread_mutex_unlock': None, 'ftruncate': None, '__ctype_b_loc': None, '__ctype_toupper_loc': None, '__ctype_tolower_loc': None,
        'fileno': None, 'access': None, 'unlink': None, 'remove': None, 'isatty': None, 'time': None, 'fputc_unlocked': None, 'vfprintf': None, 'vprintf': None, 'llvm.va_start': None, 'llvm.va_end': None, 'putchar': None}
# destination argument, byte count as product of arguments
WRITES = {'memset': (0, (2,)), 'memcpy': (0, (2,)), 'memmove': (0, (2,)), 'fread': (0, (1, 2)), 'fgets': (0, (1,)), 'read': (1, (2,)), 'recv': (1, (2,)), 'snprintf': (0, (1,)),
          'strncpy': (0, (2,)), 'llvm.memset.p0.i64': (0, (2,)), 'llvm.memcpy.p0.p0.i64': (0, (2,)), 'llvm.memmove.p0.p0.i64': (0, (2,)), 'bzero': (0, (1,)), 'strftime': (0, (1,)), 'vsnprintf': (0, (1,))}
READS = {'memcpy': (1, (2,)), 'memmove': (1, (2,)), 'llvm.memcpy.p0.p0.i64': (1, (2,)), 'llvm.memmove.p0.p0.i64': (1, (2,)), 'fwrite': (0, (1, 2)), 'write': (1, (2,)), 'send': (1, (2,)), 'memcmp': (0, (2,))}
ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,)}
INLINE_MAX = 900

class Program:
    """all modules: types, call graph, stores per class"""
    def __init__(s, mods):
        s.mods = mods; s.fn = {}; s.statics = {}
        for rel, m in mods.items():
            for f in m.funcs.values():
                f.rel = rel
                if f.internal: s.statics[(rel, f.name)] = f
                else: s.fn[f.name] = f
        s.glob = {}
        for rel, m in mods.items():
            for g in m.globals.values():
                g.rel = rel
                if not g.decl and not g.internal: s.glob[g.name] = g
        s.taken = set(); s.callers = {}; s.calls = {}
        for rel, m in mods.items():
            for g in m.globals.values():
                if not g.decl and g.init is not None: s.scan(m, g.init)
            for f in m.funcs.values():
                cs = s.calls.setdefault(f, [])
                for b in f.order:
                    for I in f.blocks[b]:
                        if I.op == 'call':
                            t = s.target(f, I.extra)
                            if t is not None: s.callers.setdefault(t, []).append(I); cs.append(t)
                            ops = [v for _, v in I.a]
                        elif I.op == 'phi': ops = [v for v, _ in I.extra]
                        else: ops = I.a
                        for v in ops:
                            if isinstance(v, tuple) and v and v[0] == 'g':
                                t = s.target(f, v)
                                if t is not None: s.taken.add(t)
        s.cost = {}
        # functions only ever handed to the event queue (or on the way there): called with the value they were queued with
        q = {t for t in s.taken if t.internal and t.order}
        for rel, m in mods.items():
            for g in m.globals.values():
                if not g.decl and g.init is not None: q -= s.named(m, g.init)
            for f in m.funcs.values():
                for b in f.order:
                    for I in f.blocks[b]:
                        vs = [v for v, _ in I.extra] if I.op == 'phi' else [] if I.op in ('call', 'icmp') else I.a
                        if I.op == 'call':
                            c = s.target(f, I.extra)
                            if c is None or not (c.name in ('add_event', 'cancel_event') or c.internal): vs = [v for _, v in I.a]
                        for v in vs:
                            if isinstance(v, tuple) and v and v[0] == 'g': q.discard(s.target(f, v))
        s.queued = q
    def named(s, m, v):
        if v is None: return set()
        if v[0] == 'g': t = m.funcs.get(v[1]) or s.fn.get(v[1]); return {t} if t is not None else set()
        if v[0] == 'agg': return set().union(*[s.named(m, x) for t, x in v[1]])
        if v[0] == 'cast': return s.named(m, v[3])
        return set()
    def scan(s, m, v):
        if v is None: return
        if v[0] == 'g':
            t = m.funcs.get(v[1]) or s.fn.get(v[1])
            if t is not None: s.taken.add(t)
        elif v[0] == 'agg':
            for t, x in v[1]: s.scan(m, x)
        elif v[0] == 'cast': s.scan(m, v[3])
    def target(s, f, v):
        if v[0] != 'g': return None
        return f.mod.funcs.get(v[1]) or s.fn.get(v[1])
    def global_(s, f, name):
        g = f.mod.globals.get(name)
        if g is not None and not g.decl: return g
        return s.glob.get(name) or g
    def gid(s, g):
        return ('g', g.name if not g.internal else g.rel + ':' + g.name)
    def size(s, f, path=()):
        """inlined size, INF when recursive"""
        if f in path: return INF
        if f in s.cost: return s.cost[f]
        n = sum(len(f.blocks[b]) for b in f.order)
        for t in s.calls[f]:
            z = s.size(t, path + (f,))
            n += z if z <= INLINE_MAX else 1
            if z == INF and f in s.reach(t): n = INF
        s.cost[f] = n; return n
    def reach(s, f):
        r = set(); w = [f]
        while w:
            x = w.pop()
            for y in s.calls[x]:
                if y not in r: r.add(y); w.append(y)
        return r

class FInfo:
    """per-function CFG facts"""
    def __init__(s, f):
        s.f = f; o = f.order
        s.succ = {b: list(dict.fromkeys(succ(f, b))) for b in o}
        seen = set(); post = []
        stack = [(o[0], iter(s.succ[o[0]]))]; seen.add(o[0])
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen: seen.add(x); stack.append((x, iter(s.succ[x]))); break
            else: post.append(b); stack.pop()
        s.rpo = post[::-1]; s.num = {b: i for i, b in enumerate(s.rpo)}
        s.pred = {b: [] for b in s.rpo}
        for b in s.rpo:
            for x in s.succ[b]: s.pred[x].append(b)
        # natural loops by retreating edges
        s.body = {}
        for b in s.rpo:
            for x in s.succ[b]:
                if s.num[x] <= s.num[b]:
                    body = s.body.setdefault(x, {x}); w = [b]
                    while w:
                        y = w.pop()
                        if y in body: continue
                        body.add(y); w += s.pred[y]
        # weak topological order: a loop's blocks are contiguous, before what follows the loop
        s.wto = {}; cnt = [0]
        def order(nodes):
            idx = {}; low = {}; st = []; on = set(); out = []
            for r0 in sorted(nodes, key=lambda x: s.num[x]):
                if r0 in idx: continue
                call = [(r0, iter(s.succ[r0]))]; idx[r0] = low[r0] = len(idx); st.append(r0); on.add(r0)
                while call:
                    b, it = call[-1]
                    for x in it:
                        if x not in nodes: continue
                        if x not in idx:
                            idx[x] = low[x] = len(idx); st.append(x); on.add(x); call.append((x, iter(s.succ[x]))); break
                        elif x in on: low[b] = min(low[b], idx[x])
                    else:
                        call.pop()
                        if call: low[call[-1][0]] = min(low[call[-1][0]], low[b])
                        if low[b] == idx[b]:
                            c = []
                            while True:
                                y = st.pop(); on.discard(y); c.append(y)
                                if y == b: break
                            out.append(c)
            for c in reversed(out):
                if len(c) == 1: s.wto[c[0]] = len(s.wto); continue
                h = min(c, key=lambda x: s.num[x]); s.wto[h] = len(s.wto)
                order(set(c) - {h})
        order(set(s.rpo))
        s.rpo = sorted(s.rpo, key=lambda x: s.wto[x])
        # liveness
        use = {}; dfn = {}; pu = {}
        for b in s.rpo:
            u = set(); d = set()
            for I in f.blocks[b]:
                if I.op == 'phi':
                    for v, p in I.extra:
                        if v[0] == 'r': pu.setdefault((p, b), set()).add(v[1])
                else:
                    for v in ops(I):
                        if v[0] == 'r' and v[1] not in d: u.add(v[1])
                if I.res: d.add(I.res)
            use[b] = u; dfn[b] = d
        s.live = {b: set(use[b]) for b in s.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(s.rpo):
                o = set()
                for x in s.succ[b]: o |= s.live[x] - {I.res for I in f.blocks[x] if I.op == 'phi'}; o |= pu.get((b, x), set())
                n = use[b] | (o - dfn[b])
                if n != s.live[b]: s.live[b] = n; ch = True
        s.split = set()
        for b in s.rpo:
            ph = {I.res for I in f.blocks[b] if I.op == 'phi' and I.ty.k == 'int' and I.ty.w == 1}
            if ph and len(f.blocks[b]) <= 12 and b not in s.body: s.split.add(b)
        s.th = set()
        for b in s.rpo:
            for I in f.blocks[b]:
                if I.op == 'icmp':
                    for v in I.a:
                        if v[0] == 'c':
                            w = I.extra[1].w if I.extra[1].k == 'int' else 64
                            c = v[1] - (1 << w) if v[1] >= 1 << (w - 1) else v[1]
                            s.th |= {c - 1, c, c + 1}

def ops(I):
    if I.op == 'call': return [v for _, v in I.a] + ([I.extra] if I.extra[0] == 'r' else [])
    if I.op == 'getelementptr': return I.a + [v for _, v in I.extra[1]]
    return [v for v in I.a if isinstance(v, tuple)]

class Obl:
    __slots__ = ('fn', 'line', 'nm', 'ok', 'why', 'kind', 'I', 'cls')

class Engine:
    def __init__(s, prog, scope=None):
        s.p = prog; s.info = {}; s.IF = {}; s.newIF = None; s.obl = {}; s.record = False
        s.steps = 0; s.known = set(); s.escaped = set(); s.unsized = set(); s.depth = 0; s.round = 0; s.structs = {}; s.mods_of = {}; s.reads_of = {}; s.ro = {}; s.roth = set()
    def fi(s, f):
        x = s.info.get(f)
        if x is None: x = s.info[f] = FInfo(f)
        return x
    # ------------------------------------------------------------------ classes
    def tname(s, T, rel):
        n = T.name or '?'
        if 'anon' in n or n == '?': return rel + ':' + n
        return re.sub(r'\.\d+$', '', n)
    def innermost(s, T, off, rel, cls):
        """class and type of the scalar/array at byte offset off of a T"""
        while True:
            if T.k == 'struct' and T.fields:
                o = T.offsets(); i = max(j for j in range(len(o)) if o[j] <= off)
                cls = (s.tname(T, rel), o[i]); s.structs.setdefault(cls, T.fields[i]); T = T.fields[i]; off -= o[i]
            elif T.k == 'arr':
                z = T.el.size() or 1
                if T.el.k in ('struct', 'arr'): off %= z; T = T.el
                else: return cls, T.el
            else: return cls, T
    def elty(s, cls):
        t = s.structs.get(cls)
        while t is not None and t.k == 'arr': t = t.el
        return t
    # ------------------------------------------------------------------ values
    def gptr(s, f, name):
        g = s.p.global_(f, name)
        if g is None:
            return Ptr(('g', name), ZERO, None, ('g', name), name)
        i = s.p.gid(g); cls = i
        s.structs.setdefault(cls, g.ty)
        if g.ty.k == 'struct': cls = None
        return Ptr(i, ZERO, (ZERO, K(g.ty.size())) if g.ty.k == 'arr' and g.ty.n else None, cls, i[1])
    def sym(s, st, I, ctx, tag, lo=-INF, hi=INF):
        a = atom('y', ctx, I.fn.name, I.blk, tag)
        st.facts[a] = (lo, hi)
        if (lo, hi) == (-INF, INF): st.facts.pop(a, None)
        st.unrel(a)
        st.links.pop(a, None)
        return a
    def top(s, st, I, ctx, ty, tag=None):
        tag = tag or I.res or 'v%d' % I.idx
        if ty.k == 'int': return A(s.sym(st, I, ctx, tag, *rng(ty.w)))
        if ty.k == 'ptr': return Ptr(('s', s.sym(st, I, ctx, tag)), ZERO)
        return A(s.sym(st, I, ctx, tag))
    def val(s, st, f, v, ty=None, I=None, ctx=()):
        k = v[0]
        if k == 'r':
            x = st.regs.get(v[1])
            if x is None:
                x = s.top(st, I, ctx, ty or ir.INT(64), 'u:' + v[1]); st.regs[v[1]] = x
            return x
        if k == 'c':
            w = ty.w if ty is not None and ty.k == 'int' else 64
            c = v[1]
            if w > 8 and c >= 1 << (w - 1): c -= 1 << w
            return K(c)
        if k == 'null': return NULL
        if k == 'zero': return ZERO if ty is None or ty.k == 'int' else NULL
        if k == 'g':
            t = s.p.target(f, v)
            if t is not None: return ('fn', t)
            return s.gptr(f, v[1])
        if k == 'gep':
            b = s.val(st, f, v[2][0][1], ir.PTR, I, ctx)
            return s.gep(st, f, I, ctx, b, v[1], v[2][1:])
        if k == 'cast':
            return s.val(st, f, v[3], v[2], I, ctx)
        return s.top(st, I, ctx, ty or ir.INT(64), 'w%d' % I.idx)
    def uns(s, st, L, w):
        lo, hi = st.iv(L); m = 1 << w
        if lo >= 0 and hi < m: return L
        if L.const: return K(L.c % m)
        if hi < 0 and lo >= -m: return add(L, K(m))
        if lo >= m and hi < 2 * m: return add(L, K(-m))
        return A(atom('u', L, w)) if L.depth < 6 else A(atom('u', s.cut(st, L), w))
    def sgn(s, st, L, w):
        lo, hi = st.iv(L); h = 1 << (w - 1)
        if lo >= -h and hi < h: return L
        if L.const: return K((L.c + h) % (2 * h) - h)
        if lo >= h and hi < 3 * h: return add(L, K(-2 * h))
        return A(atom('s', L, w)) if L.depth < 6 else A(atom('s', s.cut(st, L), w))
    def cut(s, st, L):
        """replace a deep term by a fresh bounded one"""
        lo, hi = st.iv(L)
        a = atom('y', s.cur[1], s.cur[0].fn.name, s.cur[0].blk, 'cut%d.%d' % (s.cur[0].idx, s.cutn)); s.cutn += 1
        st.facts[a] = (lo, hi)
        st.unrel(a)
        return A(a)
    def mk(s, st, k, *a):
        if any(isinstance(x, Lin) and x.depth > 6 for x in a): a = tuple(s.cut(st, x) if isinstance(x, Lin) and x.depth > 6 else x for x in a)
        return A(atom(k, *a))
    def binop(s, st, I, ctx, op, x, y, w):
        if not isinstance(x, Lin) or not isinstance(y, Lin): return s.top(st, I, ctx, ir.INT(w))
        if op == 'add': return add(x, y)
        if op == 'sub': return add(x, y, -1)
        if op == 'mul':
            if y.const: return scale(x, y.c)
            if x.const: return scale(y, x.c)
            return s.mk(st, '*', x, y)
        if op == 'shl':
            if y.const and 0 <= y.c < 64: return scale(x, 1 << y.c)
            return s.mk(st, '<<', s.uns(st, x, w), s.uns(st, y, w))
        if op in ('lshr', 'ashr'):
            x = (s.uns if op == 'lshr' else s.sgn)(st, x, w)
            if y.const:
                k = y.c
                if k < 0 or k > 64: return s.top(st, I, ctx, ir.INT(w))
                if x.const: return K(x.c >> k)
                if all(q % (1 << k) == 0 for _, q in x.t): return lin(x.c >> k, tuple((a, q >> k) for a, q in x.t))
                return s.mk(st, '>>', x, k)
            return s.mk(st, '>>v', x, s.uns(st, y, w))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            c = s.uns if op[0] == 'u' else s.sgn
            x = c(st, x, w); y = c(st, y, w)
            if y.const and y.c > 0:
                if x.const:
                    q = abs(x.c) // y.c * (1 if x.c >= 0 else -1)
                    return K(q) if op.endswith('div') else K(x.c - q * y.c)
                if op.endswith('rem') and st.iv(x)[0] >= 0 and st.iv(x)[1] < y.c: return x
                if op.endswith('div') and x.c % y.c == 0 and all(q % y.c == 0 for _, q in x.t): return lin(x.c // y.c, tuple((a, q // y.c) for a, q in x.t))
                if y.c & (y.c - 1) == 0 and st.iv(x)[0] >= 0:          # the same as a mask or a shift
                    return s.mk(st, '>>', x, y.c.bit_length() - 1) if op.endswith('div') else s.mk(st, '&', x, K(y.c - 1))
                return s.mk(st, '/' if op.endswith('div') else '%', x, y.c)
            return s.mk(st, '/v' if op.endswith('div') else '%v', x, y)
        if op in ('and', 'or', 'xor'):
            if w == 1:
                if op == 'xor' and y.const and y.c & 1: return add(K(1), x, -1)
                for a, b in ((x, y), (y, x)):
                    if a.const:
                        if op == 'and': return b if a.c & 1 else ZERO
                        if op == 'or': return K(1) if a.c & 1 else b
                return s.mk(st, {'and': '&', 'or': '|', 'xor': '^'}[op], x, y)
            x = s.uns(st, x, w); y = s.uns(st, y, w)
            if x.const and y.const: return K({'and': x.c & y.c, 'or': x.c | y.c, 'xor': x.c ^ y.c}[op])
            if x.const: x, y = y, x
            lo, hi = st.iv(x)
            if y.const:
                m = y.c
                if op == 'and':
                    if m == 0: return ZERO
                    if m & (m + 1) == 0 and lo >= 0 and hi <= m: return x
                    if m & (m + 1) == 0 and hi != INF and s.span(x, m + 1): return lin(x.c % (m + 1)) if x.const else s.mk(st, '&', x, y)
                if op in ('or', 'xor') and m == 0: return x
            if op == 'or':
                # disjoint bits: an or is a sum
                for a, b in ((x, y), (y, x)):
                    g = s.align(a); h = st.iv(b)
                    if g and h[0] >= 0 and h[1] < g and st.iv(a)[0] >= 0: return add(a, b)
            if (x.c, x.t) > (y.c, ()) and not y.const and repr(x) > repr(y): x, y = y, x
            return s.mk(st, {'and': '&', 'or': '|', 'xor': '^'}[op], x, y)
        return s.top(st, I, ctx, ir.INT(w))
    def span(s, x, m): return False
    def align(s, x):
        """largest power of two dividing x"""
        g = 0
        for _, q in x.t: g |= q & -q if not g else 0; g = min(g, q & -q)
        if x.c: g = min(g, x.c & -x.c) if g else x.c & -x.c
        for a, q in x.t:
            if q == 1 and len(x.t) == 1 and a.k == '&' and a.a[1].const: return a.a[1].c & -a.a[1].c
        return g if g > 1 else 0
    def cmp(s, st, I, ctx, pred, x, y, w):
        if isinstance(x, Lin) and isinstance(y, Lin):
            if pred in ('eq', 'ne'):
                a, b = st.iv(x), st.iv(y)
                m = 1 << w
                lo, hi = min(a[0], b[0]), max(a[1], b[1])
                if hi - lo < m: pass       # one window: congruent means equal
                else:
                    x2, y2 = s.uns(st, x, w), s.uns(st, y, w)
                    x, y = x2, y2
                d = add(x, y, -1)
                lo, hi = st.iv(d)
                if lo > 0 or hi < 0: r = ZERO
                elif lo == hi == 0: r = K(1)
                else:
                    if d.t and d.t[0][1] < 0: d = scale(d, -1)
                    # a boolean compared with a constant is the boolean itself
                    if len(d.t) == 1 and d.t[0][0].k in ('le', 'eq', 'peq') and d.t[0][1] == 1 and d.c in (0, -1):
                        r = A(d.t[0][0]) if d.c == -1 else add(K(1), A(d.t[0][0]), -1)
                    else: r = s.mk(st, 'eq', d)
                return r if pred == 'eq' else add(K(1), r, -1)
            c = s.uns if pred[0] == 'u' else s.sgn
            x = c(st, x, w); y = c(st, y, w)
            p = pred[1:]
            if p in ('gt', 'ge'): x, y = y, x; p = {'gt': 'lt', 'ge': 'le'}[p]
            d = add(x, y, -1)
            if p == 'lt': d = add(d, K(1))
            lo, hi = st.iv(d)
            if hi <= 0: return K(1)
            if lo > 0: return ZERO
            return s.mk(st, 'le', d)
        if pred in ('eq', 'ne') and (isinstance(x, Ptr) or isinstance(y, Ptr) or x == NULL or y == NULL):
            r = None
            if x == y: r = K(1)
            elif isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.base == y.base:
                    d = add(x.off, y.off, -1)
                    lo, hi = st.iv(d)
                    r = K(1) if lo == hi == 0 else ZERO if lo > 0 or hi < 0 else s.mk(st, 'eq', d)
                elif x.base[0] != 's' and y.base[0] != 's': r = ZERO
            else:
                p = x if isinstance(x, Ptr) else y if isinstance(y, Ptr) else None
                if p is not None and (p.base[0] != 's' or not p.off.const or p.off.c): r = ZERO
            if r is None:
                k = sorted(((repr(v.base), repr(v.off)) if isinstance(v, Ptr) else ('null', '') for v in (x, y)))
                sy = tuple(sorted((q for v in (x, y) for q in syms_of(v)), key=lambda q: q.n))
                r = A(atom('peq', str(k), *sy))
            return r if pred == 'eq' else add(K(1), r, -1)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base:
            return s.cmp(st, I, ctx, 's' + pred[1:], x.off, y.off, 64)
        return s.top(st, I, ctx, ir.INT(1))
    # ------------------------------------------------------------------ pointers
    def ob(s, st, I, ptr, n, kind, ctx):
        """obligation: n bytes at ptr lie inside the array it points into"""
        if ptr.lim is None: return
        lo = add(ptr.lim[0], ptr.off, -1); hi = add(add(ptr.off, n), ptr.lim[1], -1)
        ok = True; why = ''
        if st.iv(lo)[1] > 0: ok = False; why = 'may start before the array (offset %s)' % (s.ivs(st, add(ptr.off, ptr.lim[0], -1)))
        elif st.iv(hi)[1] > 0: ok = False; why = 'may reach past the end of the array (%s beyond)' % s.ivs(st, hi)
        s.note(I, ptr.nm, ok, why, kind)
        return ok
    def ivs(s, st, L):
        l, h = st.iv(L); return '%s..%s' % (l, h)
    def note(s, I, nm, ok, why, kind):
        if not s.record: return
        k = (I.fn, I.blk, I.idx, kind, nm)
        o = s.obl.get(k)
        if o is None:
            o = s.obl[k] = Obl(); o.ok = True; o.why = ''
            o.I = I; o.fn = I.fn.name; o.nm = nm; o.kind = kind
        if not ok: o.ok = False; o.why = why
    def gep(s, st, f, I, ctx, b, bt, idx):
        if not isinstance(b, Ptr):
            return Ptr(('s', s.sym(st, I, ctx, 'gp%d' % I.idx)), ZERO)
        off, lim, cls, nm = b.off, b.lim, b.cls, b.nm
        t = bt; first = True
        for ty, v in idx:
            x = s.val(st, f, v, ty, I, ctx)
            if not isinstance(x, Lin): x = s.top(st, I, ctx, ir.INT(64), 'ix%d' % I.idx)
            x = s.sgn(st, x, ty.w)
            if first:
                first = False
                if x.const and x.c == 0: continue
                off = add(off, scale(x, t.size() or 1)); continue
            if t.k == 'struct':
                o = t.offsets()[x.c]
                if lim is not None: s.ob(st, I, Ptr(b.base, off, lim, cls, nm), K(t.size()), 'element', ctx)
                off = add(off, K(o)); cls = (s.tname(t, f.rel), o); s.structs.setdefault(cls, t.fields[x.c]); t = t.fields[x.c]; lim = None
                nm = s.fname(f, cls)
            elif t.k in ('arr', 'vec'):
                n = t.n; z = t.el.size()
                if lim is not None and (len(t.el.fields or ()) or True):
                    # the array itself must lie inside the enclosing array
                    if lim != (off, add(off, K(n * z))): s.ob(st, I, Ptr(b.base, off, lim, cls, nm), K(n * z), 'element', ctx)
                if n: lim = (off, add(off, K(n * z)))
                off = add(off, scale(x, z)); t = t.el
        if t.k == 'struct' and len(idx) == 1: pass
        return Ptr(b.base, off, lim, cls, nm)
    def fname(s, f, cls):
        n = getattr(s, '_fn', None)
        if n is None: n = s._fn = {}
        r = n.get(cls)
        if r is None:
            sn = cls[0].split(':')[-1]; sn = sn.split('.', 1)[1] if '.' in sn else sn
            r = '%s+%d' % cls
            for m in s.p.mods.values():
                d = m.di_struct(sn)
                if d is None: continue
                for o, z, nme, t in m.members(d):
                    if o == cls[1]: r = sn + '.' + nme
                break
            n[cls] = r
        return r
    # ------------------------------------------------------------------ memory
    def resolve(s, f, p, size):
        """alias class of an access through p"""
        if p.cls is None and p.base[0] == 'g' and p.off.const:
            g = next((g for m in s.p.mods.values() for g in m.globals.values() if not g.decl and s.p.gid(g) == p.base), None)
            if g is not None: return s.innermost(g.ty, p.off.c, g.rel, p.base)[0]
        return p.cls
    def may_overlap(s, st, a, b, sa, sb):
        d = add(a, b, -1)      # a - b
        lo, hi = st.iv(d)
        return not (lo >= sb or hi <= -sa)
    def distinct(s, b1, b2, st):
        if b1 == b2: return False
        if b1[0] == 'm' or b2[0] == 'm':
            l1 = b1[2] if b1[0] == 'm' else ((b1, 0),); l2 = b2[2] if b2[0] == 'm' else ((b2, 0),)
            return all(x[0] != y[0] and s.distinct(x[0], y[0], st) for x in l1 for y in l2)
        if b1[0] == 's' and b2[0] == 's': return False
        if b1[0] == 's' or b2[0] == 's':
            q = b2 if b1[0] == 's' else b1
            if q[0] == 'a': return q not in s.esc
            return False
        return True
    def clash(s, st, b1, o1, z1, b2, o2, z2):
        """may z1 bytes at b1+o1 and z2 bytes at b2+o2 overlap"""
        if b1 == b2: return s.may_overlap(st, o1, o2, z1, z2)
        if b2[0] == 'm': b1, o1, z1, b2, o2, z2 = b2, o2, z2, b1, o1, z1
        if b1[0] == 'm' and b2[0] != 'm':
            for q, o in b1[2]:
                if q == b2:
                    if o is None or s.may_overlap(st, add(o1, K(o)), o2, z1, z2): return True
                elif not s.distinct(q, b2, st): return True
            return False
        return not s.distinct(b1, b2, st)
    def store(s, st, f, I, ctx, p, v, ty):
        size = ty.size() or 1
        if not isinstance(p, Ptr): return
        s.ob(st, I, p, K(size), 'store', ctx)
        cls = s.resolve(f, p, size)
        key = (p.base, p.off, size)
        if cls is None: s.kill(st, lambda c, k: k[2] != size or size == 1 and st.mem[c][k] == v or not s.clash(st, k[0], k[1], k[2], p.base, p.off, size))
        else:
            for c in [cls, None]:
                d = st.mem.get(c)
                if d:
                    for k in [k for k in d if s.clash(st, k[0], k[1], k[2], p.base, p.off, size) and not (size == 1 and k[2] == 1 and d[k] == v)]:
                        if (c, k) in st.dirty and k != key: s.publish(st, lambda q: q == (c, k))
                        st.dirty.pop((c, k), None); del d[k]
        st.mem.setdefault(cls, {})[key] = v
        if s.defer and ty.k == 'int' and cls is not None and cls[0] != 'a' and cls in s.known: st.dirty[(cls, key)] = ty
        elif s.record: s.put(st, cls, v, ty, p.base)
    def publish(s, st, which=None):
        """values stored so far become visible to code that only knows what the field always holds"""
        for q in list(st.dirty):
            if which is not None and not which(q): continue
            ty = st.dirty.pop(q)
            if not s.record: continue
            v = st.mem.get(q[0], {}).get(q[1])
            if v is None: raise Broken('a stored value was lost before it was accounted for')
            s.put(st, q[0], v, ty, q[1][0])
    def put(s, st, cls, v, ty, base):
        """contribution of a store to the program-wide invariant"""
        if cls is None or cls[0] == 'a': return
        et = s.elty(cls)
        if ty.k == 'ptr':
            if v == NULL: x = AP(True)
            elif isinstance(v, Ptr):
                z = INF if v.lim is None and v.base[0] == 'g' else 0
                if v.lim is not None and v.off.const: z = st.iv(add(v.lim[1], v.off, -1))[0]; z = max(0, z) if z != INF else INF
                if v.lim is not None and st.iv(add(v.off, v.lim[0], -1))[0] < 0: z = 0
                x = AP(False, frozenset((v.base,)) if v.base[0] == 'g' and v.off is ZERO else None, z)
            elif v and v[0] == 'fn': x = AP(False, frozenset(), INF)
            else: x = TOPP
        elif ty.k == 'int':
            if et is not None and et.k == 'int' and et.w != ty.w: x = rng(et.w)
            elif isinstance(v, Lin):
                lo, hi = st.iv(v)
                if lo < 0: l = s.sgn(st, v, ty.w); lo, hi = st.iv(l)
                elif hi >= 1 << ty.w: l = s.uns(st, v, ty.w); lo, hi = st.iv(l)
                x = (lo, hi)
            else: x = rng(ty.w)
        else: return
        if cls not in s.known: return
        o = s.newIF.get(cls)
        s.newIF[cls] = x if o is None else (o.join(x) if isinstance(o, AP) and isinstance(x, AP) else hull(o, x) if isinstance(o, tuple) and isinstance(x, tuple) else TOPP if ty.k == 'ptr' else rng(ty.w))
    def load(s, st, f, I, ctx, p, ty):
        size = ty.size() or 1
        if not isinstance(p, Ptr): return s.top(st, I, ctx, ty)
        if p.base == ('ctype',): return Ptr(('ctab',), ZERO)
        if p.base == ('ctab',) and all(q % 2 == 0 for _, q in p.off.t) and p.off.c % 2 == 0: return s.mk(st, 'ctype', lin(p.off.c // 2, tuple((a, q // 2) for a, q in p.off.t)))
        s.ob(st, I, p, K(size), 'load', ctx)
        cls = s.resolve(f, p, size)
        d = st.mem.get(cls); key = (p.base, p.off, size)
        if d is not None and key in d:
            v = d[key]
            if (ty.k == 'ptr') == (not isinstance(v, Lin)): return v
        if st.dirty: s.publish(st, None if cls is None else lambda q: q[0] == cls)
        v = s.fresh_load(st, f, I, ctx, p, ty, cls)
        st.mem.setdefault(cls, {})[key] = v
        if (size == 1 or not p.off.const) and (isinstance(v, Lin) and len(v.t) == 1 or isinstance(v, Ptr) and v.base[0] == 's'):
            a = v.t[0][0] if isinstance(v, Lin) else v.base[1]
            st.links[a] = cls
            l, h = st.aiv(a)
            if (l > 0 or h < 0) and isinstance(v, Lin): st.unlike(a)
        return v
    def fresh_load(s, st, f, I, ctx, p, ty, cls, tag=None):
        et = s.elty(cls) if cls is not None else None
        inv = s.IF.get(cls) if cls in s.known else None
        tag = tag or I.res or 'l%d' % I.idx
        if p.base[0] == 'g' and p.off.const:
            c = s.constval(f, p, ty)
            if c is not None: return c
        if ty.k == 'int':
            if cls in s.known and et is not None and et.k == 'int' and et.w == ty.w:
                if inv is None: raise Infeasible()     # no store reaches this field: the load is unreachable
                if isinstance(inv, tuple): return K(inv[0]) if inv[0] == inv[1] else A(s.sym(st, I, ctx, tag, *inv))
            if s.dials:
                k = s.dials.get((f.rel, '*' + p.nm)) if p.nm else None
                if k is None and cls is not None and cls[0] not in ('a', 'par', 'ret'): k = s.dials.get(s.clsname(f, cls))
                if k is not None: return A(s.sym(st, I, ctx, tag, *k))
            return A(s.sym(st, I, ctx, tag, *rng(ty.w)))
        if ty.k == 'ptr':
            a = s.sym(st, I, ctx, tag)
            if isinstance(inv, AP):
                if inv.tg is not None and len(inv.tg) == 1 and not inv.null:
                    b = next(iter(inv.tg)); g = s.gname(b)
                    if g is not None:
                        return Ptr(b, ZERO, (ZERO, K(g.ty.size())) if g.ty.k == 'arr' else None, None if g.ty.k == 'struct' else b, b[1])
                if inv.size not in (0, INF): return Ptr(('s', a), ZERO, (ZERO, K(inv.size)), None, s.clsname(f, cls))
            return Ptr(('s', a), ZERO, None, None, s.clsname(f, cls))
        return A(s.sym(st, I, ctx, tag))
    def clsname(s, f, cls): return '' if cls is None else cls[1] if cls[0] == 'g' else '' if cls[0] == 'a' else s.fname(f, cls)
    def gname(s, b):
        x = getattr(s, '_gn', None)
        if x is None: x = s._gn = {s.p.gid(g): g for m in s.p.mods.values() for g in m.globals.values() if not g.decl}
        return x.get(b)
    def constval(s, f, p, ty):
        g = s.gname(p.base)
        if g is None or not g.const or g.init is None: return None
        T, v, off = g.ty, g.init, p.off.c
        while True:
            if v is None or v[0] == 'zero': return ZERO if ty.k == 'int' else NULL if ty.k == 'ptr' else None
            if T.k == 'struct':
                o = T.offsets(); i = max([j for j in range(len(o)) if o[j] <= off], default=None)
                if i is None or v[0] != 'agg' or off < 0 or off >= T.size(): return None
                off -= o[i]; v = v[1][i][1]; T = T.fields[i]
            elif T.k == 'arr':
                z = T.el.size()
                if off < 0 or off >= T.size(): return None
                if v[0] == 'str':
                    return K(v[1][off]) if ty.k == 'int' and ty.w == 8 and off < len(v[1]) else None
                if v[0] != 'agg': return None
                i = off // z; off -= i * z; v = v[1][i][1]; T = T.el
            else: break
        if off: return None
        if ty.k == 'int' and T.k == 'int' and T.w == ty.w and v[0] == 'c': return K(v[1])
        return None
    def kill(s, st, keep):
        for c in list(st.mem):
            d = st.mem[c]
            for k in [k for k in d if not keep(c, k) and k[0] not in s.ro]:
                if (c, k) in st.dirty: s.publish(st, lambda q: q == (c, k))
                del d[k]
            if not d: del st.mem[c]
    def kill_region(s, st, p, n):
        """anything in n bytes at p (n None: whole object) may change"""
        def keep(c, k):
            if k[0] == p.base:
                if n is None: return False
                return not s.may_overlap2(st, k[1], k[2], p.off, n)
            if s.distinct(p.base, k[0], st): return True
            return p.cls is not None and c is not None and c[0] != p.cls[0]
        s.kill(st, keep)
    def may_overlap2(s, st, off, size, o2, n):
        d = add(off, o2, -1); lo, hi = st.iv(d)
        if hi <= -size: return False
        return not (st.iv(add(d, n, -1))[0] >= 0)
    # ------------------------------------------------------------------ joins
    def edge_states(s, fi, b, outs):
        r = []
        for p in fi.pred[b]:
            for k, st in outs.get((p, b), {}).items():
                if st is not None: r.append((p, k, st))
        return r
    def phis(s, fi, b, p, st, ctx):
        """evaluate phi instructions on the edge p->b"""
        f = fi.f; new = {}
        for I in f.blocks[b]:
            if I.op != 'phi': break
            for v, q in I.extra:
                if q == p: new[I.res] = s.val(st, f, v, I.ty, I, ctx) if v[0] != 'undef' else None; break
        return new
    def inbody(s, a, ctx, fname, body):
        """symbol a was created inside the loop body of this activation"""
        c = a.a[0]
        if c == ctx: return a.a[1] == fname and a.a[2] in body
        n = len(ctx)
        if len(c) > n and c[:n] == ctx: return c[n][0] == fname and c[n][1] in body
        return False
    def join(s, fi, b, sts, ctx, old=None, widen=False):
        """sts: [(state with phi registers set)]"""
        f = fi.f; fname = f.name
        head = b in fi.body; body = fi.body.get(b, ())
        live = fi.live[b] | {I.res for I in f.blocks[b] if I.op == 'phi'}
        if len(sts) == 1 and not head:
            t = sts[0].copy(); t.regs = {r: v for r, v in t.regs.items() if r in live}
            return t if len(t.facts) < 40 else s.prune(t)
        for x in sts:
            x.regs = {r: v for r, v in x.regs.items() if r in live}; s.prune(x)
        def stale(v):
            return any(s.inbody(a, ctx, fname, body) for a in syms_of(v)) if head else False
        t = State(); new = []       # new: (symbol atom, [value in each state])
        def merge(key, vs):
            v0 = vs[0]
            if all(v == v0 for v in vs[1:]) and not (head and stale(v0)): return v0
            if all(isinstance(v, Lin) for v in vs):
                a = atom('y', ctx, fname, b, key); new.append((a, vs)); return A(a)
            ps = [v for v in vs if isinstance(v, Ptr)]
            if ps and len(ps) + sum(v == NULL for v in vs) == len(vs):
                p0 = ps[0]
                if len(ps) == len(vs) and all(p.base == p0.base and p.cls == p0.cls and p.lim == p0.lim for p in ps) and not (head and (p0.base[0] in ('s', 'm') and any(s.inbody(q, ctx, fname, body) for q in syms_of(Ptr(p0.base, ZERO))) or p0.lim and (stale(p0.lim[0]) or stale(p0.lim[1])))):
                    a = atom('y', ctx, fname, b, key); new.append((a, [p.off for p in ps]))
                    return Ptr(p0.base, A(a), p0.lim, p0.cls, p0.nm)
                # different objects: a union base, offsets relative to the start of each array
                a = atom('y', ctx, fname, b, (key, 'base'))
                bs = set()
                for p in ps: bs |= set(p.base[2]) if p.base[0] == 'm' else {(p.base, p.lim[0].c if p.lim is not None and p.lim[0].const else None)}
                bs = frozenset(x for x in bs if not (head and x[0][0] == 's' and s.inbody(x[0][1], ctx, fname, body)))
                lost = len(bs) > 8 or any(p.base[0] == 's' and head and s.inbody(p.base[1], ctx, fname, body) for p in ps)
                nostart = frozenset((x, None) for x, o in bs)
                base = ('s', a) if lost else ('m', a, bs)
                cls = p0.cls if all(p.cls == p0.cls for p in ps) and p0.cls is not None and p0.cls[0] not in ('g', 'a') else None
                nm = p0.nm if all(p.nm == p0.nm for p in ps) else '/'.join(sorted({n for p in ps for n in p.nm.split('/') if n}))
                if all(p.lim is not None for p in ps):
                    szs = [x.iv(add(p.lim[1], p.lim[0], -1))[0] for x, p in zip([x for x, v in zip(sts, vs) if isinstance(v, Ptr)], ps)]
                    if min(szs) >= 0 and len(ps) == len(vs):
                        o = atom('y', ctx, fname, b, (key, 'off')); new.append((o, [add(p.off, p.lim[0], -1) for p in ps]))
                        return Ptr(base, A(o), (ZERO, K(min(szs))), cls, nm)
                    back = [-stt.iv(add(p.lim[0], p.off, -1))[1] for stt, p in zip([x for x, v in zip(sts, vs) if isinstance(v, Ptr)], ps)]
                    if min(szs) >= 0 and min(back) >= 0 and all(p.off == p.lim[0] for p in ps): return Ptr(base, ZERO, (ZERO, K(min(szs))), cls, nm)
                return Ptr(base if lost else ('m', a, nostart), ZERO, None, cls, nm)
            if all(isinstance(v, (Ptr, tuple)) for v in vs):
                return Ptr(('s', atom('y', ctx, fname, b, key)), ZERO)
            return None
        for r in live:
            vs = [x.regs.get(r) for x in sts]
            if any(v is None for v in vs): continue
            v = merge(r, vs)
            if v is not None: t.regs[r] = v
        if not head:
            for q in {q for x in sts for q in x.dirty}:
                # a cell only some of the paths wrote: on the others it holds whatever the field may hold
                inv = s.IF.get(q[0])
                if not isinstance(inv, tuple): continue
                for x in sts:
                    if q[1] in x.mem.get(q[0], ()): continue
                    if any(p[0] == q[0] for p in x.dirty) or not any(isinstance(v, Ptr) and v.base == q[1][0] for v in x.regs.values()) and not any(k[0] == q[1][0] or isinstance(v, Ptr) and v.base == q[1][0] for d in x.mem.values() for k, v in d.items()): continue
                    a = atom('y', ctx, fname, b, ('d', q)); x.facts[a] = inv; x.mem.setdefault(q[0], {})[q[1]] = A(a)
        s0 = min(sts, key=lambda x: len(x.mem))
        for c, d in s0.mem.items():
            ds = [x.mem.get(c) for x in sts]
            if any(y is None for y in ds): continue
            o = {}
            for k in d:
                if any(k not in y for y in ds): continue
                if head and (k[0][0] in ('s', 'm') and any(s.inbody(q, ctx, fname, body) for q in syms_of(Ptr(k[0], ZERO))) or stale(k[1])): continue
                v = merge(('m', c, k), [y[k] for y in ds])
                if v is not None: o[k] = v
            # a terminating zero byte whose place differs from state to state
            for b0 in {k[0] for k in d if k[2] == 1 and d[k] is ZERO}:
                if any(k[0] == b0 and k[2] == 1 and v is ZERO for k, v in o.items()): continue
                if head and b0[0] in ('s', 'm') and any(s.inbody(q, ctx, fname, body) for q in syms_of(Ptr(b0, ZERO))): continue
                zs = [[k[1] for k, v in y.items() if k[0] == b0 and k[2] == 1 and v is ZERO] for y in ds]
                if any(not z for z in zs): continue
                a = atom('y', ctx, fname, b, ('z', c, b0)); new.append((a, [min(z, key=repr) for z in zs])); o[(b0, A(a), 1)] = ZERO
            if o: t.mem[c] = o
        newset = {a for a, _ in new}
        # facts on atoms that keep their meaning
        a0 = min(sts, key=lambda x: len(x.facts))
        for a in a0.facts:
            if a in newset or head and any(s.inbody(y, ctx, fname, body) for y in a.syms): continue
            lo, hi = INF, -INF
            for x in sts:
                l, h = x.aiv(a); lo = min(lo, l); hi = max(hi, h)
            if (lo, hi) != (-INF, INF): t.facts[a] = (lo, hi)
        for a, vs in new:
            lo, hi = INF, -INF
            for x, v in zip(sts, vs):
                l, h = x.iv(v); lo = min(lo, l); hi = max(hi, h)
            if (lo, hi) != (-INF, INF): t.facts[a] = (lo, hi)
        # difference bounds
        pairs = {}
        r0 = min(sts, key=lambda x: sum(map(len, x.rels.values())))
        for x, d in r0.rels.items():
            for y in d:
                if x in newset or y in newset or head and (any(s.inbody(q, ctx, fname, body) for q in x.syms | y.syms)): continue
                pairs[(x, y)] = [add(A(x), A(y), -1)] * len(sts)
        zc = set()
        for d in t.mem.values():
            for k, v in d.items():
                if not k[1].const and (isinstance(v, Lin) and v.const or v == NULL): zc |= {q for q, _ in k[1].t if q.k == 'y'}
        for x in sts[0].links:
            if x not in newset and all(y.links.get(x) == sts[0].links[x] for y in sts) and not (head and s.inbody(x, ctx, fname, body)): t.links[x] = sts[0].links[x]
        if len(new) <= 24:
            for i, (a, va) in enumerate(new):
                for c, vc in new[i + 1:]:
                    pairs[(a, c)] = [add(p, q, -1) for p, q in zip(va, vc)]
                    pairs[(c, a)] = [add(q, p, -1) for p, q in zip(va, vc)]
                oth = set()
                for x in sts:
                    for y in list(x.rels)[:40]: oth.add(y); oth |= set(x.rels[y])
                for v in va:
                    for q, _ in v.t: oth.add(q)
                oth |= zc
                for y in oth:
                    if y in newset or head and any(s.inbody(q, ctx, fname, body) for q in y.syms): continue
                    pairs[(a, y)] = [add(p, A(y), -1) for p in va]
                    pairs[(y, a)] = [add(A(y), p, -1) for p in va]
        for (x, y), ls in pairs.items():
            hi = -INF
            for q, L in zip(sts, ls):
                hi = max(hi, q.iv(L)[1])
                if hi == INF: break
            if hi != INF and hi < t.aiv(x, False)[1] - t.aiv(y, False)[0]: t.rels.setdefault(x, {})[y] = hi; t.rev = None
        if old is not None and widen:
            th = sorted(fi.th | s.gth | s.roth)
            for a in list(t.facts):
                n = t.facts[a]; o = old.facts.get(a)
                if o is None:
                    if widen > 12: t.facts.pop(a); continue
                    o = (INF, -INF)         # not a term of its own before: to the next threshold
                lo, hi = n
                if lo < o[0]: lo = max([x for x in th if x <= lo], default=-INF)
                else: lo = o[0]
                if hi > o[1]: hi = min([x for x in th if x >= hi], default=INF)
                else: hi = o[1]
                t.facts[a] = (lo, hi)
                if (lo, hi) == (-INF, INF): t.facts.pop(a)
            for x in list(t.rels):
                for y in list(t.rels[x]):
                    o = old.iv(add(A(x), A(y), -1))[1]
                    if t.rels[x][y] > o: del t.rels[x][y]
                    else: t.rels[x][y] = o
                if not t.rels[x]: del t.rels[x]
            t.rev = None
        if not head:
            for x in sts:
                for q, ty in x.dirty.items():
                    if q[1] in t.mem.get(q[0], ()): t.dirty[q] = ty
        return t
    keep = frozenset()
    dials = {}          # ranges of variables set from outside the functions analysed
    def prune(s, t):
        """forget what is known about terms no register or cell mentions any more"""
        L = set(s.keep)
        for v in t.regs.values():
            if isinstance(v, Lin): L |= v.syms
            elif isinstance(v, Ptr): L |= syms_of(v)
        for d in t.mem.values():
            for k, v in d.items():
                L |= k[1].syms
                if k[0][0] in ('s', 'm'): L |= syms_of(Ptr(k[0], ZERO))
                if isinstance(v, Lin): L |= v.syms
                elif isinstance(v, Ptr): L |= syms_of(v)
        # bounds that only follow through a forgotten term are made explicit first
        imp = set()
        for x, d in t.rels.items():
            lx = x.syms <= L
            for y in d:
                if (y.syms <= L) != lx: imp.add(x if lx else y)
        for a in imp:
            v = t.aiv(a)
            if v != (-INF, INF): t.facts[a] = v
        for a in [a for a in t.facts if not a.syms <= L]: del t.facts[a]
        ch = False
        for x in list(t.rels):
            if not x.syms <= L: del t.rels[x]; ch = True; continue
            d = t.rels[x]
            for y in [y for y in d if not y.syms <= L]: del d[y]; ch = True
            if not d: del t.rels[x]
        if ch: t.rev = None
        for x in [x for x in t.links if x not in L]: del t.links[x]
        return t
    dbg = False
    def dump(s, b, a, c):
        print('---', b)
        for nm in ('regs', 'facts'):
            p, q = getattr(a, nm), getattr(c, nm)
            for k in set(p) | set(q):
                if p.get(k) != q.get(k): print(nm, k, p.get(k), q.get(k))
        for x in set(a.rels) | set(c.rels):
            if a.rels.get(x) != c.rels.get(x): print('rel', x, a.rels.get(x), c.rels.get(x))
        for x in set(a.mem) | set(c.mem):
            p, q = a.mem.get(x, {}), c.mem.get(x, {})
            for k in set(p) | set(q):
                if p.get(k) != q.get(k): print('mem', x, k, p.get(k), q.get(k))
    def same(s, a, b):
        return a.dirty == b.dirty and a.regs == b.regs and a.facts == b.facts and a.rels == b.rels and {k: v for k, v in a.mem.items() if v} == {k: v for k, v in b.mem.items() if v}
    # ------------------------------------------------------------------ functions
    def run(s, f, st, ctx):
        """analyse f from entry state st (parameters in st.regs); returns [(exit state, return value)]"""
        fi = s.fi(f); s.esc |= s.escapes(f, ctx)
        outs = {}; ins = {}; visits = {}
        entry = f.order[0]
        work = {entry}; rec = s.record; s.record = False
        outs[(None, entry)] = {0: st}
        def instates(b):
            r = [(None, 0, outs[(None, b)][0])] if b == entry else []
            r += s.edge_states(fi, b, outs)
            l = []
            for p, k, x in r:
                try:
                    y = x.copy(); ph = s.phis(fi, b, p, y, ctx)
                    for n, v in ph.items():
                        if v is None: y.regs[n] = s.undefv(f, b, n, y, ctx)
                        else: y.regs[n] = v
                    l.append(((p, k), y))
                except Infeasible: pass
            return l
        def push(b, src, st2, exits):
            for d in fi.succ[b]: outs.setdefault((b, d), {}).pop(src, None)
            for d, x in st2: outs.setdefault((b, d), {})[src] = x
        def process(b, record, exits):
            l = instates(b)
            if not l: return False
            split = b in fi.split and len(l) <= 12
            if split:
                ch = []
                for d in fi.succ[b]: outs[(b, d)] = {}
                for i, (src, x) in enumerate(l):
                    y = s.join(fi, b, [x], ctx)
                    push(b, (i,), s.block(fi, b, y, ctx, exits), exits)
                return True
            n = visits.get(b, 0); head = b in fi.body
            old = ins.get(b)
            x = s.join(fi, b, [y for _, y in l], ctx, old if head else None, n if head and n >= 3 and not record and not s.narrow else 0)
            if old is not None and s.same(x, old) and not record: return False
            if head and not record:
                visits[b] = n + 1
                if n > 295 and s.dbg: s.dump(b, old, x)
                if n > 300: raise Broken('%s: no fixpoint at %s' % (f.name, b))
            ins[b] = x
            for d in fi.succ[b]: outs[(b, d)] = {}
            push(b, 0, s.block(fi, b, x.copy(), ctx, exits), exits)
            return True
        def solve():
            while work:
                b = min(work, key=lambda q: fi.wto[q]); work.discard(b)
                if process(b, False, None):
                    for d in fi.succ[b]: work.add(d)
        s.narrow = False
        solve()
        # one descending pass
        if fi.body:
            s.narrow = True
            for b in fi.rpo: process(b, True, None)
            s.narrow = False
        exits = []
        s.record = rec
        # final pass with recording: states are a post-fixpoint
        for b in fi.rpo:
            l = instates(b) if b in fi.split or b not in ins else None
            if b in fi.split:
                for i, (src, x) in enumerate(l):
                    j = s.join(fi, b, [x], ctx); s.publish(x, lambda q: q not in j.dirty); s.block(fi, b, j, ctx, exits)
            elif b in ins:
                if s.defer and b != entry and any(y.dirty for _, _, y in s.edge_states(fi, b, outs)):
                    for _, x in instates(b): s.publish(x, lambda q: q not in ins[b].dirty)
                s.block(fi, b, ins[b].copy(), ctx, exits)
        return exits
    def undefv(s, f, b, n, st, ctx):
        I = next(i for i in f.blocks[b] if i.res == n)
        return s.top(st, I, ctx, I.ty, 'undef:' + n)
    def escapes(s, f, ctx):
        """allocas of f whose address is stored or passed"""
        e = getattr(f, '_esc', None)
        if e is None:
            der = {}; e = set()
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'alloca': der[I.res] = I.res
                    elif I.op in ('getelementptr', 'bitcast') and I.a[0][0] == 'r' and I.a[0][1] in der: der[I.res] = der[I.a[0][1]]
                    elif I.op == 'store' and I.a[0][0] == 'r' and I.a[0][1] in der: e.add(der[I.a[0][1]])
                    elif I.op == 'call':
                        if I.extra[0] == 'g' and (I.extra[1] in WRITES or I.extra[1] in READS or I.extra[1] in PURE): continue
                        for t, v in I.a:
                            if v[0] == 'r' and v[1] in der: e.add(der[v[1]])
                    elif I.op in ('phi', 'select', 'ptrtoint', 'ret'):
                        for v in ([x for x, _ in I.extra] if I.op == 'phi' else I.a):
                            if v[0] == 'r' and v[1] in der: e.add(der[v[1]])
            f._esc = e
        return {('a', ctx, f.name, x) for x in e}
    def block(s, fi, b, st, ctx, exits):
        f = fi.f; r = []
        if s.record: s.reached.add((f, b))
        try:
            for I in f.blocks[b]:
                s.steps += 1; s.cur = (I, ctx); s.cutn = 0
                op = I.op
                if op == 'phi': continue
                if op == 'ret':
                    if exits is not None: exits.append((st, s.val(st, f, I.a[0], I.ty, I, ctx) if I.a else None))
                    return []
                if op == 'unreachable': return []
                if op == 'br':
                    if not I.a: return [(I.extra[0], st)]
                    c = s.val(st, f, I.a[0], ir.INT(1), I, ctx)
                    for d, truth in zip(I.extra, (True, False)):
                        x = st.copy()
                        try:
                            if isinstance(c, Lin): x.assume(c, truth)
                            r.append((d, x))
                        except Infeasible: pass
                    if len(r) == 2 and r[0][0] == r[1][0]: r = [(r[0][0], st)]
                    return r
                if op == 'switch':
                    t, d, cs = I.extra
                    c = s.val(st, f, I.a[0], t, I, ctx)
                    if not isinstance(c, Lin): return [(x, st.copy()) for x in fi.succ[b]]
                    by = {}
                    cu = s.uns(st, c, t.w)
                    for v, x in cs: by.setdefault(x, []).append(v)
                    dft = st.copy()
                    try:
                        vals = sorted(v for v, _ in cs)
                        for v in vals + vals[::-1]: dft.ne0(add(cu, K(-v)))
                        lo, hi = dft.iv(cu)
                        if hi - lo < 70000 and all(v in set(vals) for v in range(int(lo), int(hi) + 1)): raise Infeasible()
                    except Infeasible: dft = None
                    for x, vs in by.items():
                        y = None
                        for v in vs:
                            z = st.copy()
                            try: z.assume(s.cmp(z, I, ctx, 'eq', cu, K(v), 64), True)
                            except Infeasible: continue
                            if y is None: y = z
                            else:
                                # hull of the cases
                                z2 = State(); z2.regs = st.regs; z2.mem = st.mem; z2.rels = st.rels; z2.links = st.links; z2.dirty = st.dirty
                                z2.facts = {}
                                for a in set(y.facts) & set(z.facts): z2.facts[a] = hull(y.facts[a], z.facts[a])
                                y = z2
                        if y is not None:
                            if x == d and dft is not None: y = st
                            r.append((x, y.copy()))
                    if dft is not None and d not in by: r.append((d, dft))
                    elif dft is not None and d not in [x for x, _ in r]: r.append((d, dft))
                    return r
                s.instr(st, fi, I, ctx)
        except Infeasible: return []
        return r
    def instr(s, st, fi, I, ctx):
        f = fi.f; op = I.op
        if op == 'store':
            v = s.val(st, f, I.a[0], I.extra, I, ctx); p = s.val(st, f, I.a[1], ir.PTR, I, ctx)
            s.store(st, f, I, ctx, p, v, I.extra); return
        if op == 'load': r = s.load(st, f, I, ctx, s.val(st, f, I.a[0], ir.PTR, I, ctx), I.ty)
        elif op == 'getelementptr': r = s.gep(st, f, I, ctx, s.val(st, f, I.a[0], ir.PTR, I, ctx), I.extra[0], I.extra[1])
        elif op == 'alloca':
            t = I.extra[0]; base = ('a', ctx, f.name, I.res)
            s.kill(st, lambda c, k: k[0] != base)
            cls = base; s.structs.setdefault(cls, t)
            r = Ptr(base, ZERO, (ZERO, K(t.size())) if t.k == 'arr' else None, None if t.k == 'struct' else cls, I.res)
        elif op in ('zext', 'sext', 'trunc'):
            x = s.val(st, f, I.a[0], I.extra, I, ctx)
            if not isinstance(x, Lin): r = s.top(st, I, ctx, I.ty)
            elif op == 'trunc': r = x
            else: r = (s.uns if op == 'zext' else s.sgn)(st, x, I.extra.w)
        elif op == 'icmp':
            pred, t = I.extra
            r = s.cmp(st, I, ctx, pred, s.val(st, f, I.a[0], t, I, ctx), s.val(st, f, I.a[1], t, I, ctx), t.w if t.k == 'int' else 64)
        elif op in ir.BIN:
            if I.ty.k != 'int': r = s.top(st, I, ctx, I.ty)
            else: r = s.binop(st, I, ctx, op, s.val(st, f, I.a[0], I.ty, I, ctx), s.val(st, f, I.a[1], I.ty, I, ctx), I.ty.w)
        elif op == 'select':
            c = s.val(st, f, I.a[0], ir.INT(1), I, ctx); a = s.val(st, f, I.a[1], I.ty, I, ctx); b = s.val(st, f, I.a[2], I.ty, I, ctx)
            r = None
            if isinstance(c, Lin):
                oks = []
                for v, truth in ((a, True), (b, False)):
                    x = st.copy()
                    try: x.assume(c, truth); oks.append((v, x))
                    except Infeasible: pass
                if len(oks) == 1: r = oks[0][0]
                elif len(oks) == 2 and isinstance(a, Lin) and isinstance(b, Lin):
                    l, h = hull(oks[0][1].iv(a), oks[1][1].iv(b)); r = A(s.sym(st, I, ctx, I.res, l, h))
            if r is None: r = a if a == b else s.top(st, I, ctx, I.ty)
        elif op == 'call': r = s.call(st, fi, I, ctx)
        elif op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            x = s.val(st, f, I.a[0], I.extra if isinstance(I.extra, ir.Ty) else I.ty, I, ctx)
            r = x if (I.ty.k == 'ptr') == (not isinstance(x, Lin)) else s.top(st, I, ctx, I.ty)
        else: r = s.top(st, I, ctx, I.ty) if I.ty.k != 'void' else None
        if I.res is not None:
            if r is None: r = s.top(st, I, ctx, I.ty)
            st.regs[I.res] = r
    # ------------------------------------------------------------------ calls
    def call(s, st, fi, I, ctx):
        f = fi.f
        args = [s.val(st, f, v, t, I, ctx) if t.k != 'metadata' else None for t, v in I.a]
        t = s.p.target(f, I.extra)
        if t is None and I.extra[0] == 'r':
            fv = s.val(st, f, I.extra, ir.PTR, I, ctx)
            if isinstance(fv, tuple) and fv and fv[0] == 'fn': t = fv[1]
        if t is not None: return s.call_fn(st, fi, I, ctx, t, args)
        if I.extra[0] != 'g':
            s.publish(st)
            s.kill(st, lambda c, k: k[0][0] == 'a' and k[0] not in s.esc)     # indirect call: anything may change
            return s.top(st, I, ctx, I.ty) if I.ty.k != 'void' else None
        n = I.extra[1]
        if n == '__ctype_b_loc': return Ptr(('ctype',), ZERO)
        if n in ALLOC:
            z = K(1)
            for i in ALLOC[n]:
                x = args[i] if isinstance(args[i], Lin) else A(s.sym(st, I, ctx, 'z%d' % I.idx, 0, INF))
                x = s.uns(st, x, 64)
                z = scale(x, z.c) if z.const else scale(z, x.c) if x.const else s.mk(st, '*', z, x)
            a = s.sym(st, I, ctx, I.res or 'h%d' % I.idx)
            s.kill(st, lambda c, k: k[0] != ('s', a))
            return Ptr(('s', a), ZERO, (ZERO, z), None, 'block from ' + n)
        for tab, kind in ((READS, 'read'), (WRITES, 'write')):
            if n in tab:
                di, ns = tab[n]; p = args[di]
                z = K(1)
                for i in ns:
                    x = s.uns(st, args[i], 64) if isinstance(args[i], Lin) else None
                    z = None if x is None or z is None else scale(x, z.c) if z.const else scale(z, x.c) if x.const else s.mk(st, '*', z, x)
                if isinstance(p, Ptr):
                    if z is not None:
                        if not (st.iv(z)[1] <= 0): s.ob(st, I, p, z, kind, ctx)
                    if kind == 'write':
                        s.kill_region(st, p, z)
                        if s.record: s.bulk(st, f, p, n, args, I)
                        if n in ('fgets', 'snprintf', 'strftime') and z is not None:
                            # a terminator somewhere inside
                            a = s.sym(st, I, ctx, 'nul%d' % I.idx, 0, INF); cls = s.resolve(f, p, 1)
                            try: st.le(add(add(A(a), z, -1), K(1)))
                            except Infeasible: pass
                            st.mem.setdefault(cls, {})[(p.base, add(p.off, A(a)), 1)] = ZERO
                        elif 'memset' in n and z is not None and z.const and isinstance(args[1], Lin) and args[1].const and args[1].c == 0 and p.off.const: s.zero_fill(st, f, p, z.c)
                        elif 'memcpy' in n and isinstance(args[1], Ptr): s.copy_const(st, f, p, args[1], z)
        if n not in PURE and n not in WRITES and n not in READS and not n.startswith('llvm.'):
            for x in args:
                if isinstance(x, Ptr):
                    s.kill_region(st, x, None)
                    if s.record: s.bulk(st, f, x, n, args, I)
        if I.ty.k == 'void': return None
        if n in ('recv', 'read', 'fread') and len(args) > 2 and isinstance(args[2], Lin):
            # how much was read: at most what was asked for
            v = A(s.sym(st, I, ctx, I.res or 'v%d' % I.idx, 0 if n == 'fread' else -1, INF))
            try: st.le(add(v, s.uns(st, args[2], 64), -1))
            except Infeasible: v = s.top(st, I, ctx, I.ty)
            return v
        r = PURE.get(n)
        if r: return A(s.sym(st, I, ctx, I.res or 'v%d' % I.idx, *r))
        return s.top(st, I, ctx, I.ty)
    def zero_fill(s, st, f, p, n):
        T = None
        if p.base[0] == 'a': T = s.structs.get(p.base)
        elif p.base[0] == 'g' and s.gname(p.base) is not None: T = s.gname(p.base).ty
        if T is None or p.off.c < 0 or p.off.c + n > T.size(): return
        def walk(T, off, cls, rel):
            if off >= p.off.c + n or off + T.size() <= p.off.c: return
            if T.k == 'struct' and T.fields:
                for t, o in zip(T.fields, T.offsets()):
                    c = (s.tname(T, rel), o); s.structs.setdefault(c, t); walk(t, off + o, c, rel)
            elif T.k == 'arr':
                z = T.el.size()
                if T.el.k == 'int' or T.n <= 16:
                    for i in (range(T.n) if T.n <= 16 else (0, T.n - 1)): walk(T.el, off + i * z, cls, rel)
            elif T.k in ('int', 'ptr') and p.off.c <= off and off + T.size() <= p.off.c + n:
                st.mem.setdefault(cls, {})[(p.base, K(off), T.size())] = ZERO if T.k == 'int' else NULL
        cls = p.base if T.k != 'struct' else None
        walk(T, 0, cls, f.rel)
    def copy_const(s, st, f, p, q, z):
        g = s.gname(q.base)
        if g is None or not g.const or g.init is None or z is None or not z.const or not q.off.const or not p.off.const: return
        T = g.ty
        while T.k == 'arr' and T.el.k == 'arr': T = T.el
        if T.k != 'arr': return
        w = T.el.size(); cls = s.resolve(f, p, w)
        if T.el.k not in ('int', 'ptr') or z.c // w > 256: return
        for o in range(q.off.c, q.off.c + z.c, w):
            v = s.constval(f, Ptr(q.base, K(o)), T.el)
            if v is not None: st.mem.setdefault(cls, {})[(p.base, K(p.off.c + o - q.off.c), w)] = v
    def bulk(s, st, f, p, n, args, I):
        """a library call writes memory at p: contribution to the field invariants"""
        cls = s.resolve(f, p, 1)
        if p.base[0] == 'a' and (cls is None or cls[0] == 'a'): return
        zero = n in ('memset', 'bzero', 'llvm.memset.p0.i64') and (n == 'bzero' or isinstance(args[1], Lin) and args[1].const and args[1].c == 0)
        if n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64') and isinstance(args[1], Ptr) and s.resolve(f, args[1], 1) == cls and cls is not None: return
        if cls is None:
            s.unk.add((f.name, n)); return
        et = s.elty(cls)
        if cls in s.known and et is not None:
            if et.k == 'int':
                x = (0, 0) if zero else rng(et.w)
                if n in ('fgets', 'recv', 'read', 'fread', 'snprintf', 'strncpy', 'memset', 'memcpy') or True:
                    o = s.newIF.get(cls); s.newIF[cls] = x if o is None else hull(o, x) if isinstance(o, tuple) else x
            elif et.k == 'ptr':
                x = AP(True) if zero else TOPP
                o = s.newIF.get(cls); s.newIF[cls] = x if o is None else o.join(x)
    policy = None
    def inlinable(s, t, ctx):
        if s.policy is not None and not s.policy(t): return False
        return s.p.size(t) <= INLINE_MAX and len(ctx) < 8 and not t.vararg
    def call_fn(s, st, fi, I, ctx, t, args):
        f = fi.f
        if s.events and s.record and t.name == 'add_event' and len(args) > 4:
            for cb in ([args[1][1]] if isinstance(args[1], tuple) and args[1] and args[1][0] == 'fn' else [x for x in s.p.queued if x.rel == f.rel]):
                if len(cb.params) == 3: s.put(st, ('par', cb, 2), args[4], cb.params[2][0], None)
        if not s.inlinable(t, ctx):
            if st.dirty:
                rd = s.readset(t)
                s.publish(st, None if rd is None else lambda q: q[0] in rd)
            m = s.modset(t)
            if m is None: s.kill(st, lambda c, k: k[0][0] == 'a' and k[0] not in s.esc)
            else: s.kill(st, lambda c, k: c is not None and c not in m or k[0][0] == 'a' and k[0] not in s.esc)
            for x in args:
                if isinstance(x, Ptr) and x.base[0] == 'a': s.kill(st, lambda c, k: k[0] != x.base)
            if s.record:
                for i, (pt, pn) in enumerate(t.params):
                    if i < len(args): s.put(st, ('par', t, i), args[i], pt, None)
            if I.ty.k == 'void': return None
            inv = s.IF.get(('ret', t)) if ('ret', t) in s.known else None
            if ('ret', t) in s.known and inv is None: raise Infeasible()
            if isinstance(inv, tuple) and I.ty.k == 'int': return A(s.sym(st, I, ctx, I.res or 'v%d' % I.idx, *inv))
            return s.top(st, I, ctx, I.ty)
        c2 = ctx + ((f.name, I.blk, I.idx),)
        s2 = State(); s2.mem = {c: dict(d) for c, d in st.mem.items()}; s2.facts = dict(st.facts); s2.rels = {x: dict(d) for x, d in st.rels.items()}; s2.links = dict(st.links); s2.dirty = dict(st.dirty)
        for (pt, pn), a in zip(t.params, args): s2.regs[pn] = a
        cur = s.cur; nar = s.narrow; kp = s.keep
        s.keep = kp | {a for v in st.regs.values() for a in syms_of(v)}
        ex = s.run(t, s2, c2)
        s.cur = cur; s.narrow = nar; s.keep = kp
        if not ex: raise Infeasible()
        # merge the exits into the caller's state
        rs = []
        for x, rv in ex:
            x.regs = dict(st.regs)
            if rv is not None: x.regs['\0ret'] = rv
            s.kill(x, lambda c, k: not (k[0][0] == 'a' and len(k[0][1]) > len(ctx) and k[0][1][:len(c2)] == c2))
            rs.append(x)
        if len(rs) > 1:
            y = s.join_plain(rs, ctx, f, I)
            for x in rs: s.publish(x, lambda q: q not in y.dirty)
        else: y = rs[0]
        rv = y.regs.pop('\0ret', None)
        st.regs, st.mem, st.facts, st.rels, st.links = y.regs, y.mem, y.facts, y.rels, y.links; st.rev = None; st.dirty = y.dirty
        return rv
    def join_plain(s, rs, ctx, f, I):
        class FI: pass
        fx = FI(); fx.f = f; fx.body = {}; fx.th = set()
        b = I.blk + '/ret%d' % I.idx
        class L:
            pass
        fx.live = {b: set(rs[0].regs)}
        ff = type('F', (), {})(); ff.name = f.name; ff.blocks = {b: []}; fx.f = ff
        # symbols are attributed to the call site's own block so that loop handling sees them
        t = s.join(fx, b, rs, ctx + ((f.name, I.blk, I.idx),))
        return t
    def wild(s, g, el):
        """g stores a value of type el through a pointer of unknown class"""
        k = getattr(g, '_wild', None)
        if k is None:
            k = set(); defs = {I.res: I for b in g.order for I in g.blocks[b] if I.res}
            for b in g.order:
                for I in g.blocks[b]:
                    if I.op == 'store' and s.synclass(g, defs, I.a[1]) is None: k.add((I.extra.k, I.extra.size()))
            g._wild = k
        return (el.k, el.size()) in k
    def modset(s, t):
        """classes a function may store to, None = anything"""
        if t in s.mods_of: return s.mods_of[t]
        r = set()
        for g in [t] + list(s.p.reach(t)):
            d = s.direct(g)
            if d is None: r = None; break
            r |= d
        s.mods_of[t] = r; return r
    def readset(s, t):
        """classes a function may load from (or copy or hand on the address of), None = anything"""
        r = s.reads_of.get(t, 0)
        if r != 0: return r
        r = set()
        for g in [t] + list(s.p.reach(t)):
            defs = {I.res: I for b in g.order for I in g.blocks[b] if I.res}
            for b in g.order:
                for I in g.blocks[b]:
                    if I.op == 'load': vs = [I.a[0]]
                    elif I.op == 'call':
                        if I.extra[0] == 'r': r = None; break
                        vs = [v for ty, v in I.a if ty.k == 'ptr' and v[0] in ('r', 'gep')]
                        if s.p.target(g, I.extra) is None and I.extra[1] in ('fprintf', 'vfprintf', 'printf', 'vprintf', 'fflush', 'fputc', 'putc', 'fputs', 'fclose', 'send', 'write') or I.extra[1].startswith('llvm.'): vs = []
                    else: continue
                    for v in vs:
                        c = s.synclass(g, defs, v)
                        if c is None:
                            r = None; break
                        if c: r.add(c)
                    if r is None: break
                if r is None: break
            if r is None: break
        s.reads_of[t] = r; return r
    def direct(s, g):
        x = getattr(g, '_direct', 0)
        if x != 0: return x
        r = set(); defs = {}
        for b in g.order:
            for I in g.blocks[b]:
                if I.res: defs[I.res] = I
        for b in g.order:
            for I in g.blocks[b]:
                if I.op == 'store':
                    c = s.synclass(g, defs, I.a[1])
                    if c is None: r = None; break
                    if c: r.add(c)
                elif I.op == 'call':
                    if I.extra[0] == 'r': r = None; break
                    if s.p.target(g, I.extra) is None:
                        n = I.extra[1]
                        if n in PURE or n in ALLOC or n.startswith('llvm.dbg') or n in READS and n not in WRITES: continue
                        for ty, v in I.a:
                            if ty.k == 'ptr' and v[0] in ('r', 'g', 'gep'):
                                if v[0] == 'g' and (s.p.global_(g, v[1]) is None or s.p.global_(g, v[1]).const): continue
                                c = s.synclass(g, defs, v)
                                if c is None: r = None; break
                                if c: r.add(c)
                        if r is None: break
            if r is None: break
        g._direct = r; return r
    def synclass(s, g, defs, v):
        """syntactic alias class of a pointer operand; () for locals, None unknown"""
        n = 0
        while n < 60:
            n += 1
            if v[0] == 'g':
                G = s.p.global_(g, v[1])
                if G is None: return ('g', v[1])
                if G.ty.k == 'struct': return s.innermost(G.ty, 0, G.rel, s.p.gid(G))[0]
                c = s.p.gid(G); s.structs.setdefault(c, G.ty); return c
            if v[0] == 'gep':
                bt, args = v[1], v[2]
                r = s.geptype(g, bt, args[1:])
                if r: return r
                if args[0][1][0] == 'g' and bt.k == 'int':
                    G = s.p.global_(g, args[0][1][1])
                    if G is not None and args[1][1][0] == 'c': return s.innermost(G.ty, args[1][1][1], G.rel, s.p.gid(G))[0]
                v = args[0][1]; continue
            if v[0] != 'r': return None
            d = defs.get(v[1])
            if d is None: return None
            if d.op == 'alloca': return ()
            if d.op == 'getelementptr':
                r = s.geptype(g, d.extra[0], d.extra[1])
                if r: return r
                v = d.a[0]; continue
            if d.op in ('bitcast', 'freeze'): v = d.a[0]; continue
            return None
        return None
    def geptype(s, g, bt, idx):
        t = bt; r = None
        for ty, v in idx[1:]:
            if t.k == 'struct':
                r = (s.tname(t, g.rel), t.offsets()[v[1]]); s.structs.setdefault(r, t.fields[v[1]]); t = t.fields[v[1]]
            elif t.k in ('arr', 'vec'): t = t.el
        return r
    # ------------------------------------------------------------------ whole-program iteration
    gth = {0, 1, -1, 2, 3, 7, 15, 31, 63, 127, 255, 256, 511, 1023, 4095, 65535, 0xffffff, 0x7fffffff, 0xffffffff, -128, -32768, -0x80000000}
    def init_known(s, funcs):
        """classes all of whose stores are in the analysed functions, with their initial values"""
        allf = {f for m in s.p.mods.values() for f in m.funcs.values()}
        fs = set(funcs)
        bad = set(); stored = set(); unk = []
        for f in allf:
            defs = {}
            for b in f.order:
                for I in f.blocks[b]:
                    if I.res: defs[I.res] = I
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'store':
                        c = s.synclass(f, defs, I.a[1])
                        if c and f not in fs: bad.add(c)
                        if c: stored.add(c)
                    # escaping addresses of fields
                    vs = []
                    if I.op == 'store': vs = [I.a[0]]
                    elif I.op == 'call': vs = [v for t, v in I.a if t.k == 'ptr']
                    elif I.op == 'phi' and I.ty.k == 'ptr': vs = [v for v, _ in I.extra]
                    elif I.op in ('select', 'ret') and I.ty.k == 'ptr': vs = I.a
                    for v in vs:
                        if v[0] in ('r', 'gep') or v[0] == 'g' and s.p.target(f, v) is None:
                            if v[0] == 'r' and (defs.get(v[1]) is None or defs[v[1]].op not in ('getelementptr', 'bitcast')): continue
                            c = s.synclass(f, defs, v)
                            if c:
                                T = s.structs.get(c)
                                if I.op == 'call' and s.p.target(f, I.extra) is None and I.extra[0] == 'g' and (I.extra[1] in PURE or I.extra[1] in READS or I.extra[1] in WRITES and f in fs): continue
                                if I.op == 'call' and s.p.target(f, I.extra) in fs and s.inlinable(s.p.target(f, I.extra), ()): continue
                                bad.add(c)
        init = {}
        def put(c, x):
            o = init.get(c); init[c] = x if o is None else (o.join(x) if isinstance(o, AP) and isinstance(x, AP) else hull(o, x) if not isinstance(o, AP) and not isinstance(x, AP) else TOPP)
        def walk(T, v, cls, rel, m):
            if T.k == 'struct' and T.fields:
                for i, t in enumerate(T.fields):
                    c = (s.tname(T, rel), T.offsets()[i]); s.structs.setdefault(c, t)
                    walk(t, v[1][i][1] if v and v[0] == 'agg' else None, c, rel, m)
            elif T.k == 'arr':
                if v is not None and v[0] == 'agg':
                    for t, x in v[1]: walk(T.el, x, cls, rel, m)
                elif v is not None and v[0] == 'str':
                    put(cls, (min(v[1]), max(v[1])))
                    if len(v[1]) < T.n: put(cls, (0, 0))
                else: walk(T.el, None, cls, rel, m)
            elif T.k == 'int': put(cls, (0, 0) if v is None or v[0] == 'zero' else (s.cs(v[1], T.w),) * 2 if v[0] == 'c' else rng(T.w))
            elif T.k == 'ptr':
                if v is None or v[0] in ('zero', 'null'): put(cls, AP(True))
                elif v[0] == 'g':
                    g = m.globals.get(v[1])
                    if g is not None and g.decl: g = s.p.glob.get(v[1])
                    if g is None: put(cls, AP(False, frozenset(), INF))
                    else: put(cls, AP(False, frozenset((s.p.gid(g),)), g.ty.size() if g.ty.k == 'arr' else INF))
                else: put(cls, TOPP)
        for rel, m in s.p.mods.items():
            for g in m.globals.values():
                if g.decl: continue
                c = s.p.gid(g); s.structs.setdefault(c, g.ty)
                walk(g.ty, g.init, c, rel, m)
        s.known = set()
        for c in list(s.structs):
            if c in bad or c[0] == 'a': continue
            t = s.elty(c)
            if t is None or t.k not in ('int', 'ptr'): continue
            s.known.add(c)
        # tables nothing ever stores to: their last element is a known sentinel
        s.ro = {}
        passed = {}
        for f in allf:
            for b in f.order:
                for I in f.blocks[b]:
                    vs = [(None, v) for v in I.a if isinstance(v, tuple)] if I.op in ('store', 'ret', 'select') else [(I, v) for _, v in I.a] if I.op == 'call' else [(None, v) for v, _ in I.extra] if I.op == 'phi' else []
                    if I.op == 'store': vs = vs[:1]
                    for C, v in vs:
                        if v[0] == 'gep': v = v[2][0][1]
                        if v[0] == 'g': passed.setdefault(v[1], []).append((f, C))
        for rel, m in s.p.mods.items():
            for g in m.globals.values():
                if g.decl or g.ty.k != 'arr' or not g.init or g.init[0] != 'agg' or not g.ty.n: continue
                c = s.p.gid(g); el = g.ty.el
                cl = [(c, 0, el)] if el.k in ('ptr', 'int') else [((s.tname(el, g.rel), o), o, t) for o, t in zip(el.offsets(), el.fields or ()) if t.k in ('ptr', 'int')] if el.k == 'struct' else []
                if not cl or any(k in stored or k in bad and k != c for k, o, t in cl): continue
                if not g.const:
                    ok = True
                    for f, C in passed.get(g.name, ()):
                        if C is None: ok = False; break
                        t = s.p.target(f, C.extra)
                        if t is None and not (C.extra[0] == 'g' and C.extra[1] in PURE): ok = False; break
                        if t is not None and any(s.wild(h, el) for h in [t] + list(s.p.reach(t))): ok = False; break
                    if not ok: continue
                v = g.init[1][-1][1]; z = el.size(); cells = {}
                for k, o, t in cl:
                    x = v
                    if el.k == 'struct':
                        x = v[1][el.offsets().index(o)][1] if v and v[0] == 'agg' else ('zero',)
                    x = NULL if t.k == 'ptr' and (x is None or x[0] in ('zero', 'null')) else ZERO if t.k == 'int' and (x is None or x[0] == 'zero' or x == ('c', 0)) else None
                    if x is not None: cells[k] = ((c, K(z * (g.ty.n - 1) + o), t.size()), x)
                if cells: s.ro[c] = cells; s.roth |= {g.ty.n - 2, g.ty.n - 1, g.ty.n}
        # zeroed or recycled heap memory: every field of a heap object may be zero
        for c in s.known:
            t = s.elty(c)
            if c[0] != 'g': put(c, (0, 0) if t.k == 'int' else AP(True))
        s.init = init
    def cs(s, v, w): return v - (1 << w) if w > 8 and v >= 1 << (w - 1) else v
    def solve(s, funcs, log=None):
        s.esc = set(); s.unk = set(); s.narrow = False
        s.init_known(funcs)
        for c in list(s.init):
            t = s.elty(c)
            if t is not None and t.k in ('int', 'ptr') and c not in s.known: pass
        fs = set(funcs)
        roots = []
        for f in funcs:
            cl = s.p.callers.get(f, [])
            inl = s.inlinable(f, ())
            if cl and f not in s.p.taken and inl and all(I.fn in fs for I in cl): continue
            roots.append(f)
            ext = not cl or f in s.p.taken or not all(I.fn in fs for I in cl)
            for i, (t, n) in enumerate(f.params):
                if not ext: s.known.add(('par', f, i)); s.structs[('par', f, i)] = t
            if f in s.p.queued and f not in s.p.callers and len(f.params) == 3 and f.params[2][0].k == 'int' and s.events: s.known.add(('par', f, 2)); s.structs[('par', f, 2)] = f.params[2][0]
            if f.ret is not None and f.ret.k == 'int': s.known.add(('ret', f)); s.structs[('ret', f)] = f.ret
        s.roots = roots
        s.IF = dict((c, v) for c, v in s.init.items() if c in s.known)
        for rnd in range(40):
            s.round = rnd
            s.one(roots)
            nw = dict(s.IF); ch = []
            for c, v in s.newIF.items():
                o = nw.get(c)
                j = v if o is None else o.join(v) if isinstance(o, AP) and isinstance(v, AP) else hull(o, v) if isinstance(o, tuple) and isinstance(v, tuple) else TOPP
                if j != o:
                    ch.append(c)
                    if rnd >= 14 and o is not None and isinstance(j, tuple):
                        w = s.elty(c).w if s.elty(c) is not None and s.elty(c).k == 'int' else 64      # still growing: give up on the bound that moves
                        top = (1 << (w - 1)) - 1 if j[1] < 1 << (w - 1) else (1 << w) - 1
                        j = (j[0] if j[0] >= o[0] else -(1 << (w - 1)), j[1] if j[1] <= o[1] else top)
                    if rnd >= 3 and o is not None:
                        if isinstance(j, tuple):
                            th = sorted(s.gth | s.fth(c)); w = s.elty(c).w if s.elty(c) is not None and s.elty(c).k == 'int' else 64
                            lo, hi = j
                            if lo < o[0]: lo = max([x for x in th if x <= lo], default=-(1 << (w - 1)))
                            if hi > o[1]: hi = min([x for x in th if x >= hi], default=(1 << w) - 1)
                            j = (lo, hi)
                        elif isinstance(j, AP) and rnd >= 8 and j.size < o.size: j = AP(j.null, j.tg, 0)
                    nw[c] = j
            s.IF = nw
            if log: log('round %d: %d changed %s' % (rnd, len(ch), [str(s.clsname(None, c) if c[0] not in ('par', 'ret') else (c[0], c[1].name)) for c in ch[:8]]))
            if not ch: break
        else: raise Broken('field invariants do not stabilise')
        # descend once
        for k in range(2):
            base = {c: v for c, v in s.init.items() if c in s.known}
            for c, v in s.newIF.items():
                o = base.get(c); base[c] = v if o is None else o.join(v) if isinstance(o, AP) and isinstance(v, AP) else hull(o, v) if isinstance(o, tuple) and isinstance(v, tuple) else TOPP
            if base == s.IF: break
            s.IF = base
            s.one(roots)
        return s.obl
    def fth(s, c): return s.allth
    par = 0; events = False; defer = False
    def one(s, roots):
        s.newIF = {}; s.obl = {}; s.allth = set(); s.done = set(); s.reached = set()
        for f in roots: s.allth |= s.fi(f).th
        if not s.par or len(roots) < 2:
            for f in roots: s.root(f)
            return
        import os, pickle, select
        fn = lambda f: (f.rel, f.name)
        enc = lambda c: (c[0], fn(c[1])) + c[2:] if c[0] in ('par', 'ret') else c
        by = {fn(f): f for m in s.p.mods.values() for f in m.funcs.values()}
        dec = lambda c: (c[0], by[c[1]]) + c[2:] if c[0] in ('par', 'ret') else c
        queue = sorted(roots, key=lambda f: -s.p.size(f) if s.p.size(f) != INF else -10**6); live = {}
        def start(f):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    try:
                        s.root(f)
                        ob = [(fn(o.I.fn), o.I.blk, o.I.idx, o.kind, o.nm, o.ok, o.why) for o in s.obl.values()]
                        msg = (None, [(enc(c), v) for c, v in s.newIF.items()], ob, s.unk, s.done, [(fn(a), b) for a, b in s.reached])
                    except Broken as ex: msg = (str(ex),)
                    with os.fdopen(w, 'wb') as h: pickle.dump(msg, h)
                    code = 0
                finally: os._exit(code)
            os.close(w); live[r] = (pid, f, [])
        while queue or live:
            while queue and len(live) < s.par: start(queue.pop(0))
            for r in select.select(list(live), [], [])[0]:
                x = os.read(r, 1 << 20)
                if x: live[r][2].append(x); continue
                pid, f, ch = live.pop(r); os.close(r); os.waitpid(pid, 0)
                if not ch: raise Broken('%s: analysis worker died' % f.name)
                msg = pickle.loads(b''.join(ch))
                if msg[0]: raise Broken(msg[0])
                for c, v in msg[1]:
                    c = dec(c); o = s.newIF.get(c)
                    s.newIF[c] = v if o is None else o.join(v) if isinstance(o, AP) and isinstance(v, AP) else hull(o, v) if isinstance(o, tuple) and isinstance(v, tuple) else TOPP
                for g, blk, idx, kind, nm, ok, why in msg[2]:
                    g = by[g]; I = next(I for I in g.blocks[blk] if I.idx == idx)
                    k = (g, blk, idx, kind, nm); o = s.obl.get(k)
                    if o is None:
                        o = s.obl[k] = Obl(); o.ok = True; o.why = ''; o.I = I; o.fn = g.name; o.nm = nm; o.kind = kind
                    if not ok: o.ok = False; o.why = why
                s.unk |= msg[3]; s.done |= msg[4]; s.reached |= {(by[a], b) for a, b in msg[5]}
    def root(s, f):
        st = State(); I = f.blocks[f.order[0]][0]
        s.esc = set()
        for i, (t, n) in enumerate(f.params):
            c = ('par', f, i)
            if c in s.known:
                inv = s.IF.get(c)
                if inv is None: return
                if isinstance(inv, tuple): st.regs[n] = A(s.sym(st, I, (), 'par:' + n, *inv)); continue
                if isinstance(inv, AP) and inv.size not in (0, INF): st.regs[n] = Ptr(('s', s.sym(st, I, (), 'par:' + n)), ZERO, (ZERO, K(inv.size)), None, n); continue
            st.regs[n] = s.top(st, I, (), t, 'par:' + n)
        for c, d in s.ro.items():
            for k, (key, v) in d.items(): st.mem.setdefault(k, {})[key] = v
        s.record = True; s.done.add((f.rel, f.name))
        ex = s.run(f, st, ())
        for x, rv in ex:
            s.publish(x)
            if rv is not None: s.put(x, ('ret', f), rv, f.ret, None)
        s.record = False
