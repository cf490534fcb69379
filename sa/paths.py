"""Path-sensitive typestate exploration: ghost state x intervals of the SSA values that steer branches.

explore(f, ghost, hook): every (return value, ghost, trail) the function can end with. States are kept as sets per
block and visited once each, so loops terminate; only values originating in constants, phis of such, hooked calls and
casts of those are tracked, everything else is unknown (both branch directions are followed)."""
from common import succ

class TooMany(Exception): pass

def _cast(op, v, w):
    if v is None: return None
    lo, hi = v
    if op == 'zext' and lo < 0: return None
    return v

PRED = {'eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'}

def icmp(p, a, b):
    """True/False/None for interval operands"""
    if a is None or b is None: return None
    if p[0] == 'u':
        if a[0] < 0 or b[0] < 0: return None
        p = 's' + p[1:]
    if p == 'eq':
        if a[0] == a[1] == b[0] == b[1]: return True
        return False if a[1] < b[0] or b[1] < a[0] else None
    if p == 'ne':
        r = icmp('eq', a, b); return None if r is None else not r
    if p == 'slt': return True if a[1] < b[0] else False if a[0] >= b[1] else None
    if p == 'sge': r = icmp('slt', a, b); return None if r is None else not r
    if p == 'sgt': return icmp('slt', b, a)
    if p == 'sle': r = icmp('slt', b, a); return None if r is None else not r
    return None

def const(v):
    if v[0] == 'c': return (v[1], v[1])
    if v[0] == 'null': return (0, 0)
    if v[0] == 'g': return (1, 1 << 62)
    return None

class Explorer:
    def __init__(s, hook, load=None, limit=60000, edge=None):
        s.hook = hook; s.edge = edge; s.load = load; s.limit = limit; s.n = 0; s.memo = {}; s.stack = []; s.src = {}
    def run(s, f, ghost):
        """-> dict (ret, ghost) -> trail (list of instructions that changed the ghost)"""
        k = (f, ghost)
        if k in s.memo: return s.memo[k]
        if f in s.stack: return {(None, ghost): ()}
        s.stack.append(f)
        out = {}
        start = (f.order[0], frozenset(), ghost)
        seen = {start: ()}; work = [start]
        while work:
            st = work.pop(); b, env, gh = st; trail = seen[st]
            s.n += 1
            if s.n > s.limit: raise TooMany(f.name)
            envs = [(dict(env), gh, trail)]
            for I in f.blocks[b]:
                if I.op == 'phi' : continue            # handled on the edge
                nx = []
                for e, g, tr in envs:
                    nx += s.step(f, I, e, g, tr, out)
                envs = nx
                if not envs: break
            t = f.blocks[b][-1]
            for e, g, tr in envs:
                for nb in s.targets(f, t, e):
                    e2 = e
                    if len(nb) > 1 and nb[1]:
                        e2 = dict(e); e2.update(nb[1])
                    ph = {}
                    for P in f.blocks[nb[0]]:
                        if P.op != 'phi': break
                        for v, fb in P.extra:
                            if fb == b:
                                x = s.val(e2, v)
                                if x is not None: ph[P.res] = x
                    e3 = {r: x for r, x in e2.items() if r not in {P.res for P in f.blocks[nb[0]] if P.op == 'phi'}}
                    e3.update(ph)
                    live = s.live(f, nb[0])
                    g3 = s.edge(f, t, nb[0], g) if s.edge and t.op == 'br' and len(t.extra) == 2 else g
                    ns = (nb[0], frozenset((r, x) for r, x in e3.items() if r in live or r in ph or r[0] == 'm' and isinstance(r, tuple) and r[1] is not None), g3)
                    if ns not in seen: seen[ns] = tr; work.append(ns)
        s.stack.pop()
        s.memo[k] = out
        return out
    def val(s, e, v):
        if v[0] == 'r': return e.get(v[1])
        return const(v)
    def live(s, f, b):
        L = f.__dict__.get('_live')
        if L is None:
            use = {}; df = {}
            for x in f.order:
                u = set(); d = set()
                for I in f.blocks[x]:
                    if I.op != 'phi':
                        for r in ops(I):
                            if r not in d: u.add(r)
                    if I.res: d.add(I.res)
                use[x] = u; df[x] = d
            for x in f.order:                                   # values phis read on an edge are live out of the source
                for y in succ(f, x):
                    for P in f.blocks[y]:
                        if P.op != 'phi': break
                        for v, fb in P.extra:
                            if fb == x and v[0] == 'r' and v[1] not in df[x]: use[x].add(v[1])
            L = {x: set(use[x]) for x in f.order}; ch = True
            while ch:
                ch = False
                for x in reversed(f.order):
                    n = set(use[x])
                    for y in succ(f, x): n |= L[y] - df[x]
                    if n != L[x]: L[x] = n; ch = True
            f._live = L
        return L[b]
    def targets(s, f, t, e):
        if t.op == 'br':
            if len(t.extra) == 1: return [(t.extra[0],)]
            c = s.val(e, t.a[0])
            if c == (1, 1): return [(t.extra[0],)]
            if c == (0, 0): return [(t.extra[1],)]
            out = []
            for k, tgt in ((1, t.extra[0]), (0, t.extra[1])):
                r = s.refine(f, t.a[0], k, e)
                if r is not False: out.append((tgt, r))
            return out
        if t.op == 'switch':
            c = s.val(e, t.a[0])
            if c and c[0] == c[1]:
                for k, l in t.extra[2]:
                    if k == c[0]: return [(l,)]
                return [(t.extra[1],)]
            return [(t.extra[1],)] + [(l,) for k, l in t.extra[2] if c is None or c[0] <= k <= c[1]]
        return []
    def refine(s, f, c, k, e):
        """facts learned on the edge (dict), or False when impossible"""
        if c[0] != 'r': return {}
        r = {c[1]: (k, k)}
        d = defs(f).get(c[1])
        if d is not None and d.op == 'icmp':
            for i in (0, 1):
                a, b = d.a[i], s.val(e, d.a[1 - i])
                if a[0] == 'r' and b is not None and b[0] == b[1] and d.extra[0] in ('eq', 'ne'):
                    if (d.extra[0] == 'eq') == bool(k): r[a[1]] = b
        return r
    def step(s, f, I, e, g, tr, out):
        o = I.op
        if o == 'call':
            h = s.hook(s, f, I, g)
            if h is None: return [(e, g, tr)]
            rs = []
            for x in h:
                v, g2 = x[0], x[1]
                e2 = dict(e)
                if I.res:
                    e2.pop(I.res, None)
                    if v is not None: e2[I.res] = v
                rs.append((e2, g2, tr if g2 == g else tr + ((x[2] if len(x) > 2 and x[2] is not None else I),)))
            return rs
        if o == 'ret':
            v = s.val(e, I.a[0]) if I.a else None
            out.setdefault((v, g), tr)
            return []
        if o == 'unreachable': return []
        if o == 'store' and I.extra.k == 'ptr':
            k = ('m', addr(f, I.a[1]))
            v = s.val(e, I.a[0])
            if v is not None: e[k] = v
            else: e.pop(k, None)
        if I.res:
            v = None
            if o in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'): v = _cast(o, s.val(e, I.a[0]), 0)
            elif o == 'icmp':
                c = icmp(I.extra[0], s.val(e, I.a[0]), s.val(e, I.a[1]))
                v = None if c is None else (int(c), int(c))
            elif o == 'xor' and I.a[1] == ('c', 1) or o == 'xor' and I.a[1] == ('c', -1) and I.ty.w == 1:
                x = s.val(e, I.a[0]); v = (1 - x[0], 1 - x[0]) if x and x[0] == x[1] and x[0] in (0, 1) else None
            elif o == 'select':
                c = s.val(e, I.a[0])
                if c: v = s.val(e, I.a[1] if c == (1, 1) else I.a[2])
            elif o == 'load':
                v = s.load(f, I, g) if s.load else None
                if v is None: v = e.get(('m', addr(f, I.a[0])))
                if v is not None: s.src.setdefault(f, {})[I.res] = ('m', addr(f, I.a[0]))
            if v is not None: e[I.res] = v
            else: e.pop(I.res, None)
        return [(e, g, tr)]

def defs(f):
    d = f.__dict__.get('_defs')
    if d is None: d = f._defs = {I.res: I for b in f.order for I in f.blocks[b] if I.res}
    return d

def addr(f, v, d=0):
    """syntactic identity of an address: geps and loads over parameters, globals and values that never change"""
    if v[0] != 'r': return repr(v)
    if d > 12: return None
    c = f.__dict__.setdefault('_addr', {})
    if v[1] in c: return c[v[1]]
    I = defs(f).get(v[1]); r = v
    if I is not None:
        if I.op == 'getelementptr':
            r = ('gep', addr(f, I.a[0], d + 1), tuple((str(t), addr(f, x, d + 1)) for t, x in I.extra[1]), str(I.extra[0]))
        elif I.op == 'load': r = ('ld', addr(f, I.a[0], d + 1))
        elif I.op in ('sext', 'zext', 'trunc'): r = (I.op, addr(f, I.a[0], d + 1))
    c[v[1]] = r
    return r

def ops(I):
    r = []
    def w(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and isinstance(x[1], str): r.append(x[1])
        elif isinstance(x, (list, tuple)):
            for y in x: w(y)
    w(I.a)
    if I.op != 'phi': w(I.extra)
    return r
