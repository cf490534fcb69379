"""Shared helpers: slots holding function pointers, source locations, CFG queries."""
import ir, build
from result import Result, Broken

def loc(f, I=None):
    """file:line function"""
    m = f.mod
    rel = m.src.split('/src/', 1)[-1]
    if I is not None and I.dbg is not None:
        fn, l = m.line(I.dbg)
        fn = fn.split('/src/', 1)[-1]
        return '%s:%d %s()' % (fn if '/' in fn or fn.endswith('.c') else rel, l, f.name)
    try: l = int(m.meta(f.dbg).get('line'))
    except Exception: l = 0
    return '%s:%d %s()' % (rel, l, f.name)

def slot_fns(mods, mb, sname, fname):
    """functions stored anywhere into a function-pointer field: name -> [(rel, storing function)]"""
    r = {}
    for rel, m in mods.items():
        d = m.di_struct(sname)
        if d is None: continue
        off = [o for o, z, n, t in m.members(d) if n == fname]
        if not off: continue
        for f in m.funcs.values():
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'store' and I.a[0][0] == 'g' and mb.base_cell(f, I.a[1]) == ('S', 'struct.' + sname, off[0]):
                        g = mb.target(f, I.a[0][1])
                        if g is not None: r.setdefault(g, []).append((rel, f.name))
    return r

def succ(f, b):
    t = f.blocks[b][-1]
    if t.op == 'br':
        return [x for x in t.extra] if isinstance(t.extra, (list, tuple)) else [t.extra]
    if t.op == 'switch': return [t.extra[1]] + [x for _, x in t.extra[2]]
    return []

def postdoms(f):
    """block -> set of post-dominators (a virtual exit joins every return)"""
    S = {b: succ(f, b) for b in f.order}
    EX = None
    allb = set(f.order) | {EX}
    pd = {b: set(allb) for b in f.order}; pd[EX] = {EX}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            ss = S[b] or [EX]
            n = set.intersection(*[pd[x] for x in ss]) | {b}
            if n != pd[b]: pd[b] = n; ch = True
    return pd

def ipostdom(pd, b):
    c = pd[b] - {b}
    for x in c:
        if all(x == y or y in pd[x] for y in c): return x
    return None
