"""Write-behind buffers: typestate of a (file, position, buffer, dirty) structure on every path.

A structure is recognised by its use: a descriptor field and a buffer field handed to read() and write(), the field used as
lseek() argument (where in the file the buffer belongs), the field that guards write() (buffer differs from the file) and,
if there are any, the fields holding the length in use and the index of the next byte. Every function of the file is
followed on every path from every state that satisfies the invariant; numbers are linear terms over what the fields held at
entry, facts are linear inequalities from the branches, and entailment is by adding up at most three facts (no solver).
A helper that keeps the invariant by itself is used by its contract, any other one is followed inside its callers."""
import ir
from shape import K, S, ladd, lneg, islin
from common import loc, succ
from result import Broken
import paths

LOGS = ('log_print', 'llvm.', 'printf', 'fprintf')
UNK = ('u',)

class Role: pass

def stname(t): return t.name if t.k == 'struct' else None

def fieldptr(f, v, d=0):
    """('f', struct, offset) for the address of a structure member, seen through geps"""
    if v[0] != 'r' or d > 6: return None
    I = paths.defs(f).get(v[1])
    if I is None: return None
    if I.op == 'getelementptr' and stname(I.extra[0]) and len(I.extra[1]) >= 2 and I.extra[1][1][1][0] == 'c':
        t = I.extra[0]; off = t.offsets()[I.extra[1][1][1][1]]
        return ('f', t.name, off)
    if I.op == 'getelementptr' and I.extra[0].k == 'arr': return fieldptr(f, I.a[0], d + 1)
    return None
def fieldload(f, v, d=0):
    if v[0] != 'r' or d > 6: return None
    I = paths.defs(f).get(v[1])
    if I is None: return None
    if I.op in ('sext', 'zext', 'trunc'): return fieldload(f, I.a[0], d + 1)
    if I.op == 'load': return fieldptr(f, I.a[0])
    return None
def callee(I): return I.extra[1] if I.op == 'call' and len(I.extra) == 2 and I.extra[0] == 'g' else None

def top(d): return max(sorted(d), key=lambda k: d[k]) if d else None

def roles(mod, sname):
    r = Role(); r.sname = sname
    cnt = {k: {} for k in ('fd', 'buf', 'pos', 'len', 'dirty', 'idx')}
    def vote(k, c):
        if c and c[1] == sname: cnt[k][c[2]] = cnt[k].get(c[2], 0) + 1
    for f in mod.funcs.values():
        preds = {}
        for b in f.order:
            for x in succ(f, b): preds.setdefault(x, []).append(b)
        D = paths.defs(f)
        for b in f.order:
            for I in f.blocks[b]:
                n = callee(I)
                if n in ('read', 'write', 'pread', 'pwrite'):
                    fdc = fieldload(f, I.a[0][1]); vote('fd', fdc)
                    bp = fieldptr(f, I.a[1][1]) or fieldload(f, I.a[1][1])
                    if bp and n in ('read', 'pread'): vote('buf', bp)
                    if n in ('write', 'pwrite') and bp:
                        x = b
                        for _ in range(12):
                            ps = preds.get(x, [])
                            if len(ps) != 1: break
                            t = f.blocks[ps[0]][-1]
                            if t.op == 'br' and len(t.extra) == 2:
                                c = D.get(t.a[0][1]) if t.a[0][0] == 'r' else None
                                if c is not None and c.op == 'icmp':
                                    q = fieldload(f, c.a[0])
                                    if q and q != fdc: vote('dirty', q); break
                            x = ps[0]
                elif n == 'lseek':
                    vote('fd', fieldload(f, I.a[0][1])); vote('pos', fieldload(f, I.a[1][1]))
                elif I.op == 'store':
                    v = I.a[0]; j = 0
                    while v[0] == 'r' and j < 4:
                        d = D.get(v[1]); j += 1
                        if d is None: break
                        if d.op in ('trunc', 'sext', 'zext'): v = d.a[0]; continue
                        if callee(d) in ('read', 'pread'): vote('len', fieldptr(f, I.a[1]))
                        break
    r.fd, r.buf, r.pos, r.len, r.dirty = (top(cnt[k]) for k in ('fd', 'buf', 'pos', 'len', 'dirty'))
    st = mod.named(sname) if hasattr(mod, 'named') else None
    for f in mod.funcs.values():
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and fieldptr(f, I.a[0]) == ('f', sname, r.buf) and I.extra[0].k == 'arr' and len(I.extra[1]) > 1:
                    vote('idx', fieldload(f, I.extra[1][1][1]))
    r.idx = top(cnt['idx']); r.cnt = cnt
    o = {k: v for k, v in cnt['pos'].items() if k != r.pos}
    r.mark = top(o) if r.idx is not None else None
    return r

class St:
    __slots__ = ('regs', 'cells', 'facts', 'g')
    def __init__(s): s.regs = {}; s.cells = {}; s.facts = []; s.g = {}
    def copy(s):
        t = St(); t.regs = dict(s.regs); t.cells = dict(s.cells); t.facts = list(s.facts); t.g = dict(s.g); return t

class TooBig(Exception):
    def __init__(s, fns): s.fns = fns
class Bad(Exception):
    def __init__(s, key, msg, I): s.key = key; s.msg = msg; s.I = I

def mentions(v, sym):
    if v == sym: return True
    return isinstance(v, tuple) and any(mentions(x, sym) for x in v)

def r_len(E, t):
    r = E.r
    return r.idx is not None and not all(E.eq(t, t.cells[c], K(0)) for c in (r.pos, r.len, r.idx))

class Engine:
    def __init__(s, mod, r, size=None, limit=60000):
        s.mod = mod; s.r = r; s.size = size; s.limit = limit; s.contract = {}; s.inprog = set(); s.paths = 0; s.exits = 0; s.events = 0; s.bads = {}; s.direct = set(); s.way = {}; s.steps = {}
        s.rel = {c for c in (r.pos, r.len, r.dirty, r.idx) if c is not None}
        s.embedded = any(I.op == 'getelementptr' and I.extra[0].k == 'arr' and fieldptr(f, I.a[0]) == ('f', r.sname, r.buf)
                         for f in mod.funcs.values() for b in f.order for I in f.blocks[b])
        s.extra = set() if r.mark is None else {r.mark}; s.mark = r.mark; s.loads = []; s.writes = []
    # ---------------------------------------------------------------- facts
    def prove(s, st, e):
        if not e[2]: return e[1] >= 0
        fs = st.facts
        def go(e, n):
            if not e[2]: return e[1] >= 0
            if n == 0 or len(e[2]) > 4: return False
            # some fact of the sum must bring in the first term with its sign
            x0, c0 = e[2][0]
            for f in fs:
                if any(x == x0 and (c > 0) == (c0 > 0) for x, c in f[2]) and go(ladd(e, f, -1), n - 1): return True
            return False
        return any(go(e, n) for n in (1, 2, 3, 4))
    def eq(s, st, a, b):
        d = ladd(a, b, -1)
        return not d[2] and d[1] == 0 or bool(d[2]) and s.prove(st, d) and s.prove(st, lneg(d))
    def assume(s, st, e):
        """False when contradictory"""
        if not e[2]: return e[1] >= 0
        if s.prove(st, ladd(K(-1), e, -1)): return False
        if e not in st.facts and all(s.keep(x) for x, c in e[2]) : st.facts.append(e)
        return True
    def keep(s, sym): return isinstance(sym, tuple) and (sym[0] in ('c', 'rd') or sym == ('f0', s.r.fd))
    def kill(s, st, sym):
        st.facts = [f for f in st.facts if not any(x == sym for x, c in f[2])]
        for d in (st.regs, st.cells, st.g):
            for k in list(d):
                if mentions(d[k], sym): d[k] = UNK if d is not st.cells else S(('old', k))
    def fresh(s, st, sym):
        s.kill(st, sym); return S(sym)
    # ---------------------------------------------------------------- entry states and invariant
    def entry(s, f, init):
        r = s.r; out = []
        for d in (0, 1):
            st = St()
            for c in s.rel: st.cells[c] = S(('c', c, 'in'))
            st.cells[r.dirty] = K(0)
            if d:
                if init: continue
                st.cells[r.dirty] = S(('c', r.dirty, 'in')); st.facts += [ladd(st.cells[r.dirty], K(-1)), S(('f0', r.fd))]   # changed data belongs to an open file
            for c in s.extra: st.cells[c] = S(('c', c, 'in'))
            s.invariant(st)
            if s.mark is not None: st.g['mark'] = st.cells[s.mark]
            st.g['mod'] = bool(d); st.g['at'] = st.cells[r.pos] if not init else 'any'
            st.g['init'] = init; st.g['acc'] = (); st.g['foff'] = UNK
            if r.idx is not None: st.g['L'] = ladd(st.cells[r.pos], st.cells[r.idx])
            out.append(st)
        return out
    def invariant(s, st):
        r = s.r
        st.facts.append(st.cells[r.pos])
        if r.idx is not None:
            i, n = st.cells[r.idx], st.cells[r.len]
            for e in (i, ladd(n, i, -1), ladd(K(s.size), n, -1)):
                if e[2]: st.facts.append(e)
    def check_inv(s, st):
        """None, or what is wrong"""
        r = s.r; g = st.g
        pos = st.cells[r.pos]
        if g['mod']:
            if not s.prove(st, ladd(st.cells[r.dirty], K(-1))): return 'dirty', 'changed data in the buffer is not marked as changed, it can be discarded'
        if g['at'] != 'any' and not (r.len is not None and not g['mod'] and s.eq(st, st.cells[r.len], K(0))):
            if g['at'] == UNK or not s.eq(st, g['at'], pos): return 'place', 'the buffer holds a different part of the file than the position field says'
        if r.idx is not None:
            i, n = st.cells[r.idx], st.cells[r.len]
            if not s.prove(st, i): return 'index', 'the buffer index can become negative'
            if not s.prove(st, ladd(n, i, -1)): return 'index', 'the buffer index can pass the length of the buffer'
            if not s.prove(st, ladd(K(s.size), n, -1)): return 'length', 'the length in use can exceed the buffer'
        if g.get('lost'): return 'cut', 'changed data in the buffer is cut off'
        return None
    # ---------------------------------------------------------------- values
    def val(s, st, v, fr):
        k = v[0]
        if k == 'r': return st.regs.get((fr, v[1]), UNK)
        if k == 'c': return K(v[1])
        if k == 'null': return ('null',)
        if k == 'g': return ('gl', v[1])
        return UNK
    def filefn(s, f):
        c = f.__dict__.get('_filefn')
        if c is None: c = f._filefn = any(callee(I) in ('read', 'pread', 'lseek') for b in f.order for I in f.blocks[b])
        return c
    def sval(s, st, v, fr, ty):
        """the operand read as a signed number of its type"""
        w = getattr(ty, 'w', None)
        if v[0] == 'c' and w and w > 1 and v[1] >> (w - 1) == 1: return K(v[1] - (1 << w))
        return s.val(st, v, fr)
    def lin(s, st, v):
        return v if islin(v) else S(('x', v))
    # ---------------------------------------------------------------- exploration
    def isinit(s, f, seen=()):
        c = s.__dict__.setdefault('_init', {})
        if f.name in c: return c[f.name]
        if f.name in seen: return False
        def calls(g, names): return any(callee(I) in names for b in g.order for I in g.blocks[b])
        v = calls(f, {'open', 'open64', 'fopen'})
        if not v:
            cs = [g for g in s.mod.funcs.values() if g.order and g is not f and calls(g, {f.name})]
            v = bool(cs) and not calls(f, {'close', 'fclose'}) and all(s.isinit(g, seen + (f.name,)) for g in cs)
        c[f.name] = v
        return v
    def reported(s, k):
        """a helper only called from this file answers through its callers"""
        f = s.mod.funcs[k]
        if not f.__dict__.get('internal') or k in s.direct or k in s.mod_refs(): return True
        return not any(callee(I) == k for g in s.mod.funcs.values() if g is not f for b in g.order for I in g.blocks[b])
    def mod_refs(s):
        if '_refs' not in s.__dict__:
            r = set()
            for g in s.mod.funcs.values():
                for b in g.order:
                    for I in g.blocks[b]:
                        for a in I.a:
                            v = a[1] if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) else a
                            if v and v[0] == 'g': r.add(v[1])
            s._refs = r
        return s._refs
    inlined = frozenset(); inl = 0; budget = 4000
    atexit = None
    def analyse(s, f, init=None):
        """contract of f: True when it keeps the invariant from every invariant state; findings are remembered"""
        if init is None: init = s.isinit(f)
        k = f.name
        if k in s.contract: return s.contract[k]
        if k in s.inprog: return True
        s.inprog.add(k)
        bad = []; keep = s.inlined, s.inl; s.inlined = set(); s.inl = 0
        for st in s.entry(f, init):
            for i, (pn) in enumerate(f.params):
                nm = pn[1] if isinstance(pn, tuple) else pn
                st.regs[((), nm)] = ('p', i)
            try:
                for t, rv, I in s.run(f, st, ()):
                    s.exits += 1
                    w = s.check_inv(t)
                    if w is None and (init or t.g.get('closed')) and not s.eq(t, t.cells[s.r.dirty], K(0)): w = ('dirty', 'a buffer that holds nothing is left marked as changed')
                    if w is None and init and r_len(s, t): w = ('index', 'a new tape does not start with an empty buffer at its beginning')
                    if w is None: w = s.position(f, t, rv)
                    if w is None and s.atexit is not None: w = s.atexit(s, f, t)
                    if w: bad.append((w[0], w[1], loc(f, I)))
            except Bad as e:
                bad.append((e.key, e.msg, loc(e.I.fn, e.I)))
            except TooBig as e:
                # too much to follow inside the helpers that do not keep the invariant: they answer for it themselves
                s.direct |= e.fns; bad = []; break
        if bad: s.direct |= set(s.inlined)
        s.inprog.discard(k); s.inlined, s.inl = keep
        seen = set(); s.bads[k] = [b for b in bad if not (b in seen or seen.add(b))]
        s.contract[k] = not bad
        return not bad
    def position(s, f, st, rv):
        r = s.r; g = st.g
        if r.idx is None or g['init']: return None
        L = ladd(st.cells[r.pos], st.cells[r.idx]); G = g['L']
        acc = g['acc']
        if g.get('pw') and rv == K(0) and not (g['mark'] != UNK and s.eq(st, st.cells[s.mark], ladd(g['mark'], K(g['pw'])))): return ('position', 'a byte of the record length is stored without stepping over it')
        if g.get('pw') and rv == K(0): s.steps[f.name] = g['pw']
        if G == UNK: return ('position', 'the position can no longer be followed')
        for k, a in acc:
            if k == 'w' and not (s.eq(st, a, G) and s.eq(st, L, ladd(G, K(1)))):
                return ('position', 'a byte is stored in the buffer but the position does not advance over exactly that byte')
        if s.eq(st, L, G):
            if rv is not None and acc and any(s.eq(st, a, G) for k, a in acc): return s.turn(f, rv, 0)
            return None
        if s.eq(st, L, K(0)): return None
        if s.eq(st, L, ladd(G, K(1))):
            if any(s.eq(st, a, G) for k, a in acc): return s.turn(f, rv, 1)
            return ('position', 'the position advances over a byte that was neither read nor written')
        if s.eq(st, L, ladd(G, K(-1))):
            if any(s.eq(st, a, L) for k, a in acc): return s.turn(f, rv, -1)
            return ('position', 'the position moves back over a byte that was not read')
        return ('position', 'the position in the file changes by something other than the byte moved')
    def turn(s, f, rv, d):
        """returns with the same status move in the same direction"""
        if rv is None or not islin(rv) or rv[2]: return None
        if s.way.setdefault((f.name, rv[1]), d) != d: return ('position', 'the position sometimes moves and sometimes does not, or moves the other way, with the same status returned')
        return None
    def run(s, f, st, ctx):
        """-> [(state, return value, ret instruction)]"""
        outs = []; heads = s.heads(f)
        start = (f.order[0], st)
        seen = set(); work = [start]; n = 0
        while work:
            b, st = work.pop()
            key = (b, s.key(f, b, st, ctx))
            if key in seen: continue
            seen.add(key); n += 1; s.paths += 1
            if n > s.limit: raise Broken('too many states in %s' % f.name)
            if ctx or s.inlined:
                s.inl += 1
                if s.inl > s.budget: raise TooBig(set(s.inlined))
            cur = [st]
            for I in f.blocks[b]:
                if I.op == 'phi': continue
                if I.op in ('br', 'switch', 'ret', 'unreachable'): break
                nx = []
                for x in cur: nx += s.step(f, I, x, ctx)
                cur = nx
            t = f.blocks[b][-1]
            for x in cur:
                if t.op == 'ret':
                    outs.append((x, s.val(x, t.a[0], ctx) if t.a else None, t)); continue
                if t.op == 'unreachable': continue
                for nb, y in s.targets(f, t, x, ctx):
                    new = {}
                    for P in f.blocks[nb]:
                        if P.op != 'phi': break
                        for v, fb in P.extra:
                            if fb == b:
                                q = s.val(y, v, ctx)
                                new[(ctx, P.res)] = q
                    if nb in heads: s.widen(f, nb, y, ctx, new)
                    y.regs.update(new)
                    work.append((nb, y))
        return outs
    def widen(s, f, nb, st, ctx, new):
        for k in new:
            if islin(new[k]): new[k] = UNK
    def heads(s, f):
        h = f.__dict__.get('_heads')
        if h is None:
            h = set(); seen = set(); stack = []
            def dfs(b):
                seen.add(b); stack.append(b)
                for x in succ(f, b):
                    if x in stack: h.add(x)
                    elif x not in seen: dfs(x)
                stack.pop()
            dfs(f.order[0]); f._heads = h
        return h
    def key(s, f, b, st, ctx):
        L = set(s.live(f)[b]) | {P.res for P in f.blocks[b] if P.op == 'phi'}
        rg = tuple(sorted(((k, v) for k, v in st.regs.items() if k[0] != ctx or k[1] in L), key=repr))
        for k in [k for k in st.regs if k[0] == ctx and k[1] not in L]: del st.regs[k]
        used = {('f0', s.r.fd)}
        def w(v):
            if isinstance(v, tuple):
                if v and v[0] == 'L':
                    for x, c in v[2]: used.add(x)
                else:
                    for x in v: w(x)
        for k, v in rg: w(v)
        for v in st.cells.values(): w(v)
        for v in st.g.values(): w(v)
        ch = True
        while ch:
            ch = False
            for e in st.facts:
                vs = {x for x, c in e[2]}
                if vs & used and not vs <= used: used |= vs; ch = True
        st.facts = [e for e in st.facts if any(x in used for x, c in e[2])]
        return (rg, tuple(sorted(st.cells.items(), key=repr)), tuple(sorted(st.facts, key=repr)), tuple(sorted(st.g.items(), key=repr)))
    def live(s, f):
        x = paths.Explorer(None)
        x.live(f, f.order[0])
        return f._live
    def targets(s, f, t, st, ctx):
        if t.op == 'br':
            if len(t.extra) == 1: return [(t.extra[0], st)]
            c = s.val(st, t.a[0], ctx); out = []
            for k, tgt in ((True, t.extra[0]), (False, t.extra[1])):
                for y in s.branch(st, c, k): out.append((tgt, y))
            return out
        c = s.val(st, t.a[0], ctx)
        if islin(c) and not c[2]:
            for k, l in t.extra[2]:
                if k == c[1]: return [(l, st)]
            return [(t.extra[1], st)]
        out = []; seen = set()
        for l in [t.extra[1]] + [l for k, l in t.extra[2]]:
            if l not in seen: seen.add(l); out.append((l, st.copy()))
        return out
    def branch(s, st, c, k):
        if islin(c) and not c[2]: return [st.copy()] if bool(c[1]) == k else []
        if isinstance(c, tuple) and c and c[0] == 'cmp':
            p, a, b = c[1:]
            if not k: p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[p]
            if not islin(a) or not islin(b):
                if p in ('eq', 'ne') and {a, b} & {('null',)}:
                    o = a if b == ('null',) else b
                    if o == ('null',): return [st.copy()] if p == 'eq' else []
                    if o[0] in ('buf', 'p', 'fld', 'loc', 'gl'): return [st.copy()] if p == 'ne' else []
                return [st.copy()]
            if p == 'eq':
                t = st.copy(); d = ladd(a, b, -1)
                return [t] if s.assume(t, d) and s.assume(t, lneg(d)) else []
            if p == 'ne':
                d = ladd(a, b, -1); r = []
                if not d[2]: return [st.copy()] if d[1] else []
                for e in (ladd(d, K(-1)), ladd(lneg(d), K(-1))):
                    t = st.copy()
                    if s.assume(t, e): r.append(t)
                if len(r) == 2 and not all(s.keep(x) for x, cc in d[2]): r = r[:1]
                return r
            if p[0] == 'u':
                pa = s.prove(st, a); pb = s.prove(st, b)
                if not (pa and pb):
                    # a negative side counts as huge
                    r = []
                    if pb and p in ('ult', 'ule'): t = st.copy(); r = [t] if s.assume(t, a) and s.assume(t, ladd(ladd(b, a, -1), K(-1 if p == 'ult' else 0))) else []
                    elif pb and p in ('uge', 'ugt'):
                        t = st.copy(); 
                        if s.assume(t, ladd(K(-1), a, -1)): r.append(t)
                        t = st.copy()
                        if s.assume(t, a) and s.assume(t, ladd(ladd(a, b, -1), K(-1 if p == 'ugt' else 0))): r.append(t)
                    else: r = [st.copy()]
                    return r
                p = 's' + p[1:]
            e = {'slt': lambda: ladd(ladd(b, a, -1), K(-1)), 'sle': lambda: ladd(b, a, -1), 'sgt': lambda: ladd(ladd(a, b, -1), K(-1)), 'sge': lambda: ladd(a, b, -1)}[p]()
            t = st.copy()
            return [t] if s.assume(t, e) else []
        if isinstance(c, tuple) and c and c[0] == 'not': return s.branch(st, c[1], not k)
        return [st.copy()]
    # ---------------------------------------------------------------- instructions
    def step(s, f, I, st, ctx):
        o = I.op; R = st.regs; r = s.r
        if o == 'alloca': R[(ctx, I.res)] = ('loc', ctx, I.res); return [st]
        if o == 'getelementptr': R[(ctx, I.res)] = s.gep(f, I, st, ctx); return [st]
        if o == 'load':
            p = s.val(st, I.a[0], ctx); v = UNK
            if p[0] == 'fld' and p[1] in st.cells: v = st.cells[p[1]]
            elif p[0] == 'fld' and p[1] == r.buf and not s.embedded: v = ('buf', K(0))
            elif p[0] == 'fld' and I.ty.k == 'int': v = st.g.get(('w', p[1]), S(('f0', p[1])))
            elif p[0] == 'buf': s.access(st, 'r', p[1], I); v = UNK
            elif p[0] == 'tab': v = S(p)
            R[(ctx, I.res)] = v; return [st]
        if o == 'store':
            p = s.val(st, I.a[1], ctx); v = s.sval(st, I.a[0], ctx, I.extra)
            if p[0] == 'fld':
                c = p[1]
                if c in s.rel: s.setcell(st, c, s.lin(st, v), I)
                elif c == r.buf: pass
                elif c in s.extra: st.cells[c] = s.lin(st, v)
                else: st.g[('w', c)] = v if s.filefn(f) and islin(v) else UNK
            elif p[0] == 'buf': s.access(st, 'w', p[1], I)
            return [st]
        if o in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = s.val(st, I.a[0], ctx)
            if v[0] == 'cmp' and o == 'zext': v = ('bool', v)
            elif v[0] == 'bool' and o == 'trunc': v = v[1]
            R[(ctx, I.res)] = v; return [st]
        if o == 'icmp':
            a, b = s.sval(st, I.a[0], ctx, I.extra[1]), s.sval(st, I.a[1], ctx, I.extra[1]); p = I.extra[0]
            if a[0] == 'bool' and b == K(0) and p in ('eq', 'ne'): v = a[1] if p == 'ne' else ('not', a[1])
            else: v = ('cmp', p, a, b)
            R[(ctx, I.res)] = v; return [st]
        if o in ('add', 'sub'):
            a, b = s.sval(st, I.a[0], ctx, I.ty), s.sval(st, I.a[1], ctx, I.ty)
            R[(ctx, I.res)] = ladd(a, b, 1 if o == 'add' else -1) if islin(a) and islin(b) else UNK
            return [st]
        if o == 'mul':
            a, b = s.val(st, I.a[0], ctx), s.val(st, I.a[1], ctx); v = UNK
            if islin(a) and islin(b):
                if not a[2]: a, b = b, a
                if not b[2]:
                    v = K(0)
                    v = ('L', a[1] * b[1], tuple((x, c * b[1]) for x, c in a[2])) if b[1] else K(0)
                else:
                    fs = []
                    for x in (a, b):
                        if len(x[2]) == 1 and x[1] == 0 and x[2][0][1] == 1 and isinstance(x[2][0][0], tuple) and x[2][0][0][0] == 'mul': fs += list(x[2][0][0][1:])
                        else: fs.append(x)
                    v = S(('mul',) + tuple(sorted(fs, key=repr)))
            R[(ctx, I.res)] = v; return [st]
        if o == 'xor' and I.ty.k == 'int' and I.ty.w == 1 and I.a[1][0] == 'c':
            R[(ctx, I.res)] = ('not', s.val(st, I.a[0], ctx)); return [st]
        if o == 'select':
            c = s.val(st, I.a[0], ctx); out = []
            for k in (True, False):
                for y in s.branch(st, c, k):
                    y.regs[(ctx, I.res)] = s.val(y, I.a[1 if k else 2], ctx); out.append(y)
            return out
        if o == 'call': return s.call(f, I, st, ctx)
        if I.res: R[(ctx, I.res)] = UNK
        return [st]
    def gep(s, f, I, st, ctx):
        b = s.val(st, I.a[0], ctx); t = I.extra[0]; idx = I.extra[1]
        if stname(t) == s.r.sname and len(idx) >= 2 and idx[1][1][0] == 'c':
            off = t.offsets()[idx[1][1][1]]
            if off == s.r.buf and s.embedded: return ('buf', K(0))
            return ('fld', off)
        if b[0] == 'buf':
            iv = idx[-1][1]; x = s.val(st, iv, ctx)
            if islin(x) and islin(b[1]): return ('buf', ladd(b[1], x))
            return ('buf', UNK)
        if b[0] == 'gl' or b[0] == 'tab':
            xs = tuple(s.val(st, v, ctx) for tt, v in idx)
            return ('tab', b, xs) if all(islin(x) for x in xs) else UNK
        if b[0] == 'loc': return b
        return UNK
    def setcell(s, st, c, v, I):
        r = s.r
        if c == r.len and st.g['mod'] and not s.prove(st, ladd(v, st.cells[c], -1)): st.g['lost'] = True
        st.cells[c] = v
        if c == r.len and not st.g['mod'] and s.eq(st, v, K(0)): st.g['at'] = 'any'
    def access(s, st, k, i, I):
        r = s.r; g = st.g; s.events += 1
        if r.idx is not None and islin(i):
            if k == 'w' or s.data(I):
                if k == 'w' and (not s.prove(st, i) or not s.prove(st, ladd(K(s.size - 1), i, -1))): raise Bad('bounds', 'a byte is stored outside the buffer', I)
                if k == 'r' and (not s.prove(st, i) or not s.prove(st, ladd(K(s.size - 1), i, -1))): raise Bad('bounds', 'a byte is fetched outside the buffer', I)
                base = g['at'] if g['at'] not in ('any', UNK) else st.cells[r.pos]
                if k == 'w' and s.prev(st, ladd(base, i)): k = 'p'; g['pw'] = g.get('pw', 0) + 1
                g['acc'] = tuple(list(g['acc'])[-3:] + [(k, ladd(base, i))])
        elif r.idx is not None and k == 'w': raise Bad('position', 'a byte is stored at an index that cannot be followed', I)
        if k in ('w', 'p') and not g['init']: g['mod'] = True; 
        if k in ('w', 'p') and g['init'] and g['at'] != 'any': g['mod'] = True
    def prev(s, st, a): return s.mark is not None and s.mark in st.cells and s.eq(st, a, st.cells[s.mark])
    def data(s, I):
        """does the byte loaded leave the function (and is not only logged)?"""
        f = I.fn
        for b in f.order:
            for J in f.blocks[b]:
                if J.op == 'store' and J.a[0] == ('r', I.res): return True
                if J.op == 'ret' and J.a and J.a[0] == ('r', I.res): return True
                if J.op == 'phi' and any(v == ('r', I.res) for v, fb in J.extra): return True
        return False
    # ---------------------------------------------------------------- calls
    def call(s, f, I, st, ctx):
        n = callee(I); r = s.r; g = st.g
        A = [s.val(st, v, ctx) if v[0] != 'meta' else UNK for t, v in I.a]
        site = (f.name, I.idx if I.idx is not None else id(I), I.blk)
        def ret(st, v):
            if I.res: st.regs[(ctx, I.res)] = v
            return [st]
        if n is None: return ret(st, UNK)
        if n.startswith(LOGS): return ret(st, UNK)
        if n == 'lseek':
            if A[2] == K(0): g['foff'] = A[1]
            else: g['foff'] = UNK
            return ret(st, UNK)
        if n in ('read', 'pread', 'write', 'pwrite'):
            off = A[3] if n[0] == 'p' else g['foff']
            isbuf = A[1][0] == 'buf'
            if n.endswith('read'):
                if isbuf:
                    s.events += 1
                    if g['mod']: raise Bad('overwrite', 'the buffer is refilled while it holds data that was not written to the file', I)
                    if A[1][1] != K(0): raise Bad('place', 'the buffer is not filled from its start', I)
                    if s.size and not s.prove(st, ladd(K(s.size), s.lin(st, A[2]), -1)): raise Bad('length', 'more is read than the buffer holds', I)
                    g['at'] = off; g['loaded'] = (A[2], off)
                    s.loads.append((f, I, off, A[2], st.copy()))
                x = s.fresh(st, ('rd', site)); st.facts.append(ladd(x, K(1)))
                if islin(A[2]) and all(s.keep(y) for y, c in A[2][2]): st.facts.append(ladd(A[2], x, -1))
                if not n[0] == 'p': g['foff'] = UNK
                return ret(st, x)
            if isbuf:
                s.events += 1
                if g['at'] != 'any':
                    if off == UNK or g['at'] == UNK or not s.eq(st, off, g['at']): raise Bad('place', 'the buffer is written at a file position other than the one it was read from', I)
                if A[1][1] != K(0): raise Bad('place', 'the buffer is not written from its start', I)
                if r.len is not None and not (islin(A[2]) and s.eq(st, A[2], st.cells[r.len])): raise Bad('length', 'not all of the buffer in use is written', I)
                s.writes.append((f, I, off, A[2]))
                g['mod'] = False
            elif r.idx is not None and A[1][0] == 'loc' and islin(A[2]):
                # a direct write must not touch what the buffer covers
                ok = False
                if off != UNK and g['at'] not in (UNK, 'any') and A[2] == K(1):
                    d = ladd(off, g['at'], -1)
                    ok = s.prove(st, ladd(d, st.cells[r.len], -1)) or s.prove(st, ladd(K(-1), d, -1))
                if not ok: raise Bad('direct', 'the file is written behind the back of the buffer', I)
                g['pw'] = g.get('pw', 0) + 1
                if s.mark is not None and not s.eq(st, off, st.cells[s.mark]): raise Bad('direct', 'the byte is written to another place than the marked record', I)
            x = s.fresh(st, ('rd', site)); st.facts.append(ladd(x, K(1)))
            if n == 'write': g['foff'] = ladd(off, A[2]) if islin(off) and islin(A[2]) and not s.inloop(f, I) else UNK
            return ret(st, x)
        if n in ('close', 'free'):
            v = A[0] if A else UNK
            if g['mod'] and (n == 'close' or v[0] == 'buf'):
                raise Bad('overwrite', 'the %s while the buffer holds data that was not written to the file' % ('file is closed' if n == 'close' else 'buffer is released'), I)
            if n == 'close': g['at'] = 'any'; g['closed'] = True
            return ret(st, UNK)
        if n in ('open', 'calloc', 'malloc', 'strdup', 'fopen'): return ret(st, UNK)
        if n in ('memset', 'llvm.memset.p0.i64', 'memcpy', 'llvm.memcpy.p0.p0.i64') and A[0][0] == 'buf':
            s.access(st, 'w', UNK if r.idx is not None else A[0][1], I); return ret(st, UNK)
        t = s.mod.funcs.get(n)
        if t is None or not t.order: return ret(st, UNK)
        if len(ctx) > 6: raise Broken('calls nested too deeply at %s' % loc(f, I))
        if s.touches(t):
            w = s.check_inv(st) if not g['init'] else 'init'
            ok = w is None and (r.idx is None or s.position(f, st, None) is None)
            if ok and s.moves(t) and s.analyse(t):
                # use the contract
                if g['acc'] or True:
                    if r.idx is not None: g['acc'] = ()
                out = []
                for d in ((0,) if s.isinit(t) else (0, 1)):
                    y = st.copy()
                    for c in s.rel:
                        y.cells[c] = s.fresh(y, ('c', c, site))
                    y.cells[r.dirty] = K(0) if not d else S(('c', r.dirty, site))
                    y.facts = [e for e in y.facts if not any(x == ('c', r.dirty, site) for x, c in e[2])]
                    if d: y.facts.append(ladd(y.cells[r.dirty], K(-1)))
                    s.invariant(y)
                    y.g['mod'] = bool(d); y.g['at'] = y.cells[r.pos]; y.g['foff'] = UNK
                    if r.idx is not None: y.g['L'] = ladd(y.cells[r.pos], y.cells[r.idx])
                    for c in s.extra: y.cells[c] = s.fresh(y, ('c', c, site))
                    if s.mark is not None: y.g['mark'] = y.cells[s.mark]; y.g.pop('pw', None)
                    out += ret(y, UNK)
                return out
            out = []; s.inlined.add(n)
            sub = ctx + ((f.name, I.res, site),)
            for i, pn in enumerate(t.params):
                nm = pn[1] if isinstance(pn, tuple) else pn
                if i < len(A): st.regs[(sub, nm)] = A[i]
            for y, rv, J in s.run(t, st, sub):
                for k in [k for k in y.regs if k[0] == sub]: del y.regs[k]
                out += ret(y, rv if rv is not None else UNK)
            return out
        return ret(st, UNK)
    def onbuf(s, f, v, d=0, here=False):
        """address of a byte of the buffer, however it is formed"""
        if v[0] != 'r' or d > 8: return False
        I = paths.defs(f).get(v[1])
        if I is None: return False
        if I.op == 'getelementptr':
            if stname(I.extra[0]) == s.r.sname and len(I.extra[1]) >= 2 and I.extra[1][1][1][0] == 'c':
                return bool(d) and s.embedded and I.extra[0].offsets()[I.extra[1][1][1][1]] == s.r.buf
            return s.onbuf(f, I.a[0], d + 1)
        if I.op == 'phi': return any(s.onbuf(f, x, d + 1) for x, fb in I.extra)
        if I.op in ('select',): return any(s.onbuf(f, x, d + 1) for x in I.a[1:])
        if I.op == 'load': return bool(d) and not s.embedded and fieldptr(f, I.a[0]) == ('f', s.r.sname, s.r.buf)
        return False
    def moves(s, t):
        """does t access bytes of the buffer itself or through what it calls, or contain a loop?"""
        c = s.__dict__.setdefault('_mv', {})
        if t.name in c: return c[t.name]
        c[t.name] = True; v = bool(s.heads(t))
        for b in t.order:
            for I in t.blocks[b]:
                if I.op in ('load', 'store') and s.onbuf(t, I.a[-1]): v = True
                n = callee(I)
                if n and n in s.mod.funcs and s.mod.funcs[n].order and n != t.name and s.touches(s.mod.funcs[n]) and s.moves(s.mod.funcs[n]): v = True
        c[t.name] = v
        return v
    def inloop(s, f, I):
        seen = set(); w = list(succ(f, I.blk if isinstance(I.blk, str) else s.blockof(f, I)))
        b0 = I.blk if isinstance(I.blk, str) else s.blockof(f, I)
        while w:
            b = w.pop()
            if b == b0: return True
            if b in seen: continue
            seen.add(b); w += succ(f, b)
        return False
    def blockof(s, f, I):
        for b in f.order:
            if I in f.blocks[b]: return b
    def touches(s, t, seen=None):
        """does t (or what it calls in this file) use the structure's tracked state?"""
        c = s.__dict__.setdefault('_tch', {})
        if t.name in c: return c[t.name]
        c[t.name] = False; v = False
        for b in t.order:
            for I in t.blocks[b]:
                if I.op == 'getelementptr' and stname(I.extra[0]) == s.r.sname and len(I.extra[1]) >= 2 and I.extra[1][1][1][0] == 'c':
                    o = I.extra[0].offsets()[I.extra[1][1][1][1]]
                    if o in s.rel or o == s.r.buf or o == s.r.fd: v = True
                n = callee(I)
                if n in ('read', 'write', 'lseek'): v = True
                if n and n in s.mod.funcs and s.mod.funcs[n].order and s.touches(s.mod.funcs[n]): v = True
        c[t.name] = v
        return v
