"""Whole-program, flow-insensitive 'which bits can this field ever hold' analysis.

Cells are (innermost struct type, byte offset) -- arrays collapsed to one element -- or
(global, byte offset).  The result is a mask of bits that may be one, an over-approximation of
every value any store in the program can put there (memory is assumed zero-allocated or fully
initialised by those same stores)."""
import ir

TOP64 = (1 << 64) - 1
def mask(w): return (1 << w) - 1
def ones(x): return mask(x.bit_length())

class MayBits:
    def __init__(s, mods, cap=None):
        s.mods = list(mods)
        s.cell = {}          # key -> mask
        s.escaped = set()
        s.funcs = {}
        s.addr_taken = set()
        s.regs = {}
        s.params = {}
        s.rets = {}
        s.defs = {}
        s.addr = {}
        s.uses = {}
        for m in s.mods:
            for f in m.funcs.values():
                s.funcs.setdefault(f.name if not f.internal else (m.src, f.name), f)
        s.consts = {}        # key -> constants stored directly
        s.varmask = {}       # key -> mask of everything else stored
        s.bounds = {}        # (f, phi) -> (largest value inside the loop body, blocks of the body)
        s.cap = dict(cap or {})     # assumed field masks (verified separately)
        s.collect()
        s.loops()
        s.solve()
    def target(s, f, name):
        g = f.mod.funcs.get(name)
        if g is not None: return g
        g = s.funcs.get(name)
        return g
    # --- addresses
    def gep_cell(s, f, I):
        bt, idx = I.extra
        t = bt; off = 0; inner = None; ioff = 0; arr = False
        base_known = None
        if t.k == 'struct' and t.name: inner = t.name; ioff = 0
        first = True
        for ty, v in idx:
            if first: first = False; continue
            if t.k == 'struct':
                n = v[1]; o = t.offsets()[n]; t = t.fields[n]; ioff += o
                if t.k == 'struct' and t.name: inner = t.name; ioff = 0
            elif t.k == 'arr':
                t = t.el
                if t.k == 'struct' and t.name: inner = t.name; ioff = 0
        if inner is not None: return ('S', inner, ioff)
        return None
    def base_cell(s, f, o, depth=0):
        """abstract cell an address operand denotes, or None"""
        if o[0] == 'g':
            g = f.mod.globals.get(o[1])
            if g is None: return None
            gk = (f.mod.src, o[1]) if g.internal else o[1]
            return ('G', gk, 0)
        if o[0] == 'gep':
            I = ir.Instr(); I.extra = (o[1], o[2][1:]); c = s.gep_cell(f, I)
            b = s.base_cell(f, o[2][0][1])
            if c is not None: return c
            return b
        if o[0] != 'r': return None
        d = s.defs[f].get(o[1])
        if d is None: return None
        k = (f, o[1])
        if k in s.addr: return s.addr[k]
        s.addr[k] = None
        r = None
        if d.op == 'getelementptr':
            r = s.gep_cell(f, d)
            if r is None:
                # indexing an array (collapsed) or plain pointer arithmetic on a known cell
                b = s.base_cell(f, d.a[0])
                if b is not None and d.extra[0].k == 'arr' or b is not None: r = b
        elif d.op in ('bitcast', 'freeze'): r = s.base_cell(f, d.a[0])
        elif d.op == 'phi':
            cs = {s.base_cell(f, v) for v, _ in d.extra if not (v[0] == 'null')}
            r = cs.pop() if len(cs) == 1 else None
        elif d.op == 'select':
            cs = {s.base_cell(f, v) for v in d.a[1:]}
            r = cs.pop() if len(cs) == 1 else None
        elif d.op == 'alloca': r = ('A', f.name, d.res)
        s.addr[k] = r
        return r
    def collect(s):
        for m in s.mods:
            for f in m.funcs.values():
                s.defs[f] = {I.res: I for b in f.order for I in f.blocks[b] if I.res}
        for m in s.mods:
            for f in m.funcs.values():
                for b in f.order:
                    for I in f.blocks[b]:
                        ops = [(None, v) for v in I.a] if I.op != 'call' else list(I.a)
                        for j, (t, v) in enumerate(ops):
                            if I.op in ('load',) or I.op == 'store' and j == 1 or I.op == 'getelementptr' and j == 0: continue
                            if I.op == 'icmp' or I.op in ('bitcast', 'freeze', 'select'): continue
                            if I.op == 'call' and isinstance(I.extra, tuple) and I.extra[0] == 'g':
                                n = I.extra[1]
                                if n.startswith('llvm.mem'):
                                    c = s.base_cell(f, v) if v[0] in ('r', 'g', 'gep') else None
                                    if c and j == 0:
                                        z = I.a[1][1]
                                        if n.startswith('llvm.memset') and z == ('c', 0): continue
                                        if n.startswith('llvm.memset') and z[0] == 'c' and c[0] == 'G':
                                            # byte pattern, whatever the element width
                                            s.put(c, int.from_bytes(bytes([z[1] & 255]) * 8, 'little')); continue
                                        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                                            # whole-object copies keep each cell's own mask
                                            src = s.base_cell(f, I.a[1][1])
                                            if src == c: continue
                                        s.escaped.add(c)
                                    continue
                                if n in ('free', 'strlen', 'strcmp', 'fclose', 'fprintf', 'printf', 'fwrite', 'fputs', 'log_print', 'write', 'log_print_s'): continue
                            if v[0] in ('r', 'g', 'gep'):
                                if v[0] == 'g' and (v[1] in m.funcs or v[1] in m.decls):
                                    s.addr_taken.add(v[1]); continue
                                if v[0] == 'r':
                                    d = s.defs[f].get(v[1])
                                    if d is None or d.op not in ('getelementptr', 'bitcast'): continue
                                c = s.base_cell(f, v)
                                if c is not None: s.escaped.add(c)
                        if I.op == 'phi':
                            for v, _ in I.extra:
                                if v[0] == 'r' and s.defs[f].get(v[1]) is not None and s.defs[f][v[1]].op == 'getelementptr':
                                    if s.base_cell(f, ('r', I.res)) is None:
                                        c = s.base_cell(f, v)
                                        if c: s.escaped.add(c)
            for g in m.globals.values():
                if g.decl: continue
                if g.name.startswith('.str') or g.name.startswith('str.'): continue
                try: iv = g.init
                except Exception: continue
                st = [iv]
                while st:
                    v = st.pop()
                    if v is None: continue
                    if v[0] == 'g': s.addr_taken.add(v[1])
                    elif v[0] == 'agg': st += [x for t, x in v[1]]
                    elif v[0] == 'gep': st += [x for t, x in v[2]]
                s.ginit(m, g)
    def ginit(s, m, g):
        gk = (m.src, g.name) if g.internal else g.name
        def rec(t, v, inner, off):
            if t.k == 'struct':
                nm = t.name
                if v[0] == 'agg':
                    for (ft, fv), o in zip(v[1], t.offsets()):
                        if nm: rec(ft, fv, nm, o)
                        else: rec(ft, fv, inner, off + o)
                return
            if t.k == 'arr':
                if v[0] == 'agg':
                    for et, ev in v[1]: rec(et, ev, inner, off)
                elif v[0] == 'str': s.put(('S', inner, off) if inner else ('G', gk, 0), 255)
                return
            if t.k == 'int' and v[0] == 'c' and v[1]:
                s.put(('S', inner, off) if inner else ('G', gk, 0), v[1], True)
        rec(g.ty, g.init, None, 0)
    def put(s, k, v, const=False):
        if k in s.cap and not const: v &= s.cap[k]
        if const: s.consts.setdefault(k, set()).add(v)
        else: s.varmask[k] = s.varmask.get(k, 0) | v
        o = s.cell.get(k, 0)
        if v & ~o: s.cell[k] = o | v; s.dirty = True
    def alts(s, k):
        """constants a cell can hold that its variable part cannot, and the variable part's mask"""
        m = s.varmask.get(k, 0)
        return sorted(c for c in s.consts.get(k, ()) if c & ~m), m
    def loops(s):
        """counting loops: phi [c0], [phi + 1] left when phi reaches a constant"""
        for m in s.mods:
            for f in m.funcs.values():
                defs = s.defs[f]
                for b in f.order:
                    br = f.blocks[b][-1]
                    if br.op != 'br' or not br.a or br.a[0][0] != 'r': continue
                    c = defs.get(br.a[0][1])
                    if c is None or c.op != 'icmp' or c.a[1][0] != 'c' or c.a[0][0] != 'r': continue
                    ph = defs.get(c.a[0][1])
                    while ph is not None and ph.op in ('sext', 'zext') and ph.a[0][0] == 'r': ph = defs.get(ph.a[0][1])
                    if ph is None or ph.op != 'phi': continue
                    ok = len(ph.extra) == 2
                    for v, pb in ph.extra:
                        if v[0] == 'c': ok = ok and v[1] < 1 << 31
                        else:
                            d = defs.get(v[1]) if v[0] == 'r' else None
                            ok = ok and d is not None and d.op == 'add' and d.a[0] == ('r', ph.res) and d.a[1] == ('c', 1)
                    if not ok: continue
                    pred = c.extra[0] if isinstance(c.extra, tuple) else c.extra
                    top = {'slt': c.a[1][1] - 1, 'ult': c.a[1][1] - 1, 'sle': c.a[1][1], 'ule': c.a[1][1], 'ne': c.a[1][1] - 1}.get(pred)
                    if top is None or top < 0: continue
                    tb = br.extra[0] if br.extra else None
                    if tb is None: continue
                    body = s.dominated(f, tb, b)
                    if body: s.bounds[(f, ph.res)] = (top, body)
    def dominated(s, f, t, pred):
        succ = {b: s.succ(f, b) for b in f.order}
        if sum(t in x for x in succ.values()) != 1: return None
        seen = set(); st = [f.order[0]]
        while st:
            b = st.pop()
            if b in seen or b == t: continue
            seen.add(b); st += succ[b]
        return frozenset(b for b in f.order if b not in seen)
    def succ(s, f, b):
        I = f.blocks[b][-1]
        if I.op == 'br': return [x for x in I.extra if x]
        if I.op == 'switch': return [I.extra[1]] + [x for _, x in I.extra[2]]
        return []
    # --- values
    def ev(s, f, o, w):
        if o[0] == 'c': return o[1]
        if o[0] == 'r':
            bd = s.bounds.get((f, o[1]))
            if bd is not None and s.curb in bd[1]: return ones(bd[0]) & s.regs.get((f, o[1]), 0)
            return s.regs.get((f, o[1]), 0)
        if o[0] in ('undef', 'null', 'zero'): return 0
        return mask(w)
    def solve(s):
        s.dirty = True; rounds = 0
        for m in s.mods:
            for f in m.funcs.values():
                for t, n in f.params:
                    if t.k == 'int' and (f.name in s.addr_taken or not s.called(f)): s.regs[(f, n)] = mask(t.w)
        while s.dirty and rounds < 80:
            s.dirty = False; rounds += 1
            for m in s.mods:
                for f in m.funcs.values():
                    for b in f.order:
                        s.curb = b
                        for I in f.blocks[b]: s.step(f, I, rounds)
        s.rounds = rounds
    def called(s, f):
        if not hasattr(s, '_called'):
            s._called = set()
            for m in s.mods:
                for g in m.funcs.values():
                    for b in g.order:
                        for I in g.blocks[b]:
                            if I.op == 'call' and I.extra[0] == 'g':
                                t = s.target(g, I.extra[1])
                                if t is not None: s._called.add(t)
        return f in s._called
    def setr(s, f, n, v):
        k = (f, n); o = s.regs.get(k, 0)
        if v & ~o: s.regs[k] = o | v; s.dirty = True
    def step(s, f, I, rounds):
        op = I.op
        if op == 'store':
            if I.extra.k != 'int': return
            c = s.base_cell(f, I.a[1])
            if c is None or c[0] == 'A': 
                return
            s.put(c, s.ev(f, I.a[0], I.extra.w), I.a[0][0] == 'c'); return
        if op == 'ret':
            if I.a and I.ty.k == 'int':
                v = s.ev(f, I.a[0], I.ty.w); o = s.rets.get(f, 0)
                if v & ~o: s.rets[f] = o | v; s.dirty = True
            return
        if op == 'call':
            if I.extra[0] == 'g':
                g = s.target(f, I.extra[1])
                if g is not None:
                    for (t, v), (pt, pn) in zip(I.a, g.params):
                        if pt.k == 'int': s.setr(g, pn, s.ev(f, v, pt.w))
                    if I.res and I.ty.k == 'int': s.setr(f, I.res, s.rets.get(g, 0))
                    return
            if I.res and I.ty.k == 'int': s.setr(f, I.res, mask(I.ty.w))
            return
        if not I.res or I.ty.k != 'int': return
        w = I.ty.w; M = mask(w)
        if op == 'load':
            c = s.base_cell(f, I.a[0])
            if c in s.cap: v = s.cap[c] & M
            elif c is None or c in s.escaped or c[0] == 'A': v = M
            else: v = s.cell.get(c, 0) & M
        elif op == 'phi':
            v = 0
            for x, _ in I.extra: v |= s.ev(f, x, w)
        elif op == 'select': v = s.ev(f, I.a[1], w) | s.ev(f, I.a[2], w)
        elif op in ('icmp', 'fcmp'): v = 1
        elif op == 'zext': v = s.ev(f, I.a[0], I.extra.w)
        elif op == 'trunc': v = s.ev(f, I.a[0], I.extra.w) & M
        elif op == 'sext':
            v = s.ev(f, I.a[0], I.extra.w)
            if v >> (I.extra.w - 1) & 1: v |= M & ~mask(I.extra.w)
        elif op in ('and', 'or', 'xor', 'add', 'mul', 'shl', 'lshr', 'ashr', 'sub', 'udiv', 'sdiv', 'urem', 'srem'):
            a = s.ev(f, I.a[0], w); b = s.ev(f, I.a[1], w)
            cb = I.a[1][1] if I.a[1][0] == 'c' else None
            if op == 'and': v = a & b
            elif op in ('or', 'xor'): v = a | b
            elif op == 'add':
                if a & b == 0: v = a | b
                else: v = ones(a + b) if a + b <= M and rounds < 8 else M if a and b else a | b
            elif op == 'mul': v = ones(a * b) if a * b <= M and rounds < 8 else M if a and b else 0
            elif op == 'shl': v = (a << cb) & M if cb is not None else (M if a else 0)
            elif op == 'lshr': v = a >> cb if cb is not None else ones(a)
            elif op == 'ashr': v = (a >> cb) | ((M & ~(M >> cb)) if a >> (w - 1) else 0) if cb is not None else (M if a >> (w - 1) else ones(a))
            elif op == 'udiv' or op == 'sdiv' and not a >> (w - 1) and not b >> (w - 1): v = ones(a)
            elif op == 'urem' or op == 'srem' and not a >> (w - 1): v = ones(min(a, (cb - 1) if cb else b if b else a)) 
            else: v = M if a or b else 0
        else: v = M
        s.setr(f, I.res, v & M)
    def bits(s, struct, off, w):
        k = ('S', struct, off)
        if k in s.cap: return s.cap[k] & mask(w)
        if k in s.escaped: return mask(w)
        return s.cell.get(k, 0) & mask(w)

LIBC_PURE = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'isalpha', 'isdigit', 'isspace', 'isalnum', 'toupper', 'tolower', 'abs',
             '__ctype_b_loc', '__ctype_toupper_loc', '__ctype_tolower_loc', 'strchr', 'strrchr', 'strstr', 'memcmp', 'getenv', 'atoi', '__errno_location', 'strerror'}

class Effects:
    """transitive may-write sets per function: cells, plus ('ext', name) for externals and ('unk',) for unresolved stores"""
    def __init__(s, mb):
        s.mb = mb; s.direct = {}; s.calls = {}; s.icalls = {}; s.sites = {}
        for m in mb.mods:
            for f in m.funcs.values(): s.scan(f)
        s.trans = {f: set(w) for f, w in s.direct.items()}
        ch = True
        while ch:
            ch = False
            for f, cs in s.calls.items():
                for g in cs:
                    n = s.trans.get(g, set()) - s.trans[f]
                    if n: s.trans[f] |= n; ch = True
    def scan(s, f):
        w = set(); c = set(); mb = s.mb
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'store':
                    k = mb.base_cell(f, I.a[1])
                    if k is None: k = ('unk', f.name)
                    if k[0] == 'A': continue
                    w.add(k); s.sites.setdefault((f, k), I)
                elif I.op == 'call':
                    if I.extra[0] == 'g':
                        n = I.extra[1]
                        g = mb.target(f, n)
                        if g is not None: c.add(g); s.sites.setdefault((f, g), I); continue
                        if n.startswith('llvm.mem'):
                            k = mb.base_cell(f, I.a[0][1])
                            if k is None: k = ('unk', f.name)
                            if k[0] != 'A': w.add(k + ('mem',) if k[0] == 'S' else k); s.sites.setdefault((f, k), I)
                            continue
                        if n.startswith('llvm.') or n in LIBC_PURE: continue
                        w.add(('ext', n)); s.sites.setdefault((f, ('ext', n)), I)
                        for t, v in I.a:
                            if t.k == 'ptr' and v[0] in ('r', 'g', 'gep'):
                                k = mb.base_cell(f, v)
                                if k is not None and k[0] != 'A' and not s.const_global(f, v): w.add(k); s.sites.setdefault((f, k), I)
                    else: w.add(('icall', f.name)); s.icalls.setdefault(f, []).append(I)
        s.direct[f] = w; s.calls[f] = c
    def const_global(s, f, v):
        if v[0] == 'g':
            g = f.mod.globals.get(v[1]); return g is not None and (g.const or v[1].startswith('.str'))
        return False
    def path(s, f, k):
        """call chain from f to a function that writes cell k"""
        from collections import deque
        q = deque([(f, (f,))]); seen = {f}
        while q:
            g, p = q.popleft()
            if k in s.direct.get(g, ()): return p
            for h in s.calls.get(g, ()):
                if h not in seen: seen.add(h); q.append((h, p + (h,)))
        return ()
