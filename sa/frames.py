"""Framing of tape records: how far each tape operation moves along the image and which bytes it finds or leaves there.

Abstract interpretation over linear terms. The byte moving functions are used by the contracts wbuf.py proves for them
(+1, -1, 0 with the status returned); format words are tracked as known bits, record lengths as linear terms, bytes of a
record length as (term, shift). Loops that count from constants are followed exactly, any other loop is taken with the
invariant that position minus bytes moved is unchanged."""
import re
import wbuf, paths
from wbuf import UNK, K, S, islin, ladd, lneg, callee, Broken, Engine, fieldptr
from common import loc, succ

NZ = ('nz',)      # a status other than OK

class Frames(Engine):
    def __init__(s, mod, r, names, way, steps, limit=30000):
        Engine.__init__(s, mod, r, None, limit)
        s.F = names; s.embedded = True; s.way = {fn: d for (fn, rv), d in way.items() if rv == 0}; s.steps = steps
        s.tracked = {names[k] for k in ('format', 'lrecl', 'orecl', 'srec', 'pos', 'pos_buff')}
    budget = 60000
    def keep(s, sym): return True
    # ------------------------------------------------------------ state
    def key(s, f, b, st, ctx):
        L = set(s.live(f)[b]) | {P.res for P in f.blocks[b] if P.op == 'phi'}
        for k in [k for k in st.regs if k[0] == ctx and k[1] not in L]: del st.regs[k]
        z = lambda d: tuple(sorted(d.items(), key=repr))
        return (z(st.regs), z(st.cells), tuple(sorted(st.facts, key=repr)), z(st.g))
    def start(s, f, fmt, func, extra_set=0, extra_clear=0, facts=()):
        F = s.F; st = wbuf.St(); M = s.M
        mask = M['TAPE_FMT'] | (M['FUNC_M'] << M['FUNC_V']) | extra_set | extra_clear
        st.cells[F['format']] = ('kb', mask, fmt | (func << M['FUNC_V']) | extra_set)
        for n in ('lrecl', 'orecl', 'srec', 'pos', 'pos_buff'): st.cells[F[n]] = S(n)
        for n in ('lrecl', 'orecl', 'pos', 'pos_buff'): st.facts.append(S(n))
        st.facts += list(facts)
        st.g.update(L=ladd(S('pos'), S('pos_buff')), err=False, reads=(), writes=(), prev=(), par=(), comp=())
        for i, pn in enumerate(f.params):
            nm = pn[1] if isinstance(pn, tuple) else pn
            st.regs[((), nm)] = ('p', i)
        return st
    def explore(s, f, st): s.inl = 0; return s.run(f, st, ())
    # ------------------------------------------------------------ loops
    def movers(s, f, h):
        """does the loop with head h move the tape?"""
        body = {h}; ch = True
        while ch:
            ch = False
            for b in f.order:
                if b not in body and any(x in body for x in succ(f, b)) and s.reach(f, h, b): body.add(b); ch = True
        return any(callee(I) in s.way or callee(I) in s.steps or (callee(I) in s.mod.funcs and s.mod.funcs[callee(I)].order and s.touches(s.mod.funcs[callee(I)]))
                   for b in body for I in f.blocks[b] if I.op == 'call')
    def reach(s, f, a, b):
        c = f.__dict__.setdefault('_rch', {})
        if a not in c:
            seen = set(); w = [a]
            while w:
                x = w.pop()
                if x in seen: continue
                seen.add(x); w += succ(f, x)
            c[a] = seen
        return b in c[a]
    def widen(s, f, nb, st, ctx, new):
        cst = [islin(v) and not v[2] and abs(v[1]) <= 32 or v[0] == 'loc' and abs(v[3]) <= 32 for v in new.values()]
        if cst and all(cst): return                                     # a counter with a known value
        n = st.g.get(('it', ctx, nb), 0)
        if any(cst) and n < 8 and all(c or v[0] in ('byt', 'or', 'orc', 'andc') for c, v in zip(cst, new.values())): st.g[('it', ctx, nb)] = n + 1; return    # a counter and what is worked out along with it
        for k in new:
            if new[k] != NZ: new[k] = UNK
        if not s.movers(f, nb): return
        F = s.F; g = st.g; tag = (f.name, nb)
        l = st.cells[F['lrecl']]
        fmt = st.cells[F['format']]; seq = fmt[0] == 'kb' and (fmt[2] & s.M['TAPE_FMT']) == s.M['TYPE_P7B']
        if g['L'] == UNK: return
        if seq:
            st.cells[F['lrecl']] = s.fr(st, ('h', tag, 'l')); g['L'] = s.fr(st, ('h', tag, 'L')); g['reads'] = g['writes'] = (); return
        c = ladd(g['L'], l, -1) if islin(l) else UNK
        if c == UNK: g['L'] = UNK; return
        if any(x == ('h', tag, 'l') for x, k in c[2]): g['L'] = UNK; g['drift'] = True; return
        low = s.prove(st, l); o = st.cells[F['orecl']]; up = islin(o) and s.prove(st, ladd(o, l, -1))
        t = s.fr(st, ('h', tag, 'l'))
        st.cells[F['lrecl']] = t; g['L'] = ladd(c, t)
        if low: st.facts.append(t)
        if up: st.facts.append(ladd(o, t, -1))
        g['reads'] = g['writes'] = ()
    def fr(s, st, sym):
        s.kill(st, sym); return S(sym)
    # ------------------------------------------------------------ branching
    def branch(s, st, c, k):
        if isinstance(c, tuple) and c and c[0] == 'cmp':
            p, a, b = c[1:]
            if NZ in (a, b):
                o = b if a == NZ else a
                if o == K(0) and p in ('eq', 'ne'): return [st.copy()] if (p == 'ne') == k else []
                return [st.copy()]
            if isinstance(a, tuple) and a[0] == 'kb' and b == K(0) and p in ('eq', 'ne'):
                if a[2]: return [st.copy()] if (p == 'ne') == k else []
                if a[1] == -1: return [st.copy()] if (p == 'eq') == k else []
                return [st.copy()]
            if isinstance(a, tuple) and a[0] == 'par' and islin(b) and not b[2] and p in ('eq', 'ne'):
                odd = (b[1] == 1) == ((p == 'eq') == k)
                d = dict(st.g['par'])
                if a[1] in d: return [st.copy()] if d[a[1]] == odd else []
                t = st.copy(); d[a[1]] = odd; t.g['par'] = tuple(sorted(d.items(), key=repr)); return [t]
            if p[0] == 'u' and islin(a) and islin(b): c = ('cmp', 's' + p[1:], a, b)   # lengths stay far below 2^31
        return Engine.branch(s, st, c, k)
    def targets(s, f, t, st, ctx):
        if t.op == 'switch':
            c = s.val(st, t.a[0], ctx)
            if isinstance(c, tuple) and c[0] == 'kb':
                out = []
                for l, val in [(l, v) for v, l in t.extra[2]]:
                    if (val & c[1]) == (c[2] & 0xffffffff if c[1] == -1 else c[2]): out.append((l, st.copy()))
                if c[1] == -1 and out: return out
                return out[:1] if c[1] == -1 else out + [(t.extra[1], st.copy())]
        return Engine.targets(s, f, t, st, ctx)
    # ------------------------------------------------------------ instructions
    def step(s, f, I, st, ctx):
        o = I.op; R = st.regs; F = s.F
        if o == 'load':
            p = s.val(st, I.a[0], ctx); v = UNK
            if p[0] == 'fld': v = st.cells.get(p[1], ('nn',) if I.ty.k == 'ptr' else UNK)
            elif p[0] == 'loc': v = st.g.get(('m',) + p[1:], UNK)
            elif p == ('p', 1): v = st.g.get('out', UNK)
            R[(ctx, I.res)] = v; return [st]
        if o == 'store':
            p = s.val(st, I.a[1], ctx); v = s.sval(st, I.a[0], ctx, I.extra)
            if p[0] == 'fld' and p[1] in s.tracked:
                if isinstance(v, tuple) and v[0] == 'or':
                    for sym, x in st.g['comp']:
                        if x == v: v = S(sym); break
                    else:
                        sym = ('rec', len(st.g['comp'])); st.g['comp'] += ((sym, v),); v = S(sym); st.facts.append(v)
                if p[1] == F['format']:
                    st.cells[p[1]] = v if isinstance(v, tuple) and v[0] == 'kb' else ('kb', -1, v[1]) if islin(v) and not v[2] else UNK
                else: st.cells[p[1]] = v
            elif p[0] == 'loc': st.g[('m',) + p[1:]] = v
            elif p == ('p', 1): st.g['out'] = v
            return [st]
        if o == 'getelementptr':
            b = s.val(st, I.a[0], ctx); t = I.extra[0]; idx = I.extra[1]
            if wbuf.stname(t) == s.r.sname and len(idx) >= 2 and idx[1][1][0] == 'c':
                R[(ctx, I.res)] = ('fld', t.offsets()[idx[1][1][1]]); return [st]
            if b[0] == 'loc':
                i = K(b[3] if len(b) > 3 else 0)
                x = s.sval(st, idx[-1][1], ctx, idx[-1][0])
                R[(ctx, I.res)] = b[:3] + (i[1] + x[1],) if islin(x) and not x[2] else UNK
                return [st]
            R[(ctx, I.res)] = UNK; return [st]
        if o == 'alloca': R[(ctx, I.res)] = ('loc', ctx, I.res, 0); return [st]
        if o in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr') and I.ty.k == 'int' and I.ty.w > 1:
            R[(ctx, I.res)] = s.bits(o, s.sval(st, I.a[0], ctx, I.ty), s.sval(st, I.a[1], ctx, I.ty), I.ty.w); return [st]
        if o in ('urem', 'udiv', 'srem') and islin(s.val(st, I.a[1], ctx)):
            a, b = s.val(st, I.a[0], ctx), s.val(st, I.a[1], ctx)
            if b == K(2) and islin(a) and o != 'udiv': R[(ctx, I.res)] = ('par', a); return [st]
            n = b[1].bit_length() - 1
            if o[0] == 'u' and not b[2] and b[1] > 0 and b[1] == 1 << n: R[(ctx, I.res)] = s.bits('and', a, K(b[1] - 1), I.ty.w) if o == 'urem' else s.bits('lshr', a, K(n), I.ty.w); return [st]
        if o == 'add':
            v = s.bits('add', s.val(st, I.a[0], ctx), s.val(st, I.a[1], ctx), I.ty.w)
            if v[0] in ('or', 'byt', 'ext'): R[(ctx, I.res)] = v; return [st]
        if o in ('add', 'sub') and s.val(st, I.a[1], ctx) == K(0): R[(ctx, I.res)] = s.val(st, I.a[0], ctx); return [st]
        if o in ('trunc', 'zext', 'sext', 'freeze'):
            v = s.val(st, I.a[0], ctx)
            if isinstance(v, tuple):
                if v[0] == 'cmp' and o == 'zext': v = ('bool', v)
                elif v[0] == 'bool' and o == 'trunc': v = v[1]
                elif o == 'trunc' and I.ty.w == 8:
                    if islin(v): v = K(v[1] & 255) if not v[2] else ('ext', v, 0)
                    elif v[0] == 'shr': v = ('ext', v[1], v[2])
                elif o == 'trunc' and I.ty.w == 1 and islin(v) and v[2]: v = ('par', v)
            R[(ctx, I.res)] = v; return [st]
        if o == 'icmp':
            a, b = s.sval(st, I.a[0], ctx, I.extra[1]), s.sval(st, I.a[1], ctx, I.extra[1])
            if a[0] == 'loc' and b[0] == 'loc' and a[:3] == b[:3]: a, b = K(a[3]), K(b[3])
            if a == ('nn',) and b == ('null',): R[(ctx, I.res)] = K(int(I.extra[0] == 'ne')); return [st]
            if isinstance(a, tuple) and a[0] == 'kb' and a[1] == -1: a = K(a[2])
            R[(ctx, I.res)] = ('cmp', I.extra[0], a, b) if not (a[0] == 'bool' and b == K(0)) else (a[1] if I.extra[0] == 'ne' else ('not', a[1]))
            return [st]
        return Engine.step(s, f, I, st, ctx)
    def bits(s, o, a, b, w):
        if islin(a) and not islin(b) : a, b = (b, a) if o in ('and', 'or', 'xor') else (a, b)
        kb = lambda v: v if v[0] == 'kb' else ('kb', -1, v[1]) if islin(v) and not v[2] else None
        if islin(a) and not a[2] and islin(b) and not b[2]:
            x, y = a[1], b[1]; m = (1 << w) - 1
            return K({'add': x + y, 'and': x & y, 'or': x | y, 'xor': x ^ y, 'shl': (x << y) & m if y < w else 0, 'lshr': (x & m) >> y, 'ashr': x >> y}[o])
        if o == 'and' and islin(b) and not b[2]:
            if islin(a) and b[1] == 1: return ('par', a)
            if islin(a) and b[1] == 255: return ('ext', a, 0)
            if a[0] == 'shr' and b[1] == 255: return ('ext', a[1], a[2])
            if a[0] == 'ext' and b[1] & 255 == 255: return a
            if a[0] in ('byt', 'p') : return a if b[1] & 255 == 255 else ('andc', a, b[1] & 255)
        if o == 'or' and islin(b) and not b[2] and a[0] in ('p', 'byt', 'orc'): return ('orc', a[1] if a[0] == 'orc' else a, b[1] | (a[2] if a[0] == 'orc' else 0))
        if o in ('lshr', 'ashr') and islin(a) and a[2] and islin(b) and not b[2]: return ('shr', a, b[1])
        if a[0] == 'kb' and kb(b):
            m, x = a[1], a[2]; n, y = kb(b)[1:]
            if o == 'and':
                one = m & x & n & y; zero = (m & ~x) | (n & ~y); k = one | zero
                return ('kb', -1, one) if k == -1 or (k & 0xffffffff) == 0xffffffff else ('kb', k, one)
            if o == 'or':
                one = (m & x) | (n & y); zero = (m & ~x) & (n & ~y); return ('kb', one | zero, one)
            if o in ('lshr', 'ashr'): 
                sh = y; return ('kb', (m >> sh) if m >= 0 else (m >> sh), x >> sh)
            return UNK
        if o == 'shl' and a[0] == 'or' and islin(b) and not b[2]: return ('or', frozenset((v, sh + b[1]) for v, sh in a[1]))
        if o in ('or', 'add', 'shl') and K(0) in (a, b): return b if a == K(0) and o != 'shl' else a
        if o == 'shl' and a[0] in ('byt',) and islin(b) and not b[2]: return ('or', frozenset({(a, b[1])}))
        if o == 'add' or o == 'or':
            def parts(v):
                if v[0] == 'or': return v[1]
                if v[0] == 'byt': return frozenset({(v, 0)})
                return None
            if parts(a) is not None and parts(b) is not None: return ('or', parts(a) | parts(b))
        return UNK
    # ------------------------------------------------------------ calls
    def call(s, f, I, st, ctx):
        n = callee(I); g = st.g; F = s.F
        A = [s.sval(st, v, ctx, t) if v[0] != 'meta' else UNK for t, v in I.a]
        def ret(st, v):
            if I.res: st.regs[(ctx, I.res)] = v
            return [st]
        if n is None or n.startswith(wbuf.LOGS): return ret(st, UNK)
        if n in s.way:
            out = []
            y = st.copy(); G = y.g
            d = s.way[n]; L = G['L']; at = ladd(L, K(-1)) if islin(L) and d < 0 else L
            if len(A) > 1:
                if I.a[1][0].k == 'ptr' and (A[1][0] == 'loc' or A[1] == ('p', 1)):
                    b = ('byt', ('r', at, len(G['reads']))); G['reads'] += ((at, b),)
                    if A[1][0] == 'loc': G[('m',) + A[1][1:]] = b
                    else: G['out'] = b
                elif A[1][0] not in ('null', 'u') or A[1] == UNK: G['writes'] += ((at, A[1]),)
            if islin(L): G['L'] = ladd(L, K(d))
            y.cells[F['pos']] = UNK; y.cells[F['pos_buff']] = UNK
            out += ret(y, K(0))
            return out      # host errors and the ends of the tape are not followed
        if n in s.steps:
            y = st.copy(); m = y.cells[F['srec']]
            y.g['prev'] += ((m, A[1]),); y.cells[F['srec']] = ladd(m, K(s.steps[n])) if islin(m) else UNK
            return ret(y, K(0))
        t = s.mod.funcs.get(n)
        if t is None or not t.order: return ret(st, UNK)
        if len(ctx) > 5: raise Broken('calls nested too deeply at %s' % loc(f, I))
        if True:
            out = []; sub = ctx + ((f.name, I.res, I.blk),)
            for i, pn in enumerate(t.params):
                nm = pn[1] if isinstance(pn, tuple) else pn
                if i < len(A): st.regs[(sub, nm)] = A[i]
            for y, rv, J in s.run(t, st, sub):
                for k in [k for k in y.regs if k[0] == sub]: del y.regs[k]
                out += ret(y, rv if rv is not None else UNK)
            return out

# ---------------------------------------------------------------- what each operation has to do
def bytes_of(parts, at, n=4):
    """the term is the little endian number made of the n bytes read at `at`"""
    if parts[0] != 'or' or len(parts[1]) != n: return False
    d = {sh: v for v, sh in parts[1]}
    return all(8 * i in d and d[8 * i][0] == 'byt' and d[8 * i][1][1] == ladd(at, K(i)) for i in range(n))

def scenarios(X):
    M = X.M; F = X.F; L0 = ladd(S('pos'), S('pos_buff')); l0 = S('lrecl'); o0 = S('orecl')
    READ, WRITE, RDBACK, MARK = (M['FUNC_' + n] for n in ('READ', 'WRITE', 'RDBACK', 'MARK'))
    OK, EOB, MK, PAR = (M['TAPE_STATUS_' + n] for n in ('OK', 'EOB', 'MARK', 'PARITY'))
    fm = M['FUNC_M'] << M['FUNC_V']; keep = M['TAPE_FMT']
    cell = lambda y, n: y.cells[F[n]]
    def kb(v, mask, val): return v[0] == 'kb' and (v[1] & mask) == mask and (v[2] & mask) == val
    def rec(y, v):
        """the bytes a record length was put together from"""
        for sym, x in y.g['comp']:
            if v == S(sym): return x
        return UNK
    def odd(y, v): return dict(y.g['par']).get(v)
    out = []
    def sc(fn, fmt, func, test, statuses, **k): out.append((fn, fmt, func, test, statuses, k))
    def layout(fmt):
        seq = fmt == M['TYPE_P7B']; tap = fmt == M['TYPE_TAP']; h = 0 if seq else 4
        def pad(y, n, tap=tap): return K(1 if tap and odd(y, n) else 0) if not tap or odd(y, n) is not None else UNK
        def at(y, want):
            L = y.g['L']
            if L == UNK or want == UNK or not X.eq(y, L, want): return ('position', 'does not leave the tape where the layout of the record requires')
        def fmtok(y, func, fmt=fmt):
            v = cell(y, 'format')
            if not kb(v, fm | keep, fmt | (func << M['FUNC_V'])): return ('mode', 'does not leave the tape in the mode the next operation relies on')
        def same(y, n, want, what):
            if not (islin(cell(y, n)) and X.eq(y, cell(y, n), want)): return (n, what)
        def wstart(y, rv, h=h):
            return at(y, ladd(L0, K(h))) or fmtok(y, WRITE) or same(y, 'lrecl', K(0), 'does not start a record with length 0') or \
                same(y, 'srec', L0, 'does not remember where the record starts')
        sc('tape_write_start', fmt, READ, wstart, {OK}, extra_set=M['WRITE_RING'])
        for first in ((0, 1) if seq else (1,)):
            def wframe(y, rv, first=first, seq=seq):
                l = K(0) if seq and not first else l0
                w = y.g['writes']
                e = at(y, ladd(L0, K(1))) or fmtok(y, WRITE) or same(y, 'lrecl', ladd(l, K(1)), 'does not count the byte written')
                if e: return e
                want = ('orc', ('p', 1), M['IRG_MASK']) if seq and not first else ('p', 1)
                if len(w) != 1 or w[0][0] != L0 or w[0][1] != want: return ('data', 'does not write the byte it was given')
            sc('tape_write_frame', fmt, WRITE, wframe, {OK}, cells={} if first else {'lrecl': K(0)}, facts=[ladd(l0, K(-1))] if first and seq else [])
        def wend(y, rv, h=h, seq=seq):
            p = K(0) if seq else pad(y, l0)
            e = at(y, UNK if p == UNK else ladd(ladd(L0, p), K(h))) or fmtok(y, 0)
            if e or seq: return e
            want = [(('ext', l0, 8 * i)) for i in range(4)]
            if [v for a, v in y.g['prev']] != want or any(a != ladd(S('srec'), K(i)) for i, (a, v) in enumerate(y.g['prev'])): return ('header', 'does not put the length of the record in front of it')
            if [v for a, v in y.g['writes']][-4:] != want: return ('trailer', 'does not put the length of the record behind it')
        sc('tape_finish_rec', fmt, WRITE, wend, {OK, PAR}, extra_clear=M['TAPE_MARK'])
        def rforw(y, rv, h=h, seq=seq):
            mk = rv == K(MK)
            e = at(y, ladd(L0, K((1 if mk else 0) if seq else 4))) or fmtok(y, READ)
            if not e and not kb(cell(y, 'format'), M['TAPE_MARK'], M['TAPE_MARK'] if mk else 0): e = ('mark', 'does not note whether a tape mark was read')
            if e or mk: return e
            if not seq and not bytes_of(rec(y, cell(y, 'orecl')), L0): return ('length', 'does not take the record length from the four bytes in front of the record')
            return same(y, 'lrecl', K(0), 'does not start at the first byte of the record')
        sc('tape_read_forw', fmt, READ, rforw, {OK, MK}, extra_clear=M['TAPE_EOT'])
        def rframe(y, rv, d=1, seq=seq):
            if rv == K(MK): return ('mark', 'reports a tape mark where there is a record')
            if rv == K(EOB):
                e = at(y, L0) or fmtok(y, READ if d == 1 else RDBACK)
                if e or seq: return e
                if d == 1 and not X.prove(y, ladd(l0, o0, -1)): return ('end', 'reports the end of a record before all of its bytes were read')
                return same(y, 'lrecl', l0 if d == 1 else K(0), 'reports the end of a record before all of its bytes were read') if d == -1 else None
            e = at(y, ladd(L0, K(d))) or fmtok(y, READ if d == 1 else RDBACK)
            if not e and not seq: e = same(y, 'lrecl', ladd(l0, K(d)), 'does not count the byte read')
            if not e and not seq and d == 1 and not X.prove(y, ladd(ladd(o0, l0, -1), K(-1))): e = ('end', 'reads past the end of the record')
            if not e and not seq and d == -1 and not X.prove(y, ladd(l0, K(-1))): e = ('end', 'reads past the start of the record')
            if e: return e
            v = y.g.get('out', UNK); x = L0 if d == 1 else ladd(L0, K(-1))
            if seq and v[0] == 'andc' and v[2] == 255 & ~M['IRG_MASK']: v = v[1]
            if v[0] != 'byt' or v[1][1] != x: return ('data', 'does not return the byte of the record')
        sc('tape_read_frame', fmt, READ, rframe, {OK, EOB}, extra_clear=M['TAPE_MARK'])
        sc('tape_read_frame', fmt, RDBACK, lambda y, rv, r=rframe: r(y, rv, -1), {OK, EOB}, extra_clear=M['TAPE_MARK'])
        def onmark(y, rv):
            if rv != K(MK): return ('mark', 'reads on after a tape mark')
            return at(y, L0)
        sc('tape_read_frame', fmt, READ, onmark, {MK}, extra_set=M['TAPE_MARK'])
        def endmark(y, rv):
            e = at(y, L0) or fmtok(y, 0)
            if not e and not kb(cell(y, 'format'), M['TAPE_MARK'], 0): e = ('mark', 'does not forget the tape mark when the operation ends')
            return e
        for fu in (READ, RDBACK): sc('tape_finish_rec', fmt, fu, endmark, {OK, PAR}, extra_set=M['TAPE_MARK'])
        sc('tape_finish_rec', fmt, MARK, lambda y, rv: at(y, L0) or fmtok(y, 0), {OK, PAR}, extra_clear=M['TAPE_MARK'])
        def wmark(y, rv, seq=seq):
            e = at(y, ladd(L0, K(1 if seq else 4))) or fmtok(y, MARK)
            if e: return e
            w = [v for a, v in y.g['writes']]
            if w != ([K(M['IRG_MASK'] | M['BCD_TM'])] if seq else [K(0)] * 4) and [K(v[1] & 255) if islin(v) and not v[2] else v for v in w] != ([K((M['IRG_MASK'] | M['BCD_TM']) & 255)] if seq else [K(0)] * 4):
                return ('data', 'does not write a tape mark that is read back as one')
        sc('tape_write_mark', fmt, READ, wmark, {OK}, extra_set=M['WRITE_RING'])
        def rback(y, rv, seq=seq):
            mk = rv == K(MK)
            e = fmtok(y, RDBACK)
            if not e and not kb(cell(y, 'format'), M['TAPE_MARK'], M['TAPE_MARK'] if mk else 0): e = ('mark', 'does not note whether a tape mark was read')
            if e: return e
            if seq: return at(y, ladd(L0, K(-1 if mk else 0)))
            if mk: return at(y, ladd(L0, K(-4)))
            n = cell(y, 'lrecl'); p = pad(y, n)
            e = at(y, UNK if p == UNK else ladd(ladd(L0, K(-4)), p, -1))
            if e: return e
            if not bytes_of(rec(y, n), ladd(L0, K(-4))): return ('length', 'does not take the record length from the four bytes behind the record')
            return same(y, 'orecl', n, 'does not start at the last byte of the record')
        sc('tape_read_back', fmt, READ, rback, {OK, MK}, extra_clear=M['TAPE_BOT'])
        if not seq:
            def rend(y, rv):
                p = pad(y, o0)
                return at(y, UNK if p == UNK else ladd(ladd(ladd(L0, ladd(o0, l0, -1)), p), K(4))) or fmtok(y, 0)
            sc('tape_finish_rec', fmt, READ, rend, {OK, PAR}, extra_clear=M['TAPE_MARK'], facts=[ladd(o0, l0, -1)])
            sc('tape_finish_rec', fmt, RDBACK, lambda y, rv: at(y, ladd(ladd(L0, l0, -1), K(-4))) or fmtok(y, 0), {OK, PAR}, extra_clear=M['TAPE_MARK'])
    for fmt in (M['TYPE_TAP'], M['TYPE_E11'], M['TYPE_P7B']): layout(fmt)
    return out

def check(X, mod):
    """-> [(key, message, where)], coverage"""
    bad = []; n = ex = 0; names = {M: v for M, v in ((X.M['TYPE_TAP'], 'SIMH'), (X.M['TYPE_E11'], 'E11'), (X.M['TYPE_P7B'], '7-track'))}
    fns = {X.M['FUNC_' + k]: v for k, v in (('READ', 'reading'), ('WRITE', 'writing'), ('RDBACK', 'reading backward'), ('MARK', 'writing a mark'))}
    seen = set(); cov = {}
    for fn, fmt, func, test, statuses, k in scenarios(X):
        f = mod.funcs.get(fn)
        if f is None or not f.order: raise Broken('%s is gone' % fn)
        k = dict(k); cells = k.pop('cells', {})
        st = X.start(f, fmt, func, **k); n += 1; got = set()
        for c, v in cells.items(): st.cells[X.F[c]] = v
        for y, rv, I in X.explore(f, st):
            ex += 1
            if not islin(rv) or rv[2]: raise Broken('the status %s returns at %s is not followed' % (fn, loc(f, I)))
            if rv[1] not in statuses or any(o and X.eq(y, v, K(0)) for v, o in y.g['par']): continue     # (zero is not odd)
            got.add(rv[1])
            e = test(y, rv)
            if e:
                key = '%s:%s:%s' % (fn, func, e[0])
                if (key, fmt) not in seen: seen.add((key, fmt)); bad.append((key, '%s (%s, %s tape) %s' % (fn, fns[func], names[fmt], e[1]), loc(f, I)))
        for x in statuses - got - {X.M['TAPE_STATUS_PARITY']}:
            bad.append(('%s:%s:status' % (fn, func), '%s (%s, %s tape) never returns status %d' % (fn, fns[func], names[fmt], x), loc(f, f.blocks[f.order[0]][0])))
        cov['%s/%s/%s' % (fn, names[fmt], fns[func])] = sorted(got)
    return bad, n, ex, cov
