"""Bus-protocol rules for every device attached through device_t.bus_func."""
import absint as A, ir, build
from absint import F, T, and_, or_, xor_, neg, const, cval, Ptr, fresh_bits

OUT = dict(SEL=0x8000, ADR=0x4000, CMD=0x2000, SRV=0x1000, SUP=0x0800, HLD=0x0400, OPR=0x0200)
IN = dict(OPR=0x80, ADR=0x40, STA=0x20, SRV=0x10, REQ=0x08)
def bit(mask): return mask.bit_length() - 1

DEVMODS = ['model1052/model1052.c', 'model1442/model1442.c', 'model1443/model1443.c', 'model2415/model2415.c', 'model2844/model2844.c']
SUPPORT = ['device/xlat.c']
PURE = {'printf', 'fprintf', 'log_print', 'print_tags', 'log_print_s', 'log_time'}

class BusEngine(A.Engine):
    max_states = 3000
    inline_blocks = 40
    control = frozenset()       # cells whose writers are always analysed in line
    mb = None; eff = None
    def __init__(s, mods, mb, eff, types):
        super().__init__(mods)
        s.mb = mb; s.eff = eff; s.types = dict(types)     # object key -> struct type name
        s.opq = {}
    def init_byte(s, st, k, off):
        r = super().init_byte(st, k, off)
        t = s.types.get(k)
        if t is not None:
            m = s.fieldmask(t, off)
            if m != 255: r = tuple(x if m >> i & 1 else F for i, x in enumerate(r))
        return r
    def read_byte(s, st, k, off):
        r = super().read_byte(st, k, off)
        t = s.types.get(k)
        if t is not None and r and isinstance(r[0], int):
            o = st.mem.get(k)
            if o is not None and off not in o:
                m = s.fieldmask(t, off)
                if m != 255: r = tuple(x if m >> i & 1 else F for i, x in enumerate(r))
        return r
    def load_range(s, st, p, ty):
        r = super().load_range(st, p, ty)
        k = p.base
        if k[0] == 'g' and isinstance(r, tuple) and k not in st.mem:
            g = s.ginfo(k)
            ck = ('G', k[1], 0)
            if g is not None and not g.const and ck not in s.mb.escaped and g.ty.k == 'arr' and g.ty.el.k == 'int' and g.ty.el.w == ty.w:
                cs, m = s.mb.alts(ck)
                if g.init is None or g.init[0] != 'zero': pass
                full = m
                for c in cs: full |= c
                r = tuple(b if full >> i & 1 else F for i, b in enumerate(r))
                # a bit only constants have determines the value
                for i, b in enumerate(r):
                    if b == F or m >> i & 1: continue
                    own = [c for c in cs if c >> i & 1]
                    if len(own) == 1:
                        for j, x in enumerate(r):
                            if j == i: continue
                            l = and_(b, x) if not own[0] >> j & 1 else and_(b, neg(x))
                            if l != F: st.assume(neg(l))
        return r
    def fieldmask(s, t, off):
        lay = s.layout(t)
        f = lay.get(off)
        if f is None: return 255
        base, size = f
        return (s.mb.bits(t, base, 8 * size) >> (8 * (off - base))) & 255
    def layout(s, t):
        r = s._pt.get(t)
        if r is None:
            r = s._pt[t] = {}
            for m in s.mods:
                ty = m.types.get(t)
                if ty is not None and ty.fields:
                    for f, o in zip(ty.fields, ty.offsets()):
                        if f.k == 'int':
                            for i in range(f.size()): r[o + i] = (o, f.size())
                        elif f.k == 'arr' and f.el.k == 'int':
                            for i in range(f.size()): r[o + i] = (o, f.el.size()) if f.el.size() == 1 else (o, 0)
                    break
        return r
    def is_opaque(s, g, mod):
        k = (g, mod.src)
        r = s.opq.get(k)
        if r is None:
            r = False
            if g is not None:
                order, pos, heads, preds, succ = s.rpo(g)
                n = len(g.order)
                r = bool(heads) or n > (s.inline_blocks if g.mod is mod else 12) and not s.controls(g)
            s.opq[k] = r
        return r
    def controls(s, g): return bool(s.eff.trans.get(g, frozenset()) & s.control)
    def on_call(s, st, I, name, args):
        if name and (name.startswith('log_') or name in PURE): return [(st, s.havoc_val(I.ty, name))]
        if name in ('add_event', 'cancel_event'):
            s.event(st, I, name, args); return [(st, s.havoc_val(I.ty, name))]
        if name:
            g = s.mb.target(I.fn, name)
            if g is not None and s.is_opaque(g, I.fn.mod): return s.summary_call(st, I, g, args)
        return None
    def starts_event(s, g):
        r = s.opq.get(('ev', g))
        if r is None:
            seen = set(); w = [g]; r = False
            while w and not r:
                h = w.pop()
                if h in seen: continue
                seen.add(h); r = h.name == 'add_event'; w += list(s.eff.calls.get(h, ()))
            s.opq[('ev', g)] = r
        return r
    def summary_call(s, st, I, g, args):
        if s.starts_event(g): st.tags['event'] = 1
        for (ty, _), v in zip(I.a, args):
            if isinstance(v, Ptr) and v.base is not None and v.base[0] == 'alloca':
                s.havoc_range(st, v.base, -1 << 40, 1 << 40, I)
        s.apply_mod(st, s.eff.trans.get(g, ()), I)
        rv = s.havoc_val(I.ty, g.name)
        if I.ty.k == 'int':
            m = s.mb.rets.get(g, (1 << I.ty.w) - 1)
            rv = tuple(x if m >> i & 1 else F for i, x in enumerate(rv))
        return [(st, rv)]
    def apply_mod(s, st, cells, I=None):
        for c in cells:
            if c[0] == 'S':
                for k in set(st.mem) | set(s.types):
                    if s.types.get(k) == c[1]:
                        lay = s.layout(c[1]).get(c[2])
                        n = lay[1] if lay and lay[1] else 1 << 16
                        if lay is None or len(c) > 3:
                            n = s.field_size(c[1], c[2])
                        s.havoc_range(st, k, c[2], c[2] + n, I)
            elif c[0] == 'G':
                s.havoc_range(st, ('g', c[1]), -1 << 40, 1 << 40, I)
    def field_size(s, t, off):
        for m in s.mods:
            ty = m.types.get(t)
            if ty is not None and ty.fields:
                for f, o in zip(ty.fields, ty.offsets()):
                    if o <= off < o + f.size(): return o + f.size() - off
        return 1
    def event(s, st, I, name, args):
        if name == 'add_event': st.tags['event'] = 1

def bus_functions(mods):
    """functions stored into the first field of struct _device"""
    r = {}
    for rel, m in mods.items():
        for f in m.funcs.values():
            defs = {}
            for b in f.order:
                for I in f.blocks[b]:
                    if I.res: defs[I.res] = I
                    if I.op == 'store' and I.a[0][0] == 'g' and I.a[1][0] == 'r':
                        d = defs.get(I.a[1][1])
                        if d is not None and d.op == 'getelementptr' and d.extra[0].name == 'struct._device':
                            off = [v[1] for t, v in d.extra[1]]
                            if off == [0, 0]: r[I.a[0][1]] = rel
    return r

class Dev:
    """one device's bus function, its context layout and control field"""
    def __init__(s, rel, fname, mods, mb, eff):
        s.mb = mb; s.eff = eff
        s.rel = rel; s.m = mods[rel]; s.f = s.m.funcs[fname]; s.mods = mods; s.fname = fname
        s.unit = ('param', 'unit'); s.tags = ('param', 'tags'); s.bus_in = ('param', 'bus_in')
        dt = s.m.fn_types(s.f)
        # DI layout of struct _device and of the context type
        s.dev_m = {n: (o, z, t) for o, z, n, t in s.m.members(s.m.pointee(dt[1]))}
        s.devoff = s.dev_m['dev'][0]
        s.ctxkey = ('*', s.unit, s.devoff)
        s.ctx_t = s.find_ctx()
        s.ctx_m = {n: (o, z, t) for o, z, n, t in s.m.members(s.ctx_t)} if s.ctx_t else {}
        s.statefield = s.find_state()
    def find_ctx(s):
        # the bus function's first pointer-typed local names the context structure
        names = [t.name for t in s.m.types.values() if t.name and '_context' in t.name]
        used = {}
        for b in s.f.order:
            for I in s.f.blocks[b]:
                if I.op == 'getelementptr' and I.extra[0].k == 'struct' and I.extra[0].name and I.extra[0].name != 'struct._device':
                    used[I.extra[0].name] = used.get(I.extra[0].name, 0) + 1
        n = max(used, key=used.get)
        s.ctx_name = n
        return s.m.di_struct(n.split('.', 1)[1])
    def find_state(s):
        """offset,size of the context field the main switch dispatches on"""
        best = None
        defs = {I.res: I for b in s.f.order for I in s.f.blocks[b] if I.res}
        for b in s.f.order:
            I = s.f.blocks[b][-1]
            if I.op == 'switch' and len(I.extra[2]) >= 5:
                o = I.a[0]
                while o[0] == 'r' and defs.get(o[1]) is not None and defs[o[1]].op in ('zext', 'sext', 'trunc'): o = defs[o[1]].a[0]
                d = defs.get(o[1]) if o[0] == 'r' else None
                if d is not None and d.op == 'load' and d.a[0][0] == 'r':
                    g = defs.get(d.a[0][1])
                    if g is not None and g.op == 'getelementptr' and g.extra[0].name == s.ctx_name:
                        n = g.extra[1][1][1][1]
                        off = g.extra[0].offsets()[n]
                        if best is None or len(I.extra[2]) > best[2]: best = (off, d.ty.size(), len(I.extra[2]), I)
        return best
    def fields(s, name):
        """every copy of a field: in the device block and in the device's own context (when anything writes it)"""
        r = []
        if name in s.dev_m and (s.written(('S', 'struct._device', s.dev_m[name][0])) or name not in s.ctx_m): r.append((s.unit,) + s.dev_m[name][:2])
        if name in s.ctx_m:
            if s.mb.cell.get(('S', s.ctx_name, s.ctx_m[name][0]), 0) or not r: r.append((s.ctxkey,) + s.ctx_m[name][:2])
        return r
    def written(s, cell):
        """does this device's own module write the cell"""
        return any(c[:3] == cell for f, w in s.eff.direct.items() if f.mod is s.m for c in w)
    def field(s, name):
        if name in s.ctx_m and name in s.dev_m and not s.mb.cell.get(('S', s.ctx_name, s.ctx_m[name][0]), 0): return (s.unit,) + s.dev_m[name][:2]
        if name in s.ctx_m: return (s.ctxkey,) + s.ctx_m[name][:2]
        if name in s.dev_m: return (s.unit,) + s.dev_m[name][:2]
        return None
    def engine(s, cls=BusEngine):
        e = cls([s.m] + [m for r, m in s.mods.items() if r != s.rel], s.mb, s.eff, {s.unit: 'struct._device', s.ctxkey: s.ctx_name})
        if s.statefield: e.control = frozenset({('S', s.ctx_name, s.statefield[0]), ('S', 'struct._device', s.dev_m['selected'][0])})
        return e
    def initial(s, e, state=None):
        st = A.State()
        st.mem = {}
        st.own = set()
        if state is not None and s.statefield:
            off, n = s.statefield[:2]
            e.store(st, Ptr(s.ctxkey, off), const(state, 8 * n), ir.INT(8 * n))
        # context pointer is set by the creator and never NULL here
        st.assume(A.neg(e.null_lit(s.ctxkey)))
        return st
    def tagbits(s, e, st): return s.word(e, st, s.tags)
    def word(s, e, st, k, off=0, n=2):
        r = []
        for i in range(n): r += e.read_byte(st, k, off + i)
        return st.nb(tuple(r))
    def run(s, e, st):
        bus_out = fresh_bits('bus_out', 16)
        return e.run(s.f, [Ptr(s.unit), Ptr(s.tags), bus_out, Ptr(s.bus_in)], st)

# ------------------------------------------------------------------------------------------
OUTBITS = [bit(m) for m in OUT.values()]
OWN = ('OPR', 'ADR', 'STA', 'SRV')

class Outcome:
    """one abstract path through the bus function from one abstract start state"""
    __slots__ = ('st0', 'start', 'st', 'tags_in', 'tags', 'busin', 'eng', 'trace')

class Explorer:
    """closes the set of (control state, flags, in-tags we hold) under the bus function"""
    def __init__(s, dev, track_tags=True, names=('selected', 'addressed')):
        s.names = names
        s.d = dev; s.mb = dev.mb
        s.track_tags = track_tags
        s.flags = s.sync_flags()
        s.states = set()
    def sync_flags(s):
        """boolean fields of the context/unit that only the bus function (and its callees) writes"""
        d = s.d; mb = d.mb; eff = d.eff
        roots_other = set()
        reach = set()
        st = [d.f]
        while st:
            f = st.pop()
            if f in reach: continue
            reach.add(f); st += list(eff.calls.get(f, ()))
        writers = {}
        for f, w in eff.direct.items():
            for c in w:
                if c[0] == 'S': writers.setdefault(c[:3], set()).add(f)
        s.writers = writers
        # functions that may run other than through the bus function
        indep = set()
        for f in eff.direct:
            if f is d.f: continue
            if f.name in mb.addr_taken or not mb.called(f): indep.add(f)
        st = list(indep); ind = set()
        while st:
            f = st.pop()
            if f in ind or f is d.f: continue
            ind.add(f); st += list(eff.calls.get(f, ()))
        s.async_fns = ind
        r = []
        for key, name, lay in ((d.ctxkey, d.ctx_name, d.ctx_m), (d.unit, 'struct._device', d.dev_m)):
            for n, (o, z, t) in lay.items():
                c = ('S', name, o)
                if c in mb.escaped or z not in (1, 2, 4) : continue
                m = mb.cell.get(c, 0)
                if m != 1: continue
                if name == 'struct._device':
                    w = {f for f in writers.get(c, ()) if f.mod is d.m}
                else: w = writers.get(c, set())
                if not w: continue
                bad = [f for f in w if f in ind and not s.is_init(f)]
                if not bad and any(f in reach for f in w) and n in s.names: r.append((key, o, z, n))
        return r
    def is_init(s, f):
        """creator functions run before the device is on a channel"""
        return any(I.op == 'call' and I.extra[0] == 'g' and I.extra[1] in ('add_chan', 'calloc', 'malloc') for b in f.order for I in f.blocks[b])
    def start(s, e, cfg):
        d = s.d
        state, fl, own = cfg
        st = d.initial(e, state)
        for (k, o, z, n), v in zip(s.flags, fl):
            e.store(st, Ptr(k, o), const(v, 8 * z), ir.INT(8 * z))
        tb = list(fresh_bits('tags', 16))
        for i in (0, 1, 2, 8): tb[i] = F
        if s.track_tags:
            for n in OWN:
                b = bit(IN[n])
                if own and n in own: tb[b] = T
                elif own: tb[b] = F       # while we hold the interface nobody else drives it
        e.store(st, Ptr(d.tags), tuple(tb), ir.INT(16))
        # the creator stores one address in both places
        ua, ca = d.dev_m.get('addr'), d.ctx_m.get('addr')
        if ua and ca:
            w = d.word(e, st, d.unit, ua[0], ua[1])
            n = min(len(w), 8 * ca[1])
            cm = mb_mask = d.mb.bits(d.ctx_name, ca[0], 8 * ca[1])
            v = [w[i] if i < n and cm >> i & 1 else F for i in range(8 * ca[1])]
            e.store(st, Ptr(d.ctxkey, ca[0]), tuple(v), ir.INT(8 * ca[1]))
        # channel side of the interface: at most one of address/command/service out at a time
        o3 = [tb[bit(OUT[n])] for n in ('ADR', 'CMD', 'SRV')]
        for i in range(3):
            for j in range(i): st.assume(neg(and_(o3[i], o3[j])))
        return st, tuple(tb)
    def initcfg(s): return (0 if s.d.statefield else None, (0,) * len(s.flags), frozenset())
    def step(s, cfg, rules=()):
        """all abstract paths from one configuration: successors (with a label) and rule findings"""
        d = s.d
        e = d.engine()
        st, tin = s.start(e, cfg)
        nxt = {}; found = []; n = 0; st0 = st.fork()
        if hasattr(d, 'checks'): d.checks = []
        for q, _ in d.run(e, st):
            o = Outcome(); o.start = cfg; o.st = q; o.eng = e; n += 1
            o.tags_in = q.nb(tin); o.tags = d.tagbits(e, q); o.busin = d.word(e, q, d.bus_in); o.st0 = st0
            lab = None
            for m in s.next(e, q, cfg, o):
                if m not in nxt:
                    if lab is None: lab = s.label(o)
                    nxt[m] = lab
            for r in rules:
                for f in r(s, o) or ():
                    if len(found) < 400: found.append(f + (s.label(o),))
        return nxt, found, n, e
    def label(s, o):
        t = []
        for n, m in list(OUT.items()) + [('<' + k, v) for k, v in IN.items()]:
            x = o.tags_in[bit(m)]
            if x == T: t.append(n)
            elif x == F: t.append('!' + n)
        return ' '.join(t)
    def run(s, rules=(), limit=4000):
        init = s.initcfg()
        work = [init]; s.states = {init}; s.parent = {}; s.found = []; s.npaths = 0
        while work:
            cfg = work.pop()
            nxt, found, n, e = s.step(cfg, rules)
            s.npaths += n
            s.found += [(cfg,) + f for f in found]
            for m, lab in nxt.items():
                if m not in s.states:
                    s.states.add(m); s.parent[m] = (cfg, lab); work.append(m)
        return s
    def chain(s, cfg):
        r = []
        while cfg in s.parent:
            p, lab = s.parent[cfg]
            r.append('%s --[%s]--> %s' % (s.cfgname(p), lab, s.cfgname(cfg))); cfg = p
        return r[::-1]
    def cfgstate(s, c): return 'state%s%s' % (c[0], ''.join('/' + f[3] for f, v in zip(s.flags, c[1]) if v))
    def cfgname(s, c):
        return 'state %s {%s} own{%s}' % (c[0], ','.join(f[3] for f, v in zip(s.flags, c[1]) if v), '|'.join(sorted(c[2])))
    def field(s, e, q, k, o, z): return s.d.word(e, q, k, o, z)
    def next(s, e, q, cfg, o):
        d = s.d
        if d.statefield:
            v = cval(s.field(e, q, d.ctxkey, d.statefield[0], d.statefield[1]))
            states = [v] if v is not None else sorted({c for c, _ in d.statefield[3].extra[2]})
        else: states = [None]
        own = set()
        if s.track_tags:
            for n in OWN:
                b = bit(IN[n]); x = o.tags[b]; y = o.tags_in[b]
                if x == T and (y != T or n in cfg[2]): own.add(n)
                elif x != F and x != y: own.add(n)
        fls = [()]
        for (k, off, z, n) in s.flags:
            v = cval(s.field(e, q, k, off, z))
            fls = [f + (x,) for f in fls for x in ((v,) if v is not None else (0, 1))]
        return [(a, f, frozenset(own)) for a in states for f in fls]

CANDIDATES = {'data': 0xff, 't_scan': 7, 'cur_unit': 7}

_CAP = []
def _cap_work(i):
    mods, mb, eff, tasks = _CAP
    c, mask, z, fn, f = tasks[i]
    return holds(mods, mb, eff, c, mask, z, f)

def writers(mb, cells):
    """cell -> functions that store to it or hand out its address"""
    r = {}
    for m in mb.mods:
        for f in m.funcs.values():
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'store':
                        c = mb.base_cell(f, I.a[1])
                        if c in cells: r.setdefault(c, set()).add(f)
                    elif I.op == 'call':
                        for t, v in I.a:
                            if v[0] in ('r', 'gep') and t.k == 'ptr':
                                c = mb.base_cell(f, v)
                                if c in cells: r.setdefault(c, set()).add(f)
    return r

class InvEngine(BusEngine):
    cell = None
    def on_store(s, st, I, p, v, ty):
        if I is not None and p.base is not None and I.op == 'store' and s.mb.base_cell(I.fn, I.a[1]) == s.cell: st.tags[('W', p.base, p.lo)] = 1
    def on_call(s, st, I, name, args):
        for (t, v), a in zip(I.a, args):
            if t.k == 'ptr' and isinstance(a, Ptr) and a.base is not None and v[0] in ('r', 'gep') and s.mb.base_cell(I.fn, v) == s.cell:
                st.tags[('W', a.base, a.lo)] = 1
        return super().on_call(st, I, name, args)

def infer_caps(mods, mb, eff):
    """inductive field masks: assume every candidate, check every writer re-establishes it, drop failures"""
    cand = {}
    for m in mods.values():
        for n, ty in m.types.items():
            if not (n.endswith('_context') and ty.fields): continue
            for o, z, fn, t in m.members(m.di_struct(n.split('.', 1)[1])) if m.di_struct(n.split('.', 1)[1]) else ():
                if fn in CANDIDATES and z <= 4:
                    c = ('S', n, o)
                    if c in mb.escaped or mb.cell.get(c, 0) & ~CANDIDATES[fn]: cand[c] = (CANDIDATES[fn], z, fn)
    log = []
    while True:
        mb2 = type(mb)(mods.values(), {c: v[0] for c, v in cand.items()})
        import maybits
        eff2 = maybits.Effects(mb2)
        bad = set(); tasks = []
        wr = writers(mb2, set(cand))
        for c, (mask, z, fn) in sorted(cand.items()):
            for f in sorted(wr.get(c, ()), key=lambda f: f.name): tasks.append((c, mask, z, fn, f))
        import multiprocessing as mp
        _CAP[:] = [mods, mb2, eff2, tasks]
        with mp.get_context('fork').Pool(8) as pool: oks = pool.map(_cap_work, range(len(tasks)), 1)
        for (c, mask, z, fn, f), ok in zip(tasks, oks):
            log.append((c, fn, f.name, ok))
            if not ok: bad.add(c)
        if not bad: return mb2, eff2, {c: v[0] for c, v in cand.items()}, log
        for c in bad: del cand[c]

def holds(mods, mb, eff, cell, mask, z, f):
    return any(holds_n(mods, mb, eff, cell, mask, z, f, n) for n in (16, 400))

def holds_n(mods, mb, eff, cell, mask, z, f, n):
    e = InvEngine([f.mod] + [m for m in mods.values() if m is not f.mod], mb, eff, {})
    e.cell = cell; e.max_states = n
    st = A.State(); st.mem = {}; st.own = set()
    args = []
    ft = f.mod.fn_types(f) if hasattr(f.mod, 'fn_types') else None
    for i, (t, n) in enumerate(f.params):
        if t.k == 'ptr':
            args.append(Ptr(('param', n)))
        elif t.k == 'int': args.append(fresh_bits(('arg', n), t.w))
        else: args.append(e.havoc_val(t, 'arg'))
    # typed keys: every context object reachable from a parameter is of the declared type
    e.typed = cell[1]
    e.types = TypeMap(e, f)
    for q, _ in e.run(f, args, st):
        for k in [k for k in q.tags if k[0] == 'W']:
            v = []
            for i in range(z): v += list(e.read_byte(q, k[1], k[2] + i))
            for i, b in enumerate(q.nb(tuple(v))):
                if mask >> i & 1 or b == F: continue
                t = q.fork()
                try: t.assume(b)
                except A.Infeasible: continue
                if t.norm(F) == F and not contradictory(t): return False
    return True

def contradictory(t): return False

class TypeMap(dict):
    """object key -> struct type: the device argument and the context its 'dev' field points to"""
    def __init__(s, e, f):
        ctx = None
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and I.extra[0].k == 'struct' and I.extra[0].name and I.extra[0].name.endswith('_context'): ctx = I.extra[0].name
        off = None
        for m in e.mods:
            d = m.di_struct('_device')
            if d is not None: off = [o for o, z, n, t in m.members(d) if n == 'dev'][0]; break
        for i, (t, n) in enumerate(f.params):
            if t.k != 'ptr': continue
            used = None
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'getelementptr' and I.a[0] == ('r', n) and I.extra[0].k == 'struct': used = I.extra[0].name
            if used == 'struct._device':
                s[('param', n)] = used
                if ctx: s[('*', ('param', n), off)] = ctx
            elif used and used.endswith('_context'): s[('param', n)] = used
            elif used is None and ctx: s[('param', n)] = ctx

def load_all(T_):
    rels = [r for r in build.all_sources() if not r.startswith(('panel/', 'model2030', 'model2050', 'main'))]
    mods = T_.load(rels)
    import maybits
    mb = maybits.MayBits(mods.values()); eff = maybits.Effects(mb)
    mb, eff, caps, log = infer_caps(mods, mb, eff)
    mb.cap_log = log
    return mods, mb, eff

def devices(mods, mb, eff, only=None):
    for fn, rel in sorted(bus_functions(mods).items()):
        if only and only not in fn: continue
        yield Dev(rel, fn, mods, mb, eff)

# ------------------------------------------------------------------------------------------
_X = {}
def _work(a):
    name, cfg, rules = a
    import busrules
    x = _X[name]; busrules.HITS.clear()
    nxt, found, n, e = x.step(cfg, [getattr(busrules, r) for r in rules])
    return name, cfg, nxt, found, n, sorted(e.visited), dict(busrules.HITS)

def explore(devs, rules, procs=8, limit=3000, names=('selected', 'addressed')):
    """fix-point over every device's configurations, one configuration per task"""
    import multiprocessing as mp
    _X.clear()
    xs = []
    for d in devs:
        x = Explorer(d, names=names); _X[d.fname] = x; xs.append(x)
        x.states = {x.initcfg()}; x.parent = {}; x.found = []; x.npaths = 0; x.visited = set(); x.hits = {}
    with mp.get_context('fork').Pool(procs) as pool:
        import queue
        done = queue.Queue(); out = 0
        def put(r): done.put(r)
        def err(ex): done.put(ex)
        for x in xs:
            pool.apply_async(_work, ((x.d.fname, x.initcfg(), rules),), callback=put, error_callback=err); out += 1
        while out:
            r = done.get(); out -= 1
            if isinstance(r, BaseException): raise r
            name, cfg, nxt, found, n, vis, hits = r
            x = _X[name]; x.npaths += n; x.visited |= set(vis)
            for k, v in hits.items(): x.hits[k[1]] = x.hits.get(k[1], 0) + v
            x.found += [(cfg,) + f for f in found]
            for m, lab in nxt.items():
                if m not in x.states:
                    x.states.add(m); x.parent[m] = (cfg, lab)
                    if len(x.states) > limit: raise RuntimeError('configuration space too large for ' + name)
                    pool.apply_async(_work, ((name, m, rules),), callback=put, error_callback=err); out += 1
    return xs

# ------------------------------------------------------------------------------------------
INNAME = {bit(m): n for n, m in IN.items()}
class MonoEngine(BusEngine):
    """for bus functions driven by flags instead of one state word: path facts that must survive
    joins (is what bus-in now carries of odd parity, are the channel's lines untouched) are kept as
    typestate recomputed at every store"""
    dev = None; tags0 = None
    def on_store(s, st, I, p, v, ty):
        # runs before the store takes effect
        d = s.dev
        if p.base == d.bus_in: st.tags['dirty_bus'] = 1
        elif p.base == d.tags:
            if I is None or not isinstance(v, tuple): return
            old = d.tagbits(s, st); v = st.nb(v)
            outs, sel = st.tags['outs']; ins = dict(st.tags['ins'])
            if p.lo or p.hi or len(v) != 16: outs = 'bad:width'
            else:
                for i in range(16):
                    if v[i] == old[i]: continue
                    if i == bit(OUT['SEL']): sel = 'consumed' if v[i] == F else 'bad'
                    elif i in INNAME: ins[INNAME[i]] = '1' if v[i] == T else '0' if v[i] == F else '?'
                    elif not outs.startswith('bad'): outs = 'bad:%d:%d' % (i, I.fn.mod.line(I.dbg)[1])
            st.tags['outs'] = (outs, sel); st.tags['ins'] = tuple(sorted(ins.items()))
    def settle(s, st):
        d = s.dev
        if st.tags.pop('dirty_bus', None):
            bi = d.word(s, st, d.bus_in); p = T
            for b in bi[:8]: p = xor_(p, b)
            st.tags['bus'] = 'odd' if st.norm(xor_(p, bi[8])) == F and all(b == F for b in bi[9:]) else 'bad'
    def key(s, st): s.settle(st); return (st.tags.get('bus'), st.tags.get('outs'), st.tags.get('ins'))

def mono(d, facts, max_states=64, hold=()):
    """run a flag-driven bus function once under entry facts; hold: fields that start at a value"""
    e = d.engine(MonoEngine); e.dev = d; e.max_states = max_states
    st = d.initial(e, None)
    tb = list(fresh_bits('tags', 16))
    for i in (0, 1, 2, 8): tb[i] = F
    e.store(st, Ptr(d.tags), tuple(tb), ir.INT(16))
    e.tags0 = tuple(tb)
    for n, v in hold:
        for k, o, z in d.fields(n): e.store(st, Ptr(k, o), const(v, 8 * z), ir.INT(8 * z))
    st.tags.update({'outs': ('ok', 'same'), 'bus': 'none', 'ins': tuple(sorted((n, 'same') for n in IN))})
    ua, ca = d.dev_m.get('addr'), d.ctx_m.get('addr')
    if ua and ca: e.store(st, Ptr(d.ctxkey, ca[0]), tuple((list(d.word(e, st, d.unit, ua[0], ua[1])) + [F] * 32)[:8 * ca[1]]), ir.INT(8 * ca[1]))
    for l in facts(tb): st.assume(l)
    out = []
    for q, _ in d.run(e, st):
        e.settle(q); out.append(q)
    return e, tuple(tb), out
