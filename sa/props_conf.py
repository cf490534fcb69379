"""Configuration: no line can overrun a buffer, errors are reported, devices are registered completely or not at all."""
import re
import build, maybits, num, paths
from common import *

def program():
    T = build.Tree(); mods = T.load(build.all_sources())
    return mods, num.Program(mods)

def controls(mods):
    """(module, global, [name, type, opts, create, ctrl, magic]) of every configuration keyword entry"""
    r = []
    for rel, m in sorted(mods.items()):
        for n, g in sorted(m.globals.items()):
            if g.decl or 'struct._control' != str(g.ty): continue
            v = g.init
            r.append((m, g, [x[1] for x in v[1]] if v and v[0] == 'agg' else []))
    return r

def creators(mods):
    out = {}
    for m, g, v in controls(mods):
        if len(v) == 6 and v[3][0] == 'g':
            for mm in mods.values():
                f = mm.funcs.get(v[3][1])
                if f is not None and f.order: out[f] = g
    return out

# ---------------------------------------------------------------------------------------- C01
def c01(tier):
    mods, p = program()
    r = Result('Abstract interpretation (intervals, difference bounds and string-terminator tracking over the compiled source, joined over all paths, whole-program field invariants): every array, string and heap access in the configuration reader, in every function a configuration line can invoke to create a device, CPU or log option, and in the library calls they make, stays inside its object whatever the line contains.',
               ['the C library behaves as documented', 'configuration lines are read through load_config'])
    cr = creators(mods); r.need(len(cr), 10, 'configuration creators')
    fs = list(mods['conf.c'].funcs.values()) + list(cr)
    E = num.Engine(p); E.par = 8
    sub = {'model1052/model1052.c'}
    files = {c.rel for c in cr} if hasattr(next(iter(cr)), 'rel') else None
    E.policy = lambda t: t.rel == 'conf.c' or t.rel == 'logger.c' and t.name != 'log_init' or t.internal and any(t.rel == c.rel for c in cr)
    E.solve(fs)
    n = 0
    for o in E.obl.values():
        n += 1
        if not o.ok: r.add('bounds:%s:%s:%s' % (o.fn, o.nm, o.kind), 'access to %s may fall outside it: %s' % (o.nm, o.why), loc(o.I.fn, o.I))
    r.need(n, 120, 'memory accesses')
    r.obligations = n
    kinds = {}
    for o in E.obl.values(): kinds[o.kind] = kinds.get(o.kind, 0) + 1
    r.coverage = dict(functions=sorted(loc(f) for f in E.roots), accesses_by_kind=kinds, accesses_proved=sum(o.ok for o in E.obl.values()))
    return r

# ---------------------------------------------------------------------------------------- C02
FRESH = {'get_model': ('opt', 'flags', 'model', 'dash_num', 'slash_num'), 'get_addr': ('addr',), 'get_string': ('string',),
         'get_option': ('opt', 'string', 'flags')}

def c02(tier):
    mods = build.Tree().load(build.all_sources()); m = mods['conf.c']
    mb = maybits.MayBits(mods.values())
    r = Result('Must-write dataflow: on every path on which a configuration scanner reports that it found something, it has written each part of the option record it is responsible for (directly, by memset, or through a scanner it called that reported success), so nothing a creator reads stems from an earlier option or line.',
               ['a pointer that may point into several fields is not taken as a write of any of them'])
    d = m.di_struct('_option'); r.need(1 if d else 0, 1, 'struct _option')
    off = {n: (o, z) for o, z, n, t in m.members(d)}
    fs = [f for f in m.funcs.values() if f.name in FRESH]; r.need(len(fs), 4, 'configuration scanners')
    size = max(o + z for o, z in off.values())
    n = 0
    def field(f, v, depth=0):
        """field(s) of the option record a pointer points at the start of; None if none/unknown"""
        if v[0] == 'r' and f.params and any(v[1] == pn for pt, pn in f.params): return {('f', 0)}
        return None
    def base_off(f, v, seen=()):
        """set of constant offsets from the option parameter, or None"""
        if v[0] == 'r':
            if any(v[1] == pn for pt, pn in f.params): return {0}
            dd = paths.defs(f).get(v[1])
            if dd is None: return None
            if dd.op == 'getelementptr':
                b = base_off(f, dd.a[0], seen)
                if b is None: return None
                o = const_gep(dd)
                return None if o is None else {x + o for x in b}
            if dd.op == 'phi':
                if v[1] in seen: return set()
                s = set()
                for x, _ in dd.extra:
                    q = base_off(f, x, seen + (v[1],))
                    if q is None: continue                     # a later position of the walking pointer
                    s |= q
                return s or None
        return None
    names = {o: nm for nm, (o, z) in off.items()}
    bit = {nm: 1 << i for i, nm in enumerate(off)}
    def hook(e, f, I, g):
        callee = I.extra[1] if I.extra[0] == 'g' else None
        if callee and callee.startswith('llvm.memset') or callee == 'memset':
            b = base_off(f, I.a[0][1]); ln = I.a[2][1]
            if b and len(b) == 1 and ln[0] == 'c':
                x = next(iter(b)); g2 = g
                for nm, (o, z) in off.items():
                    if x <= o and o + (1 if nm in ('opt', 'string') else z) <= x + ln[1]: g2 |= bit[nm]
                return [(None, g2)]
            return None
        if callee in m.funcs and m.funcs[callee].params and callee in FRESH:
            t = m.funcs[callee]
            b = base_off(f, I.a[0][1])
            if b == {0}:
                return [(rv, g2) for rv, g2 in e.run(t, g)]
        return None
    class X(paths.Explorer):
        def step(s, f, I, e, g, tr, out):
            if I.op == 'store':
                b = base_off(f, I.a[1])
                if b:
                    # a walking pointer: one of its possible positions is the start; the terminator is still to be written
                    if len(b) == 1:
                        x = next(iter(b))
                        if x in names: g = g | bit[names[x]]
            return paths.Explorer.step(s, f, I, e, g, tr, out)
    for f in fs:
        ex = X(hook)
        for (rv, g), tr in sorted(ex.run(f, 0).items(), key=str):
            n += 1
            if rv == (0, 0): continue
            for w in FRESH[f.name]:
                if not g & bit[w]:
                    r.add('stale:%s:%s' % (f.name, w), '%s can report an option without having written its %s' % (f.name, w), loc(f))
    r.obligations = n
    r.coverage = dict(functions=[loc(f) for f in fs], exit_states=n, required={k: list(v) for k, v in FRESH.items()})
    return r

def const_gep(I):
    bt, idx = I.extra
    o = 0; t = bt
    for i, (ty, v) in enumerate(idx):
        if v[0] != 'c': return None
        if i == 0: o += v[1] * t.size()
        elif t.k == 'struct': o += t.offsets()[v[1]]; t = t.fields[v[1]]
        elif t.k == 'arr': t = t.el; o += v[1] * t.size()
        else: return None
    return o

# ---------------------------------------------------------------------------------------- C03/C04
INF = 1 << 62
FALLIBLE = {'get_integer': ((0, 0), (1, 1)), 'get_index': ((-1, -1), (0, INF)), 'get_addr': ((0, 0), (1, 1)), 'load_config': ((0, 0), (1, 1)),
            'get_string': ((0, 0), (1, 1))}
ALLOC = {'calloc', 'malloc', 'realloc'}

def lifecycle(tier, mods, mb):
    """explore every creator and the loader: ghost = (failed, registered, reg_ever)"""
    cr = creators(mods)
    byname = {}
    for m in mods.values():
        for n, f in m.funcs.items():
            if f.order: byname.setdefault(n, []).append(f)
    def resolve(f, nm):
        g = f.mod.funcs.get(nm)
        if g is not None and g.order: return g
        l = byname.get(nm, [])
        return l[0] if len(l) == 1 else None
    reaches = {}
    def interesting(f, seen=None):
        """does f, transitively, register/unregister a device or call something fallible?"""
        if f in reaches: return reaches[f]
        reaches[f] = False
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'call' and I.extra[0] == 'g':
                    c = I.extra[1]
                    if c in ('add_chan', 'del_chan', 'get_integer', 'get_index', 'get_addr'): reaches[f] = True
                    else:
                        t = resolve(f, c)
                        if t is not None and interesting(t): reaches[f] = True
        return reaches[f]
    used = set()
    def hook(e, f, I, g):
        failed, reg = g
        if I.extra[0] == 'r':
            # devlist->create(...)
            if f.name == 'load_config':
                used.add(('create', f, I)); return [((0, 0), ('create', reg)), ((1, INF), g)]
            return None
        c = I.extra[1]
        if c in FALLIBLE and not (c == 'get_string' and f.name in FRESH):
            a, b = FALLIBLE[c]; used.add((c, f, I))
            return [(a, (c, reg)), (b, g)]
        if c in ALLOC:
            used.add((c, f, I)); return [((0, 0), (c, reg)), ((1, INF), g)]
        if c == 'find_chan': return [((0, 0), (failed, reg)), ((1, INF), (failed, reg or 'unit'))]
        if c == 'add_chan': used.add((c, f, I)); return [(None, (failed, 1))]
        if c == 'del_chan': used.add((c, f, I)); return [(None, (failed, 0))]
        if c == 'exit': return []
        if c == 'strcmp': return None
        t = resolve(f, c)
        if t is not None and (t in cr or interesting(t)):
            return [(rv, g2) for rv, g2 in e.run(t, g)]
        return None
    def edge(f, t, to, g):
        """definition with the reserved address zero"""
        c = paths.defs(f).get(t.a[0][1]) if t.a[0][0] == 'r' else None
        if c is None or c.op != 'icmp' or c.extra[0] not in ('eq', 'ne') or c.a[1] != ('c', 0): return g
        if to != t.extra[0 if c.extra[0] == 'eq' else 1]: return g
        d = c.a[0]
        while d[0] == 'r' and paths.defs(f).get(d[1]) is not None and paths.defs(f)[d[1]].op in ('zext', 'sext', 'trunc', 'and'): d = paths.defs(f)[d[1]].a[0]
        d = paths.defs(f).get(d[1]) if d[0] == 'r' else None
        if d is None or d.op != 'load' or d.a[0][0] != 'r': return g
        p = paths.defs(f).get(d.a[0][1])
        so = f.mod.di_struct('_option')
        if p is not None and p.op == 'getelementptr' and str(p.extra[0]) == 'struct._option' and so is not None:
            if const_gep(p) in [o for o, z, nm, ty in f.mod.members(so) if nm == 'addr']: return (g[0], g[1] or 'zero')
        return g
    res = []
    for f in sorted(cr, key=lambda f: f.name):
        ex = paths.Explorer(hook, edge=edge)
        res.append((f, ex.run(f, (None, 0)), ex.n))
    lc = mods['conf.c'].funcs['load_config']
    ex = paths.Explorer(hook); res.append((lc, ex.run(lc, (None, 0)), ex.n))
    return cr, res, used

def c03(tier):
    mods = build.Tree().load(build.all_sources())
    r = Result('Path-sensitive typestate: every path of a creator (and of load_config) on which a value could not be parsed, an address was missing, storage could not be obtained or a creator failed ends with the failure result; main stops when load_config fails.',
               ['values of the C library comparison functions are unconstrained'])
    cr, res, used = lifecycle(tier, mods, None)
    r.need(len(cr), 10, 'configuration creators'); n = 0
    for f, out, k in res:
        for (rv, (failed, reg)), tr in sorted(out.items(), key=str):
            n += 1
            if failed and rv != (0, 0):
                r.add('accepted:%s:%s' % (f.name, failed), '%s can report success although %s failed' % (f.name, failed), loc(f), [loc(I.fn, I) for I in tr])
    # main must not go on after a configuration error
    mf = mods['main.c'].funcs.get('main') if 'main.c' in mods else None
    if mf is not None:
        def hook(e, f, I, g):
            if I.extra[0] == 'g' and I.extra[1] == 'load_config': return [((0, 0), 'failed'), ((1, 1), g)]
            if I.extra[0] == 'g' and I.extra[1] in ('exit', 'abort'): return []
            if I.extra[0] == 'g' and I.extra[1] in ('run_sim', 'SDL_Setup') and g == 'failed':
                r.add('main:continues', 'the simulator is started after the configuration was rejected', loc(f, I))
            return None
        ex = paths.Explorer(hook); ex.run(mf, 'ok')
        calls = [I for b in mf.order for I in mf.blocks[b] if I.op == 'call' and I.extra == ('g', 'load_config')]
        r.need(len(calls), 1, 'load_config calls in main'); n += len(calls)
    nf = [u for u in used if u[0] in FALLIBLE or u[0] in ALLOC or u[0] == 'create']
    r.need(len(nf), 10, 'fallible calls')
    r.obligations = n
    r.coverage = dict(functions=[loc(f) for f, _, _ in res], exit_states=n, path_states=sum(k for _, _, k in res),
                      fallible_calls=sorted('%s at %s' % (u[0], loc(u[1], u[2])) for u in nf))
    return r

def c04(tier):
    mods = build.Tree().load(build.all_sources())
    r = Result('Path-sensitive typestate over every creator: a creator that reports failure leaves no device of its own on a channel list; a control unit or device creator that reports success has put its device there, unless it attached a unit to an existing control unit or the address is the reserved zero.',
               [])
    cr, res, used = lifecycle(tier, mods, None)
    r.need(len(cr), 10, 'configuration creators')
    r.need(len([u for u in used if u[0] == 'add_chan']), 4, 'device registrations'); n = 0
    for f, out, k in res:
        if f not in cr: continue
        vals = set()
        for (rv, (failed, reg)), tr in sorted(out.items(), key=str):
            n += 1; vals.add((rv, reg))
            if rv == (0, 0) and reg == 1:
                r.add('left:%s' % f.name, '%s can reject a definition and leave its device on the channel' % f.name, loc(f), [loc(I.fn, I) for I in tr])
            if rv is None and reg == 1: r.add('unknown:%s' % f.name, '%s returns an undetermined result after registering its device' % f.name, loc(f))
        v = [x for m, g, x in controls(mods) if g is cr[f]][0]
        if v[1] in (('c', 2), ('c', 3)):
            if not any(rv != (0, 0) and reg == 1 for rv, reg in vals) or any(rv != (0, 0) and reg == 0 for rv, reg in vals):
                r.add('never:%s' % f.name, '%s can report success without putting its device on a channel' % f.name, loc(f))
        n += 1
    # a unit may only be attached to a control unit of its own kind: a found device's context is read only under a
    # comparison of its bus function
    nn = attach_guard(r, mods)
    r.need(nn, 2, 'look-ups of control units'); n += nn
    r.obligations = n
    r.coverage = dict(creators=[loc(f) for f in cr], exit_states=n, path_states=sum(k for _, _, k in res), unit_lookups=nn)
    return r

def attach_guard(r, mods):
    """find_chan results: every use of dev->dev must be dominated by bus_func == own bus function"""
    n = 0
    for f in creators(mods):
        D = paths.defs(f)
        for b in f.order:
            for I in f.blocks[b]:
                if I.op != 'call' or I.extra != ('g', 'find_chan'): continue
                n += 1
                m = f.mod; d = m.di_struct('_device')
                off = {nm: o for o, z, nm, t in m.members(d)}
                devs = aliases(f, I.res)
                def fld(v):
                    dd = D.get(v[1]) if v[0] == 'r' else None
                    if dd is not None and dd.op == 'getelementptr' and dd.a[0][0] == 'r' and dd.a[0][1] in devs: return const_gep(dd)
                    return 0 if v[0] == 'r' and v[1] in devs else None
                ctxs = set()
                for x in f.order:
                    for J in f.blocks[x]:
                        if J.op == 'load' and fld(J.a[0]) == off['dev']: ctxs |= aliases(f, J.res)
                # blocks reachable from the call without passing an edge that established the comparison
                start = f.order[0]
                ok_edge = set()
                for x in f.order:
                    t = f.blocks[x][-1]
                    if t.op == 'br' and len(t.extra) == 2 and t.a[0][0] == 'r':
                        c = D.get(t.a[0][1])
                        if c is not None and c.op == 'icmp' and c.extra[0] in ('eq', 'ne'):
                            for i in (0, 1):
                                a, o = c.a[i], c.a[1 - i]
                                la = D.get(a[1]) if a[0] == 'r' else None
                                if la is not None and la.op == 'load' and fld(la.a[0]) == off['bus_func'] and o[0] == 'g':
                                    ok_edge.add((x, t.extra[0 if c.extra[0] == 'eq' else 1]))
                seen = set(); st = [b]; first = True
                while st:
                    x = st.pop()
                    if x in seen: continue
                    seen.add(x)
                    ins = f.blocks[x]
                    for J in ins[(ins.index(I) + 1 if x == b else 0):]:
                        if uses(J, ctxs):
                            r.add('attach:%s' % f.name, 'the device found at the address is used without checking that it is the right kind of control unit', loc(f, J), [loc(f, I)])
                    for y in succ(f, x):
                        if (x, y) not in ok_edge: st.append(y)
    return n

def uses(J, vals):
    """J accesses memory through one of the values (or hands it on)"""
    if J.op == 'getelementptr': return J.a[0][0] == 'r' and J.a[0][1] in vals
    if J.op == 'load': return J.a[0][0] == 'r' and J.a[0][1] in vals
    if J.op == 'store': return any(x[0] == 'r' and x[1] in vals for x in J.a)
    if J.op == 'call': return any(v[0] == 'r' and v[1] in vals for t, v in J.a if isinstance(v, tuple))
    return False

def aliases(f, res):
    s = {res}; ch = True
    while ch:
        ch = False
        for b in f.order:
            for I in f.blocks[b]:
                if I.res and I.res not in s:
                    if I.op in ('bitcast', 'freeze') and I.a[0] == ('r', I.a[0][1]) and I.a[0][1] in s or I.op == 'phi' and any(v[0] == 'r' and v[1] in s for v, _ in I.extra):
                        s.add(I.res); ch = True
    return s

# ---------------------------------------------------------------------------------------- C05
def cstr(mods, m, v):
    if v[0] != 'g': return None
    g = m.globals.get(v[1])
    if g is None or g.init is None: return None
    x = g.init
    if x[0] == 'str':
        b = x[1]
        b = b if isinstance(b, bytes) else bytes(b, 'latin-1') if isinstance(b, str) else bytes(b)
        return b.split(b'\0')[0].decode('latin-1')
    if x[0] == 'agg': return bytes((y[1][1] & 255) for y in x[1]).split(b'\0')[0].decode('latin-1')
    return None

def c05(tier):
    mods = build.Tree().load(build.all_sources())
    r = Result('Table analysis of the registration entries the compiler emits: every keyword entry lies in the registration section, is kept by the linker, carries the marker load_config scans for, has a type load_config dispatches to a creator, a non-null creator, and a name that the line scanner can produce and no other entry has; every creator a header offers for a compiled-in device is registered.',
               ['the linker lays the section out contiguously'])
    cs = controls(mods); r.need(len(cs), 10, 'registration entries')
    names = {}; n = 0
    start = [v for m, g, v in cs if g.name == 'model_list_start']; r.need(len(start), 1, 'list start entry')
    magic = start[0][5]; sec = [g.section for m, g, v in cs if g.name == 'model_list_start'][0]
    lc = mods['conf.c'].funcs['load_config']
    disp = set()
    D = paths.defs(lc)
    for b in lc.order:
        t = lc.blocks[b][-1]
        if t.op == 'switch':
            # case labels whose block leads to an indirect call before the switch is left
            for k, l in t.extra[2]:
                seen = set(); st = [l]
                pd = postdoms(lc); join = ipostdom(pd, b)
                while st:
                    x = st.pop()
                    if x in seen or x == join: continue
                    seen.add(x)
                    if any(I.op == 'call' and I.extra[0] == 'r' for I in lc.blocks[x]): disp.add(k)
                    st += succ(lc, x)
    r.need(len(disp), 4, 'dispatched entry types')
    section_used = {}
    for m, g, v in cs:
        nm = cstr(mods, m, v[0]); n += 6
        where = '%s %s' % (m.src.split('/src/', 1)[-1], g.name)
        if g.section != sec: r.add('section:%s' % g.name, 'entry %s is not in the registration section' % g.name, where)
        if g.name not in used_list(m): r.add('used:%s' % g.name, 'entry %s may be dropped: nothing keeps it' % g.name, where)
        if v[5] != magic: r.add('magic:%s' % g.name, 'entry %s does not carry the registration marker' % g.name, where)
        if g.name == 'model_list_start': continue
        if v[1][0] != 'c' or v[1][1] not in disp: r.add('type:%s' % g.name, 'entry %s has a type load_config does not dispatch to its creator' % g.name, where)
        if v[3][0] != 'g': r.add('create:%s' % g.name, 'entry %s has no creator' % g.name, where)
        if not nm or not re.match(r'^([A-Z][A-Z0-9]*|[0-9]+([A-Z][A-Z0-9]+)?)$', nm) or len(nm) > 19:
            r.add('name:%s' % g.name, 'no configuration line can name the entry %r' % nm, where)
        if nm in names: r.add('dup:%s' % nm, 'two entries are called %s (%s)' % (nm, names[nm]), where)
        names[nm] = where
    regd = {v[3][1] for m, g, v in cs if v[3][0] == 'g'}
    for rel, m in sorted(mods.items()):
        for f in m.funcs.values():
            if f.order and re.match(r'^(model\w+|log[A-Z]+)_create$', f.name) and not f.__dict__.get('internal'):
                n += 1
                if f.name not in regd: r.add('unregistered:%s' % f.name, 'creator %s is not reachable from any configuration keyword' % f.name, loc(f))
    r.obligations = n
    r.coverage = dict(entries={k: v for k, v in names.items()}, dispatched_types=sorted(disp), section=sec)
    return r

def used_list(m):
    s = set()
    for nm in ('llvm.used', 'llvm.compiler.used'):
        g = m.globals.get(nm)
        if g is not None and g.init is not None:
            for t, v in g.init[1]:
                if v[0] == 'g': s.add(v[1])
    return s

CHECKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}
