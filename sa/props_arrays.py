"""S: what arrives on a channel, from a card, a tape or a terminal never makes a device reach outside its own arrays"""
import num, props_conf
from common import *
from result import Result

DEVICES = ['model1052/model1052.c', 'model1442/model1442.c', 'model2415/model2415.c', 'model2844/model2844.c']
PANELS = ['model1442/panel1442.c', 'model2415/panel2415.c']       # also write the state of the device they belong to
CARDS = 'device/card.c'                                            # the card code tables
MIN = {'model1052/model1052.c': 50, 'model1442/model1442.c': 40, 'model2415/model2415.c': 120, 'model2844/model2844.c': 60, CARDS: 5}

def s01(tier):
    mods, p = props_conf.program()
    r = Result('Abstract interpretation (intervals and difference bounds over the compiled source, all paths joined, helpers inlined, state fields by what every function of the device can leave in them): every array element, table entry and buffer slice the device controllers touch on the channel interface, in their timed events and in their terminal thread, and every index into the card code tables, lies inside the array whatever data, command, unit address or status arrives.',
               ['events queued by a device call back with the value they were queued with', 'state fields are only written by the functions of the device and of its panel', 'the C library behaves as documented',
                'strings in option records are left to C01', 'descriptor sets (select) are left out: their index is a host socket'])
    miss = [x for x in DEVICES + PANELS + [CARDS] if x not in mods]
    if miss: raise Broken('no source file ' + ', '.join(miss))
    fs = [f for x in DEVICES + PANELS + [CARDS] for f in mods[x].funcs.values() if f.order]
    E = num.Engine(p); E.par = 8; E.events = True; E.defer = True
    rels = set(DEVICES + PANELS + [CARDS])
    E.policy = lambda t: t.rel in rels
    E.solve(fs)
    n = {}; kinds = {}
    glob = {g for x in mods.values() for g in list(x.globals) + [x.name + ':' + k if hasattr(x, 'name') else k for k in x.globals]}
    for o in E.obl.values():
        rel = o.I.fn.rel
        if rel in PANELS or o.nm.startswith('_option.') or o.nm.startswith('struct.fd_set'): continue
        if rel == CARDS and o.nm.split(':')[-1] not in glob: continue
        n[rel] = n.get(rel, 0) + 1; kinds[o.kind] = kinds.get(o.kind, 0) + 1
        if not o.ok: r.add('array:%s:%s:%s:%s' % (rel, o.fn, o.nm, o.kind), 'access to %s may fall outside it: %s' % (o.nm, o.why), loc(o.I.fn, o.I))
    for x, m in MIN.items(): r.need(n.get(x, 0), m, 'array accesses in ' + x)
    r.obligations = sum(n.values())
    r.coverage = dict(functions=sorted(loc(f) for f in E.roots if f.rel not in PANELS), accesses=n, accesses_by_kind=kinds)
    return r

CPUS = ['model2030/cpu2030.c', 'model2050/cpu2050.c']
DIALS = {k + '_SW': (0, 15) for k in 'ABCDFGHJ'}                   # sixteen positions each
BYTES = {'CPU_2030.GR': (0, 0x1ff)}                                 # the selector data register holds a byte and its parity
MINC = {'model2030/cpu2030.c': 350, 'model2050/cpu2050.c': 800}
# accesses whose index is only right in relation to another register: see DESIGN
RELATED = {('CPU_2030.LS', 'MN_REG')}

def index_field(f, I):
    """the structure field an access is indexed with, when it is used as it stands"""
    defs = {J.res: J for b in f.order for J in f.blocks[b] if J.res is not None}
    fld = lambda J: J is not None and J.op == 'getelementptr' and J
    v = I.a[0] if I.op == 'load' else I.a[1]
    if isinstance(v, tuple) and len(v) == 2 and v[0] not in ('r', 'g', 'gep'): v = v[1]
    if v[0] != 'r' or defs.get(v[1]) is None or defs[v[1]].op != 'getelementptr': return None
    ix = defs[v[1]].extra[1][-1][1]
    for _ in range(6):
        if ix[0] != 'r' or defs.get(ix[1]) is None: return None
        J = defs[ix[1]]
        if J.op in ('zext', 'sext', 'trunc', 'and') and J.op != 'and': ix = J.a[0] if J.a[0][0] in ('r', 'c') else J.a[0][1]; continue
        if J.op == 'load': return access_field(f, defs, J)
        return None

def access_field(f, defs, J):
    v = J.a[0]
    if v[0] not in ('r', 'g', 'gep') : v = v[1]
    if v[0] == 'gep': bt, args = v[1], v[2]; path = [a[1] for a in args[1:]]
    elif v[0] == 'r' and defs.get(v[1]) is not None and defs[v[1]].op == 'getelementptr': bt, args = defs[v[1]].extra; path = [a[1] for a in args]
    else: return None
    if bt.k != 'struct' or len(path) != 2 or path[1][0] != 'c': return None
    n = names(f.mod, bt.name)
    return n[path[1][1]] if n and path[1][1] < len(n) else None

def names(m, st):
    d = m.di_struct(st.split('.', 1)[1]) if '.' in st else None
    return [x[2] for x in m.members(d)] if d else None

def s02(tier):
    mods, p = props_conf.program()
    r = Result('Abstract interpretation (intervals and difference bounds over the compiled source, all paths joined, registers by what every function of the processor can leave in them): every array element and table entry the two processors touch in a cycle lies inside the array, whatever the microprogram, the registers, the dials and the channels hold.',
               ['each address and data dial has sixteen positions', 'the selector data register of the 2030 holds a byte and its parity (storage and the channels deliver nothing wider)', 'main storage (allocated) and the control store are left out', 'the C library behaves as documented'])
    miss = [x for x in CPUS if x not in mods]
    if miss: raise Broken('no source file ' + ', '.join(miss))
    fs = [f for x in CPUS for f in mods[x].funcs.values() if f.order]
    E = num.Engine(p); E.par = 8; E.events = True; E.defer = True; E.dials = {**DIALS, **BYTES}
    rels = set(CPUS)
    E.policy = lambda t: t.rel in rels
    E.solve(fs)
    n = {}; kinds = {}; rel_n = 0
    for o in E.obl.values():
        rel = o.I.fn.rel
        if o.nm.startswith(('_option.', 'ros_2030', 'ros_2050')): continue
        if not o.ok and (o.nm, index_field(o.I.fn, o.I)) in RELATED: rel_n += 1; continue
        n[rel] = n.get(rel, 0) + 1; kinds[o.kind] = kinds.get(o.kind, 0) + 1
        if not o.ok: r.add('array:%s:%s:%s:%s' % (rel, o.fn, o.nm, o.kind), 'access to %s may fall outside it: %s' % (o.nm, o.why), loc(o.I.fn, o.I))
    for x, m in MINC.items(): r.need(n.get(x, 0), m, 'array accesses in ' + x)
    r.obligations = sum(n.values())
    r.coverage = dict(functions=sorted(loc(f) for f in E.roots), accesses=n, accesses_by_kind=kinds, left_to_relations=rel_n)
    return r
CHECKS = {'S01': s01, 'S02': s02}
