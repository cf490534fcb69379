"""Micro-orders: what each value of each control field of the three microcoded machines reads and changes, bit by bit.

The reference (spec/micro_*.txt) was written once from the reviewed tables; a run derives the same tables from the current
source and compares them. The comparison is exact where both sides are canonical, and falls back to the registers and
bits involved where the code was divided differently (several stores turned into one selected value, and the like)."""
import sys, os, re, json
import build, ir, micro
from common import *

MACHINES = {
    '2050': ('model2050/cpu2050.c', 'cycle_2050', 'ROS_2050'),
    '2030': ('model2030/cpu2030.c', 'cycle_2030', 'ROS_2030'),
    '2844': ('model2844/model2844.c', 'step_2844', 'ROS_2844'),
}
FREE = {'note', 'zp', 'zr', 'ce', 'CN', 'CK', 'BP', 'NOTE', 'row1', 'row2', 'row3', 'row4', 'PN', 'PS', 'PA', 'PK', 'PC'}
R50 = dict(tr=32, al=32, lu=8, mv=4, zn=8, zf=16, ws=8, sf=8, iv=8, wm=16, up=4, md=2, lb=2, mb=2, dg=8, ul=4, ur=4, lx=8, tc=2, ry=8, ad=16, ab=64, bb=32, ss=64)
# property -> machine -> [(field, number of values, settings of other fields and cells)]
def groups():
    g = {}
    def both(fs, extra=()):
        l = []
        for io in (0, 1):
            for f in fs: l.append((f, R50[f], {'io_mode': io}))
            for f, d in extra: l.append((f, R50[f], dict(d, io_mode=io)))
        return l
    g['M03'] = [('2050', both(['lx', 'tc', 'ry', 'ad', 'dg', 'al', 'tr', 'sf', 'ws'], [('ad', {'al': 23}), ('ad', {'wm': 1}), ('tr', {'al': 24}), ('dg', {'wm': 1})]))]
    g['M04'] = [('2050', both(['lu', 'mv', 'ul', 'ur', 'wm', 'up', 'md', 'lb', 'mb', 'iv'], [('up', {'md': 1}), ('up', {'lb': 1}), ('up', {'mb': 1}), ('wm', {'tr': 3}), ('iv', {'zn': 1}), ('iv', {'wm': 1})]))]
    g['M05'] = [('2050', both(['zn', 'zf', 'ab', 'bb', 'ss'], []))]
    z = {'dead_cycle': 0, 'sel_ros_rest': 0, 'mpx_ros_rest': 0}
    n = dict(z, CK=0)
    g['M06'] = [('2030', [('CA', 32, n), ('CB', 4, dict(z, CG=3)), ('CF', 8, dict(n, CB=0)), ('CG', 4, n), ('CV', 4, dict(n, CG=3, CF=3)), ('CC', 8, dict(n, CG=3, CF=3)), ('CC', 8, dict(n, CG=3, CF=3, CV=3)), ('CC', 8, dict(n, CG=3)), ('CD', 16, n)]
                 + [('CK', 16, dict(z, CA=0x1f))])]
    g['M07'] = [('2030', [('CH', 16, n), ('CL', 16, n), ('CS', 32, n), ('CS', 32, z), ('CK', 32, z)] + [('CM', 8, dict(z, CU=u)) for u in range(4)] + [('CU', 4, dict(n, CM=m)) for m in (0, 3, 4, 6)]
                 + [(c, (1,), {k: x for k, x in n.items() if k != c}) for c in ('mpx_ros_rest', 'sel_ros_rest', 'dead_cycle')])]
    g['M08'] = [('2844', [('CA', 32, {}), ('CB', 4, {}), ('CH', 16, {}), ('CL', 16, {}), ('CD', 32, {}), ('CS', 16, {}), ('CC', 8, {'CB': 1, 'CA': 2}), ('CV', 2, {'CB': 1, 'CA': 2}), ('CV', 2, {'CB': 1, 'CA': 2, 'CC': 6})])]
    return g

# significant bits of the fields left open, as the control words define them
WIDTH = {'2030': dict(CK=5, CN=8, PK=1, PN=1, PS=1, PA=1, PC=1), '2050': dict(ce=4, zp=12, zr=1), '2844': {}}
_E = {}
NAMES = os.path.dirname(os.path.abspath(__file__)) + '/spec/micro_names.txt'
def engine(mach, tree):
    if mach not in _E:
        rel, fn, ros = MACHINES[mach]
        m = micro.load_inlined(tree, rel)
        f = m.funcs.get(fn)
        if f is None: raise Broken('%s in %s is gone' % (fn, rel))
        if m.di_struct(ros) is None: raise Broken('struct %s is gone' % ros)
        al = {}
        if os.path.exists(NAMES):
            ref = [tuple(x[1:3]) + (int(x[3]),) for x in (l.split() for l in open(NAMES)) if x[0] == mach]
            al = micro.alias_of(ref, micro.names_of(m, f, ros))
        _E[mach] = micro.Engine(m, f, ros, alias=al); _E[mach].fwidth = WIDTH[mach]
    return _E[mach]

def derive(mach, cfg):
    """-> {value: {dest: [(wiring, condition, involved, location)]}}"""
    E = _E[mach]; fld, n, st = cfg
    base = {('ros', k): 0 for k in E.rosoff if k not in FREE}
    for k, v in st.items(): base[('ros' if k in E.rosoff else 'cell', k)] = v
    t, nets = micro.table(E, base, fld, list(range(n)) if isinstance(n, int) else [0] + list(n), None if isinstance(n, int) else n)
    out = {}
    for v, es in t.items():
        d = out[v] = {}
        for x in es:
            d.setdefault(x.dest, []).append((x.text, x.ctext, involved(x), loc(E.f, x.inst)))
        for k in d: d[k].sort()
        for k, l in nets[v].items(): d['=' + k] = l
    return out

def involved(x):
    a, t = micro.base_atoms([b for b in x.bits if isinstance(b, micro.N)] + [x.cond])
    d = {}
    for c, k in a: d.setdefault(c.replace("'", ''), []).append(k)
    return '\t'.join(['%s.%s' % (c, micro.spans(sorted(set(k)))) for c, k in sorted(d.items())] + sorted('#' + y for y in t if y not in ('%', 'loop')))
def cfgname(cfg):
    fld, n, st = cfg
    return fld + (' with ' + ', '.join('%s=%s' % (k, st[k]) for k in sorted(st)) if st else '')

def _work(a): 
    sys.setrecursionlimit(20000)
    try: return derive(*a)
    except Broken as ex: return ex
def derive_all(jobs):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        rs = p.map(_work, jobs, chunksize=1)
    for r in rs:
        if isinstance(r, Broken): raise r
    return rs

SPEC = os.path.dirname(os.path.abspath(__file__)) + '/spec/'
def spec_file(pid): return SPEC + 'micro_%s.txt' % pid
def dump(jobs, rs, fn):
    with open(fn, 'w') as f:
        for (mach, cfg), r in zip(jobs, rs):
            f.write('%% %s %s\n' % (mach, cfgname(cfg)))
            for v in sorted(r):
                f.write('= %d\n' % v)
                for d in sorted(r[v]):
                    if d[0] == '=':
                        for x in r[v][d]: f.write('%s <= %s\n' % (d[1:], x))
                        continue
                    for w, c, inv, l in r[v][d]: f.write('%s <- %s ;; %s ;; %s\n' % (d, w, c, inv))
def read_spec(fn):
    out = {}; cur = None
    for L in open(fn):
        L = L.rstrip('\n')
        if L.startswith('% '): cur = out[L[2:]] = {}
        elif L.startswith('= '): v = cur[int(L[2:])] = {}
        elif ' <= ' in L and (' <- ' not in L or L.index(' <= ') < L.index(' <- ')):
            d, x = L.split(' <= ', 1); v.setdefault('=' + d, []).append(x)
        elif L:
            d, rest = L.split(' <- ', 1); w, c, inv = rest.rsplit(' ;; ', 2)
            v.setdefault(d, []).append((w, c, inv))
    return out

def jobs_of(pid): return [(m, c) for m, cs in groups()[pid] for c in cs]

def inexact(s): return ' %' in s or 'loop' in s
def compare(exp, got):
    """entries expected and found for one destination -> what differs, or None"""
    if sorted(x[:2] for x in exp) == sorted(x[:2] for x in got): return None
    we, wg = sorted({x[0] for x in exp}), sorted({x[0] for x in got})
    ce, cg = sorted({x[1] for x in exp}), sorted({x[1] for x in got})
    ie, ig = inv(exp), inv(got)
    de = [x for x in exp if x[:2] not in [y[:2] for y in got]]; dg = [y for y in got if y[:2] not in [x[:2] for x in exp]]
    soft = any(inexact(x[0] + x[1]) for x in de + list(dg))
    if not soft:
        if we == wg or ce == cg: return de, dg
    if ie != ig: return de, dg
    return None
def inv(l):
    s = {}
    for x in l:
        for p in (x[2].split('\t') if x[2] else ()):
            if p.startswith('#'): s.setdefault('#', set()).add(p)
            else:
                c, k = p.rsplit('.', 1)
                for q in k.split(','):
                    a, b = (q.split('-') + [q])[:2] if '-' in q else (q, q)
                    s.setdefault(c, set()).update(range(int(a), int(b) + 1))
    return s

def check(pid, title):
    tree = build.Tree(); jobs = jobs_of(pid); spec = read_spec(spec_file(pid))
    for m in sorted({m for m, c in jobs}): engine(m, tree)
    rs = derive_all(jobs)
    r = Result(title, [])
    n = 0; vals = 0; cells = set()
    for (mach, cfg), got in zip(jobs, rs):
        sp = spec.get('%s %s' % (mach, cfgname(cfg)))
        if sp is None: raise Broken('no reference for %s %s' % (mach, cfgname(cfg)))
        for v in sorted(got):
            vals += 1
            e, g = sp.get(v, {}), got[v]
            for d in sorted(set(e) | set(g)):
                if d[0] == '=': continue
                ne, ng = e.get('=' + d), g.get('=' + d)
                if ne and ne == ng and not any(inexact(x) for x in ne): n += 1; cells.add(d); continue
                n += 1; cells.add(d)
                if ne and ng and ne != ng and not any(inexact(x) or "'" in x for x in ne + ng): x = ([(y, '') for y in ne if y not in ng], [(y, '', '', g[d][0][3] if g.get(d) else loc(_E[mach].f)) for y in ng if y not in ne])
                else: x = compare(e.get(d, []), g.get(d, []))
                if x is None: continue
                de, dg = x
                where = dg[0][3] if dg else loc(_E[mach].f)
                msg = '%s micro-order %s=%d%s: ' % (mach, cfg[0], v, ' (' + cfgname(cfg).split(' with ')[1] + ')' if cfg[2] else '')
                t = []
                if de: t.append('should do ' + '; '.join('%s <- %s%s' % (d, y[0], ' if ' + y[1] if y[1] else '') for y in de[:3]))
                if dg: t.append('does ' + '; '.join('%s <- %s%s' % (d, y[0], ' if ' + y[1] if y[1] else '') for y in dg[:3]))
                if not dg: t.append('does not')
                r.add('%s:%s=%d:%s' % (mach, cfg[0], v, d), (msg + ', '.join(t))[:900], where)
    r.need(n, 40, 'effects of micro-orders')
    r.obligations = n
    r.coverage = dict(tables=len(jobs), micro_orders=vals, effects=n, cells=len(cells), fields=sorted({'%s.%s' % (m, c[0]) for m, c in jobs}))
    return r

RULE = 'The cycle function is specialised to each value of each control field (every expression that depends only on the field is folded, branches it decides are dropped) and every store left is described by the Boolean function or the sum of register bits it stores and the condition under which it does; the result must be the one in the reference table %s, neither more nor less. Fields: %s.'
def rule(pid): return RULE % ('spec/micro_%s.txt' % pid, ', '.join(sorted({'%s.%s' % (m, c[0]) for m, c in jobs_of(pid)})))
def mk(pid): return lambda tier: check(pid, rule(pid))
CHECKS = {p: mk(p) for p in ('M03', 'M04', 'M05', 'M06', 'M07', 'M08')}

if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    tree = build.Tree()
    if os.path.exists(NAMES): os.unlink(NAMES)
    o = []
    for mach in MACHINES:
        E = engine(mach, tree)
        for k, n, z in micro.names_of(E.m, E.f, E.ros): o.append('%s %s %s %d\n' % (mach, k, n, z))
    open(NAMES, 'w').writelines(o)
    for pid in sys.argv[1:] or sorted(CHECKS):
        jobs = jobs_of(pid)
        for m in sorted({m for m, c in jobs}): engine(m, tree)
        dump(jobs, derive_all(jobs), spec_file(pid)); print(pid, len(jobs))
