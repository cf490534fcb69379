"""Effect properties: drawing and logging only observe the machine; log calls are well formed."""
import re
import build, maybits, ir
from common import *

LOGVARS = (('g', 'log_level'), ('g', 'log_enable'))
SDL_OK = re.compile(r'^(SDL_|TTF_|IMG_)')
FMT_OK = {'sprintf', 'snprintf', 'strcat', 'strcpy', 'strncpy', 'strncat', 'time', 'localtime', 'strftime', 'memcpy', 'strdup', 'free'}

def load(skip=()):
    T = build.Tree()
    mods = T.load([r for r in build.all_sources() if r not in skip])
    mb = maybits.MayBits(mods.values()); return mods, mb, maybits.Effects(mb)

# ---------------------------------------------------------------------------------------- Q01
def param_store_ok(mb, eff, mods, g, I):
    """a store through a parameter of g: acceptable when every caller passes the address of a local"""
    p = root_param(mb, g, I.a[1])
    if p is None: return False
    i = [n for t, n in g.params].index(p)
    sites = 0
    for m in mods.values():
        for f in m.funcs.values():
            for b in f.order:
                for C in f.blocks[b]:
                    if C.op == 'call' and C.extra[0] == 'g' and mb.target(f, C.extra[1]) is g:
                        sites += 1
                        v = C.a[i][1]
                        c = mb.base_cell(f, v) if v[0] in ('r', 'g', 'gep') else None
                        if c is None or c[0] != 'A':
                            q = root_param(mb, f, v)
                            return False
    return sites > 0 and g.name not in mb.addr_taken

def root_param(mb, f, v):
    seen = 0
    while v[0] == 'r' and seen < 50:
        seen += 1
        if any(v[1] == n for t, n in f.params): return v[1]
        d = mb.defs[f].get(v[1])
        if d is None or d.op not in ('getelementptr', 'bitcast', 'freeze'): return None
        v = d.a[0]
    return None

def machine_cell(c, panel_types, panel_globals):
    if c[0] == 'S': return c[1] not in panel_types
    if c[0] == 'G': return c[1] not in panel_globals
    return True

def q01(tier):
    mods, mb, eff = load(skip=('model2030/cpu2030.c', 'model2050/cpu2050.c'))
    r = Result('Effect analysis: the transitive may-write set of every drawing callback (functions stored in the draw_model slot of a device or the draw slot of a panel widget, following calls, and the functions that can be behind an indirect call) contains no cell of a device, CPU, tape, card, disk or event structure and no external call outside the graphics and formatting libraries.',
               ['external SDL/TTF functions do not write simulator structures'])
    roots = {}
    for s, n in (('_device', 'draw_model'), ('_widget_t', 'draw')):
        x = slot_fns(mods, mb, s, n); r.need(len(x), 3, 'functions stored in %s.%s' % (s, n)); roots.update(x)
    draw_model = set(slot_fns(mods, mb, '_device', 'draw_model'))
    # every function of a shape that can be reached through the indirect calls drawing code makes
    extra = {}
    seen = set(); work = list(roots)
    types = {}
    pan_t = {'struct.SDL_Rect', 'struct.SDL_Color', 'struct.SDL_Point', 'struct.__va_list_tag'}
    own_t = {'_widget_t', '_panel_t', '_popup'}
    for rel, m in mods.items():
        if rel.startswith('panel/'):
            for n in m.types:
                # structures only panel code defines
                if n.startswith('struct.') and not any(n in o.types and o.types[n].fields for rr, o in mods.items() if not rr.startswith(('panel/', 'main')) and not '/panel' in rr): pan_t.add(n)
    pan_t |= {'struct._text_t'}
    n_fn = 0; n_w = 0
    for g in sorted(roots, key=lambda f: (f.mod.src, f.name)):
        reach = set(); st = [g]
        while st:
            f = st.pop()
            if f in reach: continue
            reach.add(f); st += list(eff.calls.get(f, ()))
            for I in eff.icalls.get(f, ()):
                for h in icall_targets(mods, mb, f, I):
                    st.append(h)
        n_fn += len(reach)
        for f in sorted(reach, key=lambda f: (f.mod.src, f.name)):
            for c in sorted(eff.direct[f], key=str):
                n_w += 1
                if c[0] == 'ext':
                    if SDL_OK.match(c[1]) or c[1] in FMT_OK or c[1].startswith('log_'): continue
                    what = 'calls ' + c[1]
                elif c[0] == 'icall': continue
                elif c[0] == 'unk':
                    bad = [I for b in f.order for I in f.blocks[b] if I.op == 'store' and mb.base_cell(f, I.a[1]) is None and not param_store_ok(mb, eff, mods, f, I)]
                    if not bad: continue
                    what = 'stores through a pointer that may lead to machine state'
                elif c[0] == 'S':
                    if c[1] in pan_t: continue
                    what = 'writes %s field at offset %d' % (c[1], c[2])
                    nm = field_name(f.mod, c[1], c[2])
                    if nm: what = 'writes %s.%s' % (c[1].replace('struct.', ''), nm)
                elif c[0] == 'G':
                    gl = c[1][1] if isinstance(c[1], tuple) else c[1]
                    rel = f.mod.src
                    if isinstance(c[1], tuple) and '/panel' in rel or gl in ('last_level',): continue
                    what = 'writes global %s' % gl
                else: what = 'writes ' + str(c)
                I = eff.sites.get((f, c[:3])) or eff.sites.get((f, c))
                r.add('draw:%s:%s' % (g.name, what), 'drawing callback %s %s' % (g.name, what + (' (in %s)' % f.name if f is not g else '')), loc(f, I),
                      ['registered as a drawing callback in %s' % ', '.join('%s %s()' % x for x in roots[g])] + [loc(x) for x in path_to(eff, g, f)])
    r.obligations = n_w
    r.coverage = dict(callbacks=sorted(loc(g) for g in roots), functions_reached=n_fn, effects_checked=n_w)
    return r

def field_name(m, sname, off):
    d = m.di_struct(sname.split('.', 1)[-1])
    if d is None: return None
    for o, z, n, t in m.members(d):
        if o <= off < o + max(z, 1): return n
    return None

def path_to(eff, g, f):
    from collections import deque
    q = deque([(g, (g,))]); seen = {g}
    while q:
        x, p = q.popleft()
        if x is f: return p
        for h in eff.calls.get(x, ()):
            if h not in seen: seen.add(h); q.append((h, p + (h,)))
    return (g, f)

_slots = {}
def icall_targets(mods, mb, f, I):
    """functions stored in the structure slot an indirect call loads its target from"""
    k = I.extra[1] if isinstance(I.extra, tuple) else None
    d = mb.defs[f].get(k) if k else None
    if d is None or d.op != 'load': return []
    c = mb.base_cell(f, d.a[0])
    if c is None: return []
    key = (id(mb), c)
    if key not in _slots:
        r = set()
        for m in mods.values():
            for g in m.funcs.values():
                for b in g.order:
                    for J in g.blocks[b]:
                        if J.op == 'store' and J.a[0][0] == 'g' and mb.base_cell(g, J.a[1]) == c:
                            h = mb.target(g, J.a[0][1])
                            if h is not None: r.add(h)
        _slots[key] = r
    return _slots[key]

# ---------------------------------------------------------------------------------------- Q02
PURE_CALL = maybits.LIBC_PURE | {'sprintf', 'snprintf', 'strcat', 'strcpy', 'isprint', 'fflush'}
def q02(tier):
    T = build.Tree(); mods = T.load(build.all_sources())
    mb = maybits.MayBits.__new__(maybits.MayBits)
    mb = LightCells(mods.values()); eff = maybits.Effects(mb)
    r = Result('Control-dependence and effect rule: the code that executes only because a log-level bit is set (from the branch on the level to its post-dominator) stores to nothing but scratch buffers used only there, calls nothing but the logger and side-effect-free functions, and leaves every value live after it the same as when the level is off.',
               ['the logger itself and the option parsing that sets the level are the only other users of the level'])
    logfn = set()
    for f in eff.direct:
        if f.mod.src.endswith('/logger.c') and f.name.startswith('log_print'): logfn.add(f)
    r.need(len(logfn), 1, 'logger entry points')
    n = 0; per = {}; todo = []
    guarded = {}; GUSE.clear()
    for rel, m in sorted(mods.items()):
        if rel == 'logger.c': continue
        for f in m.funcs.values():
            brs = level_branches(mb, f)
            if not brs: continue
            pd = postdoms(f)
            regions = []
            for b in brs: regions.append((b, region(f, pd, b)))
            alls = set().union(*[x[1][0] for x in regions])
            guarded[f] = alls
            todo.append((rel, m, f, regions, alls))
    global_uses(mods, guarded)
    for rel, m, f, regions, alls in todo:
            for b, (reg, ip) in regions:
                n += 1; per[rel] = per.get(rel, 0) + 1
                check_region(r, mods, mb, eff, logfn, f, b, reg, ip, alls)
    r.need(n, 300, 'branches on the log level')
    r.obligations = n
    r.coverage = dict(level_branches=per, logger_functions=sorted(loc(f) for f in logfn))
    return r

class LightCells(maybits.MayBits):
    """the address part of MayBits only"""
    def loops(s): pass
    def solve(s): pass

def level_branches(mb, f):
    out = []
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br' and len(t.extra) > 1 and t.a and t.a[0][0] == 'r' and from_level(mb, f, t.a[0]): out.append(b)
    return out

def from_level(mb, f, v, depth=0):
    if v[0] != 'r' or depth > 8: return False
    d = mb.defs[f].get(v[1])
    if d is None: return False
    if d.op == 'load': return d.a[0] in LOGVARS
    if d.op in ('and', 'or', 'icmp', 'zext', 'trunc', 'xor', 'lshr', 'select'): return any(from_level(mb, f, x, depth + 1) for x in d.a)
    if d.op == 'phi': return any(from_level(mb, f, x, depth + 1) for x, _ in d.extra)
    return False

def region(f, pd, b):
    ip = ipostdom(pd, b)
    reg = set(); st = [x for x in succ(f, b) if x != ip]
    while st:
        x = st.pop()
        if x in reg: continue
        reg.add(x)
        st += [y for y in succ(f, x) if y != ip]
    return reg, ip

def harmless(eff, g, seen=None):
    """a function whose whole effect is logging"""
    for c in eff.trans.get(g, ()):
        if c[0] == 'ext' and c[1] in PURE_CALL | {'fprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'vsprintf', 'vsnprintf'}: continue
        if c[0] == 'S' and 'va_list' in c[1]: continue
        if c[0] == 'G' and isinstance(c[1], tuple) and c[1][0].endswith('/logger.c'): continue
        return c
    return None

def check_region(r, mods, mb, eff, logfn, f, b, reg, ip, alls):
    where = f.blocks[b][-1]
    for x in reg:
        for I in f.blocks[x]:
            if I.op == 'store' or I.op == 'call' and I.extra[0] == 'g' and I.extra[1].startswith('llvm.mem'):
                v = I.a[1] if I.op == 'store' else I.a[0][1]
                c = mb.base_cell(f, v)
                if scratch_cell(mb, f, c, alls): continue
                r.add('log:%s:store:%s' % (f.name, line(f, I)), 'a store happens only when logging is enabled', loc(f, I), [loc(f, where) + ' branch on the log level'])
            elif I.op == 'call':
                if I.extra[0] != 'g':
                    r.add('log:%s:icall:%s' % (f.name, line(f, I)), 'an indirect call happens only when logging is enabled', loc(f, I), [loc(f, where)]); continue
                nme = I.extra[1]
                if nme.startswith('llvm.') or nme in PURE_CALL: 
                    if nme in ('sprintf', 'snprintf', 'strcat', 'strcpy'):
                        c = mb.base_cell(f, I.a[0][1])
                        if not scratch_cell(mb, f, c, alls):
                            r.add('log:%s:store:%s' % (f.name, line(f, I)), '%s into a buffer that is used elsewhere happens only when logging is enabled' % nme, loc(f, I), [loc(f, where)])
                    continue
                g = mb.target(f, nme)
                if g is None:
                    r.add('log:%s:call:%s' % (f.name, nme), 'a call to %s happens only when logging is enabled' % nme, loc(f, I), [loc(f, where)]); continue
                if g in logfn: continue
                c = harmless(eff, g)
                if c is not None:
                    r.add('log:%s:call:%s' % (f.name, nme), 'a call to %s, which changes state (%s), happens only when logging is enabled' % (nme, c,), loc(f, I),
                          [loc(f, where)] + [loc(h) for h in eff.path(g, c)])
            elif I.op == 'ret' or I.op == 'unreachable':
                if ip is not None: r.add('log:%s:ret:%s' % (f.name, line(f, I)), 'the function returns early only when logging is enabled', loc(f, I), [loc(f, where)])
                elif I.a and len(set(J.a[0] for y in reg for J in f.blocks[y] if J.op == 'ret' and J.a)) > 1:
                    r.add('log:%s:retval:%s' % (f.name, line(f, I)), 'the return value depends on the log level', loc(f, I), [loc(f, where)])
    if ip is not None:
        for I in f.blocks[ip]:
            if I.op != 'phi': break
            vs = {v for v, p in I.extra if p in reg or p == b}
            if len(vs) > 1 and used_outside(mb, f, I.res, alls):
                r.add('log:%s:value:%s' % (f.name, I.res.strip('%')), 'a variable used afterwards has a different value when logging is enabled', loc(f, where), ['merge: ' + str(I.res)])

def line(f, I): return f.mod.line(I.dbg)[1]

GUSE = {}
def global_uses(mods, guarded):
    """global name -> is every use of it inside code that only runs for logging"""
    def names(v):
        if v[0] == 'g': yield v[1]
        elif v[0] in ('gep', 'ce'):
            for x in v[1:]:
                if isinstance(x, (list, tuple)):
                    for y in (x if isinstance(x, list) else [x]):
                        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple): yield from names(y[1])
                        elif isinstance(y, tuple) and y and isinstance(y[0], str): yield from names(y)
    for m in mods.values():
        for f in m.funcs.values():
            al = guarded.get(f, ())
            for b in f.order:
                for I in f.blocks[b]:
                    ops = [v for t, v in I.a] if I.op == 'call' else [v for v, _ in I.extra] if I.op == 'phi' else I.a
                    for v in ops:
                        for n in names(v):
                            k = (m.src if n in m.globals and m.globals[n].internal else None, n)
                            GUSE[k] = GUSE.get(k, True) and b in al

def scratch_cell(mb, f, c, regs):
    if c is None: return False
    if c[0] == 'A': return scratch(mb, f, c[2], regs)
    if c[0] == 'G': return GUSE.get(c[1] if isinstance(c[1], tuple) else (None, c[1]), False)
    return False

def scratch(mb, f, a, regs):
    """is the local only touched inside log regions (or merely initialised)"""
    for b in f.order:
        if b in regs: continue
        for I in f.blocks[b]:
            if I.op == 'load':
                c = mb.base_cell(f, I.a[0])
                if c is not None and c[0] == 'A' and c[2] == a: return False
            elif I.op == 'call':
                for t, v in I.a:
                    if t.k == 'ptr' and v[0] in ('r', 'gep'):
                        c = mb.base_cell(f, v)
                        if c is not None and c[0] == 'A' and c[2] == a: return False
    return True

def used_outside(mb, f, res, regs, seen=None):
    seen = seen or set()
    if res in seen: return False
    seen.add(res)
    for b in f.order:
        for I in f.blocks[b]:
            ops = [v for t, v in I.a] if I.op == 'call' else list(I.a)
            if I.op == 'phi': ops = [v for v, _ in I.extra]
            if I.op == 'call' and I.extra[0] == 'r' : ops.append(('r', I.extra[1]))
            if ('r', res) in ops or any(isinstance(o, tuple) and o[0] == 'gep' and str(res) in str(o) for o in ops):
                if I.op == 'phi':
                    if used_outside(mb, f, I.res, regs, seen): return True
                elif b not in regs: return True
    return False

CHECKS = {'Q01': q01, 'Q02': q02}
