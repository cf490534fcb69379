"""W properties: the write-behind buffers of the tape and disk images"""
import build, wbuf, paths
from wbuf import Engine, roles, fieldload, callee, UNK, K, islin
from shape import ladd
from common import loc, succ
from result import Result, Broken

TAPE, DISK = 'device/tape.c', 'device/dasd.c'
_c = {}
WHERE = {'place': 1, 'dirty': 1, 'overwrite': 1, 'length': 1, 'cut': 1, 'direct': 1, 'position': 2, 'index': 2, 'bounds': 2, 'cylinder': 3, 'track': 3}

def structof(mod, names):
    """the structure whose members the API functions named use most"""
    n = {}
    for f in mod.funcs.values():
        if not f.order: continue
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and wbuf.stname(I.extra[0]): n[I.extra[0].name] = n.get(I.extra[0].name, 0) + 1
    for k in sorted(n, key=lambda k: -n[k]):
        r = roles(mod, k)
        if r.fd is not None and r.buf is not None and r.pos is not None and r.dirty is not None: return k, r
    raise Broken('no buffered file structure recognised in %s' % mod.src)

def bufsize(mod, sname, off):
    for f in mod.funcs.values():
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'getelementptr' and wbuf.stname(I.extra[0]) == sname:
                    t = I.extra[0]
                    for i, o in enumerate(t.offsets()):
                        if o == off and t.fields[i].k == 'arr': return t.fields[i].n
    return None

def retfield(mod, fname):
    """member a one-line accessor returns"""
    f = mod.funcs.get(fname)
    if f is None or not f.order: raise Broken('accessor %s is gone' % fname)
    out = set()
    for b in f.order:
        I = f.blocks[b][-1]
        if I.op == 'ret' and I.a:
            q = fieldload(f, I.a[0])
            if q: out.add(q[2])
    if len(out) != 1: raise Broken('%s does not return one member' % fname)
    return out.pop()

def engines():
    if 'e' in _c: return _c['e']
    T = build.Tree(); ms = T.load([TAPE, DISK]); out = {}
    for rel in (TAPE, DISK):
        m = ms[rel]; sn, r = structof(m, None)
        if rel == TAPE and (r.idx is None or r.len is None): raise Broken('the tape buffer index or length is not recognised')
        size = bufsize(m, sn, r.buf)
        E = Engine(m, r, size); E.fn = {}
        if rel == DISK: E.cyl = retfield(m, 'dasd_cur_cyl'); E.atexit = cylinder; E.header = headersize(m)
        for f in m.funcs.values():
            if f.order and E.touches(f):
                p0 = E.paths
                E.analyse(f)
                E.fn[f.name] = E.paths - p0
        out[rel] = (m, r, E, sn)
    _c['e'] = out
    return out

def mulfs(t):
    """the factors of a linear term that is one product"""
    if not islin(t) or t[1] != 0 or len(t[2]) != 1 or t[2][0][1] != 1: return [t]
    x = t[2][0][0]
    if isinstance(x, tuple) and x[0] == 'mul': return sorted(x[1:], key=repr)
    return [t]

def cylinder(E, f, st):
    """a buffer loaded from header + size * X is the buffer of the cylinder the drive says it is on"""
    ld = st.g.get('loaded')
    if not ld or st.g.get('closed'): return None
    n, off = ld; cur = st.g.get(('w', E.cyl), wbuf.S(('f0', E.cyl)))
    if off == UNK: return ('cylinder', 'the place the cylinder buffer is loaded from cannot be followed')
    base = E.header
    rest = ladd(off, K(base), -1) if base is not None else None
    if rest == K(0): x = K(0)
    else:
        a, b = mulfs(rest), mulfs(n); x = None
        for q in b:
            if q in a: a.remove(q)
            else: return ('cylinder', 'the cylinder buffer is not loaded from a whole number of cylinders after the header')
        x = a[0] if len(a) == 1 else None
        if x is None: return ('cylinder', 'the cylinder buffer is not loaded from a whole number of cylinders after the header')
    if not E.eq(st, cur, x): return ('cylinder', 'the cylinder loaded is not the one the drive reports as its current cylinder')
    return None

def headersize(m):
    """size of the header that precedes the first cylinder: the fixed-size transfers of the file"""
    c = {}
    for f in m.funcs.values():
        for b in f.order:
            for I in f.blocks[b]:
                if callee(I) in ('read', 'write', 'pread', 'pwrite') and I.a[2][1][0] == 'c': c[I.a[2][1][1]] = c.get(I.a[2][1][1], 0) + 1
    if len(c) != 1: raise Broken('the header of the disk image is not recognised (%s)' % sorted(c))
    return list(c)[0]

def sub(n, least, explanation, assumptions):
    r = Result(explanation, assumptions); es = engines(); cov = {}
    for rel, (m, ro, E, sn) in es.items():
        if n == 2 and rel == DISK or n == 3 and rel == TAPE: continue
        for fn, bs in sorted(E.bads.items()):
            if not E.reported(fn): continue
            for key, msg, where in bs:
                if WHERE[key] == n: r.add('%s:%s:%s' % (rel, fn, key), msg, where)
        cov[rel] = dict(structure=sn, roles={k: getattr(ro, k) for k in ('fd', 'buf', 'pos', 'len', 'dirty', 'idx', 'mark')}, functions=sorted(E.fn),
                        paths=E.paths, exits=E.exits, buffer_and_file_events=E.events, loads=len(E.loads), writes=len(E.writes))
        r.obligations += E.exits + E.events
        r.need(len(E.fn), least[rel][0], 'functions of %s using the buffer' % rel)
        r.need(len(E.loads), least[rel][1], 'loads of the buffer of %s' % rel)
        r.need(len(E.writes), least[rel][2], 'writes of the buffer of %s' % rel)
    r.coverage = cov
    return r

A = ['lseek() and write() do what they report; a host file error is reported by the program and is not a loss of its own making', 'one structure is used by one image file at a time']
LEAST = {TAPE: (8, 3, 3), DISK: (5, 2, 1)}
def w01(tier): return sub(1, LEAST, 'every function using the buffer, from every state satisfying the invariant, on every path: data changed in the buffer is marked, written back whole and to the place it was read from before the buffer is refilled, moved, closed or released', A)
def w02(tier): return sub(2, LEAST, 'every function using the tape buffer, from every state satisfying the invariant, on every path: 0 <= index <= length <= size, position + index changes by exactly the byte moved, and that byte is the one at that position', A)
def w03(tier): return sub(3, LEAST, 'every load of the cylinder buffer: file offset = header + cylinder size * the cylinder reported as current when the function returns', A)

def defines():
    """the constants of tape.h"""
    import os, re
    t = open(os.path.join(build.REPO, 'src', 'device', 'tape.h')).read(); r = {}
    for n, v in re.findall(r'^#define\s+(\w+)\s+(-?\w+)', t, re.M):
        try: r[n] = int(v, 0)
        except ValueError: pass
    for n in ('TAPE_FMT', 'FUNC_V', 'FUNC_M', 'TYPE_P7B', 'TYPE_TAP', 'TYPE_E11', 'TAPE_MARK', 'WRITE_RING', 'TAPE_EOT', 'TAPE_BOT', 'IRG_MASK', 'BCD_TM', 'TAPE_STATUS_OK', 'TAPE_STATUS_EOB', 'TAPE_STATUS_MARK', 'TAPE_STATUS_PARITY') + tuple('FUNC_' + x for x in ('READ', 'WRITE', 'RDBACK', 'MARK')):
        if n not in r: raise Broken('tape.h does not define %s' % n)
    return r

def w04(tier):
    import frames
    r = Result('every framing operation of the tape (start, byte, finish; forward, backward, write, mark) from a symbolic position, length and mode, on every path that meets no host error or end of tape: how far the tape moved, which bytes were read or written where, and the mode left, against the record layout of the image format', A)
    m, ro, E, sn = engines()[TAPE]
    d = m.di_struct(sn.split('.', 1)[1]); names = {n: o for o, sz, n, t in m.members(d)}
    for n in ('format', 'lrecl', 'orecl', 'srec', 'pos', 'pos_buff'):
        if n not in names: raise Broken('the tape buffer has no member %s' % n)
    moves = sorted(E.way.items())
    X = frames.Frames(m, ro, names, E.way, E.steps); X.M = defines()
    bad, n, ex, cov = frames.check(X, m)
    for key, msg, where in bad: r.add('%s:%s' % (TAPE, key), msg, where)
    r.coverage = dict(scenarios=cov, byte_movers=['%s returns %d: %+d' % (f, v, d) for (f, v), d in moves], back_fill=sorted(E.steps), paths=X.paths, exits=ex)
    r.obligations += ex
    r.need(n, 30, 'framing scenarios'); r.need(ex, 60, 'exits of framing operations'); r.need(len([1 for k, d in moves if d]), 3, 'byte moving functions')
    return r
CHECKS = {'W01': w01, 'W02': w02, 'W03': w03, 'W04': w04}
