"""Control stores: every control word compiled into the three machines is the word of the listing, and the listing is the
reviewed one. The listings are read here independently of the converters in the tree."""
import sys, os, re
import build, ir, paths
from common import *
from result import Result

# name, listing, table module, table, struct
STORES = (('2050', 'model2050/ros.txt', 'model2050/model2050_ros.c', 'ros_2050', 'ROS_2050'),
          ('2030', 'model2030/ccros2030.txt', 'model2030/model2030_ros.c', 'ros_2030', 'ROS_2030'),
          ('2844', 'model2844/model2844_ros.txt', 'model2844/model2844_ros.c', 'ros_2844', 'ROS_2844'))
REF = os.path.dirname(os.path.abspath(__file__)) + '/spec/ros_words.txt'

L50 = [('p1', 1), ('lu', 3), ('mv', 2), ('zp', 6), ('zf', 4), ('zn', 3), ('tr', 5), ('zr', 1), ('ws', 3), ('sf', 3),
       ('p2', 1), ('iv', 3), ('al', 5), ('wm', 4), ('up', 2), ('md', 1), ('lb', 1), ('mb', 1), ('dg', 3), ('ul', 2), ('ur', 2),
       ('p3', 1), ('ce', 4), ('lx', 3), ('tc', 1), ('ry', 3), ('ad', 4), ('ab', 6), ('bb', 5), ('ux', 1), ('ss', 6), ('x', 8)]
PARTS50 = ((0, 31), (31, 56), (56, 98))
L30 = [('CN', 8), ('CH', 4), ('CL', 4), ('CM', 3), ('CU', 2), ('CA', 4), ('CB', 2), ('CK', 4), ('CD', 4), ('CF', 3), ('CG', 2), ('CV', 2), ('CC', 3), ('CS', 4),
       ('AA', 1), ('AS', 1), ('AK', 1), ('PK', 1)]
L44 = [('CA', 4), ('CB', 2), ('CKh', 4), ('CK', 4), ('CL', 4), ('CH', 4), ('PA', 1), ('PS', 1), ('CN', 6), ('PN', 1), ('CD', 4), ('CDA', 1), ('CV', 1), ('CC', 3), ('CS', 4), ('PC', 1), ('AA', 1), ('BP', 1)]

def cut(bits, lay):
    r = {}; p = 0
    for n, w in lay: r[n] = int(bits[p:p + w], 2); p += w
    return r
def odd(*x): return sum(bin(y).count('1') for y in x) & 1

def read2050(fn):
    """address -> (bits, fields of the table, line)"""
    out = {}
    for ln, l in enumerate(open(fn, errors='replace'), 1):
        m = re.match(r'([0-9a-fA-F]+)\s+([01])\s+([01]{4})\s+([01]{4})\s+([01]{4})\s(.*)$', l)
        if not m: continue
        a = int(m[1], 16); mm = re.match(r'(?:(\S+)\s+(\S+)\s+)?(-|io|zeros|ones|roser)\s+([01 ]+)$', m[6].strip())
        if a != int(m[2] + m[3] + m[4] + m[5], 2) or not mm: out.setdefault('bad', []).append(ln); continue
        bits = (mm[4].replace(' ', '') + '0' * 14)[:98]
        f = cut(bits, L50); t = {k: v for k, v in f.items() if k not in ('p1', 'p2', 'p3', 'x')}
        t['zp'] <<= 6
        for i, (s, e) in enumerate(((0, 31), (31, 56), (56, 84), (84, 98)), 1): t['row%d' % i] = int(bits[s:e], 2)
        par = [odd(int(bits[s:e], 2)) for s, e in PARTS50] if mm[3] != 'roser' else []
        out[a] = (bits, t, ln, all(par))
    return out
def parity8(x): return 1 - odd(x & 0xff)
def read2030(fn):
    out = {}
    for ln, l in enumerate(open(fn, errors='replace'), 1):
        t = l.split('#')[0].split()
        if not t: continue
        if len(t) != len(L30) + 1 or any(len(x) != (2 if n == 'CN' else w) for (n, w), x in zip(L30, t[1:])): out.setdefault('bad', []).append(ln); continue
        a = int(t[0], 16); t = [x.replace('?', '0') for x in t[1:]]
        bits = '{:08b}'.format(int(t[0], 16)) + ''.join(t[1:])
        f = cut(bits, L30)
        e = {k: v for k, v in f.items() if k not in ('AA', 'AS', 'AK')}
        e['CN'] &= 0xfc; e['CA'] |= f['AA'] << 4; e['CS'] |= f['AS'] << 4; e['CK'] |= f['AK'] << 4
        w = a >> 8 & 0x1f
        e['row1'] = a & 0xff | parity8(a) << 8 | w << 9 | parity8(w) << 14 | e['CN'] << 17 | parity8(e['CN']) << 23
        r2 = e['CK'] & 15 | e['PK'] << 4 | (e['CK'] & 16) << 1 | e['CU'] << 6 | e['CM'] << 8 | e['CB'] << 11 | e['CA'] << 13 | e['CL'] << 18 | e['CH'] << 22
        r3 = e['CS'] | e['CC'] << 5 | e['CV'] << 8 | e['CG'] << 10 | e['CF'] << 12 | e['CD'] << 15
        # the displayed parity is the exclusive or of the odd parities of the bytes: four bytes for row 2, three for row 3
        e['row2'] = r2 | odd(r2) << 25; e['row3'] = r3 | (1 - odd(r3)) << 19
        out[a] = (bits, e, ln, True)
    return out
def read2844(fn):
    out = {}
    for ln, l in enumerate(open(fn, errors='replace'), 1):
        m = re.match(r'([0-9a-fA-F]+)\s+([01]{4}) ([01]{4}) ([01]{4})\s+(.*)$', l)
        if not m: continue
        a = int(m[1], 16); mm = re.match(r'(?:(\S+)\s+(\S+)\s+)?-\s+((?:[01]+\s+){18})', m[5] + ' ')
        if a != int(m[2] + m[3] + m[4], 2) or not mm or any(len(x) != w for (n, w), x in zip(L44, mm[3].split())): out.setdefault('bad', []).append(ln); continue
        bits = mm[3].replace(' ', ''); f = cut(bits, L44)
        e = {k: v for k, v in f.items() if k not in ('CKh', 'CDA', 'AA')}
        e['CK'] |= f['CKh'] << 4; e['CN'] <<= 2; e['CD'] |= f['CDA'] << 4; e['CA'] |= f['AA'] << 4
        p = odd(a, f['PA']) and odd(e['CA'], f['CB'], e['CK'], f['CL'], f['PA'], f['CH'], f['PS']) and not odd(f['CN'], f['PN'], e['CD'], f['CV'], f['CC'], f['CS'], f['BP'], f['PC'])
        out[a] = (bits, e, ln, bool(p))
    return out
READ = {'2050': read2050, '2030': read2030, '2844': read2844}
LAY = {'2050': L50, '2030': L30, '2844': L44}
# words of the reference whose check bits are wrong in the listing itself
PARITY_EXCEPT = {'2844': {0x98, 0xa0}}

def table(m, name, sname):
    g = m.globals[name]; v = g.init
    offs = {o: n for o, z, n, t in m.members(m.di_struct(sname))}
    rows = []; L = []
    for at, av in ([(g.ty, v)] if g.ty.k == 'arr' else v[1]):
        L += [(at.el, ('zero',))] * at.n if av[0] == 'zero' else av[1]
    for t, e in L:
        rows.append({} if e[0] == 'zero' else {offs.get(o): fv[1] for (ft, fv), o in zip(e[1], t.offsets()) if fv[0] == 'c'})
    return rows

def stores_to(m, names):
    """stores and block copies whose address is inside one of the named globals"""
    for f in m.funcs.values():
        if not f.order: continue
        D = paths.defs(f)
        def base(v, seen=()):
            while True:
                if v[0] == 'g': return v[1]
                if v[0] == 'gep': v = v[2][0][1]; continue
                if v[0] == 'cast': v = v[3]; continue
                if v[0] != 'r' or v[1] in seen: return None
                I = D.get(v[1]); seen = seen + (v[1],)
                if I is None: return None
                if I.op in ('getelementptr', 'bitcast', 'freeze'): v = I.a[0]; continue
                if I.op in ('phi', 'select'):
                    for x in ([x for x, _ in I.extra] if I.op == 'phi' else I.a[1:]):
                        b = base(x, seen)
                        if b in names: return b
                    return None
                return None
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == 'store': p = I.a[1]
                elif I.op == 'call' and I.a and I.extra[0] == 'g' and re.match(r'(llvm\.mem|mem|str)', I.extra[1]): p = I.a[0]
                else: continue
                n = base(p)
                if n in names: yield f, I, n

def read_ref():
    ref = {}
    for l in open(REF):
        m, a, bits = l.split(); ref.setdefault(m, {})[int(a, 16)] = bin(int(bits, 16))[3:]   # leading one keeps the width
    return ref

def m01(tier):
    tree = build.Tree(); ref = read_ref()
    r = Result(RULE, []); n = 0; per = {}
    for mach, lst, rel, name, sname in STORES:
        fn = build.SRC + '/' + lst
        if not os.path.exists(fn): raise Broken('listing %s is gone' % lst)
        words = READ[mach](fn); bad = words.pop('bad', [])
        for ln in bad: r.add('%s:line' % mach, 'control word on this line cannot be read', '%s:%d' % (lst, ln))
        m = tree.load([rel])[rel]
        rows = table(m, name, sname)
        if len(rows) != 4096: raise Broken('%s has %d rows' % (name, len(rows)))
        shown = 0
        for a in range(4096):
            w = words.get(a); row = rows[a]; n += 1
            if w is None:
                x = {k: v for k, v in row.items() if v and k != 'row1'}
                if mach == '2030': x = {k: v for k, v in x.items() if k not in ('row2', 'row3')}
                if x: r.add('%s:%03x:extra' % (mach, a), 'control store has a word at %03x that the listing does not have' % a, rel); shown += 1
            else:
                d = ['%s is 0x%x, listing has 0x%x' % (k, row.get(k, 0), v) for k, v in sorted(w[1].items()) if row.get(k, 0) != v]
                if d and shown < 40: r.add('%s:%03x:table' % (mach, a), '%s control word %03x: %s' % (mach, a, ', '.join(d[:4])), '%s:%d' % (lst, w[2])); shown += 1
            e = ref[mach].get(a)
            if (e is None) != (w is None):
                if shown < 40: r.add('%s:%03x:ref' % (mach, a), '%s control word %03x is %s the listing' % (mach, a, 'missing from' if w is None else 'not in the reviewed listing but in'), '%s:%d' % (lst, w[2] if w else 1)); shown += 1
            elif w and w[0] != e:
                n += 1
                x, y = cut(e, LAY[mach]), cut(w[0], LAY[mach])
                d = ['%s is %d instead of %d' % (k, y[k], x[k]) for k in y if x[k] != y[k]]
                if shown < 40: r.add('%s:%03x:ref' % (mach, a), '%s control word %03x differs from the reviewed listing: %s' % (mach, a, ', '.join(d)), '%s:%d' % (lst, w[2])); shown += 1
            if w and not w[3] and a not in PARITY_EXCEPT.get(mach, ()):
                if shown < 40: r.add('%s:%03x:parity' % (mach, a), '%s control word %03x fails its check bits' % (mach, a), '%s:%d' % (lst, w[2])); shown += 1
        per[mach] = len(words)
    k = 0; names = {s[3] for s in STORES}
    mods = tree.load(build.all_sources())
    for rel, m in mods.items():
        if not any(g in m.globals for g in names): continue
        k += 1
        for f, I, g in stores_to(m, names): r.add('%s:write:%s' % (g, f.name), '%s() writes into the control store %s' % (f.name, g), loc(f, I))
    r.need(k, 3, 'modules using a control store')
    r.need(sum(per.values()), 7000, 'control words')
    r.obligations = n; r.coverage = dict(words=per, modules=k, fields={m: [f for f, w in LAY[m]] for m in LAY})
    return r

RULE = 'Each control store table, as compiled, must hold at every address exactly the fields of the last listing line for that address (and nothing where the listing has none); every listing word must be the reviewed one (spec/ros_words.txt) with correct check bits; no code may store into a control store.'
CHECKS = {'M01': m01}

if __name__ == '__main__':
    with open(REF, 'w') as o:
        for mach, lst, *_ in STORES:
            w = READ[mach](build.SRC + '/' + lst); print(mach, len(w), w.pop('bad', []), [hex(a) for a in w if not w[a][3]])
            for a in sorted(w): o.write('%s %03x %x\n' % (mach, a, int('1' + w[a][0], 2)))
