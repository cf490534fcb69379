"""Code and parity tables: every entry, by evaluating the constant initialisers the compiler emits."""
import build
from common import *

def arr(mods, rel, n):
    g = mods[rel].globals.get(n) if rel in mods else None
    if g is None or g.decl or g.init is None: raise Broken('table %s in %s is gone' % (n, rel))
    v = g.init
    if v[0] == 'str': return list(v[1]), g
    if v[0] == 'zero': return [0] * g.ty.n, g
    w = (1 << g.ty.el.w) - 1
    return [x[1][1] & w for x in v[1]], g

def never_stored(r, mods, names):
    """the tables are not modified at run time: no store or call takes their address for writing"""
    for m in mods.values():
        for f in m.funcs.values():
            D = None
            for b in f.order:
                for I in f.blocks[b]:
                    if I.op == 'store':
                        v = I.a[1]
                        while v[0] in ('r', 'ce'):
                            if v[0] == 'ce': v = base_ce(v); break
                            if D is None: D = {J.res: J for bb in f.order for J in f.blocks[bb] if J.res}
                            d = D.get(v[1])
                            if d is None or d.op not in ('getelementptr', 'bitcast'): break
                            v = d.a[0]
                        if v[0] == 'g' and v[1] in names and (v[1] not in m.globals or m.globals[v[1]].decl or m is names[v[1]]):
                            r.add('stored:%s' % v[1], 'table %s is modified at run time' % v[1], loc(f, I))

def base_ce(v):
    for x in v[2:] if len(v) > 2 else v[1:]:
        if isinstance(x, tuple) and x and x[0] == 'g': return x
        if isinstance(x, tuple) and x and isinstance(x[-1], tuple) and x[-1][0] == 'g': return x[-1]
    return v

X = 'device/xlat.c'; K = 'device/card.c'
def here(g, i): return '%s %s[0x%02x]' % (g.mod.src.split('/src/', 1)[-1], g.name, i)

def x01(tier):
    mods = build.Tree().load(build.all_sources())
    r = Result('Evaluation of the constant parity tables: for every byte, the byte together with its odd_parity entry has an odd number of one bits and the entry uses only the parity bit; for every six-bit code, the code with its parity_table entry has an even number of ones and the entry uses only the parity track; neither table is written at run time.', [])
    odd, g1 = arr(mods, X, 'odd_parity'); par, g2 = arr(mods, X, 'parity_table')
    r.need(len(odd), 256, 'odd parity entries'); r.need(len(par), 64, 'even parity entries')
    for i, v in enumerate(odd):
        if v & ~0x100 or (bin(i & 255).count('1') + bin(v).count('1')) % 2 != 1: r.add('odd:%02x' % i, 'byte 0x%02x with its parity entry 0x%03x does not have odd parity' % (i, v), here(g1, i))
    for i, v in enumerate(par):
        if v & ~0o100 or (bin(i).count('1') + bin(v).count('1')) % 2: r.add('even:%02x' % i, 'code 0x%02x with its parity entry 0x%02x does not have even parity' % (i, v), here(g2, i))
    never_stored(r, mods, {'odd_parity': mods[X], 'parity_table': mods[X]})
    r.obligations = len(odd) + len(par) + 2
    r.coverage = dict(tables={'odd_parity': len(odd), 'parity_table': len(par)})
    return r

def x02(tier):
    mods = build.Tree().load(build.all_sources())
    r = Result('Evaluation of the constant character tables over their whole domain: ASCII to EBCDIC and back is the identity on every printable character that has a code, and the other way round; the 256 EBCDIC card codes are distinct twelve-row patterns with at most one punch in rows 1 to 7, so that the reverse table inverts them; the 029 codes of the printable characters are distinct and are the card codes of the corresponding EBCDIC characters; the 64 tape BCD codes stand for distinct EBCDIC characters.', [])
    a2e, ga = arr(mods, X, 'ascii_to_ebcdic'); e2a, ge = arr(mods, X, 'ebcdic_to_ascii'); bcd, gb = arr(mods, X, 'bcd_to_ebcdic')
    e2h, gh = arr(mods, K, 'ebcdic_to_hol_table'); h29, g9 = arr(mods, K, 'ascii_to_hol_029')
    r.need(len(a2e), 128, 'ASCII codes'); r.need(len(e2a), 256, 'EBCDIC codes'); r.need(len(e2h), 256, 'card codes'); r.need(len(h29), 128, '029 codes'); r.need(len(bcd), 64, 'BCD codes')
    n = 0
    P = range(32, 127)
    mapped = [c for c in P if a2e[c] != 0xff]; r.need(len(mapped), 90, 'printable characters with an EBCDIC code')
    for c in mapped:
        n += 1
        if e2a[a2e[c]] != c: r.add('ascii:%02x' % c, "'%c' becomes EBCDIC 0x%02x which converts back to 0x%02x" % (c, a2e[c], e2a[a2e[c]]), here(ga, c))
    for e in range(256):
        c = e2a[e]; n += 1
        if c in P and a2e[c] != 0xff and a2e[c] != e: r.add('ebcdic:%02x' % e, "EBCDIC 0x%02x becomes '%c' which converts back to 0x%02x" % (e, c, a2e[c]), here(ge, e))
    inv = {}
    for e, h in enumerate(e2h):
        n += 1
        if h >> 12: r.add('rows:%02x' % e, 'card code 0x%x of EBCDIC 0x%02x is not a twelve-row pattern' % (h, e), here(gh, e))
        if bin(h & 0x1fc).count('1') > 1: r.add('punch:%02x' % e, 'card code 0x%03x of EBCDIC 0x%02x has several punches in rows 1 to 7' % (h, e), here(gh, e))
        if h in inv: r.add('dup:%02x' % e, 'EBCDIC 0x%02x and 0x%02x share card code 0x%03x' % (inv[h], e, h), here(gh, e))
        inv.setdefault(h, e)
    seen = {}
    for c in P:
        h = h29[c]; n += 1
        if h & 0xf000: continue
        if h in seen: r.add('029dup:%02x' % c, "'%c' and '%c' share card code 0x%03x" % (seen[h], c, h), here(g9, c))
        seen.setdefault(h, c)
        if a2e[c] != 0xff and e2h[a2e[c]] != h: r.add('029:%02x' % c, "'%c' is punched as 0x%03x but its EBCDIC code 0x%02x is punched as 0x%03x" % (c, h, a2e[c], e2h[a2e[c]]), here(g9, c))
    r.need(len(seen), 90, 'printable characters with a card code')
    s2 = {}
    for b, e in enumerate(bcd):
        n += 1
        if e in s2: r.add('bcd:%02x' % b, 'BCD 0x%02x and 0x%02x both stand for EBCDIC 0x%02x' % (s2[e], b, e), here(gb, b))
        s2.setdefault(e, b)
    never_stored(r, mods, {'ascii_to_ebcdic': mods[X], 'ebcdic_to_ascii': mods[X], 'bcd_to_ebcdic': mods[X], 'ebcdic_to_hol_table': mods[K], 'ascii_to_hol_029': mods[K]})
    r.obligations = n + 5
    r.coverage = dict(tables={'ascii_to_ebcdic': 128, 'ebcdic_to_ascii': 256, 'ebcdic_to_hol_table': 256, 'ascii_to_hol_029': 128, 'bcd_to_ebcdic': 64}, entries_checked=n)
    return r

CHECKS = {'X01': x01, 'X02': x02}
