"""Rules evaluated on every abstract path of every bus function (see bus.Explorer)."""
import absint as A
from absint import F, T, and_, or_, xor_, neg, cval, fresh_bits
from bus import OUT, IN, bit

INB = {n: bit(m) for n, m in IN.items()}
OUTB = {n: bit(m) for n, m in OUT.items()}
HELD = ('OPR', 'ADR', 'STA', 'SRV')

HITS = {}
def hit(x, rule):
    """count the paths on which a rule's premise holds (a rule that never applies proves nothing)"""
    k = (x.d.fname, rule); HITS[k] = HITS.get(k, 0) + 1

def raised(o, n):
    """may the path leave in-tag n up although it was not up before"""
    b = INB[n]
    return o.tags[b] != F and o.tags[b] != o.tags_in[b]

def line_of(o): return None

def initial_busin(d): return fresh_bits((d.bus_in, 0), 8) + fresh_bits((d.bus_in, 1), 8)

def parity(x, o):
    bi = o.busin; ini = o.st.nb(initial_busin(x.d))
    if bi == ini: return
    hit(x, 'parity')
    p = T
    for b in bi[:8]: p = xor_(p, b)
    if o.st.norm(xor_(p, bi[8])) != F: yield ('parity:%s' % x.cfgstate(o.start), 'bus-in can be driven with even parity')
    elif any(b != F for b in bi[9:]): yield ('parity:%s' % x.cfgstate(o.start), 'bits above the parity bit are driven on bus-in')

def outtags(x, o):
    hit(x, 'outtags')
    for n, b in OUTB.items():
        if o.tags[b] == o.tags_in[b] or n == 'SEL' and o.tags[b] == F: continue
        yield ('outtags:%s:%s' % (n, x.cfgstate(o.start)), 'the device changes the channel-owned line %s out' % n)
    for b in (0, 1, 2, 8):
        if o.tags[b] != o.tags_in[b]: yield ('outtags:unused', 'the device drives an undefined tag line')

def onetag(x, o):
    hit(x, 'onetag')
    up = [n for n in ('ADR', 'STA', 'SRV') if o.tags[INB[n]] == T or o.tags[INB[n]] != F and o.tags[INB[n]] != o.tags_in[INB[n]]]
    if len(up) > 1: yield ('onetag:%s:%s' % ('+'.join(up), x.cfgstate(o.start)), 'more than one of address/status/service in is up: ' + '+'.join(up))
    d = x.d
    v = cval(o.st.nb(d.word(o.eng, o.st, d.ctxkey, *d.statefield[:2]))) if d.statefield else None
    if v == 0:
        left = [n for n in HELD if o.tags[INB[n]] == T and n in o.start[2] or raised(o, n)]
        if left: yield ('idletags:%s:%s' % ('+'.join(left), x.cfgstate(o.start)), 'the device goes idle but leaves its in-tags up: ' + '+'.join(left))

def fieldval(x, o, name):
    f = x.d.field(name)
    return None if f is None else o.st.nb(x.d.word(o.eng, o.st, *f))

RESET_FIELDS = ('state', 'selected', 'addressed', 'request', 'stacked', 'busy', 'status', 'sense')
def reset(x, o):
    ti = o.tags_in
    if ti[OUTB['OPR']] != F or ti[OUTB['SUP']] != F: return
    hit(x, 'reset')
    for n in HELD:
        if n in o.start[2] and o.tags[INB[n]] != F:
            yield ('reset:%s-in:%s' % (n, x.cfgstate(o.start)), 'system reset leaves %s in raised' % n)
        elif raised(o, n): yield ('reset:%s-in:%s' % (n, x.cfgstate(o.start)), 'system reset raises %s in' % n)
    for n in RESET_FIELDS:
        for f in x.d.fields(n):
          v = o.st.nb(x.d.word(o.eng, o.st, f[0], f[1], 1 if n == 'sense' else f[2]))
          if cval(v) != 0: yield ('reset:%s' % n, 'system reset does not clear %s' % n)

def silent(x, o):
    """another device holds the interface"""
    if o.start[2] or o.tags_in[INB['OPR']] != T: return
    hit(x, 'silent')
    for n in HELD:
        if o.tags[INB[n]] != o.tags_in[INB[n]]: yield ('silent:%s:%s' % (n, x.cfgstate(o.start)), 'changes %s in while another device is operating' % n)
    if o.tags[OUTB['SEL']] != o.tags_in[OUTB['SEL']]: yield ('silent:SELOUT:%s' % x.cfgstate(o.start), 'swallows select out while another device is operating')
    if o.busin != o.st.nb(initial_busin(x.d)): yield ('silent:bus:%s' % x.cfgstate(o.start), 'drives bus-in while another device is operating')

ADDRMASK = {'model1052_dev': 0xff, 'model1442_dev': 0xff, 'model1443_dev': 0xff, 'model2415_dev': 0xf8, 'model2844_dev': 0xf0}
def under(o, *facts):
    """the outcome's state restricted by further facts, or None when that is impossible"""
    q = o.st.fork()
    try:
        for l in facts:
            q.assume(l)
            if q.norm(l) == F: return None
    except A.Infeasible: return None
    return q

def addr_eq(x, o, bits=None):
    d = x.d; off, n = d.dev_m['addr'][:2]
    a = fresh_bits((d.unit, off), 8)
    b = bits if bits is not None else fresh_bits('bus_out', 16)
    m = ADDRMASK.get(d.fname, 0xff)
    idx = [i for i in range(8) if m >> i & 1]
    r = T
    for i in idx: r = and_(r, neg(xor_(a[i], b[i])))
    return r

def is_(o, n, v=True):
    l = o.tags_in[OUTB[n]] if n in OUTB else o.tags_in[INB[n[1:]]]
    return l if v else neg(l)

def changed(x, o):
    """what the path did to the interface or to the device's own selection"""
    r = [n + ' in' for n in HELD if raised(o, n)]
    if o.tags[OUTB['SEL']] != o.tags_in[OUTB['SEL']]: r.append('select out')
    if o.busin != o.st.nb(initial_busin(x.d)): r.append('bus in')
    s = fieldval(x, o, 'selected')
    if s is not None and cval(s) == 1 and not any(f[3] == 'selected' and v for f, v in zip(x.flags, o.start[1])): r.append('selected')
    return r

def ownaddr(x, o):
    if o.start[2] or any(o.start[1]): return
    if x.d.fname == 'model1443_dev' and o.start[0] != 0: return     # see DESIGN
    c = changed(x, o)
    if c:
        q = under(o, is_(o, 'ADR'), neg(addr_eq(x, o)))
        if q is not None: hit(x, 'ownaddr')
        if q is not None: yield ('ownaddr:answers:%s' % x.cfgstate(o.start), 'reacts to another device\'s address: ' + ', '.join(c))
    if o.start[0] in (0, None):
        bo = fresh_bits('bus_out', 16); par = bo[8]
        for b in bo[:8]: par = xor_(par, b)
        q = under(o, is_(o, 'OPR'), is_(o, 'SEL'), is_(o, 'HLD'), is_(o, 'ADR'), is_(o, 'CMD', False), is_(o, 'SRV', False), is_(o, 'SUP', False),
                  *([is_(o, '<' + n, False) for n in ('OPR', 'ADR', 'STA', 'SRV', 'REQ')] + [par, addr_eq(x, o)]))
        nu = units(x)
        if q is not None and nu is not None: q = under_(q, low_lt(bo, nu, [i for i in range(8) if not ADDRMASK[x.d.fname] >> i & 1]))
        if q is not None:
            hit(x, 'ownaddr')
            up = [n for n in ('OPR', 'STA') if q.norm(o.tags[INB[n]]) == T]
            done = 'addressed' in [f[3] for f in x.flags] and cval(q.nb(x.d.word(o.eng, q, *x.d.field('addressed')))) == 1
            if not up and not done: yield ('ownaddr:deaf:%s' % x.cfgstate(o.start), 'does not answer its own address')
            cu = unit_bits(x, o, q)
            if cu is not None and 'OPR' in up and any(q.norm(xor_(cu[i], bo[i])) != F for i in range(8) if not ADDRMASK[x.d.fname] >> i & 1):
                yield ('ownaddr:unit:%s' % x.cfgstate(o.start), 'selects a unit other than the one addressed')
            if q.norm(o.tags[OUTB['SEL']]) != F: yield ('ownaddr:selpass:%s' % x.cfgstate(o.start), 'passes select out on although it was addressed')

def under_(q, *facts):
    q = q.fork()
    try:
        for l in facts:
            q.assume(l)
            if q.norm(l) == F: return None
    except A.Infeasible: return None
    return q

def low_lt(bits, n, idx):
    """the number formed by the bits idx of a word is below n"""
    r = F; eq = T
    for i in sorted(idx, reverse=True):
        if n >> i & 1:
            r = or_(r, and_(eq, neg(bits[i]))); eq = and_(eq, bits[i])
        else: eq = and_(eq, neg(bits[i]))
    return r

def units(x):
    """how many units the control unit has: the elements of its array of drives"""
    for n in ('tape', 'disk'):
        f = x.d.ctx_m.get(n)
        if f is not None: return f[1] // 8          # pointers to drives
    return None

def unit_bits(x, o, q):
    """the unit number the control unit is working for (only where one control unit serves several units)"""
    if ADDRMASK.get(x.d.fname, 0xff) == 0xff or 'cur_unit' not in x.d.ctx_m: return None
    f = x.d.ctx_m['cur_unit']
    v = list(q.nb(x.d.word(o.eng, q, x.d.ctxkey, f[0], f[1])))
    return (v + [F] * 8)[:8]

def addrin(x, o):
    """whenever the device leaves address in up, bus-in carries its address"""
    if not (raised(o, 'ADR') or 'ADR' in o.start[2] and o.tags[INB['ADR']] == T): return
    if o.busin == o.st.nb(initial_busin(x.d)) and 'ADR' in o.start[2]: return
    hit(x, 'addrin')
    if o.st.norm(addr_eq(x, o, o.busin)) != T: yield ('addrin:%s' % x.cfgstate(o.start), 'address in is up but bus-in does not carry the device address')
    cu = unit_bits(x, o, o.st)
    if cu is not None:
        if any(o.st.norm(xor_(o.busin[i], cu[i])) != F for i in range(8) if not ADDRMASK[x.d.fname] >> i & 1):
            yield ('addrin:unit:%s' % x.cfgstate(o.start), 'address in is up but bus-in does not carry the unit number being operated')

def badparity(x, o):
    if 'ADR' not in o.start[2]: return
    if x.d.fname == 'model1443_dev' and ('STA' in o.start[2] or any(f[3] == 'addressed' and v for f, v in zip(x.flags, o.start[1]))): return     # see DESIGN: only the first selection of the printer
    bo = fresh_bits('bus_out', 16); par = bo[8]
    for b in bo[:8]: par = xor_(par, b)
    q = under(o, is_(o, 'CMD'), neg(par), or_(is_(o, 'OPR'), is_(o, 'SUP')))
    if q is None: return
    hit(x, 'badparity')
    d = x.d
    w = d.word(o.eng, q, *d.field('status'))
    se = d.word(o.eng, q, d.field('sense')[0], d.field('sense')[1], 1)
    if q.norm(w[1]) != T: yield ('badparity:status:%s' % x.cfgstate(o.start), 'a command byte with bad parity does not end in unit check')
    if q.norm(se[5]) != T: yield ('badparity:sense:%s' % x.cfgstate(o.start), 'a command byte with bad parity does not set bus-out check in the sense byte')
    if q.tags.get('event'): yield ('badparity:acts:%s' % x.cfgstate(o.start), 'a command byte with bad parity starts an operation')

def interlock(x, o):
    """an in-tag the device has up stays up until the channel answers"""
    for n, ans in (('ADR', ('CMD', 'ADR')), ('STA', ('CMD', 'SRV', 'ADR')), ('SRV', ('CMD', 'SRV', 'ADR'))):
        if n not in o.start[2] or o.tags[INB[n]] != F: continue
        hit(x, 'interlock')
        facts = [is_(o, a, False) for a in ans] + [or_(is_(o, 'OPR'), is_(o, 'SUP'))]
        if o.start[2] == frozenset({'STA'}): facts.append(is_(o, 'SEL'))      # short busy sequence ends with select out
        if under(o, *facts) is not None: yield ('interlock:%s:%s' % (n, x.cfgstate(o.start)), '%s in is dropped before the channel answered' % n)

def answer(x, o):
    """once the channel answers service or status in, the tag drops"""
    for n in ('STA', 'SRV'):
        if n not in o.start[2] or 'OPR' not in o.start[2] or o.tags[INB[n]] == F: continue
        hit(x, 'answer')
        for a in ('SRV', 'CMD'):
            if under(o, is_(o, a), or_(is_(o, 'OPR'), is_(o, 'SUP'))) is not None:
                yield ('answer:%s:%s:%s' % (n, a, x.cfgstate(o.start)), '%s in stays up although the channel answered with %s out' % (n, {'SRV': 'service', 'CMD': 'command'}[a]))

def init_field(x, o, name):
    f = x.d.field(name)
    return None if f is None else o.st.nb(x.d.word(o.eng, o.st0, *f))

def stack(x, o):
    """status refused with command out is kept; status taken with service out is cleared"""
    if 'STA' not in o.start[2] or 'OPR' not in o.start[2]: return
    d = x.d
    st0 = o.st.nb(d.word(o.eng, o.st0, *d.field('status')))
    q = under(o, is_(o, 'CMD'), is_(o, 'SRV', False), is_(o, 'ADR', False), or_(is_(o, 'OPR'), is_(o, 'SUP')))
    if q is not None:
        hit(x, 'stack')
        if q.nb(d.word(o.eng, q, *d.field('status'))) != q.nb(st0): yield ('stack:lost:%s' % x.cfgstate(o.start), 'status refused by the channel is changed or lost')
        if cval(q.nb(d.word(o.eng, q, *d.field('stacked')))) != 1: yield ('stack:flag:%s' % x.cfgstate(o.start), 'status refused by the channel is not remembered as stacked')
    q = under(o, is_(o, 'SRV'), is_(o, 'CMD', False), is_(o, 'ADR', False), or_(is_(o, 'OPR'), is_(o, 'SUP')))
    if q is not None and cval(q.nb(d.word(o.eng, q, *d.field('status')))) != 0:
        yield ('stack:kept:%s' % x.cfgstate(o.start), 'status accepted by the channel is presented again')

def busy(x, o):
    d = x.d
    f = d.ctx_m.get('busy')
    if f is None: return
    b0 = d.word(o.eng, o.st0, d.ctxkey, f[0], f[1])
    if o.start[0] == 0 and not o.start[2] and not any(o.start[1]):
        q = under(o, b0[0], is_(o, 'OPR'), is_(o, 'SEL'), is_(o, 'ADR'), addr_eq(x, o), *[is_(o, '<' + n, False) for n in ('OPR', 'ADR', 'STA', 'SRV')])
        if q is not None:
            hit(x, 'busy')
            if q.norm(o.tags[INB['OPR']]) != F: yield ('busy:select', 'a busy device accepts a new selection')
            elif q.norm(o.tags[INB['STA']]) != F and q.norm(o.busin[4]) != T: yield ('busy:status', 'a busy device answers without the busy bit')
            elif o.tags[INB['STA']] == F or q.norm(o.tags[INB['STA']]) == F: yield ('busy:silent', 'a busy device does not answer with status')
    if 'ADR' in o.start[2]:
        q = under(o, b0[0], is_(o, 'CMD'), or_(is_(o, 'OPR'), is_(o, 'SUP')))
        if q is not None and q.tags.get('event'): yield ('busy:command:%s' % x.cfgstate(o.start), 'a busy device starts another operation')
