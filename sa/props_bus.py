"""Channel-interface properties of the device bus functions."""
import os
import build, bus, busrules, absint as A
from result import Result, Broken
from bus import IN, OUT, bit

STD = ('model1052_dev', 'model1442_dev', 'model2415_dev')
PRT = 'model1443_dev'
FILE = 'model2844_dev'

ASSUME = ['the channel raises at most one of address, command and service out at a time and drives no undefined tag line',
          'the device block and its context name the same address (the creator stores one value in both)',
          'a device function runs to completion before another device or the channel runs (single simulation thread)']

def where(d): 
    f, l = d.m.line(d.f.dbg) if d.f.dbg is not None else (d.m.src, 0)
    try: l = int(d.m.meta(d.f.dbg).get('line'))
    except Exception: pass
    return '%s:%s %s()' % (d.rel, l, d.fname)

def run_rules(expl, rules, devs, mono_rule=None, tier='quick', accept=None, need=None):
    T = build.Tree()
    mods, mb, eff = bus.load_all(T)
    r = Result(expl, ASSUME)
    found = {d.fname: d for d in bus.devices(mods, mb, eff)}
    for n in devs + ((FILE,) if mono_rule else ()):
        if n not in found: raise Broken('device function %s is not registered any more' % n)
    extra = [n for n in found if n not in STD + (PRT, FILE)]
    cov = r.coverage
    cov['devices'] = []; cov['fields_bounded'] = ['%s+%d (%s): %s' % (c[1], c[2], fn, 'ok in ' + f) for c, fn, f, ok in mb.cap_log if ok]
    if extra: cov['devices_not_analysed'] = extra
    xs = bus.explore([found[n] for n in devs], rules)
    for x in xs:
        for rule in rules:
            if x.hits.get(rule, 0) == 0 and (need is None or x.d.fname in need):
                if not any(f[1].startswith(rule) for f in x.found): raise Broken('rule %s never applied to %s' % (rule, x.d.fname))
        cov['devices'].append(dict(function=where(x.d), configurations=len(x.states), abstract_paths=x.npaths, functions_inlined=sorted(x.visited),
                                   rule_applications={k: v for k, v in x.hits.items() if k in rules}, flags=[f[3] for f in x.flags],
                                   sample=x.cfgname(sorted(x.states, key=str)[-1])))
        r.obligations += sum(v for k, v in x.hits.items() if k in rules)
        seen = set()
        for f in x.found:
            if accept and not accept(x, f): continue
            key = '%s:%s' % (x.d.fname, f[1])
            if key in seen: continue
            seen.add(key)
            r.add(key, f[2], where(x.d), ['from ' + x.cfgname(f[0]) + ' reached by:'] + x.chain(f[0]) + ['input of the failing path: ' + f[3]])
    if mono_rule: mono_rule(found[FILE], r)
    return r

def mono_run(d, r, name, facts, states=64, hold=()):
    e, tb, out = bus.mono(d, facts, states, hold)
    r.coverage['devices'].append(dict(function=where(d), scenario=name, abstract_paths=len(out), functions_inlined=sorted(e.visited)))
    if not out: raise Broken('no path through %s in scenario %s' % (d.fname, name))
    r.obligations += len(out)
    return e, tb, out

def m_parity(d, r):
    e, tb, out = mono_run(d, r, 'any input', lambda t: [])
    if not any(q.tags['bus'] == 'odd' for q in out): raise Broken('2844 never drives bus-in')
    for q in out:
        if q.tags['bus'] == 'bad': r.add('%s:parity' % d.fname, 'bus-in can be driven without odd parity', where(d)); break

def m_outtags(d, r):
    e, tb, out = mono_run(d, r, 'any input', lambda t: [])
    for q in out:
        o, sel = q.tags['outs']
        if o != 'ok': r.add('%s:outtags' % d.fname, 'the device changes a channel-owned line (%s = bit:line)' % o, where(d)); break
        if sel == 'bad': r.add('%s:outtags:SEL' % d.fname, 'the device raises select out', where(d)); break

def m_reset(d, r):
    e, tb, out = mono_run(d, r, 'operational out and suppress out down', lambda t: [t[bit(OUT['OPR'])] ^ 1, t[bit(OUT['SUP'])] ^ 1])
    for q in out:
        for n in ('addressed', 'selected', 'opr_in', 'sta_in', 'srv_in', 'request', 'WX'):
            f = d.field(n)
            if f is None: raise Broken('2844 context has no field ' + n)
            if A.cval(q.nb(d.word(e, q, *f))) != 0: r.add('%s:reset:%s' % (d.fname, n), 'system reset does not clear %s' % n, where(d))
        ins = dict(q.tags['ins'])
        for n in ('OPR', 'ADR', 'STA', 'SRV'):
            if ins[n] not in ('0', 'same'): r.add('%s:reset:%s-in' % (d.fname, n), 'system reset raises %s in' % n, where(d))
    for hold in ('selected', 'opr_in', 'sta_in'):
        e, tb, out = mono_run(d, r, 'reset while %s' % hold, lambda t: [t[bit(OUT['OPR'])] ^ 1, t[bit(OUT['SUP'])] ^ 1], hold=[(hold, 1)])
        for q in out:
            ins = dict(q.tags['ins'])
            for n in ('OPR', 'ADR', 'STA', 'SRV'):
                if ins[n] != '0': r.add('%s:reset:%s-in:%s' % (d.fname, n, hold), 'system reset leaves %s in up' % n, where(d))

def m_ownaddr(d, r):
    quiet = [(n, 0) for n in ('selected', 'addressed', 'opr_in', 'sta_in', 'request', 'srv_in')]
    bo = A.fresh_bits('bus_out', 16)
    off = d.dev_m['addr'][0]
    a = A.fresh_bits((d.unit, off), 8)
    par = bo[8]
    for b in bo[:8]: par = A.xor_(par, b)
    mism = A.F
    for i in range(4, 8): mism = A.or_(mism, A.xor_(a[i], bo[i]))
    base = lambda t: [t[bit(OUT['OPR'])], t[bit(OUT['ADR'])], t[bit(OUT['SEL'])]]
    for name, extra in (('another address', [mism]), ('bad parity', [A.neg(par)])):
        e, tb, out = mono_run(d, r, name, lambda t: base(t) + extra, hold=quiet)
        for q in out:
            ins = dict(q.tags['ins'])
            for n in ('OPR', 'ADR', 'STA', 'SRV'):
                if ins[n] in ('1', '?'): r.add('%s:ownaddr:%s:%s' % (d.fname, name, n), 'raises %s in for %s' % (n, name), where(d))
            if q.tags['outs'][1] != 'same': r.add('%s:ownaddr:%s:select' % (d.fname, name), 'keeps select out from the next device for %s' % name, where(d))
            if q.tags['bus'] != 'none': r.add('%s:ownaddr:%s:bus' % (d.fname, name), 'drives bus-in for %s' % name, where(d))
            for n in ('selected', 'addressed', 'opr_in'):
                if A.cval(q.nb(d.word(e, q, *d.field(n)))) != 0: r.add('%s:ownaddr:%s:%s' % (d.fname, name, n), 'becomes %s for %s' % (n, name), where(d))
    e, tb, out = mono_run(d, r, 'own address', lambda t: base(t) + [A.neg(mism), par], hold=quiet)
    for q in out:
        if q.tags['outs'][1] != 'consumed': r.add('%s:ownaddr:selpass' % d.fname, 'passes select out on although it was addressed', where(d))
        if A.cval(q.nb(d.word(e, q, *d.field('addressed')))) != 1 and dict(q.tags['ins'])['STA'] != '1':
            r.add('%s:ownaddr:deaf' % d.fname, 'does not answer its own address', where(d))

ALL = STD + (PRT,)
CHECKS = {
 'B01': lambda t: run_rules('Every abstract path of every device bus function that leaves a new value on bus-in leaves bits 0-8 with an odd number of ones (canonical xor form of the stored value) and bits 9-15 zero.', ('parity',), ALL, m_parity, t),
 'B02': lambda t: run_rules('No path of a device bus function changes an outbound tag bit; select out may only be dropped (consumed), never raised.', ('outtags',), ALL, m_outtags, t),
 'B03': lambda t: run_rules('From the unselected configurations, no path whose address byte differs from the device address or has bad parity answers, drives the bus, keeps select out or selects the device; the path with its own address and good parity answers and keeps select out.', ('ownaddr',), ALL, m_ownaddr, t),
 'B04': lambda t: run_rules('On every path that leaves address in up, bus-in bits 0-7 are the device address (unit bits masked for multi-unit control units).', ('addrin',), ALL, None, t),
 'B05': lambda t: run_rules('While operational in is up and this device does not hold it, no path changes an inbound tag, select out or bus-in.', ('silent',), STD, None, t),
 'B06': lambda t: run_rules('No reachable configuration leaves more than one of address, status and service in up, and reaching idle leaves none of the held tags up.', ('onetag',), STD, None, t),
 'B07': lambda t: run_rules('With operational and suppress out down, every path from every reachable configuration drops the held in-tags and clears the control state, selection, pending request, status and sense.', ('reset',), STD, m_reset, t),
 'B08': lambda t: run_rules('A command byte with bad parity sets unit check in the status and bus-out check in sense byte 0 and schedules nothing.', ('badparity',), ALL, None, t),
 'B09': lambda t: run_rules('An inbound tag held by the device stays up on every path without the answering outbound tag, and drops on every path with it.', ('interlock', 'answer'), STD, None, t),
 'B10': lambda t: run_rules('Status answered with command out is unchanged and marked stacked; status answered with service out is cleared.', ('stack',), STD, None, t),
 'B11': lambda t: run_rules('While its busy flag is set the device answers its address with busy status instead of being selected and no command schedules work.', ('busy',), STD, None, t, need=('model1052_dev', 'model1442_dev')),
}
