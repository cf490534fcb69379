"""Event queue and list registries: shape analysis."""
import build, ir
from common import *
from shape import *

def layout(m, sname, nxt, prev=None, time=None):
    d = m.di_struct(sname)
    if d is None: raise Broken('struct %s not found' % sname)
    mem = {n: (o, z, t) for o, z, n, t in m.members(d)}
    for n in [nxt] + [x for x in (prev, time) if x]:
        if n not in mem: raise Broken('struct %s has no field %s' % (sname, n))
    def kind(t): return 'ptr' if t is not None and t.get('tag') == 'DW_TAG_pointer_type' else 'int'
    return dict(size=int(d['size']) // 8, next=mem[nxt][0], prev=mem[prev][0] if prev else None, time=mem[time][0] if time else None,
                fields={o: kind(t) for o, z, t in mem.values()}, off={n: o for n, (o, z, t) in mem.items()})

class EventSpec(Spec):
    heads = (('event_head', 0),); tails = (('event_tail', 0),)
    params = ('dev', 'func', 'time', 'arg', 'iarg')
    def __init__(s, res, op, want): s.res = res; s.op = op; s.name = op; s.want = want; s.checks = 0
    def gvalue(s, E, st, c, I): return None
    def config(s, E, nonempty, hmin):
        st = State(); st.g[s.heads[0]] = st.g[s.tails[0]] = ('null',)
        s.fresh_list(E, st, nonempty, hmin); return st
    def fresh_list(s, E, st, nonempty, hmin):
        st.orig = []; st.ghost['hmin'] = hmin; st.ghost['shift'] = -1 if s.op == 'advance' and hmin else 0
        if not nonempty: st.g[s.heads[0]] = st.g[s.tails[0]] = ('null',); return
        g = E.fresh('S'); T = E.fresh('T'); st.segs[g] = Seg(('null',), ('null',), S(T)); E.add_ge(st, S(T))
        st.g[s.heads[0]] = ('first', g); st.g[s.tails[0]] = ('last', g); st.orig = [g]
    def unfolded(s, E, st, n, seg, side):
        if st.orig and st.orig[0] == n and st.ghost['hmin']: E.add_ge(st, ladd(st.nodes[n].init[E.lay['time']], K(-1)))
    def nomatch(s, E, st, n):
        N = st.nodes[n]
        if N.init.get('__nm'): return True
        for o, p in ((E.lay['off']['dev'], 'dev'), (E.lay['off']['func'], 'func')):
            v = N.init.get(o)
            if v is not None and st.eq.get(tuple(sorted((v, ('o', p)), key=repr))) is False: return True
        return False
    def matches(s, E, st, n):
        N = st.nodes[n]
        for o, p in ((E.lay['off']['dev'], 'dev'), (E.lay['off']['func'], 'func')):
            v = N.init.get(o)
            if v is None or st.eq.get(tuple(sorted((v, ('o', p)), key=repr))) is not True: return False
        return True
    # ---- checks
    def bad(s, grp, key, msg, f, I, st):
        if grp in (s.want, 'E01'): s.res.add('%s:%s' % (s.op, key), msg, loc(f, I), st.trace)
    def listok(s, E, st, f, I, when):
        """E01: a well-formed doubly linked list"""
        s.checks += 1
        items, last, err = E.chain(st, st.g[s.heads[0]])
        if err: s.bad('E01', 'list:' + when, 'the event list %s %s' % (err, when), f, I, st); return None
        if st.g[s.tails[0]] != last: s.bad('E01', 'tail:' + when, 'event_tail is not the last event %s' % when, f, I, st)
        return items
    def at_head(s, E, st, f, b):
        """cancel_event going on after a removal: the removed event's delay now belongs to its successor"""
        if s.op != 'cancel_event': return
        items, last, err = E.chain(st, st.g[s.heads[0]])
        if err: return
        t = E.lay['time']
        for x in list(st.orig):
            if x in items or x not in st.nodes or not s.matches(E, st, x): continue
            i = st.orig.index(x); nxt = st.orig[i + 1] if i + 1 < len(st.orig) else None
            if nxt is not None and nxt not in st.nodes: continue
            if nxt is not None: st.nodes[nxt].init[t] = ladd(st.nodes[nxt].init[t], st.nodes[x].init[t])
            del st.orig[i]
    def zero(s, E, st, e):
        if not e[2]: return e[1] == 0
        return E.prove_ge(st, e) and E.prove_ge(st, lneg(e))
    def abst(s, E, st, items, init):
        """absolute time of every item's end"""
        r = {}; a = K(0); t = E.lay['time']
        for x in items:
            if x in st.nodes: d = (st.nodes[x].init if init else st.nodes[x].cur).get(t)
            else: d = st.segs[x].T
            if d is None: return None
            a = ladd(a, d); r[x] = a
        return r
    def times(s, E, st, items, shift, f, I, when, skip=()):
        s.checks += 1
        A0 = s.abst(E, st, st.orig, True); A1 = s.abst(E, st, items, False)
        for x in items:
            if x in skip: continue
            if x not in A0: continue
            d = ladd(ladd(A1[x], A0[x], -1), K(-shift))
            if not s.zero(E, st, d):
                s.bad('E02', 'time:' + when, 'another event no longer fires at its own time %s' % when if not shift else 'an event does not come exactly one cycle nearer %s' % when, f, I, st); return
        prev = None
        for x in items:
            if x in st.nodes and not E.prove_ge(st, st.nodes[x].cur[E.lay['time']]):
                s.bad('E02', 'neg:' + when, 'an event may be left with a negative delay %s' % when, f, I, st); return
    def order(s, st, items, f, I, when, new=()):
        rest = [x for x in items if x not in new]; o = [x for x in st.orig if x in rest]
        if rest != o: s.bad('E01', 'order:' + when, 'events are lost, added or reordered %s' % when, f, I, st); return False
        return True
    def icall(s, E, st, f, I, fn, args):
        L = E.lay['off']
        items = s.listok(E, st, f, I, 'when an event function is called')
        if s.op == 'add_event':
            if fn != ('o', 'func') or args != [('o', 'dev'), ('o', 'arg'), S('iarg')]:
                s.bad('E03', 'call', 'the function called is not the one given, with its own device and arguments', f, I, st)
            if not s.zero(E, st, E_time(st)): s.bad('E03', 'early', 'an event with a delay is run at once', f, I, st)
            st.ghost['called'] = st.ghost.get('called', 0) + 1
            if st.ghost.get('new'): s.bad('E03', 'both', 'an event is both queued and run at once', f, I, st)
        elif s.op == 'cancel_event':
            s.bad('E03', 'call', 'cancelling an event runs a function', f, I, st)
        elif items is not None:
            gone = [x for x in st.orig if x not in items]
            if len(gone) != 1 or gone[0] not in st.nodes:
                s.bad('E03', 'unlinked', 'an event function is called while its event is still on the list (or several are gone)', f, I, st)
            else:
                n = gone[0]; N = st.nodes[n]
                exp = [N.init.get(L['dev']), N.init.get(L['arg']), N.init.get(L['iarg'])]
                s.checks += 1
                if fn != N.init.get(L['func']) or args != exp:
                    s.bad('E03', 'call', 'the function called is not the one of the due event, with its own device and arguments', f, I, st)
                A0 = s.abst(E, st, st.orig, True)[n]
                if not s.zero(E, st, ladd(A0, K(st.ghost['shift']))):
                    s.bad('E03', 'due', 'an event function is called at another time than its own', f, I, st)
                # the rest
                s.order(st, items, f, I, 'when an event function is called')
                t = st.copy(); s.times(E, t, items, st.ghost['shift'], f, I, 'when an event function is called')
        if 'items' in st.ghost: pass
        # the function may add or cancel events: everything still on the list is unknown afterwards
        on = set(items or ()) | {x for x in st.orig if x in st.segs}
        m = {}
        for x in on:
            for k in ('p', 'first', 'last'): m[(k, x)] = ('dangling', x)
        out = []
        for ne in (False, True):
            t = st.copy(); E.subst_ptr(t, m)
            for x in on: t.nodes.pop(x, None); t.segs.pop(x, None)
            s.fresh_list(E, t, ne, 0)
            if I.res: t.frames[-1][I.res] = K(0)
            out.append(t)
        return out
    def final(s, E, st, rv, f):
        I = f.blocks[f.order[-1]][-1]; L = E.lay['off']; when = 'on return'
        items = s.listok(E, st, f, I, when)
        if items is None: return
        new = st.ghost.get('new', ())
        called = st.ghost.get('called', 0)
        try: E.gc(st, f)
        except Abort as a: s.bad('E01', a.key, a.msg, f, I, st); return
        if any(x in st.freed for x in items): s.bad('E01', 'freed', 'a freed event is still on the list', f, I, st)
        if s.op == 'add_event':
            put = [x for x in items if x in new]
            if not s.order(st, items, f, I, when, new): return
            if len([x for x in items if x not in new]) != len(st.orig): s.bad('E01', 'lost', 'an event is lost when another is added', f, I, st); return
            if called:
                if put: s.bad('E03', 'both', 'an event is both run at once and queued', f, I, st)
                if rv is not None and rv != K(0): s.bad('E03', 'ret', 'failure is reported for an event that was run', f, I, st)
            elif not put:
                if not st.ghost.get('oom'): s.bad('E03', 'dropped', 'an event is neither queued nor run', f, I, st)
                elif rv is not None and rv == K(0): s.bad('E03', 'ret', 'success is reported for an event that was dropped', f, I, st)
            else:
                n = put[0]; N = st.nodes[n]
                if len(put) > 1: s.bad('E03', 'twice', 'an event is queued twice', f, I, st)
                for nm, v in (('dev', ('o', 'dev')), ('func', ('o', 'func')), ('arg', ('o', 'arg')), ('iarg', S('iarg'))):
                    if N.cur.get(L[nm]) != v: s.bad('E03', 'field:' + nm, 'a queued event does not keep the %s it was given' % nm, f, I, st)
                A1 = s.abst(E, st, items, False)
                if not s.zero(E, st, ladd(A1[n], E_time(st), -1)): s.bad('E02', 'newtime', 'a new event does not fire after the delay it was given', f, I, st)
                if rv is not None and rv != K(0): s.bad('E03', 'ret', 'failure is reported for an event that was queued', f, I, st)
                s.times(E, st, items, 0, f, I, when, new)
        elif s.op == 'cancel_event':
            gone = [x for x in st.orig if x not in items]
            if not s.order(st, items, f, I, when): return
            for x in gone:
                if x not in st.nodes or not s.matches(E, st, x): s.bad('E03', 'other', 'an event of another device or function is cancelled', f, I, st)
            before = st.orig[:st.orig.index(gone[0])] if gone else st.orig
            for x in before:
                if not (st.segs[x].nm if x in st.segs else s.nomatch(E, st, x)):
                    s.bad('E03', 'kept', 'an event that should have been cancelled stays on the list', f, I, st); break
            s.times(E, st, items, 0, f, I, when)
        else:
            if not s.order(st, items, f, I, when): return
            if len(items) != len(st.orig): s.bad('E03', 'lost', 'an event disappears without being run', f, I, st); return
            # shift only counts when the list was not empty
            s.times(E, st, items, st.ghost['shift'], f, I, when)
            if items:
                x = items[0]
                ok = x in st.nodes and E.prove_ge(st, ladd(st.nodes[x].cur[E.lay['time']], K(-1)))
                if not ok: s.bad('E03', 'overdue', 'an event that is due is not run in its cycle', f, I, st)

def E_time(st): return st.ghost['time']

def events(want):
    def check(tier):
        T = build.Tree(); m = T.load(['event.c'])['event.c']
        lay = layout(m, '_event', 'next', 'prev', 'time')
        for n in ('dev', 'func', 'arg', 'iarg'):
            if n not in lay['off']: raise Broken('struct _event has no field %s' % n)
        r = Result(EXPL[want], ['no more than 2^31 cycles are ever scheduled ahead (linear arithmetic on delays)', 'add_event is called with a non-negative delay', 'an event function may call add_event and cancel_event, and does not otherwise touch the list'])
        cov = {}
        for op, n in (('add_event', 5), ('cancel_event', 2), ('advance', 0)):
            f = m.funcs.get(op)
            if f is None: raise Broken('%s not found' % op)
            sp = EventSpec(r, op, want)
            tot = 0; paths = 0
            for ne in (False, True):
                E = Engine(m, lay, sp, r)
                st = sp.config(E, ne, 1)
                st.ghost['ptrparams'] = ()
                st.ghost['time'] = S('time'); E.add_ge(st, S('time'))
                args = [('o', 'dev'), ('o', 'func'), S('time'), ('o', 'arg'), S('iarg')] if op == 'add_event' else [('o', 'dev'), ('o', 'func')] if op == 'cancel_event' else []
                for t, rv in E.run(op, args, st):
                    paths += 1; sp.final(E, t, rv, f)
                tot += E.count
            cov[op] = dict(symbolic_states=tot, exits=paths, checks=sp.checks)
            r.obligations += sp.checks + paths
            r.need(paths, 2, 'exit states of %s' % op)
        r.coverage = cov
        return r
    return check
EXPL = {
 'E01': 'Shape analysis of add_event, cancel_event and advance for an event list of any length: on every return and whenever an event function is called, following next from event_head reaches NULL, every prev names its predecessor, event_tail is the last node, no event is lost, duplicated or reordered, unlinked events are freed exactly once, and no NULL or freed event is dereferenced - also when the event function itself adds or cancels events.',
 'E02': 'Linear time algebra on the same shape analysis: the sum of delays up to any other event is unchanged by add_event and cancel_event and decreases by exactly one in advance; a new event sits at exactly its requested delay; no delay becomes negative.',
 'E03': 'The same analysis with ghost contents: advance calls exactly the functions of the events whose time has come, once, with their own device and arguments, after unlinking them; cancel_event removes only an event of that device and function, and does remove one if there is one; add_event queues (or, for zero delay, runs) the event exactly once with the values given.',
}
# ---------------------------------------------------------------------------------------- L: registries
class ListSpec(Spec):
    """singly linked registry reached from one global (an array element or a variable)"""
    tails = ()
    def __init__(s, res, op, glob, size): s.res = res; s.op = s.name = op; s.glob = glob; s.size = size; s.heads = []; s.checks = 0; s.cells = set(); s.cfg = None; s.arr = None
    def bad(s, key, msg, f, I, st): s.res.add('%s:%s' % (s.op, key), msg, loc(f, I), st.trace)
    def may_drop(s, E, st, x): return s.glob == 'chan'
    def gaccess(s, E, st, p, I):
        if p[1] != s.glob or s.arr is None: return
        E.ranges(st, p[2]); n, w = s.arr
        s.checks += 1
        off = p[2]; g = abs(off[2][0][1]) if off[2] else 1
        ok = True
        for e in (off, ladd(K((n - 1) * w), off, -1)):
            if e[2]:
                q = min(abs(c) for _, c in e[2])
                if all(c % q == 0 for _, c in e[2]): e = ('L', e[1] // q, tuple((y, c // q) for y, c in e[2]))
            if not E.prove_ge(st, e): ok = False
        if not ok: s.bad('bound', 'an address selects a list outside %s[%d]' % (s.glob, n), I.fn, I, st)
    def gvalue(s, E, st, c, I):
        if c[0] != s.glob: return None
        if c not in s.heads: s.heads.append(c)
        s.cells.add(c)
        if 'pending' in st.ghost:
            v = st.ghost.pop('pending'); st.ghost['cell'] = c; return v
        # another list: either empty or not, decided once
        return s.more(E, st, c)
    def more(s, E, st, c): raise Broken('more than one list is touched')
    def config(s, E, shape, D=None):
        """shape: string of S (segment) and D (the given node)"""
        st = State(); prev = None; first = ('null',)
        ids = []
        for ch in shape:
            if ch == 'S': g = E.fresh('S'); st.segs[g] = Seg(('null',), None, None); ids.append(('first', g))
            else: ids.append(('p', D)); st.nodes[D] = Node('list')
        for a, b in zip(ids, ids[1:] + [('null',)]):
            if a[0] == 'p': st.nodes[a[1]].cur[E.lay['next']] = b
            else: st.segs[a[1]].next = b
        if D is not None and 'D' not in shape: st.nodes[D] = Node('list'); st.nodes[D].cur[E.lay['next']] = ('o', 'dnext')
        st.orig = [x[1] for x in ids]
        st.ghost['pending'] = ids[0] if ids else ('null',)
        return st
    def items(s, E, st, f, I):
        s.checks += 1
        if 'cell' not in st.ghost: return list(st.orig)
        it, last, err = E.chain(st, st.g[st.ghost['cell']])
        if err: s.bad('list', 'the list %s on return' % err, f, I, st); return None
        return it

def regs_check(tier):
    T = build.Tree(); m = T.load(['device/device.c'])['device/device.c']
    r = Result('Shape analysis of add_chan, find_chan and del_chan for channels with any number of devices: the device list of the channel an address names stays NULL-terminated and keeps every other device in configuration order; an added device is last and carries the address; find_chan returns a listed device exactly when one matches under the mask; del_chan removes the given device and no other; the channel number indexes inside the channel table.',
               ['a device is added to one channel only, once'])
    lay = layout(m, '_device', 'next'); L = lay['off']
    g = m.globals.get('chan')
    if g is None: raise Broken('channel table chan not found')
    ty = g.ty; cov = {}; idx = {}
    mask16 = lambda p: S(p)
    for op, shapes in (('add_chan', ['', 'S']), ('find_chan', ['', 'S']), ('del_chan', ['', 'S', 'D', 'SD', 'DS', 'SDS'])):
        f = m.funcs.get(op)
        if f is None: raise Broken('%s not found' % op)
        n = 0; states = 0; chk = 0; I = f.blocks[f.order[-1]][-1]
        for sh in shapes:
            sp = ListSpec(r, op, 'chan', ty.n); sp.arr = (ty.n, ty.el.size()) if ty.k == 'arr' else None
            sp.params = ('addr', 'mask')
            E = Engine(m, lay, sp, r)
            D = 'dev' if op != 'find_chan' else None
            st = sp.config(E, sh, D); 
            E.add_ge(st, S('addr')); E.add_ge(st, S('mask'))
            if D: st.ghost['dev'] = ('p', D)
            def match(E, st, x, sp=sp):
                N = st.nodes[x]; a = N.init.get(L['addr'])
                if a is None: return None
                k = unanf(axor(aand(anf(a), anf(S('mask'))), aand(anf(S('addr')), anf(S('mask')))))
                return st.eq.get((k, K(0)))
            if op == 'find_chan': sp.nomatch = lambda E, st, x: bool(st.nodes[x].init.get('__nm')) or match(E, st, x) is False
            args = [('p', D), S('addr')] if D else [S('addr'), S('mask')]
            for t, rv in E.run(op, args, st):
                n += 1
                it = sp.items(E, t, f, I)
                if it is None: continue
                touched = 'cell' in t.ghost
                others = [x for x in it if x != D]; o = [x for x in t.orig if x != D]
                if others != o: sp.bad('others', 'other devices are lost or reordered', f, I, t); continue
                if op == 'add_chan':
                    if not touched: continue      # no such channel
                    if not it or it[-1] != D: sp.bad('last', 'the added device is not the last one on its channel', f, I, t)
                    if t.nodes[D].cur.get(L['addr']) != S('addr'): sp.bad('addr', 'the added device does not carry the address it was added at', f, I, t)
                elif op == 'del_chan':
                    if D in it and touched: sp.bad('kept', 'a deleted device stays on its channel', f, I, t)
                else:
                    if rv == ('null',):
                        if any(not (t.segs[x].nm if x in t.segs else sp.nomatch(E, t, x)) for x in it) and touched: sp.bad('missed', 'find_chan returns nothing although a device matches', f, I, t)
                    elif rv[0] != 'p' or rv[1] not in it: sp.bad('foreign', 'find_chan returns something that is not on the channel', f, I, t)
                    elif match(E, t, rv[1]) is not True: sp.bad('wrong', 'find_chan returns a device that does not match the address', f, I, t)
            states += E.count; chk += sp.checks
            idx.setdefault(op, set()).update(sp.cells)
        cov[op] = dict(symbolic_states=states, exits=n, checks=chk); r.obligations += n + chk
        r.need(n, 2, 'exits of ' + op); r.need(len(idx[op]), 1, 'channel lists used by ' + op)
    if len(set(map(frozenset, idx.values()))) != 1 or any(len(v) > 1 for v in idx.values()):
        f = m.funcs['find_chan']; r.add('chan:index', 'add_chan, find_chan and del_chan do not agree on the channel an address names', loc(f), ['%s: %s' % (k, v) for k, v in idx.items()])
    r.coverage = cov
    return r

def disk_check(tier):
    T = build.Tree(); m = T.load(['device/device.c'])['device/device.c']
    r = Result('Shape analysis of add_disk, del_disk, step_disk, system_init and system_shutdown for lists of any length: a controller added is stepped from then on exactly once per call with its own data, one deleted is unlinked and freed and no other is touched; initialisation and shutdown visit every device of every channel once.', [])
    cov = {}
    lay = layout(m, '_disk', 'next'); L = lay['off']; f = None
    class DS(ListSpec):
        params = ('fnc', 'drive')
        def may_drop(s, E, st, x): return False
        def nomatch(s, E, st, x):
            N = st.nodes[x]
            if N.init.get('__nm'): return True
            if s.op == 'del_disk':
                v = N.init.get(L['disk']); return v is not None and st.eq.get(tuple(sorted((v, ('o', 'drive')), key=repr))) is False
            return False
        def icall(s, E, st, f, I, fn, args):
            if s.op != 'step_disk': s.bad('call', 'a step routine is run while the list is changed', f, I, st); return [st]
            x = [n for n, N in st.nodes.items() if fn != ('null',) and N.init.get(L['step']) == fn]
            if len(x) != 1 or args != [st.nodes[x[0]].init.get(L['disk'])]: s.bad('step', 'a step routine is not called with the data of its own controller', f, I, st); return [st]
            if st.nodes[x[0]].init.get('__nm'): s.bad('twice', 'a controller is stepped twice', f, I, st)
            st.nodes[x[0]].init['__nm'] = True
            return [st]
    for op, args in (('add_disk', [('o', 'fnc'), ('o', 'drive')]), ('del_disk', [('o', 'drive')]), ('step_disk', [])):
        f = m.funcs.get(op)
        if f is None: raise Broken('%s not found' % op)
        I = f.blocks[f.order[-1]][-1]; n = 0; states = 0
        for sh in ('', 'S'):
            sp = DS(r, op, 'disk', 1); E = Engine(m, lay, sp, r); st = sp.config(E, sh)
            for t, rv in E.run(op, args, st):
                n += 1; it = sp.items(E, t, f, I)
                if it is None: continue
                try: E.gc(t, f)
                except Abort as a: sp.bad(a.key, a.msg, f, I, t); continue
                new = t.ghost.get('new', ()); gone = [x for x in t.orig if x not in it]
                if [x for x in it if x not in new] != [x for x in t.orig if x not in gone]: sp.bad('others', 'controllers are reordered or duplicated', f, I, t)
                if any(x in t.freed for x in it): sp.bad('freed', 'a freed controller is still listed', f, I, t)
                if op == 'add_disk':
                    put = [x for x in it if x in new]
                    if gone: sp.bad('lost', 'adding a controller loses another', f, I, t)
                    if not put and not t.ghost.get('oom') or len(put) > 1: sp.bad('put', 'a controller is not added exactly once', f, I, t)
                    for x in put:
                        if t.nodes[x].cur.get(L['step']) != ('o', 'fnc') or t.nodes[x].cur.get(L['disk']) != ('o', 'drive'): sp.bad('fields', 'an added controller does not keep its routine and data', f, I, t)
                elif op == 'del_disk':
                    for x in gone:
                        v = t.nodes[x].init.get(L['disk']) if x in t.nodes else None
                        if v is None or t.eq.get(tuple(sorted((v, ('o', 'drive')), key=repr))) is not True: sp.bad('other', 'another controller is deleted', f, I, t)
                    if not gone and any(not (t.segs[x].nm if x in t.segs else sp.nomatch(E, t, x)) for x in it): sp.bad('kept', 'a deleted controller stays listed', f, I, t)
                else:
                    if gone: sp.bad('lost', 'stepping loses a controller', f, I, t)
                    if any(not (t.segs[x].nm if x in t.segs else t.nodes[x].init.get('__nm')) for x in it): sp.bad('skipped', 'a controller is not stepped', f, I, t)
            states += E.count; r.obligations += sp.checks
        cov[op] = dict(symbolic_states=states, exits=n); r.obligations += n
        r.need(n, 2, 'exits of ' + op)
    lay2 = layout(m, '_device', 'next'); L2 = lay2['off']
    g = m.globals.get('chan')
    if g is None: raise Broken('channel table chan not found')
    for op, slot in (('system_init', 'init_device'), ('system_shutdown', 'close_device')):
        f = m.funcs.get(op)
        if f is None: raise Broken('%s not found' % op)
        I = f.blocks[f.order[-1]][-1]
        class VS(ListSpec):
            params = ('render',)
            def may_drop(s, E, st, x): return True
            def nomatch(s, E, st, x):
                N = st.nodes[x]
                if N.init.get('__nm'): return True
                v = N.init.get(L2[slot]); return v is not None and st.eq.get(tuple(sorted((v, ('null',)), key=repr))) is True
            def gvalue(s, E, st, c, I):
                if c[0] != 'chan': return None
                if c not in s.heads: s.heads.append(c)
                if s.empty: return ('null',)
                gg = E.fresh('S'); st.segs[gg] = Seg(('null',), None, None); return ('first', gg)
            def icall(s, E, st, f, I, fn, args):
                x = [n for n, N in st.nodes.items() if N.init.get(L2[slot]) == fn]
                if len(x) != 1 or not args or args[0] != ('p', x[0]): s.bad('call', 'a device routine is not called for its own device', f, I, st); return [st]
                if st.nodes[x[0]].init.get('__nm'): s.bad('twice', 'a device is visited twice', f, I, st)
                st.nodes[x[0]].init['__nm'] = True
                return [st]
        sp = VS(r, op, 'chan', 1); ty = g.ty; sp.arr = (ty.n, ty.el.size()) if ty.k == 'arr' else None
        n = 0; runs = []
        for sp.empty in (True, False):
            E = Engine(m, lay2, sp, r, 30000); runs += [(E, t) for t, rv in E.run(op, [('o', 'render')][:len(f.params)], State())]
        for E, t in runs:
            n += 1; cells = [c for c in t.g if c[0] == 'chan']
            if ty.k == 'arr' and len(cells) < ty.n: sp.bad('channels', 'not every channel is visited', f, I, t)
            for c in cells:
                it, last, err = E.chain(t, t.g[c])
                if err: sp.bad('list', 'the list %s' % err, f, I, t); continue
                if any(not (t.segs[x].nm if x in t.segs else sp.nomatch(E, t, x)) for x in it): sp.bad('skipped', 'a device is not visited', f, I, t)
        cov[op] = dict(symbolic_states=E.count, exits=n); r.obligations += n + sp.checks; r.need(n, 1, 'exits of ' + op)
    r.coverage = cov
    return r

CHECKS = {'L01': regs_check, 'L02': disk_check}
CHECKS |= {k: events(k) for k in ('E01', 'E02', 'E03')}
