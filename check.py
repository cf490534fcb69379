#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]: decide one property from /repo's current sources.

exit 0  the property's rules hold on everything analysed (or only listed known findings fail)
exit 1  VIOLATION property=<id> replay=<report>
exit 2  the analysis itself could not be carried out (anchor gone, zero instances, crash)"""
import sys, os, json, time, traceback
if 'PYTHONHASHSEED' not in os.environ:      # same set order, hence same path counts, on every run
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/sa')
sys.setrecursionlimit(20000)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    from result import Broken
    try:
        r = registry.run(pid, tier)
    except Broken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex)); return 2
    known = []
    for L in open(HERE + '/known-findings.txt'):
        L = L.strip()
        if L.startswith('known: property=%s ' % pid):
            known.append(L.split(' ', 2)[2].split(' :: ', 1)[0].strip())
    bad = []; seen = set()
    for f in r.findings:
        k = f.key
        if k in seen: continue
        seen.add(k)
        if k in known: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, f.msg))
        else: bad.append(f)
    cov = dict(r.coverage)
    cov['explanation'] = r.explanation
    cov['obligations'] = r.obligations; cov['discharged'] = r.obligations - len(seen) if r.obligations >= len(seen) else 0
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, assumptions=r.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1, default=str)
    if bad:
        rep = HERE + '/evidence/%s.report.txt' % pid
        with open(rep, 'w') as f:
            f.write('property %s: %d violation(s)\nrule: %s\n\n' % (pid, len(bad), r.explanation))
            for b in bad:
                f.write('[%s] %s\n  at %s\n' % (b.key, b.msg, b.where))
                for p in b.path: f.write('    %s\n' % (p,))
                f.write('\n')
        for b in bad[:20]: print('%s: %s [%s]' % (b.where, b.msg, b.key))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('OK property=%s obligations=%d wall=%.1fs' % (pid, r.obligations, time.time() - t0))
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN'); rc = 2
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc) if False else sys.exit(rc)
