#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property of /repo's current source by static analysis."""
import os, sys, time, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vlib'))
import props

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith('finding:'):
            d = dict(x.split('=', 1) for x in l[len('finding:'):].split(' | ') if '=' in x)
            out.append({k.strip(): v.strip() for k, v in d.items()})
    return out
def matches(k, pid, v):
    return k.get('property') == pid and k['rule'] == v['rule'] and k['var'] == v['var'] and k['at'] in v['where'] and k['msg'] == v['msg']

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t = time.time()
    try: viols, cov, assumptions, level = props.decide(pid, tier)
    except props.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, str(e)[:3000])); return 2
    except Exception:
        traceback.print_exc(); print('ANALYSIS-BROKEN property=%s internal error' % pid); return 2
    kf = known(); new = []; old = {}
    for v in viols:
        k = next((k for k in kf if matches(k, pid, v)), None)
        if k: old.setdefault(k['what'], []).append(v)
        else: new.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov['known_findings_seen'] = {k: len(v) for k, v in old.items()}
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t, 2), violations=len(new))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for k in old: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        lines = ['[%s] %s/%s at %s: %s' % (v['rule'], v['var'], v['op'], v['where'], v['msg']) for v in new]
        open(rp, 'w').write('\n'.join(lines) + '\n')
        for l in lines[:20]: print(l)
        if len(lines) > 20: print('... %d more in %s' % (len(lines) - 20, rp))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    print('OK property=%s (%s) %s' % (pid, tier, {k: v for k, v in cov.items() if isinstance(v, int)}))
    return 0
sys.exit(main())
