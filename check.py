#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--case SUBSTR] [-v]
   check.py --replay FILE      re-runs a recorded counterexample on the real code

Decides one property of /repo's current working tree by symbolic execution."""
import argparse
import json
import os
import sys
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def known_findings(prop):
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                # finding: property=<id> case=<case> label=<label> :: text
                head, _, text = line.partition(' :: ')
                kv = dict(p.split('=', 1) for p in head.split(' ')[1:] if '=' in p)
                out.append((kv.get('case'), kv.get('label', '').replace('_', ' '), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--limit', type=float, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from harness import runner
    if a.replay:
        v = json.load(open(a.replay))
        rep = runner.Replayer()
        res = rep.run(v['property'], v['case'], v['inputs'], v['choices'])
        rep.stop()
        print(json.dumps(res, indent=1))
        return 1 if res['status'] in ('fail', 'exception') else 0
    prop = a.prop
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        cases, finder = runner.load_cases(prop)
    except Exception as err:
        # the tree cannot be loaded symbolically: no verdict
        import traceback
        traceback.print_exc()
        print('INCONCLUSIVE property=%s cannot load the code under the encoding: %s' % (prop, err))
        return 2
    names = [n for n, (f, p, o) in cases.items() if tier == 'thorough' or o['tier'] == 'quick']
    if a.case:
        names = [n for n in names if a.case in n]
    names.sort(key=lambda n: -cases[n][2]['cost'])
    limit = a.limit or (600 if tier == 'thorough' else 100)
    total = 3000 if tier == 'thorough' else 420
    res = runner.run_cases(prop, cases, names, tier, seed, limit, total, a.jobs)
    return report(prop, tier, seed, res, finder, t0, a, cases)


def report(prop, tier, seed, res, finder, t0, a, cases):
    agg, funcs, labels, reached = {}, set(), {}, {}
    violations, undecided, div = [], [], []
    for r in res:
        for k, v in r['stats'].items():
            agg[k] = agg.get(k, 0) + v
        funcs.update(r['funcs'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
        violations += r['violations']
        div += [dict(d, case=r['case']) for d in r['divergences']]
        if not r['violations'] and (r['truncated'] or r['notes'] or r['unconfirmed'] or r.get('lost')):
            undecided.append({'case': r['case'], 'truncated': r['truncated'], 'notes': r['notes'][:5],
                              'unconfirmed': r['unconfirmed'][:3], 'exceptions': r['excs'][:3]})
        if not r['violations'] and not undecided and r['stats'].get('paths', 0) == 0:
            undecided.append({'case': r['case'], 'notes': ['no feasible path'], 'truncated': None})
    traces = sum(r['traces'] for r in res)
    known = known_findings(prop)
    fresh, seen_known = [], []
    for v in violations:
        lab = v['failures'][0]['label'] if v['failures'] else ''
        hit = [k for k in known if k[0] == v['case'] and k[1] == lab]
        (seen_known if hit else fresh).append((v, hit))
    for v, hit in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    code = 0
    for i, (v, _) in enumerate(fresh):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if i < 5:
            fl = v['failures'][0] if v['failures'] else {'label': '?', 'detail': ''}
            print('case %s (%s): %s: %s' % (v['case'], v['how'], fl['label'], str(fl['detail'])[:300]))
            print('  inputs %s choices %s' % (v['inputs'], v['choices']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    wall = time.time() - t0
    decided = len(res) - len(undecided)
    for u in undecided[:40]:
        print('INCONCLUSIVE property=%s case=%s: %s' % (prop, u['case'], u.get('truncated') or '; '.join(
            str(x) for x in (u.get('notes') or [])[:2]) or u))
    if len(undecided) > 40:
        print('INCONCLUSIVE property=%s %d more cases' % (prop, len(undecided) - 40))
    if not code and len(res) and len(undecided) * 2 > len(res):
        code = 2
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': agg.get('paths', 0), 'transitions': agg.get('branches', 0),
            'traces_validated_against_impl': traces,
            'samples': [s for r in res for s in r['samples']][:6],
            'cases': len(res), 'cases_decided': decided,
            'obligations': agg.get('obligations', 0), 'obligations_discharged': agg.get('discharged', 0),
            'obligations_syntactic': agg.get('trivial', 0), 'obligations_undecided': agg.get('undecided', 0),
            'solver_queries': agg.get('queries', 0), 'solver_sat': agg.get('sat', 0),
            'solver_unsat': agg.get('unsat', 0), 'solver_unknown': agg.get('unknown', 0),
            'solver_s': round(agg.get('solver_s', 0), 2), 'concretised_values': agg.get('concretised', 0),
            'functions_encoded': sorted(funcs), 'source_files': {k: v for k, v in sorted(finder.files.items())},
            'obligation_labels': labels, 'reached': reached,
            'bounds': [r['case'] for r in res],
            'encoding_divergences': div[:10], 'undecided': undecided[:20],
        },
        'assumptions': assumptions(prop),
        'wall_s': round(wall, 2), 'violations': len(fresh),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not a.case:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases (%d decided), %d paths, %d obligations (%d discharged), %d queries %.1fs solver, '
          '%d traces validated, %d divergences, %.1fs' % (
              prop, tier, len(res), decided, agg.get('paths', 0), agg.get('obligations', 0), agg.get('discharged', 0),
              agg.get('queries', 0), agg.get('solver_s', 0), traces, len(div), wall))
    if a.v:
        for r in res:
            if r['wall'] < 4 and not r['truncated'] and not r['stats'].get('undecided') and len(res) > 20:
                continue
            print('  %-60s paths %-5s obl %-5s undec %-3s traces %-2s %6.1fs %s' % (
                r['case'], r['stats'].get('paths'), r['stats'].get('obligations'), r['stats'].get('undecided'),
                r['traces'], r['wall'], r['truncated'] or ''))
        for d in div:
            print('  divergence', d)
        for u in undecided[:4]:
            print('  undecided', str(u)[:600])
        print('  reached', reached)
    return code


def assumptions(prop):
    import importlib
    m = importlib.import_module('props.' + prop.lower())
    base = ['exact real arithmetic in place of IEEE-754 rounding and overflow; finite inputs unless a case says otherwise',
            'numpy, scipy, csaps operations modelled by symexec/npshim.py, arrays.py, libshim.py; sampled paths are '
            'compared with the real libraries (traces_validated_against_impl)',
            'z3 verdicts']
    return base + list(getattr(m, 'ASSUMPTIONS', []))


if __name__ == '__main__':
    sys.exit(main())
