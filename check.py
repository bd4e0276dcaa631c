#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current source.

exit 0: held on everything analysed; exit 1 + VIOLATION line: broken;
exit 2: the analysis cannot give an answer (source not parsed, anchor gone)."""
import json
import os
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from an.program import Program, AnalysisBroken  # noqa: E402
from an import registry  # noqa: E402

G = {}


def job(i):
    R, en = G['jobs'][i]
    t0 = time.time()
    try:
        from an.rule import run_rule
        r = R(G['prog'])
        if en is None:
            res = r.run()
            st = dict(res or {})
            fns, sites, impr, paths = r.fns_seen, r.sites_seen, (), st.get('paths', 0)
            stats = st
        else:
            eng, out = run_rule(G['prog'], r, en)
            stats = dict(eng.stats)
            stats['paths'] = len(out)
            fns, sites, impr = eng.fns_seen, eng.sites, eng.imprecise
        return dict(rule=R.name, entry=en.name if en else '', ob={k: sorted(v) for k, v in r.ctx.obligations.items()},
                    findings=[(k, f.as_dict()) for k, f in r.ctx.findings.items()], stats=stats,
                    fns=sorted(fns), sites=len(sites), impr=sorted(map(str, impr)), t=time.time() - t0)
    except AnalysisBroken as e:
        return dict(rule=R.name, entry=en.name if en else '', broken=str(e))
    except Exception:
        return dict(rule=R.name, entry=en.name if en else '', broken=traceback.format_exc())


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))['known'] if os.path.exists(p) else []


def decide(pid, tier, verbose=False):
    t0 = time.time()
    P = registry.PROPS[pid]
    prog = Program()
    from an import raft
    cb = raft.Callbacks(prog) if any(getattr(R, 'needs_raft', True) for R in P.rules) else None
    ens = raft.raft_entries(prog, cb) if cb else []
    jobs = []
    for R in P.rules:
        if getattr(R, 'tree', False):
            jobs.append((R, None))
            continue
        mine = R.entries(prog, cb, ens) if hasattr(R, 'entries') else ens
        probe = R(prog)
        n = 0
        for en in mine:
            if probe.wants(en):
                jobs.append((R, en))
                n += 1
        if not n:
            raise AnalysisBroken('rule %s has no entry point' % R.name)
    G['prog'], G['jobs'] = prog, jobs
    order = sorted(range(len(jobs)), key=lambda i: -getattr(jobs[i][0], 'cost', 1))
    with mp.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
        res = pool.map(job, order, chunksize=1)
    broken = [r for r in res if 'broken' in r]
    rules = {}
    finds = []
    fns = set()
    for r in res:
        if 'broken' in r:
            continue
        d = rules.setdefault(r['rule'], dict(entries=0, obligations={}, paths=0, calls_inlined=0, branches=0, loops=0,
                                             events=0, findings=0))
        d['entries'] += 1
        d['paths'] += r['stats'].get('paths', 0)
        for k in ('calls_inlined', 'branches', 'loops', 'events'):
            d[k] += r['stats'].get(k, 0)
        for k, v in r['ob'].items():
            d['obligations'].setdefault(k, set()).update(map(tuple, v))
        d['findings'] += len(r['findings'])
        for k, f in r['findings']:
            finds.append(f)
        fns.update(r['fns'])
        if r['impr']:
            broken.append(dict(rule=r['rule'], entry=r['entry'], broken='imprecise: ' + '; '.join(r['impr'])))
    for R in P.rules:
        if hasattr(R, 'combine') and R.name in rules:
            for f in R.combine(prog, rules[R.name]['obligations']):
                rules[R.name]['findings'] += 1
                finds.append(f.as_dict())
    missing = []
    for R in P.rules:
        d = rules.get(R.name)
        for k in R.must_see:
            if d is None or not d['obligations'].get(k):
                missing.append((R, k))
    known = [k for k in known_findings() if k['property'] == pid]
    new, hit = [], []
    for f in finds:
        m = [k for k in known if k['rule'] == f['rule'] and k['key'] == f['key']]
        (hit if m else new).append((f, m[0] if m else None))
    for R, k in missing:
        if k in getattr(R, 'vital', ()):
            new.append(({'rule': R.name, 'key': 'missing/' + k, 'site': '-',
                         'message': 'no construct that does "%s" is left: %s' % (k, R.vital[k])}, None))
    hard_missing = [(R.name, k) for R, k in missing if k not in getattr(R, 'vital', ())]
    nob = sum(len(v) for d in rules.values() for v in d['obligations'].values())
    byid = {R.name: R for R in P.rules}
    cov = {
        'explanation': 'Static analysis of the working tree of /repo (no execution): the listed rules were decided on '
                       'every abstract path of the listed entry points; an obligation is a source construct at which a '
                       'rule had something to establish.',
        'obligations': nob,
        'discharged': nob - len({(f['rule'], f['key']) for f in finds}),
        'functions_analysed': len(fns),
        'units': len(prog.units),
        'rules': [{'rule': n, 'statement': byid[n].doc, 'entry_points': d['entries'], 'paths_at_end': d['paths'],
                   'calls_followed': d['calls_inlined'], 'branches': d['branches'], 'loops': d['loops'],
                   'obligations': {k: len(v) for k, v in sorted(d['obligations'].items())},
                   'sample': [('%s:%s %s' % x) for v in d['obligations'].values() for x in sorted(v, key=str)[:2]][:6]}
                  for n, d in sorted(rules.items())],
        'functions': sorted(fns)[:200],
        'known_findings_seen': [k['key'] for _, k in hit],
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': P.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    EV = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    for f, k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if verbose:
        for n, d in sorted(rules.items()):
            print('  rule %-24s entries %d paths %d obligations %s' % (
                n, d['entries'], d['paths'], {k: len(v) for k, v in d['obligations'].items()}))
    rp = os.path.join(EV, pid + '.violation.json')
    if os.path.exists(rp):
        os.unlink(rp)
    if new:
        with open(rp, 'w') as fo:
            json.dump({'property': pid, 'findings': [f for f, _ in new]}, fo, indent=1)
        for f, _ in new:
            print('%s: [%s] %s (entry: %s)' % (f['site'], f['rule'], f['message'], f.get('entry', '')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken or hard_missing:
        for b in broken:
            print('NO ANSWER: rule %s, entry %s: %s' % (b['rule'], b['entry'], b['broken']))
        for n, k in hard_missing:
            print('NO ANSWER: rule %s never met a construct of kind "%s"' % (n, k))
        return 2
    print('property %s held: %d obligations on %d functions, %d rules, %.1f s' % (pid, nob, len(fns), len(rules), time.time() - t0))
    return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        rc = decide(pid, tier, '-v' in sys.argv)
    except AnalysisBroken as e:
        print('NO ANSWER: %s' % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        print('NO ANSWER: the analysis itself failed')
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
