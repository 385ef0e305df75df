"""Orchestrator: ./check Cxx ...   Exit 0 held, 1 violation (with VIOLATION line), 2 harness error."""
import argparse, glob, importlib, json, os, pickle, shutil, subprocess, sys, tempfile, time


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub', default='')
    ap.add_argument('--replay')
    ap.add_argument('--limit', type=float, default=0, help='wall limit in seconds (0: 600 quick, none thorough)')
    a = ap.parse_args()
    from . import core
    mod = importlib.import_module('vlib.props.' + a.prop.lower())
    subs = {s.name: s for s in mod.SUBS}
    if a.replay:
        return replay(core, mod, subs, a)
    t0 = time.monotonic()
    outdir = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    rc = 2
    try:
        rc = run(core, mod, subs, a, outdir, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return rc


def replay(core, mod, subs, a):
    prop, sub, case, msg = core.load_case(a.replay)
    if hasattr(mod, 'warm'):
        mod.warm()
    res, val = subs[sub].run_case(case)
    print('%s %s: %s' % (prop, sub, res))
    print(val if res != 'ok' else '')
    if res == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, a.replay))
        return 1
    return 0 if res in ('ok', 'skip') else 2


def run(core, mod, subs, a, outdir, t0):
    limit = a.limit or (600 if a.tier == 'quick' else 1e9)
    procs = []
    for w in range(a.workers):
        log = open(os.path.join(outdir, 'log-%d' % w), 'wb')
        p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vlib.worker', a.prop, a.tier, str(a.seed),
                              str(w), str(a.workers), str(a.scale), outdir, a.sub],
                             stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append(p)
    fail_seen = None
    killed = []
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        now = time.monotonic()
        if fail_seen is None and glob.glob(os.path.join(outdir, 'fail-*')):
            fail_seen = now
        # once a worker has finished with a (shrunk) failure, or shrinking took long enough, stop the others
        done_fail = False
        for w, p in enumerate(procs):
            if p.poll() is not None and fail_seen is not None and glob.glob(os.path.join(outdir, 'fail-*-w%d-*' % w)):
                done_fail = True
        if done_fail or (fail_seen is not None and now - fail_seen > 90) or now - t0 > limit:
            for w, p in enumerate(procs):
                if p.poll() is None:
                    killed.append(w)
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
            for p in procs:
                p.wait()
            break
    stats, errs, times = {}, [], {}
    for w, p in enumerate(procs):
        rp = os.path.join(outdir, 'res-%d.pkl' % w)
        if os.path.exists(rp):
            with open(rp, 'rb') as f:
                r = pickle.load(f)
            if r['err']:
                errs.append('worker %d: %s' % (w, r['err']))
            for k, v in r['times'].items():
                times[k] = max(times.get(k, 0), v)
            for name, s in r['stats'].items():
                t = stats.setdefault(name, dict(evaluations=0, nontrivial=set(), distinct=set(), labels={},
                                                samples=[], skipped=0, inconclusive=0, exhaustive=s['exhaustive']))
                for k in ('evaluations', 'skipped', 'inconclusive'):
                    t[k] += s[k]
                t['nontrivial'] |= s['nontrivial']
                t['distinct'] |= s['distinct']
                for l, n in s['labels'].items():
                    t['labels'][l] = t['labels'].get(l, 0) + n
                t['samples'] += s['samples'][:2]
        elif w not in killed:
            with open(os.path.join(outdir, 'log-%d' % w), 'rb') as f:
                errs.append('worker %d died: %s' % (w, f.read()[-1500:].decode('utf-8', 'replace')))

    # candidates: last (smallest) failing case of every worker/sub first
    cands = {}
    for path in glob.glob(os.path.join(outdir, 'fail-*.json')):
        base = os.path.basename(path)[5:-5]
        key, num = base.rsplit('-', 1)
        cands.setdefault(key, []).append((int(num), path))
    ordered = []
    for key, l in cands.items():
        l.sort(reverse=True)
        ordered.append([p for _, p in l])
    ordered.sort(key=lambda l: os.path.getsize(l[0]))
    violation = None
    unconfirmed = 0
    if ordered:
        tries = [l[0] for l in ordered] + [p for l in ordered for p in l[1:3]]
        for path in tries[:12]:
            r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vlib.main', a.prop, '--replay', path],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode == 1:
                prop, sub, case, msg = core.load_case(path)
                os.makedirs(os.path.join(core.HERE, 'replays'), exist_ok=True)
                dst = os.path.join(core.HERE, 'replays', '%s-%s-%s.json' % (a.prop, sub, core.case_hash(sub, case)[:10]))
                shutil.copy(path, dst)
                violation = (dst, msg, sub, case)
                break
            unconfirmed += 1

    # known findings: still there?
    known_lines = []
    known_err = []
    for k in core.load_known():
        if k.get('property') != a.prop or k.get('status') == 'fixed':
            continue
        sub = subs.get(k['sub'])
        if sub is None:
            known_err.append('known finding %s names unknown sub %s' % (k['id'], k['sub']))
            continue
        import ast
        res, val = sub.run_case(ast.literal_eval(k['case']))
        if res == 'violation':
            known_lines.append('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k['id'], k['what']))
        elif res not in ('ok', 'skip'):
            known_err.append('known finding %s: %s %s' % (k['id'], res, val))

    write_evidence(core, mod, subs, a, stats, times, t0, violation, unconfirmed, known_lines, killed)
    for l in known_lines:
        print(l)
    ev = sum(s['evaluations'] for s in stats.values())
    nt = sum(len(s['nontrivial']) for s in stats.values())
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs' % (a.prop, a.tier, a.seed, ev, nt, time.monotonic() - t0))
    for name, s in stats.items():
        print('   %-22s cases=%-7d nontrivial=%-7d skipped=%-5d inconclusive=%-3d %.1fs' % (
            name, s['evaluations'], len(s['nontrivial']), s['skipped'], s['inconclusive'], times.get(name, 0)))
        if os.environ.get('VERIF_LABELS'):
            for l, n in sorted(s['labels'].items(), key=lambda x: -x[1])[:60]:
                print('        %6d %s' % (n, l))
    if violation:
        print('--- %s' % violation[2])
        print(violation[1])
        print('case: %s' % ascii(violation[3])[:3000])
        print('VIOLATION property=%s replay=%s' % (a.prop, violation[0]))
        return 1
    if unconfirmed:
        print('UNCONFIRMED: %d failing case(s) did not reproduce in a fresh process' % unconfirmed)
        errs.append('unconfirmed failure')
    for e in errs + known_err:
        print('HARNESS ERROR', e)
    if errs or known_err:
        return 2
    if killed:
        print('note: wall limit reached, workers %s stopped (inconclusive for the rest)' % killed)
    return 0


def write_evidence(core, mod, subs, a, stats, times, t0, violation, unconfirmed, known_lines, killed):
    samples, per = [], {}
    for name, s in stats.items():
        for c in s['samples'][:3]:
            samples.append({'sub': name, 'case': ascii(c)[:1500]})
        per[name] = {'rule': subs[name].rule, 'evaluations': s['evaluations'], 'distinct': len(s['distinct']),
                     'distinct_nontrivial': len(s['nontrivial']), 'skipped': s['skipped'],
                     'inconclusive': s['inconclusive'], 'enumerated': s['exhaustive'],
                     'classes': dict(sorted(s['labels'].items(), key=lambda x: -x[1])[:80]),
                     'wall_s': round(times.get(name, 0), 2)}
    ev = {'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': sum(s['evaluations'] for s in stats.values()),
                       'distinct_nontrivial': sum(len(s['nontrivial']) for s in stats.values()),
                       'rule': ' | '.join('%s: %s' % (n, subs[n].rule) for n in stats) or 'none',
                       'samples': samples or [{'sub': '-', 'case': 'no case completed'}], 'per_check': per,
                       'known_findings_still_present': known_lines,
                       'unconfirmed_failures': unconfirmed, 'workers_stopped_early': killed},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.monotonic() - t0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(core.HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(core.HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
