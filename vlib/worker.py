"""One worker process: runs its share of every sub-check of a property and writes a result pickle."""
import importlib, itertools, os, pickle, sys, time
from . import core
from .core import Violation, settings, HealthCheck, Phase
import hypothesis
import hypothesis.internal.conjecture.engine as engine

engine.MAX_SHRINKING_SECONDS = 60


class Fail(Exception):
    pass


class HarnessError(Exception):
    pass


def run_sub(prop, sub, tier, seed, worker, nworkers, scale, outdir, stats):
    s = stats.setdefault(sub.name, dict(evaluations=0, nontrivial=set(), distinct=set(), labels={}, samples=[],
                                        skipped=0, inconclusive=0, exhaustive=False))
    failing = []

    def one(case):
        res, val = sub.run_case(case)
        s['evaluations'] += 1
        h = core.case_hash(sub.name, case)[:12]
        if res == 'ok':
            s['distinct'].add(h)
            for l in val.get('labels', ()):
                s['labels'][l] = s['labels'].get(l, 0) + 1
            if val.get('nontrivial', True):
                new = h not in s['nontrivial']
                s['nontrivial'].add(h)
                if new and len(s['samples']) < 4 and (len(s['nontrivial']) % 17 == 3 or len(s['samples']) < 1):
                    s['samples'].append(val.get('sample', case))
        elif res == 'skip':
            s['skipped'] += 1
            s['labels']['skip:' + val[:60]] = s['labels'].get('skip:' + val[:60], 0) + 1
        elif res == 'inconclusive':
            s['inconclusive'] += 1
        elif res == 'violation':
            failing.append((case, val))
            path = os.path.join(outdir, 'fail-%s-w%d-%d.json' % (sub.name, worker, len(failing) - 1))
            core.dump_case(prop, sub.name, case, val, path)
            raise Fail(val)
        else:
            raise HarnessError(val)

    n_total = sub.quick if tier == 'quick' else sub.thorough
    if sub.cases is not None:
        s['exhaustive'] = True
        try:
            for case in itertools.islice(sub.cases(tier), worker, None, nworkers):
                one(case)
        except Fail:
            pass
        return failing
    n = max(1, int(round(n_total * scale / nworkers)))
    strat = core.strategy(sub.gen)

    @hypothesis.seed(seed * 1009 + worker * 31 + sum(map(ord, sub.name)))
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
              verbosity=hypothesis.Verbosity.quiet)
    @hypothesis.given(strat)
    def test(case):
        one(case)

    try:
        test()
    except Fail:
        pass
    except HarnessError:
        raise
    except hypothesis.errors.Flaky:
        pass
    return failing


def main(argv):
    prop, tier, seed, worker, nworkers, scale, outdir, only = argv
    seed, worker, nworkers, scale = int(seed), int(worker), int(nworkers), float(scale)
    mod = importlib.import_module('vlib.props.' + prop.lower())
    stats = {}
    failing = {}
    err = None
    times = {}
    if hasattr(mod, 'warm'):
        mod.warm()
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        t = time.monotonic()
        try:
            f = run_sub(prop, sub, tier, seed, worker, nworkers, scale, outdir, stats)
            if f:
                failing[sub.name] = f[-1]
        except HarnessError as e:
            err = 'sub %s: %s' % (sub.name, e)
        except Exception:
            import traceback
            err = 'sub %s: %s' % (sub.name, traceback.format_exc())
        times[sub.name] = time.monotonic() - t
        tmp = os.path.join(outdir, 'res-%d.tmp' % worker)
        with open(tmp, 'wb') as fh:
            pickle.dump(dict(stats=stats, failing=failing, err=err, times=times), fh)
        os.rename(tmp, os.path.join(outdir, 'res-%d.pkl' % worker))
        if failing or err:
            break


if __name__ == '__main__':
    main(sys.argv[1:])
