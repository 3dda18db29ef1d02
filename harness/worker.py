"""One shard of a property check (or the replay of one saved case)."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import paths
paths.setup()

import core

BUDGET = {'quick': 150, 'thorough': 3 * 3600}


def main(argv):
    pid, tier, seed, shard, nshards, out = argv[:6]
    seed, shard, nshards = int(seed), int(shard), int(nshards)
    mod = importlib.import_module(f'checks.{pid.lower()}')
    stats = core.Stats(out, {
        'rule': mod.RULE, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'assumptions': getattr(mod, 'ASSUMPTIONS', [])})
    core.prepare(mod, os.getcwd())
    try:
        if len(argv) > 6:
            plan = json.load(open(argv[6]))['plan']
            core.run_case(mod, plan, stats, tier)
        else:
            explore(mod, tier, seed, shard, nshards, stats)
    except core.Violation:
        pass
    except core.HarnessError as e:
        stats.error = str(e)
    except BaseException:
        stats.error = 'harness error:\n' + traceback.format_exc()[-6000:]
    stats.write()


def explore(mod, tier, seed, shard, nshards, stats):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 40 if tier == 'quick' else 240

    # fixed cases first (spread over the shards)
    for i, plan in enumerate(getattr(mod, 'EXAMPLES', ())):
        if i % nshards == shard:
            core.run_case(mod, json.loads(json.dumps(plan)), stats, tier)

    scale = float(os.environ.get('VERIF_SCALE') or 1)
    total = int((mod.QUICK if tier == 'quick' else mod.THOROUGH) * scale)
    mine = total // nshards + (1 if shard < total % nshards else 0)
    per_round = getattr(mod, 'ROUND', 250)
    start = time.monotonic()
    budget = getattr(mod, 'BUDGET', BUDGET)[tier]
    n_round = 0
    strategy = mod.strategy(tier)
    while mine > 0:
        n = min(mine, per_round)
        mine -= n
        failed = []

        @hypothesis.seed((seed * 1_000_003 + shard) * 10_007 + n_round)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))
        @given(strategy)
        def test(plan):
            # once out of time stop cheaply, unless shrinking a failure
            if not failed and time.monotonic() - start > budget:
                stats.cut_short = True
                return
            try:
                core.run_case(mod, plan, stats, tier)
            except core.Violation:
                failed.append(1)
                raise

        try:
            test()
        except core.HarnessError:
            raise
        except BaseException:
            if stats.violation is None:
                raise
            return
        n_round += 1
        if time.monotonic() - start > budget:
            stats.cut_short = True
            break


if __name__ == '__main__':
    main(sys.argv[1:])
