"""One worker process: runs a list of seeds and reports one line per run on stdout.

  python -m sim.worker PROP BASE TIER START STRIDE COUNT DEADLINE_S
  python -m sim.worker --minimise REPLAY OUT BUDGET     (reads a plan, writes the minimised replay)
  python -m sim.worker --replay REPLAY                  (prints the result as one JSON line)
"""
import json
import os
import resource
import sys

sys.dont_write_bytecode = True
MEM = 3 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1000)


def main(argv):
    limits()
    from . import core, runner
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)                       # whatever the code under test prints goes nowhere

    def say(tag, x):
        out.write(tag + ' ' + json.dumps(x, sort_keys=True) + '\n')
        out.flush()

    if argv[0] == '--replay':
        with open(argv[1]) as f:
            rep = json.load(f)
        for s in rep.get('prelude', []):
            runner.run_plan(runner.make_plan(rep['property'], s, rep.get('tier', 'quick')))
        res = runner.run_plan(rep['plan'], keep_log=True)
        say('R', res)
        return 0
    if argv[0] == '--minimise':
        with open(argv[1]) as f:
            rep = json.load(f)
        plan, tries = runner.minimise(rep['plan'], rep['violation']['cls'], float(argv[3]))
        runner.write_replay(argv[2], plan, {'violation': rep['violation']}, tries)
        say('M', {'tries': tries})
        return 0
    prop, base, tier = argv[0], int(argv[1]), argv[2]
    start, stride, count, deadline = int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6])
    t0 = core.REAL.monotonic()
    for k in range(count):
        if core.REAL.monotonic() - t0 > deadline:
            say('D', {})
            break
        i = start + k * stride
        seed = runner.seed_for(base, prop, i)
        say('S', [i, seed])
        try:
            plan = runner.make_plan(prop, seed, tier)
        except Exception:
            import traceback
            sys.stderr.write(traceback.format_exc())
            say('G', {'seed': seed, 'tb': traceback.format_exc()})      # a defect of the generator, not of the code under test
            break
        res = runner.run_plan(plan)
        res.pop('lines')
        res['i'], res['seed'] = i, seed
        if k < 1:
            res['sample'] = core.short(json.dumps(plan, sort_keys=True), 1500)
        say('R', res)
        if res['violation']:
            break
    say('E', {})
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
