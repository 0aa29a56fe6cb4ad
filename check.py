#!/usr/bin/env python
"""Decide one property by seeded simulation:  check.py PROP   (VERIF_SEED, VERIF_TIER).

exit 0  the property held in every simulated run
exit 1  'VIOLATION property=<id> replay=<path>'
exit 2  the machinery itself failed
"""
import json
import os
import queue
import subprocess
import sys
import threading
import time
from collections import Counter

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=HERE)
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
STALL = 150            # seconds without progress before a run counts as hung


def worker(args):
    return subprocess.Popen([sys.executable, '-m', 'sim.worker'] + [str(a) for a in args], cwd=HERE, env=ENV,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


class W:
    """a worker process and what it said last"""

    def __init__(self, args, q):
        self.p = worker(args)
        self.last = time.monotonic()
        self.cur = None
        self.done = False
        self.ran = []
        self.err = []
        self.q = q
        threading.Thread(target=self.read, daemon=True).start()
        threading.Thread(target=self.read_err, daemon=True).start()

    def read(self):
        for line in self.p.stdout:
            self.last = time.monotonic()
            tag, _, rest = line.partition(' ')
            x = json.loads(rest)
            if tag == 'S':
                self.cur = x
            elif tag == 'R':
                self.ran.append(x['seed'])
                self.cur = None
            self.q.put((self, tag, x))
        self.p.wait()
        self.q.put((self, 'X', self.p.returncode))

    def read_err(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-40]

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass


def one(args, timeout):
    """run a worker command to the end; (payload of its last R/M line or None, note)"""
    p = worker(args)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    for line in out.splitlines():
        if line[:2] in ('R ', 'M '):
            return json.loads(line[2:]), ''
    return None, 'exit %s: %s' % (p.returncode, err[-800:])


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    out.append(line[len('known: property=%s ' % prop):].strip())
    return out


def main():
    from sim import runner
    prop = sys.argv[1]
    base = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    sc = runner.scenario(prop)
    runs, wall = sc.RUNS[tier], {'quick': 150, 'thorough': 780}[tier]
    if os.environ.get('VERIF_RUNS'):
        runs = int(os.environ['VERIF_RUNS'])
    t0 = time.monotonic()
    edir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(edir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    epath = os.path.join(edir, prop + '.json')
    if os.path.exists(epath):
        os.remove(epath)
    print('check %s tier=%s seed=%d runs=%d workers=%d' % (prop, tier, base, runs, WORKERS), flush=True)

    q = queue.Queue()
    n = min(WORKERS, runs)
    ws = [W([prop, base, tier, j, n, (runs - j + n - 1) // n, wall], q) for j in range(n)]
    live = set(ws)
    done, stats, checks, simtime, boots = 0, Counter(), 0, 0, 0
    digests, switches, states, nontrivial = set(), set(), set(), set()
    samples, known, errors, viol = [], Counter(), [], None
    capped = False
    while live and viol is None and not errors:
        try:
            w, tag, x = q.get(timeout=5)
        except queue.Empty:
            tag = None
        for v in list(live):
            if v.cur is not None and time.monotonic() - v.last > STALL:
                viol = {'i': v.cur[0], 'seed': v.cur[1], 'violation': {'cls': 'stalled', 'detail': 'no progress for %d s' % STALL}, 'w': v}
        if tag is None:
            continue
        if tag == 'R':
            done += 1
            stats.update(x['stats'])
            checks += x['checks']
            simtime += x['simtime']
            boots += x['boots']
            digests.add(x['digest'])
            switches.add(x['switch'])
            states.update(x['states'])
            if x['checks'] and any(k.startswith('fault:') or k == 'preemptions' for k in x['stats']):
                nontrivial.add(x['digest'])
            for k in x['known']:
                known[k] += 1
            if 'sample' in x and len(samples) < 3:
                samples.append({'seed': x['seed'], 'digest': x['digest'], 'plan': x['sample']})
            if x.get('error') or x.get('badplan'):
                errors.append('seed %d: %s' % (x['seed'], x.get('error') or x.get('badplan')))
            if x['violation']:
                x['w'] = w
                viol = x
        elif tag == 'G':
            errors.append('generator failed on seed %d: %s' % (x['seed'], x['tb']))
        elif tag == 'D':
            capped = True
        elif tag == 'E':
            w.done = True
        elif tag == 'X':
            live.discard(w)
            if not w.done and viol is None:
                if w.cur is not None:         # the process died inside a run
                    viol = {'i': w.cur[0], 'seed': w.cur[1], 'w': w,
                            'violation': {'cls': 'process-died', 'detail': 'worker exit %s %s' % (x, ''.join(w.err)[-300:])}}
                else:
                    errors.append('worker died: %s %s' % (x, ''.join(w.err)[-1500:]))
    for w in ws:
        w.kill()
    search_s = time.monotonic() - t0

    rc, replay = 0, None
    if viol is not None:
        rc, replay = report(prop, base, tier, viol, rdir, errors)
    if errors:
        for e in errors[:3]:
            print('ERROR', e, flush=True)
        rc = rc or 2
    for k in known_findings(prop):
        if rc == 0:
            print('KNOWN-FINDING: property=%s %s (met in %d runs)' % (prop, k, sum(known.values())), flush=True)
    per_h = int(done / max(search_s, .001) * 3600)
    ev = {
        'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': done, 'distinct_nontrivial': len(nontrivial),
            'rule': sc.RULE + '; a run counts as non-trivial when at least one fault or preemption fired in it and at least one '
                              'oracle was evaluated; distinct = different event-log digest',
            'samples': samples,
            'simulated_runs': done, 'seeds_per_hour': per_h, 'oracle_evaluations': checks,
            'simulated_seconds': round(simtime / 1e6, 3), 'simulated_process_boots': boots,
            'faults_injected': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            'preemptions': stats.get('preemptions', 0),
            'probes': {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
            'distinct_event_logs': len(digests), 'distinct_interleavings': len(switches),
            'interleaving_measure': 'hash of the sequence of (task, function, line) at which the scheduler preempted',
            'distinct_states': len(states), 'state_measure': 'situation tuples recorded by the scenario (object kind, size class, outcome, fault)',
            'real_components': sc.REAL, 'stub_components': sc.STUB, 'wall_cap_reached': capped,
            'known_findings_met': dict(known),
        },
        'assumptions': ['the reference model in sim/ref.py states the Bitcoin rules correctly',
                        'sampling, not enumeration: unexplored seeds may still fail'] + getattr(sc, 'ASSUME', []),
        'wall_s': round(time.monotonic() - t0, 2), 'violations': 1 if rc == 1 else 0,
    }
    tmp = epath + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, epath)
    print('%s: %d runs, %d distinct non-trivial, %d oracle evaluations, %d runs/h, %.1f s -> %s'
          % (prop, done, len(nontrivial), checks, per_h, time.monotonic() - t0, 'held' if rc == 0 else 'exit %d' % rc), flush=True)
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
    return rc


def report(prop, base, tier, viol, rdir, errors):
    """confirm in a fresh process, minimise, confirm again"""
    from sim import runner
    seed, cls = viol['seed'], viol['violation']['cls']
    print('violation in run %d (seed %d): %s: %s' % (viol['i'], seed, cls, viol['violation']['detail'][:600]), flush=True)
    full = os.path.join(rdir, '%s-%d-full.json' % (prop, seed))
    small = os.path.join(rdir, '%s-%d.json' % (prop, seed))
    plan = runner.make_plan(prop, seed, tier)
    rep = {'property': prop, 'seed': seed, 'tier': tier, 'violation': viol['violation'], 'plan': plan}

    def save(path, rep):
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, sort_keys=True)
    save(full, rep)
    res, note = one(['--replay', full], STALL + 60)
    if cls in ('stalled', 'process-died'):
        if res is None:                      # a fresh process hangs or dies on it too
            rep['replay_note'] = 'a fresh process does not finish this run: ' + note
            save(full, rep)
            return 1, full
        if not res['violation']:
            errors.append('run %d (seed %d) %s once but completes in a fresh process: %s' % (viol['i'], seed, cls, viol['violation']['detail']))
            return 2, None
        cls = res['violation']['cls']
        rep['violation'] = res['violation']
        save(full, rep)
    if res is None or not res['violation']:
        # depends on what the same process ran before: replay that history too
        rep['prelude'] = viol['w'].ran[:-1] if viol['w'].ran and viol['w'].ran[-1] == seed else viol['w'].ran
        save(full, rep)
        res, note = one(['--replay', full], 600)
        if res is None or not res['violation']:
            rep['replay_note'] = 'seen once; not reproduced in a fresh process'
            save(full, rep)
        return 1, full
    rep['violation'], rep['digest'] = res['violation'], res['digest']
    save(full, rep)
    cls = res['violation']['cls']
    budget = 45
    m, note = one(['--minimise', full, small, budget], budget + STALL + 60)
    if m is not None and os.path.exists(small):
        r2, note = one(['--replay', small], STALL + 60)
        with open(small) as f:
            want = json.load(f)
        if r2 is not None and r2['violation'] and r2['digest'] == want['digest']:
            print('minimised in %d runs: %s: %s' % (m['tries'], r2['violation']['cls'], r2['violation']['detail'][:600]), flush=True)
            return 1, small
        note = 'minimised plan did not replay exactly'
    print('not minimised (%s)' % note, flush=True)
    return 1, full


if __name__ == '__main__':
    sys.exit(main())
