"""Spreads the runs of a property over processes and reports."""
import ctypes
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECK = os.path.join(HERE, 'check.py')
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
WORKERS = 8
LIBC = ctypes.CDLL(None)


def fixed_addresses():
    """places objects at the same addresses in every process, for failures
    which depend on what id() gives; nothing is lost where that is refused"""
    try:
        LIBC.personality(0x0040000)
    except Exception:
        pass


class Job:

    def __init__(self, tmp, name, spec, hashseed):
        self.spec = dict(spec, out=os.path.join(tmp, name + '.out'))
        path = os.path.join(tmp, name + '.spec')
        with open(path, 'w') as f:
            json.dump(self.spec, f)
        self.err = open(os.path.join(tmp, name + '.err'), 'w+')
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
                   PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8')
        env.pop('PYTHONPYCACHEPREFIX', None)
        self.hashseed = hashseed
        self.proc = subprocess.Popen(
            [sys.executable, '-W', 'ignore', CHECK, '--worker', path],
            stdout=subprocess.DEVNULL, stderr=self.err, cwd=HERE, env=env,
            start_new_session=True, preexec_fn=fixed_addresses)

    def result(self):
        if os.path.exists(self.spec['out']):
            with open(self.spec['out']) as f:
                return json.load(f)
        return None

    def errors(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-3000:]

    def kill(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
        self.err.close()

    def wait(self, timeout):
        try:
            self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        return True


def one(tmp, name, spec, hashseed, timeout):
    job = Job(tmp, name, spec, hashseed)
    try:
        job.wait(timeout)
        return job.result()
    finally:
        job.kill()


def check(pid, tier, seed, workers=WORKERS, runs=None):
    from .registry import PROPS
    from . import findings
    prop = PROPS[pid]
    t0 = time.time()
    total = runs or (prop.quick if tier == 'quick' else prop.thorough)
    wall = prop.wall[0 if tier == 'quick' else 1]
    tmp = tempfile.mkdtemp(prefix='verif-{}-'.format(pid))
    jobs = []
    try:
        for w in range(workers):
            jobs.append(Job(tmp, 'w{}'.format(w), {
                'pid': pid, 'seed': seed, 'kind': 'slice', 'start': w,
                'stop': total, 'stride': workers, 'wall': wall},
                hashseed=1000 * (seed % 1000) + w))
        limit = time.time() + wall * 2 + 240
        pending = list(jobs)
        found = None
        code = lost = 0
        while pending and found is None and time.time() < limit:
            time.sleep(0.05)
            for job in list(pending):
                if job.proc.poll() is None:
                    continue
                pending.remove(job)
                r = job.result()
                if r is not None and r['violation'] is not None and lost < 3:
                    # what does not reproduce leaves it to the others
                    code = violation(prop, seed, job, r, tmp, workers)
                    if code == 1:
                        found = (job, r)
                        break
                    lost += 1
        results = []
        problems = []
        if found is None:
            for job in jobs:
                r = job.result()
                if r is None:
                    problems.append('worker did not finish: ' + job.errors())
                elif r['error']:
                    problems.append(r['error'])
                else:
                    results.append(r)
        for job in jobs:
            if found is not None and job is not found[0]:
                r = job.result()
                if r is not None:
                    results.append(r)
            job.kill()
        if found is not None:
            results.append(found[1])
        if found is None and problems:
            for p in problems[:1]:
                print('ERROR property={} {}'.format(pid, p))
            code = 2
        evidence(prop, tier, seed, results, time.time() - t0,
                 1 if code == 1 else 0, total, workers)
        if code == 0:
            for _, _, text in findings.load(pid):
                print('KNOWN-FINDING: property={} {}'.format(pid, text))
            n = sum(r['runs'] for r in results)
            print('OK property={} runs={} wall={:.1f}s{}'.format(
                pid, n, time.time() - t0, '' if n == total else
                ' (of {}, stopped by the time limit)'.format(total)))
        return code
    finally:
        for job in jobs:
            job.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def violation(prop, seed, job, res, tmp, workers):
    v = res['violation']
    base = {'pid': prop.pid, 'seed': seed, 'wall': 600}
    hs = job.hashseed

    def attempt(name, choices, prelude=()):
        name = '{}-{}'.format(v['index'], name)
        return one(tmp, name, dict(base, kind='replay', choices=choices,
                                   prelude=list(prelude)), hs, 120)

    choices, prelude, tries = v['choices'], [], 0
    got = attempt('r0', choices)
    if got is not None and got['cls'] == v['cls']:
        if v['cls'] != 'hang':
            m = one(tmp, '{}-m'.format(v['index']), dict(base, kind='minimise', choices=choices,
                                   cls=v['cls'], budget=15), hs, 90)
            if m is not None:
                again = attempt('r1', m['choices'])
                if again is not None and again['cls'] == v['cls']:
                    choices, got, tries = m['choices'], again, m['tries']
    else:
        # state left by earlier runs of the process is part of the failure
        done = res.get('history') or []
        other = None
        for k in (0, 1, 3, 10, 40, 400, len(done)):
            if k > 0:
                prelude = done[-k:]
                got = attempt('h{}'.format(k), choices, prelude)
            if got is not None and got['cls'] is not None:
                if got['cls'] == v['cls']:
                    break
                # it fails, though not in the same way
                again = attempt('o{}'.format(k), choices, prelude)
                if other is None and again is not None and \
                        again['cls'] == got['cls']:
                    other = got, prelude
            if k >= len(done):
                break
        if got is None or got['cls'] != v['cls']:
            if other is None:
                print('ERROR property={} run {} failed ({}: {}) but does not '
                      'reproduce in a fresh process'.format(
                          prop.pid, v['index'], v['cls'], v['msg']))
                return 2
            got, prelude = other
            v = dict(v, cls=got['cls'])
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '{}-{}-{}.json'.format(
        prop.pid, seed, v['index']))
    with open(path, 'w') as f:
        json.dump({
            'property': prop.pid, 'class': v['cls'], 'message': got['msg'],
            'seed': seed, 'index': v['index'], 'hashseed': hs,
            'case': got.get('note'), 'faults': got.get('faults'),
            'trace': got.get('trace'), 'digest': got.get('digest'),
            'choices': choices, 'prelude': prelude,
            'minimised_from': len(v['choices']), 'minimised_to': len(choices),
            'minimisation_runs': tries}, f, indent=1)
    print('seed={} run={} {}: {}'.format(seed, v['index'], v['cls'],
                                         got['msg']))
    if got.get('note'):
        print('case: {}'.format(got['note']))
    print('VIOLATION property={} replay={}'.format(prop.pid, path))
    return 1


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        got = one(tmp, 'r', {
            'pid': rec['property'], 'seed': rec['seed'], 'kind': 'replay',
            'choices': rec['choices'], 'prelude': rec['prelude'],
            'wall': 600}, rec['hashseed'], 300)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if got is None:
        print('ERROR: no answer')
        return 2
    for e in got['trace']:
        print(e)
    print('case: {}'.format(got.get('note')))
    if got['cls'] is None:
        print('no violation' if not got['error'] else got['error'])
        return 2 if got['error'] else 0
    print('{}: {}'.format(got['cls'], got['msg']))
    same = got['cls'] == rec['class'] and got['digest'] == rec['digest']
    print('{} the recorded failure'.format(
        'exactly' if same else 'NOT exactly'))
    print('VIOLATION property={} replay={}'.format(rec['property'], path))
    return 1


def total_of(results, name):
    out = {}
    for r in results:
        for k, n in r[name].items():
            out[k] = out.get(k, 0) + n
    return dict(sorted(out.items()))


def evidence(prop, tier, seed, results, wall, violations, planned, workers):
    runs = sum(r['runs'] for r in results)
    digests = set()
    schedules = set()
    for r in results:
        digests.update(r.get('digests', ()))
        schedules.update(r.get('schedules', ()))
    samples = [s for r in results for s in r['samples']][:6]
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(digests),
        'rule': prop.rule + '; distinct = different event logs',
        'samples': samples or ['no non-trivial run was sampled'],
        'runs_planned': planned,
        'runs_per_hour': int(runs / max(wall, 0.001) * 3600),
        'seeds': 'one derived seed per run: ({}, {}, 0..{})'.format(
            seed, prop.pid, planned - 1),
        'seeds_used': runs,
        'simulated_seconds': round(sum(r['vtime'] for r in results), 2),
        'faults_injected': total_of(results, 'faults'),
        'conditions_reached': total_of(results, 'probes'),
        'work': total_of(results, 'sizes'),
        'distinct_interleavings': len(schedules),
        'interleaving_measure': 'different sequences of scheduling decisions '
                                '(completions, timers, thread switches)',
        'known_findings_met': total_of(results, 'known'),
        'real_code': prop.real,
        'stubs': prop.stub,
        'worker_processes': workers,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop.pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump({'property': prop.pid, 'tier': tier, 'seed': seed,
                   'level': 'exploration', 'coverage': cov,
                   'assumptions': prop.assumptions,
                   'wall_s': round(wall, 2), 'violations': violations},
                  f, indent=1)
    os.rename(path + '.tmp', path)


def selftest(pids, runs, seeds):
    """the same runs in different processes, hash seeds and strides"""
    from .registry import PROPS
    bad = 0
    for pid in pids or sorted(PROPS):
        for seed in seeds:
            tmp = tempfile.mkdtemp(prefix='verif-self-')
            try:
                jobs = []
                for side, (workers, hs) in enumerate(((3, 11), (5, 4242))):
                    for w in range(workers):
                        jobs.append((side, Job(
                            tmp, 's{}-{}'.format(side, w),
                            {'pid': pid, 'seed': seed, 'kind': 'digests',
                             'start': w, 'stop': runs, 'stride': workers,
                             'wall': 600}, hs + w)))
                sides = ({}, {})
                for side, job in jobs:
                    job.wait(900)
                    r = job.result()
                    if r is None:
                        print('ERROR', pid, job.errors())
                        bad += 1
                    else:
                        sides[side].update(r)
                    job.kill()
                diff = [i for i in sides[0] if sides[0][i] != sides[1].get(i)]
                print('{} seed={} runs={} diverging={} {}'.format(
                    pid, seed, len(sides[0]), len(diff), diff[:5]))
                bad += bool(diff)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0
