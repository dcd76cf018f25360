"""Executes a slice of the runs of one property, in its own process."""
import gc
import json
import os
import resource
import signal
import sys
import traceback

from . import boot

CPU_LIMIT = 60.0       # seconds of CPU time one run may burn
MEMORY = 6 << 30


class Guard:
    """CPU-time alarm: a run that burns CPU forever is a hang, reported from
    the signal handler, as its threads may never come back"""

    def __init__(self):
        self.run = None
        self.index = None
        self.report = None
        signal.signal(signal.SIGVTALRM, self._alarm)

    def arm(self, choices, index):
        self.choices = choices
        self.index = index
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1.0)

    def disarm(self):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def _alarm(self, sig, frame):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        where = []
        for f in sys._current_frames().values():
            for fr, line in traceback.walk_stack(f):
                name = fr.f_code.co_filename
                if '/hiku/' in name:
                    where.append('{}:{} {}'.format(
                        '/'.join(name.split('/')[-2:]), line,
                        fr.f_code.co_name))
                    break
        self.report(self.index, list(self.choices.made), 'hang',
                    'no progress after {} s of CPU time in {}'.format(
                        CPU_LIMIT, where))
        os._exit(0)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    sys.setrecursionlimit(3000)


def run_slice(prop, seed, indices, deadline, known, out_path):
    from . import core, seams
    scenario = prop.load()
    guard = Guard()
    stats = {'runs': 0, 'nontrivial': 0, 'faults': {}, 'probes': {},
             'vtime': 0.0, 'sizes': {}, 'samples': [], 'known': {},
             'capped': False, 'violation': None, 'error': None}
    digests = set()
    schedules = set()
    done = []

    def report(index, made, cls, msg, **kw):
        stats['violation'] = dict(index=index, choices=made, cls=cls, msg=msg,
                                  **kw)
        stats['history'] = done
        finish()

    def finish():
        stats['digests'] = sorted(digests)
        stats['schedules'] = sorted(schedules)
        tmp = out_path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(stats, f)
        os.rename(tmp, out_path)

    guard.report = report
    clock = seams.real_perf_counter
    for n, index in enumerate(indices):
        if clock() > deadline:
            stats['capped'] = True
            break
        choices = core.Choices(core.seed_rng(seed, prop.pid, index))
        guard.arm(choices, index)
        out = core.run_once(scenario, choices)
        guard.disarm()
        run = out.run
        stats['runs'] += 1
        for k, v in run.faults.items():
            stats['faults'][k] = stats['faults'].get(k, 0) + v
        for k, v in run.probes.items():
            stats['probes'][k] = stats['probes'].get(k, 0) + v
        for k, v in run.sizes.items():
            stats['sizes'][k] = stats['sizes'].get(k, 0) + v
        stats['vtime'] += run.vtime
        schedules.add(run.schedule.hexdigest())
        if run.nontrivial:
            stats['nontrivial'] += 1
            digests.add(run.digest())
        if run.note is not None and len(stats['samples']) < 2 \
                and n % 7 == 3 and run.nontrivial:
            stats['samples'].append({
                'index': index, 'case': clip(run.note),
                'events': [clip(e) for e in run.events[:12]]})
        if out.error is not None:
            stats['error'] = 'run {}: {}'.format(index, out.error)
            break
        if out.violation is not None:
            v = out.violation
            k = known(v.cls, v.msg)
            if k is not None:
                stats['known'][k] = stats['known'].get(k, 0) + 1
                continue
            report(index, list(run.ch.made), v.cls, v.msg,
                   note=clip(run.note), digest=run.digest())
            return
        done.append(index)
        if n % 256 == 255:
            gc.collect()
    finish()


def clip(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '…'


def main(argv):
    """worker: spec file -> result file"""
    with open(argv[0]) as f:
        spec = json.load(f)
    limits()
    boot.boot()
    from . import registry, seams, findings
    prop = registry.PROPS[spec['pid']]
    known = findings.matcher(prop.pid)
    deadline = seams.real_perf_counter() + spec['wall']
    if spec['kind'] == 'slice':
        indices = range(spec['start'], spec['stop'], spec['stride'])
        run_slice(prop, spec['seed'], indices, deadline, known, spec['out'])
    elif spec['kind'] == 'replay':
        replay(prop, spec, spec['out'])
    elif spec['kind'] == 'minimise':
        minimise(prop, spec, spec['out'])
    elif spec['kind'] == 'digests':
        digests(prop, spec)
    else:
        raise SystemExit('unknown kind')
    sys.stdout.flush()
    os._exit(0)


def replay(prop, spec, out_path):
    """executes one list of choices, after the runs of `prelude`"""
    from . import core
    scenario = prop.load()
    guard = Guard()
    res = {}

    def write(**kw):
        with open(out_path, 'w') as f:
            json.dump(kw, f)

    guard.report = lambda index, made, cls, msg: write(
        cls=cls, msg=msg, digest=None, trace=[])
    for n, index in enumerate(spec.get('prelude', ())):
        choices = core.Choices(core.seed_rng(spec['seed'], prop.pid, index))
        guard.arm(choices, index)
        core.run_once(scenario, choices)
        guard.disarm()
        if n % 256 == 255:
            gc.collect()
    choices = core.Choices(replay=spec['choices'])
    guard.arm(choices, 0)
    out = core.run_once(scenario, choices)
    guard.disarm()
    v = out.violation
    res = {'cls': v.cls if v else None, 'msg': v.msg if v else None,
           'error': str(out.error) if out.error else None,
           'digest': out.run.digest(), 'note': clip(out.run.note),
           'faults': dict(out.run.faults),
           'trace': [clip(e, 600) for e in out.run.events[:400]]}
    write(**res)


def minimise(prop, spec, out_path):
    from . import core, seams
    scenario = prop.load()
    guard = Guard()
    # a candidate that hangs ends the minimisation with what it has so far
    best = {'choices': spec['choices'], 'tries': 0}

    def write():
        with open(out_path, 'w') as f:
            json.dump(best, f)

    def wrapped(run):
        guard.arm(run.ch, 0)
        try:
            scenario(run)
        finally:
            guard.disarm()
    guard.report = lambda *a: write()
    made, tries = core.minimise(wrapped, spec['choices'], spec['cls'],
                                spec['budget'], seams.real_perf_counter)
    best['choices'] = made
    best['tries'] = tries
    write()


def digests(prop, spec):
    from . import core
    scenario = prop.load()
    guard = Guard()
    guard.report = lambda *a: sys.exit('hang')
    out = {}
    for index in range(spec['start'], spec['stop'], spec['stride']):
        choices = core.Choices(core.seed_rng(spec['seed'], prop.pid, index))
        guard.arm(choices, index)
        o = core.run_once(scenario, choices)
        guard.disarm()
        out[index] = '{}/{}/{}'.format(o.run.digest(), len(o.run.ch.made),
                                       o.violation or o.error or '')
    with open(spec['out'], 'w') as f:
        json.dump(out, f)
