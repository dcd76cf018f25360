"""The environment of the system under test: virtual time and the completion
of the waits of loading functions (the outside world: databases, services)."""
from .core import Violation
from .seams import CLOCK, HashSeed, STATE

STEPS = (0.25, 0.0, 0.5, 1.0, 4.0)


class Pause:
    __slots__ = ('label', 'wake', 'active')

    def __init__(self, label, wake):
        self.label = label
        self.wake = wake
        self.active = True


class Env:
    """policy: which of the pending waits complete at one step"""

    def __init__(self, run):
        ch = self.ch = run.ch
        self.run = run
        self.pauses = []
        CLOCK.now = 0.0
        CLOCK.skew = 0.0
        HashSeed.reset(ch.below(256))
        self.policy = ch.pick(('one', 'fifo', 'lifo', 'batch', 'all', 'starve'))
        self.busy = ch.pick((0, 0, 5, 25))
        # now and then everything takes minutes or hours
        self.scale = ch.weighted(((12, 1), (1, 1000)))
        self.jumps = ch.weighted(((9, 0), (1, 30)))
        self.idle_hooks = []
        self.steps = 0
        self.max_steps = 20000
        self.victim = None

    @property
    def now(self):
        return CLOCK.now

    def add(self, label, wake):
        p = Pause(label, wake)
        self.pauses.append(p)
        return p

    def drop(self, pause):
        pause.active = False
        if pause in self.pauses:
            self.pauses.remove(pause)

    def advance(self, dt):
        CLOCK.now += dt
        self.run.vtime += dt

    def count(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation('livelock', 'no end after {} simulation steps'
                            .format(self.max_steps))

    def step(self, max_dt=None):
        """completes some of the pending waits; True if there were any"""
        if not self.pauses:
            return False
        self.count()
        ch = self.ch
        dt = ch.pick(STEPS) * self.scale
        if self.jumps and ch.chance(self.jumps):
            # what tells the date, not what measures time
            CLOCK.skew += ch.pick((-3600.0, 3600.0, -0.5, 86400.0))
            self.run.fault('the wall clock jumps')
        if max_dt is not None:
            dt = min(dt, max_dt)
        pending = self.pauses
        if len(pending) == 1:
            chosen = [pending[0]]
        elif self.policy == 'one':
            chosen = [ch.pick(pending)]
        elif self.policy == 'fifo':
            chosen = [pending[0]]
        elif self.policy == 'lifo':
            chosen = [pending[-1]]
        elif self.policy == 'all':
            chosen = ch.shuffle(pending)
        elif self.policy == 'starve':
            if self.victim is None or self.victim not in pending:
                self.victim = ch.pick(pending)
            rest = [p for p in pending if p is not self.victim]
            chosen = ch.subset(rest)
        else:
            chosen = ch.subset(pending)
        if len(chosen) > 1:
            self.run.probe('batched completions')
        self.advance(dt)
        self.run.decide('complete', dt, [p.label for p in chosen])
        for p in chosen:
            self.drop(p)
            p.wake()
        return True

    def idle(self):
        for hook in self.idle_hooks:
            hook()
