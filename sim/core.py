"""Choice streams, runs, violations, minimisation.

One run is a pure function of its list of choices and of the code under test.
A choice is a small integer; 0 is always the simplest alternative, so that a
shorter or lower list is a simpler run.
"""
import hashlib
import random
import re
import traceback
from collections import Counter


class Violation(Exception):
    """The property is broken. `cls` names the kind of violation (stable
    between runs, used to steer minimisation), `msg` explains this one."""

    def __init__(self, cls, msg=''):
        super().__init__('{}: {}'.format(cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself failed: never reported as a violation."""


class Hang(BaseException):
    """Raised by the CPU-time alarm inside of a run that makes no progress."""


class Choices:

    def __init__(self, rng=None, replay=None):
        self._rng = rng
        self._replay = replay
        self.made = []

    def below(self, n):
        if n <= 1:
            return 0
        if self._replay is not None:
            i = len(self.made)
            v = self._replay[i] if i < len(self._replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self._rng.randrange(n)
        self.made.append(v)
        return v

    def between(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, percent):
        if percent <= 0:
            return False
        if percent >= 100:
            return True
        return self.below(100) >= 100 - percent

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first one is the simplest"""
        total = sum(w for w, _ in pairs)
        v = self.below(total)
        for w, value in pairs:
            if v < w:
                return value
            v -= w
        raise AssertionError

    def subset(self, seq, least=1):
        """non-empty subset; 0s give just the first element"""
        seq = list(seq)
        if len(seq) <= least:
            return seq
        k = self.between(least, len(seq))
        out = []
        for _ in range(k):
            out.append(seq.pop(self.below(len(seq))))
        return out

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out


class Run:
    """Context of one simulated run: choices, event log, statistics"""

    def __init__(self, choices):
        self.ch = choices
        self.events = []
        self.faults = Counter()
        self.probes = Counter()
        self.vtime = 0.0
        self.schedule = hashlib.blake2b(digest_size=8)
        self.sizes = Counter()
        self.note = None
        self.nontrivial = False
        self.keep = []   # references kept until the run ends (stable ids)

    def log(self, *event):
        self.events.append(event)

    def decide(self, *what):
        """a scheduling decision, part of the measure of interleavings"""
        self.schedule.update(repr(what).encode())
        self.events.append(('sched',) + what)

    def fault(self, kind):
        self.faults[kind] += 1

    def probe(self, name):
        self.probes[name] += 1

    def digest(self):
        h = hashlib.blake2b(digest_size=8)
        for e in self.events:
            h.update(repr(e).encode())
        return h.hexdigest()


def canon(v):
    """type-preserving, order-independent text of a value"""
    if isinstance(v, dict):
        items = sorted((canon(k), canon(x)) for k, x in v.items())
        return '{' + ','.join(k + ':' + x for k, x in items) + '}'
    if isinstance(v, list):
        return '[' + ','.join(canon(x) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ','.join(canon(x) for x in v) + ',)'
    if isinstance(v, (set, frozenset)):
        return 'set(' + ','.join(sorted(canon(x) for x in v)) + ')'
    return repr(v)


def in_repo(filename):
    return '/hiku/' in filename.replace('\\', '/') and \
        not filename.startswith('/verif/')


def has_repo_frame(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if in_repo(frame.f_code.co_filename) or \
                    frame.f_code.co_filename == '<expr>':
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def short_tb(exc):
    lines = []
    for frame, lineno in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        name = '/'.join(name.split('/')[-2:])
        lines.append('{}:{} {}'.format(name, lineno, frame.f_code.co_name))
    return '{}: {} [{}]'.format(type(exc).__name__, exc,
                                ' <- '.join(reversed(lines[-6:])))


def unexpected(exc, what):
    """An exception nothing in the scenario explains"""
    if isinstance(exc, (Violation, HarnessError)):
        return exc
    if has_repo_frame(exc):
        return Violation('unexpected-error:' + type(exc).__name__,
                         '{}: {}'.format(what, short_tb(exc)))
    if odd_data(exc):
        return Violation('unexpected-data', 'what was returned can not be '
                         'handled: ' + short_tb(exc))
    return HarnessError('{}: {}'.format(what, short_tb(exc)))


BUILTIN = re.compile(r"'(NoneType|list|tuple|dict|str|bytes|int|float|bool|set"
                     r"|generator|coroutine|Nothing\w*)' object")


def odd_data(exc):
    """A scenario knows the data it asked for: these errors mean that it got
    something else"""
    if isinstance(exc, (TypeError, AttributeError)):
        return BUILTIN.search(str(exc)) is not None
    return isinstance(exc, (KeyError, IndexError, ValueError))


def seed_rng(seed, prop, index):
    return random.Random('{}:{}:{}'.format(seed, prop, index))


class Outcome:
    __slots__ = ('run', 'violation', 'error')

    def __init__(self, run, violation=None, error=None):
        self.run = run
        self.violation = violation
        self.error = error


def run_once(scenario, choices):
    run = Run(choices)
    try:
        scenario(run)
    except Violation as v:
        run.log('VIOLATION', v.cls)
        return Outcome(run, violation=v)
    except Hang as h:
        return Outcome(run, violation=Violation(
            'hang', 'no progress: the run burns CPU time forever: ' +
            short_tb(h)))
    except HarnessError as e:
        return Outcome(run, error=e)
    except Exception as e:
        exc = unexpected(e, 'scenario')
        if isinstance(exc, Violation):
            run.log('VIOLATION', exc.cls)
            return Outcome(run, violation=exc)
        err = HarnessError(''.join(traceback.format_exception(e))[-3000:])
        return Outcome(run, error=err)
    return Outcome(run)


def minimise(scenario, made, cls, budget, clock):
    """Shrinks the list of choices while the same class of violation stays"""
    tries = [0]
    deadline = clock() + budget

    def attempt(cand):
        if clock() > deadline:
            return None
        tries[0] += 1
        out = run_once(scenario, Choices(replay=cand))
        if out.violation is not None and out.violation.cls == cls:
            made = out.run.ch.made
            # trailing zeros are implied
            while made and made[-1] == 0:
                made = made[:-1]
            return made
        return None

    best = list(made)
    while best and best[-1] == 0:
        best.pop()
    first = attempt(best)
    if first is None:
        return best, tries[0]
    best = first

    def better(a, b):
        return (len(a), sum(1 for x in a if x), sum(a)) < \
            (len(b), sum(1 for x in b if x), sum(b))

    improved = True
    while improved and clock() < deadline:
        improved = False
        # delete blocks, zero blocks
        for mode in ('del', 'zero'):
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    if mode == 'del':
                        cand = best[:i] + best[i + size:]
                    else:
                        block = best[i:i + size]
                        if not any(block):
                            i += size
                            continue
                        cand = best[:i] + [0] * len(block) + best[i + size:]
                    got = attempt(cand)
                    if got is not None and better(got, best):
                        best = got
                        improved = True
                    else:
                        i += size
                    if clock() > deadline:
                        return best, tries[0]
                size //= 2
        # lower single values
        i = 0
        while i < len(best):
            v = best[i]
            for nv in sorted({v // 2, v - 1}):
                if 0 <= nv < v:
                    got = attempt(best[:i] + [nv] + best[i + 1:])
                    if got is not None and better(got, best):
                        best = got
                        improved = True
                        break
            i += 1
            if clock() > deadline:
                return best, tries[0]
    return best, tries[0]
