"""Collecting verdicts: obligations, findings, undecided instances, and their evidence."""

import collections
import contextlib
import gc
import json
import multiprocessing
import os
import signal
import time
import traceback

from . import pyai
from .dom import Budget, TooManyPaths, Unsupported, explore
from .pyai import PyExc, S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')
STEPS = 3000000


class Result(object):
    """What one unit of analysis established."""

    def __init__(self):
        self.done = collections.Counter()       # rule -> obligations decided
        self.findings = {}                      # (rule, construct) -> finding
        self.undecided = {}                     # reason -> [count, example]
        self.functions = set()
        self.notes = {}

    def ok(self, rule, n=1):
        self.done[rule] += n

    def bad(self, rule, construct, what, instance):
        """A violation of `rule` at `construct` (file, function, line) for `instance`."""
        self.done[rule] += 1
        if isinstance(construct, tuple):
            key, at = '%s:%s' % (construct[0], construct[1]), '%s:%s (%s)' % (construct[0], construct[2], construct[1])
        else:
            key = at = str(construct)
        f = self.findings.get((rule, key))
        if f is None:
            f = self.findings[(rule, key)] = {'rule': rule, 'construct': key, 'at': at, 'what': what,
                                              'instance': str(instance), 'count': 0}
        elif len(str(instance)) < len(f['instance']):
            f.update(at=at, what=what, instance=str(instance))
        f['count'] += 1

    def skip(self, reason, instance=''):
        u = self.undecided.setdefault(str(reason)[:200], [0, str(instance)[:300]])
        u[0] += 1

    def merge(self, o):
        self.done.update(o.done)
        for k, f in o.findings.items():
            g = self.findings.get(k)
            if g is None:
                self.findings[k] = f
            else:
                n = g['count'] + f['count']
                if len(f['instance']) < len(g['instance']):
                    g.update(f)
                g['count'] = n
        for k, (n, ex) in o.undecided.items():
            u = self.undecided.setdefault(k, [0, ex])
            u[0] += n
        self.functions |= o.functions
        for k, v in o.notes.items():
            if isinstance(v, (set, frozenset)):
                self.notes[k] = self.notes.get(k, set()) | v
            elif isinstance(v, int):
                self.notes[k] = self.notes.get(k, 0) + v
            else:
                self.notes[k] = v


def reset(path=None):
    from . import pysys
    pysys.reset(path)


WALL = 150


def traces(run, res, instance, max_paths=400, steps=STEPS, hang=None, keep=None, partial=False):
    """All traces of `run()`; yields (path, value, exception).

    A construct outside the abstract semantics leaves the instance undecided; the traces without it
    are still given if `partial`.  A trace which does not end within the step bound is handed to `hang`."""
    out, beyond = [], []

    def one(p):
        reset(p)
        S.max_steps = steps
        try:
            return run(), None
        except PyExc as e:
            return None, e
        except Unsupported as e:
            if not partial:
                raise
            return None, e

    try:
        with alarm(WALL):
            for p, (v, e) in explore(one, max_paths):
                if isinstance(e, Unsupported):
                    beyond.append(e)
                    continue
                out.append((p, v, e))
                if keep is not None and not keep(p, v, e):
                    break
    except Slow:
        res.skip('analysis of one instance takes more than %d s' % WALL, instance)
        return []
    except Unsupported as e:
        res.skip('unsupported: %s' % e, instance)
        return []
    except TooManyPaths as e:
        res.skip('more than %d traces' % max_paths, instance)
        return Traces(out if partial else ())
    except Budget as e:
        w = e.args[0] if e.args and isinstance(e.args[0], tuple) else None
        if hang is None:
            res.skip('step bound reached', instance)
        else:
            hang(w)
        return []
    except RecursionError:
        res.skip('host recursion limit', instance)
        return []
    except (TypeError, ValueError, LookupError, AttributeError, AssertionError, ArithmeticError) as e:
        # a gap of the abstract semantics, not a statement about the analysed program
        if os.environ.get('VERIF_DEBUG'):
            raise
        res.skip('unsupported: %s' % gap(e), instance)
        return []
    if beyond:
        res.skip('unsupported: %s' % beyond[0], instance)
    return Traces(out)


class Traces(list):
    """Each trace comes with its own path current, so that what it knows about the values is known to its judge."""

    def __iter__(self):
        for p, v, e in list.__iter__(self):
            S.path = p
            yield p, v, e


class Slow(BaseException):
    pass


@contextlib.contextmanager
def alarm(seconds):
    """Keeps one slow instance from using up the time of the whole check."""
    def handler(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def gap(e):
    f = traceback.extract_tb(e.__traceback__)[-1]
    return '%s in %s:%s (%s)' % (type(e).__name__, os.path.basename(f.filename), f.lineno, str(e)[:80])


_job = {}


def _call(i):
    fn, tasks = _job['fn'], _job['tasks']
    r = Result()
    try:
        fn(r, tasks[i])
    except Unsupported as e:
        r.skip('unsupported: %s' % e, tasks[i])
    except TooManyPaths as e:
        r.skip('traces: %s' % e, tasks[i])
    except Budget as e:
        r.skip('step bound reached at %s' % (e.args,), tasks[i])
    except RecursionError:
        r.skip('host recursion limit', tasks[i])
    except (TypeError, ValueError, LookupError, AttributeError, AssertionError, ArithmeticError) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        r.skip('unsupported: %s' % gap(e), tasks[i])
    r.functions |= S.functions
    return r


def workers():
    return max(1, min(8, int(os.environ.get('VERIF_JOBS', 0)) or os.cpu_count() or 1))


def run_tasks(ctx, fn, tasks, label):
    """fn(result, task) over all tasks in worker processes; stops taking new ones at the deadline."""
    tasks = list(tasks)
    _job['fn'], _job['tasks'] = fn, tasks
    n = 0
    gc.collect()
    gc.freeze()
    pool = multiprocessing.get_context('fork').Pool(workers(), gc.set_threshold, (100000, 20, 20))
    try:
        def feed():
            for i in range(len(tasks)):
                if ctx.expired():
                    return
                yield i
        window, it, pend = workers() * 3, feed(), []
        while True:
            while len(pend) < window:
                i = next(it, None)
                if i is None:
                    break
                pend.append(pool.apply_async(_call, (i,)))
            if not pend:
                break
            ready = [x for x in pend if x.ready()]
            if not ready:
                pend[0].wait(0.02)
                if time.time() > ctx.hard:
                    raise RuntimeError('time limit')
            for x in ready:
                pend.remove(x)
                ctx.result.merge(x.get())
                n += 1
    finally:
        pool.terminate()
        pool.join()
    ctx.units[label] = '%d of %d' % (n, len(tasks))
    return n == len(tasks)


class Context(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.result = Result()
        self.units = collections.OrderedDict()
        self.floors = {}
        self.anchors = []
        self.assumptions = []
        self.explanation = ''
        self.rules = {}
        self.deadline = self.t0 + (420 if tier == 'quick' else 800)
        self.hard = self.t0 + 860

    @property
    def quick(self):
        return self.tier == 'quick'

    def expired(self):
        """No new units: the time is up, or a violation is established and a minute has passed."""
        now = time.time()
        if now > self.deadline:
            return True
        if now < self.t0 + 60 or not self.result.findings:
            return False
        known = known_keys(self.prop)
        return any(k not in known for k in self.result.findings)

    def floor(self, rule, n):
        """The rule must have decided at least n obligations, otherwise the run is void."""
        self.floors[rule] = n


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def known_keys(prop):
    return {(k['rule'], k['construct']): k for k in load_known() if k['property'] == prop and 'rule' in k}


def finish(ctx):
    r = ctx.result
    known = known_keys(ctx.prop)
    viol = []
    lines = []
    for key in sorted(r.findings):
        f = r.findings[key]
        if key in known:
            lines.append('KNOWN-FINDING: property=%s %s' % (ctx.prop, known[key]['what']))
        else:
            viol.append(f)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.report.txt' % ctx.prop)
    with open(replay, 'w') as out:
        out.write('property %s, tier %s\nre-run: cd %s && VERIF_TIER=%s /opt/venv/bin/python -m sa.run %s\n\n' % (
            ctx.prop, ctx.tier, VERIF, ctx.tier, ctx.prop))
        for f in viol:
            out.write('%s\n  rule: %s\n  %s\n  instance: %s\n  occurrences: %d\n\n' % (
                f['at'], ctx.rules.get(f['rule'], f['rule']), f['what'], f['instance'], f['count']))
    broken = ['%s: %d obligations decided, at least %d expected' % (k, r.done.get(k, 0), n)
              for k, n in sorted(ctx.floors.items()) if r.done.get(k, 0) < n] + list(ctx.anchors)
    ev = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'other',
        'coverage': {
            'explanation': ctx.explanation,
            'rules': ctx.rules,
            'obligations_decided': dict(sorted(r.done.items())),
            'units_analysed': dict(ctx.units),
            'functions_analysed': sorted('%s:%s' % f[:2] if isinstance(f, tuple) else str(f) for f in r.functions),
            'undecided': [{'reason': k, 'count': n, 'example': ex} for k, (n, ex) in sorted(r.undecided.items())],
            'notes': {k: (sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in r.notes.items()},
        },
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(viol),
    }
    ev['coverage']['findings'] = [dict(f, what=f['what'][:2000], instance=f['instance'][:2000]) for f in viol]
    ev['coverage']['known_findings'] = lines
    with open(os.path.join(evdir, '%s.json' % ctx.prop), 'w') as out:
        json.dump(ev, out, indent=1, sort_keys=True, default=str)
    for l in lines:
        print(l)
    print('%s: %d obligations decided over %d functions, %d undecided, %.1f s' % (
        ctx.prop, sum(r.done.values()), len(r.functions), sum(u[0] for u in r.undecided.values()),
        time.time() - ctx.t0))
    for f in viol:
        print('%s: %s: %s [%s; %d occurrences]' % (f['at'], f['rule'], f['what'][:400], f['instance'][:400], f['count']))
    if viol:
        print('VIOLATION property=%s replay=%s' % (ctx.prop, replay))
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN property=%s %s' % (ctx.prop, b))
        for k, (n, ex) in sorted(r.undecided.items(), key=lambda x: -x[1][0])[:5]:
            print('  undecided %d: %s (%s)' % (n, k, ex))
        return 2
    return 0
