"""Scenarios, single runs in forked children, fault plans, minimisation."""
import gc
import io
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

from . import boot, seam
from .simfs import SimCrash
from .world import Deadlock, Violation, World

REAL_TIME = time.monotonic
CPU_LIMIT = int(os.environ.get('VSIM_CPU_LIMIT', '20'))
WALL_LIMIT = 400


class Outcome(object):
    """What an operation of the code under test did, as its caller sees it."""

    def __init__(self, kind, value=None, exc=None):
        self.kind = kind          # 'ok', 'exc', 'crash'
        self.value = value
        self.exc = exc

    ok = property(lambda s: s.kind == 'ok')
    failed = property(lambda s: s.kind == 'exc')
    crashed = property(lambda s: s.kind == 'crash')

    def __repr__(self):
        if self.exc is not None:
            return '%s(%s: %s)' % (self.kind, type(self.exc).__name__, str(self.exc)[:200])
        return self.kind


def attempt(w, label, fn, trace=False):
    """Run one operation of the code under test in a step; says what its caller saw."""
    try:
        with w.step(label, trace):
            v = fn()
        out = Outcome('crash') if w.crash is not None else Outcome('ok', v)
    except SimCrash:
        out = Outcome('crash')
    except (Violation, Deadlock):
        raise
    except BaseException as e:
        out = Outcome('crash') if w.crash is not None else Outcome('exc', exc=e)
    w.log('outcome %s %s' % (label, out.kind if out.exc is None else type(out.exc).__name__))
    return out


def must(w, label, fn, what=None, trace=False):
    """An operation that meets no fault, so has to work."""
    o = attempt(w, label, fn, trace)
    if not o.ok:
        raise Violation('fails-without-fault', '%s: %r%s' % (what or label, o, where(o.exc)))
    return o.value


def where(e):
    if e is None or e.__traceback__ is None:
        return ''
    fr = traceback.extract_tb(e.__traceback__)
    fr = [f for f in fr if '/metatab/' in f.filename] or fr
    return ' at %s:%s' % (os.path.basename(fr[-1].filename), fr[-1].lineno)


class Scenario(object):
    id = None
    units = {'quick': 200, 'thorough': 4000}
    real = ['metatab package (all modules, unmodified)', 'rowgenerators', 'metatabdecl', 'csv', 'io buffering and codecs']
    stub = ['kernel file system (simulated disk)', 'clock', 'randomness']
    rule = ''
    assumptions = []
    cls_equal = True

    def gen(self, rng, tier):
        raise NotImplementedError

    def variants(self, rng, case, prof, tier):
        """Plans to run, given what the dry run did.  prof: result of the dry run."""
        return []

    def run(self, w, case):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def dry_plan(self, case):
        return {'faults': []}


# -- one run ------------------------------------------------------------------------------------

def execute(sc, case, plan, keep_log=False):
    """In this process: one simulated run.  Returns a JSON-able result."""
    w = World(seed=case.get('seed', 0), faults=[dict(f) for f in plan.get('faults', [])],
              sched=plan.get('sched'), keep_log=keep_log)
    res = {'status': 'ok'}
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with w:
            boot.fresh_cache()
            try:
                sc.run(w, case)
            except Violation as e:
                res = {'status': 'violation', 'cls': e.cls, 'msg': e.msg}
            except Deadlock as e:
                res = {'status': 'violation', 'cls': 'deadlock', 'msg': str(e)}
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
                if isinstance(e, (AttributeError, TypeError, LookupError, ValueError, AssertionError)) and \
                        not any(f.filename.startswith(seam.REPO + '/metatab/') for f in tb):
                    # the code under test returned something of a shape that it never has
                    res = {'status': 'violation', 'cls': 'shape', 'msg': 'what came back is not usable: %r' % e,
                           'trace': text}
                elif any(f.filename.startswith(seam.REPO + '/metatab/') for f in tb):
                    res = {'status': 'violation', 'cls': 'exception',
                           'msg': '%s: %s%s' % (type(e).__name__, str(e)[:300], where(e)), 'trace': text}
                else:
                    res = {'status': 'error', 'cls': 'harness', 'msg': repr(e)[:500], 'trace': text}
    finally:
        sys.stdout, sys.stderr = out, err
    res.update(hash=w.log_hash.hexdigest(), now=w.now, stats=dict(w.stats), probes=dict(w.probes), nlog=w.nlog,
               fired=w.fired, profile=w.profile, lines=dict(w.step_lines), switches=w.switches, npoint=w.npoint,
               nfault=len(w.fired))
    if keep_log:
        res['log'] = w.log_lines
    return res


def run_forked(sc, case, plan, keep_log=False):
    """The same in a forked child, so that no run can influence another."""
    r, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 2))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            sys.setrecursionlimit(2000)
            res = execute(sc, case, plan, keep_log)
            data = json.dumps(res).encode('utf8', 'surrogatepass')
        except BaseException:
            data = json.dumps({'status': 'error', 'cls': 'harness', 'msg': traceback.format_exc()[-3000:]}).encode()
        try:
            mv = memoryview(data)
            while mv:
                n = os.write(wr, mv)
                mv = mv[n:]
        except BaseException:
            code = 3
        os._exit(code)
    os.close(wr)
    chunks = []
    deadline = REAL_TIME() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - REAL_TIME()
        ready, _, _ = select.select([r], [], [], max(0, left))
        if not ready:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b''.join(chunks)
    if timed_out:
        return {'status': 'error', 'cls': 'harness', 'msg': 'run exceeded %d s of real time' % WALL_LIMIT}
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return {'status': 'violation', 'cls': 'hang', 'msg': 'an operation never ends (%d s of CPU used)' % CPU_LIMIT,
                    'hash': 'hang', 'stats': {}, 'probes': {}, 'fired': [], 'now': 0, 'nfault': 0, 'switches': []}
        return {'status': 'error', 'cls': 'harness', 'msg': 'run ended by signal %d' % sig}
    if not data:
        return {'status': 'error', 'cls': 'harness', 'msg': 'run ended with no result, status %r' % st}
    return json.loads(data.decode('utf8', 'surrogatepass'))


def unit_rng(seed, prop, unit, what=''):
    return random.Random('%s/%s/%s/%s' % (seed, prop, unit, what))


def run_unit(sc, seed, tier, unit, sink):
    """One generated case with its dry run and its fault plans.  sink(result, plan) -> stop?"""
    case = sc.gen(unit_rng(seed, sc.id, unit), tier)
    case.setdefault('seed', unit)
    dry_plan = sc.dry_plan(case)
    dry = run_forked(sc, case, dry_plan)
    if sink(dry, case, dry_plan, 0):
        return
    if dry['status'] != 'ok':
        return
    for i, plan in enumerate(sc.variants(unit_rng(seed, sc.id, unit, 'v'), case, dry, tier), 1):
        r = run_forked(sc, case, plan)
        if sink(r, case, plan, i) or r['status'] != 'ok':
            return


# -- fault plans ----------------------------------------------------------------------------------

ERRS = {
    'open_w': ['EACCES', 'ENOSPC', 'EMFILE', 'EIO', 'EROFS', 'EDQUOT', 'ESTALE', 'ENOMEM'],
    'open_r': ['EACCES', 'EMFILE', 'EIO', 'ENOENT', 'EINTR', 'ESTALE', 'ETIMEDOUT', 'ENXIO', 'ELOOP'],
    'write': ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG', 'ESTALE', 'ETIMEDOUT'],
    'read': ['EIO', 'ESTALE', 'ETIMEDOUT', 'ENOMEM', 'EAGAIN', 'ECONNRESET', 'ENODEV'],
    'fsync': ['EIO', 'ENOSPC', 'EDQUOT', 'ETIMEDOUT'],
    'rename': ['EIO', 'EACCES', 'ENOSPC', 'EXDEV', 'EBUSY', 'EPERM', 'EROFS'],
    'link': ['EIO', 'ENOSPC', 'EMLINK', 'EACCES', 'EXDEV'],
    'close': ['EIO', 'EDQUOT', 'ENOSPC'],
    'unlink': ['EIO', 'EACCES', 'EBUSY'],
    'stat': ['EIO', 'EACCES', 'ESTALE', 'ETIMEDOUT'],
    'truncate': ['EIO'],
    'chmod': ['EPERM', 'EIO'],
    'listdir': ['EIO', 'EACCES'],
    'mkdir': ['EACCES', 'ENOSPC'],
    'connect': ['ECONNREFUSED', 'ENETUNREACH', 'netdns', 'nettimeout'],
    'send': ['ECONNRESET', 'EPIPE', 'netstatus', 'netstatus'],
    'recv': ['ECONNRESET', 'neteof', 'nettimeout', 'netslow', 'neteof'],
}


def save_errs(op):
    """Errors for the operations of a save.  A directory that may not be opened for reading cannot be synced by
    anybody, so that one is left out: durability assumes that the directory can be."""
    l = ERRS.get(op, ['EIO'])
    return [e for e in l if not (op == 'open_r' and e == 'EACCES')]


def net_fault(rng, f):
    if f['kind'] == 'netstatus':
        f['status'] = rng.choice([500, 503, 404, 403, 429, 502])
    return f


def fault_at(rng, step, n, op, kind):
    f = {'step': step, 'n': n, 'kind': kind}
    if op == 'write' and kind != 'short':
        f['frac'] = rng.choice([0, 0, .3, .7, 1])
    if kind == 'short':
        f['frac'] = rng.choice([.1, .5, .9])
    if kind == 'power':
        f['names'] = rng.choice([0, 1, 1, rng.random()])
        f['data'] = rng.choice([0, 0, 1, rng.random()])
        f['torn'] = rng.choice([0, .5, rng.random()])
    if kind.startswith('E') and op in ERRS:
        f['op'] = op
    if kind in ('kbd', 'mem'):
        f['ops'] = [op]     # not at whatever else is there if another fault has moved things
    return net_fault(rng, f)


def legal_fault(rng, step, n):
    """Things that slow an operation down or move the clock, but fail nothing."""
    if rng.random() < .5:
        return {'step': step, 'n': n, 'kind': 'slow', 'delta': rng.choice([1, 60, 3600])}
    return {'step': step, 'n': n, 'kind': 'clock', 'delta': rng.choice([-86400 * 30, -3600, -1, 3600, 86400 * 400])}


def points(prof, steps=None, ops=None, not_ops=()):
    """All (step, n, op, path) that a dry run passed."""
    out = []
    for step, l in prof['profile'].items():
        if steps is not None and not any(step == s or (s.endswith('*') and step.startswith(s[:-1])) for s in steps):
            continue
        for n, (op, path) in enumerate(l):
            if ops is not None and op not in ops or op in not_ops:
                continue
            out.append((step, n, op, path))
    return out


def sample(rng, items, k):
    items = list(items)
    if len(items) <= k:
        return items
    return rng.sample(items, k)


# -- minimisation -----------------------------------------------------------------------------------

def same(r, cls):
    return r['status'] == 'violation' and r['cls'] == cls


def minimise(sc, case, plan, res, budget=250):
    cls = res['cls']
    left = [budget]

    def fails(c, p):
        if left[0] <= 0:
            return None
        left[0] -= 1
        r = run_forked(sc, c, p)
        return r if same(r, cls) else None

    if cls == 'hang':
        return case, plan, res
    # a random schedule becomes the list of switches it made
    if plan.get('sched') and plan['sched'].get('mode') != 'explicit':
        p = dict(plan, sched={'mode': 'explicit', 'gran': plan['sched'].get('gran', 'line'), 'switches': res['switches']})
        r = fails(case, p)
        if r:
            plan, res = p, r

    def shrink_list(get, put):
        nonlocal plan, res
        n = 2
        items = get(plan)
        while items and left[0] > 0:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size:]
                p = put(plan, cand)
                r = fails(case, p)
                if r:
                    plan, res, items = p, r, cand
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)

    shrink_list(lambda p: p.get('faults', []), lambda p, l: dict(p, faults=l))
    if plan.get('sched', {}).get('switches'):
        shrink_list(lambda p: p['sched']['switches'], lambda p, l: dict(p, sched=dict(p['sched'], switches=l)))
    progress = True
    while progress and left[0] > 0:
        progress = False
        for c in sc.shrink(case):
            c.setdefault('seed', case.get('seed', 0))
            r = fails(c, plan)
            p = plan
            if not r and left[0] > 0 and (plan.get('faults') or plan.get('sched')):
                dry = run_forked(sc, c, sc.dry_plan(c))
                left[0] -= 1
                if dry['status'] == 'ok':
                    for p in move_plan(plan, dry, res):
                        r = fails(c, p)
                        if r:
                            break
            if r:
                case, plan, res = c, p, r
                progress = True
                break
    if plan.get('sched', {}).get('switches'):
        shrink_list(lambda p: p['sched']['switches'], lambda p, l: dict(p, sched=dict(p['sched'], switches=l)))
    return case, plan, res


def move_plan(plan, dry, res):
    """The same faults at nearby places, for a smaller case whose operations are numbered differently."""
    fs = plan.get('faults', [])
    if len(fs) != 1 or plan.get('sched'):
        return
    f = fs[0]
    if 'line' in f:
        n = dry.get('lines', {}).get(f['step'], 0)
        for k in range(1, 9):
            yield dict(plan, faults=[dict(f, line=n * k // 9)])
        return
    old = res.get('profile', {}).get(f['step'], [])
    new = dry['profile'].get(f['step'], [])
    if f['n'] < len(old):
        op = old[f['n']][0]
        cands = [i for i, (o, p) in enumerate(new) if o == op]
        for i in cands[:4] + cands[-4:]:
            yield dict(plan, faults=[dict(f, n=i)])


def warm():
    boot.boot()
    gc.collect()
    gc.freeze()


def schedule(rng, npoint, ps=(.003, .02, .1, .4)):
    """A random schedule for a run that has npoint places (lines and I/O operations) to switch at."""
    gran = rng.choice(['line', 'line', 'op']) if npoint < 60000 else 'line'
    n = npoint * (6 if gran == 'op' else 1) + 1
    return {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': min(rng.choice(ps), max(.0002, 4000. / n)), 'gran': gran}
