"""One simulated run: clock, disk, network, random source, tasks, faults, event log."""
import _thread
import collections
import contextlib
import errno
import hashlib
import math
import os
import random
import sys

from . import seam
from .simfs import SIMROOT, SimCrash, SimFS, oserr

EPOCH = 1500000000.0


class Violation(Exception):
    """A property does not hold in this run.  ``cls`` names the kind of violation, for minimisation."""

    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Task(object):
    def __init__(self, tid, fn, pid, name):
        self.tid = tid
        self.fn = fn
        self.pid = pid
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = 'ready'
        self.cond = None
        self.wake = None
        self.exc = None
        self.result = None


_repo_code = {}


def is_repo_code(code):
    r = _repo_code.get(code)
    if r is None:
        f = code.co_filename
        r = f.startswith(seam.REPO + '/metatab/') and '/metatab/test/' not in f
        _repo_code[code] = r
    return r


class World(object):

    def __init__(self, seed=0, faults=(), sched=None, keep_log=False, latency=0.0001):
        self.seed = seed
        self.now = 0.0
        self.skew = 0.0
        self.latency = latency
        self.nrand = 0
        self.main_pid = 0
        self.fs = SimFS(lambda: self.wall())
        self.fs.remap = self._remap
        self.fs.hook = self._fs_hook
        self.fs.pid = self.pid
        self.net = None
        # faults: list of dicts with 'step', 'n' (operation index in the step) or 'line' (traced line index)
        self.faults = {}
        self.line_faults = {}
        for f in faults:
            if 'line' in f:
                self.line_faults[(f['step'], f['line'])] = f
            else:
                self.faults[(f['step'], f['n'])] = f
        self.fired = []
        self.fired_by = []     # the task that each fault hit
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.step_label = None
        self.step_ops = collections.Counter()
        self.step_lines = collections.Counter()
        self.profile = collections.OrderedDict()   # step -> [op, ...]
        self.quiet = 1
        self.crash = None
        self.log_hash = hashlib.sha1()
        self.log_lines = [] if keep_log else None
        self.nlog = 0
        # tasks
        self.tasks = []
        self.cur = None
        self.main_lock = _thread.allocate_lock()
        self.sched = sched or {'mode': 'explicit', 'switches': []}
        self.sched_rng = random.Random(self.sched.get('seed', 0))
        self.explicit = {i: t for i, t in self.sched.get('switches', [])}
        self.npoint = 0
        self.next_switch = 0
        self.switches = []
        self.deadlock = None
        self.gran = self.sched.get('gran', 'line')
        self.trace_lines = False
        self.clock_faults = {}
        self.steps_limit = 3000000

    # -- activation ----------------------------------------------------------------------------

    def __enter__(self):
        seam.active = self
        random.seed(self.seed)
        return self

    def __exit__(self, *a):
        seam.active = None
        return False

    @contextlib.contextmanager
    def step(self, label, trace=False):
        """The operations of the code under test happen inside a step; faults are addressed by step."""
        self.log('step %s' % label)
        old = self.step_label, self.quiet, self.trace_lines
        self.step_label, self.quiet = label, 0
        self.profile.setdefault(label, [])
        trace = trace and (self.line_faults or not self.faults)   # counting lines is for dry runs
        if trace:
            self.trace_lines = True
            sys.settrace(self._trace_main)
        try:
            yield
        finally:
            if trace:
                sys.settrace(None)
            self.step_label, self.quiet, self.trace_lines = old

    def moment(self, label):
        """A moment between operations, at which the machine may lose power.  True if it did."""
        try:
            with self.step(label):
                self.io_point('idle', '-')
        except SimCrash:
            pass
        if self.crash is not None:
            self.reboot()
            return True
        return False

    def log(self, s):
        self.nlog += 1
        self.log_hash.update(s.encode('utf8', 'surrogatepass') + b'\n')
        if self.log_lines is not None:
            self.log_lines.append(s)

    def wall(self):
        return EPOCH + self.now + self.skew

    def random_bytes(self, n):
        out = b''
        while len(out) < n:
            self.nrand += 1
            out += hashlib.sha256(('%s/%s' % (self.seed, self.nrand)).encode()).digest()
        return out[:n]

    def pid(self):
        t = self._me()
        return t.pid if t is not None else self.main_pid

    def task_id(self):
        t = self._me()
        return t.tid if t is not None else -1

    def _me(self):
        return self.cur

    def _remap(self, p):
        if p == SIMROOT or p.startswith(SIMROOT + '/'):
            return p
        for d in seam.OVERLAY:
            if p == d or p.startswith(d + '/'):
                m = SIMROOT + '/.ov' + p
                self._load_overlay(p, m)
                return m
        return p

    _ov = None

    def _load_overlay(self, p, m):
        if self._ov is None:
            self._ov = set()
        if p in self._ov:
            return
        self._ov.add(p)
        try:
            st = seam.REAL['os.stat'](p)
        except OSError:
            return
        import stat
        if stat.S_ISREG(st.st_mode):
            with seam.REAL['open'](p, 'rb') as f:
                self.fs.put(m, f.read())
        else:
            self.fs.put_dir(m)

    # -- faults --------------------------------------------------------------------------------

    def _short(self, path):
        for d in seam.OVERLAY:
            path = path.replace(SIMROOT + '/.ov' + d, '<ov>')
        return path

    def _fs_hook(self, op, path, **kw):
        if self.quiet:
            return None
        return self.io_point(op, self._short(path), **kw)

    def io_point(self, op, path, **kw):
        self.now += self.latency
        n = self.step_ops[self.step_label]
        self.step_ops[self.step_label] += 1
        label = self.step_label
        self.profile[label].append([op, path])
        if sum(self.step_ops.values()) > self.steps_limit:
            raise Violation('hang', 'more than %d I/O operations' % self.steps_limit)
        self.log('%s %s#%d %s %s %s' % (self.pid(), label, n, op, path, kw.get('size', '')))
        if self.watch is not None:
            q, self.quiet = self.quiet, 1
            try:
                self.watch(op, path)
            finally:
                self.quiet = q
        f = self.faults.get((label, n))
        self.point('io')
        if f is None or f.get('done'):
            return None
        return self._apply(f, op, path, kw)

    def fire(self, f, op=''):
        f['done'] = True
        self.fired.append('%s@%s' % (f['kind'], op))
        self.fired_by.append(self.task_id())
        self.stats[f['kind'] + '@' + op] += 1
        self.log('FAULT %s' % f['kind'])

    def _apply(self, f, op, path, kw):
        k = f['kind']
        if 'ops' in f and op not in f['ops']:
            return None
        if k.startswith('E') and hasattr(errno, k):
            if op == 'close' and kw.get('idle'):
                return None         # nothing was written that could still fail
            if f.get('op') not in (None, op) and not op.startswith('net') and op not in ('recv', 'send', 'connect', 'row'):
                k = 'EIO'           # another fault has moved things, and not every operation can fail in every way
            self.fire(f, op)
            exc = oserr(getattr(errno, k), path)
            if op == 'write':
                return int(f.get('frac', 0) * kw.get('size', 0)), exc
            if op.startswith('net') or op in ('recv', 'send', 'connect'):
                return exc
            raise exc
        if k == 'short':
            if op == 'write' and kw.get('size', 0) > 1:
                self.fire(f, op)
                return max(1, int(f.get('frac', .5) * kw['size'])), None
            return None
        if k in ('kill', 'power'):
            self.fire(f, op)
            self.crash = f
            if k == 'power':
                self.fs.dead.update(set(t.pid for t in self.tasks) | {self.main_pid})
            else:
                self.fs.dead.add(self.pid())
            if op == 'write':
                return int(f.get('frac', 0) * kw.get('size', 0)), SimCrash()
            raise SimCrash()
        if k == 'kbd':
            self.fire(f, op)
            raise KeyboardInterrupt()
        if k == 'mem':
            self.fire(f, op)
            raise MemoryError()
        if k == 'vanish':
            # another process removes the file just before this operation
            self.fire(f, op)
            q, self.quiet = self.quiet, 1
            try:
                self.fs.unlink(f.get('path', path))
            except OSError:
                pass
            finally:
                self.quiet = q
            return None
        if k == 'clock':
            self.fire(f, op)
            self.skew += f.get('delta', 0)
            return None
        if k == 'slow':
            self.fire(f, op)
            self.now += f.get('delta', 1)
            return None
        if k == 'call':
            # a scenario-defined action by somebody else at this very point
            self.fire(f, op)
            q, self.quiet = self.quiet, 1
            try:
                self.on_call(f, op, path)
            finally:
                self.quiet = q
            return None
        if k.startswith(('net', 'src:')):
            self.fire(f, op)
            return f
        raise RuntimeError('unknown fault %r' % (f,))

    on_call = None
    watch = None

    def reboot(self):
        """After a simulated kill or power loss: only durable state survives a power loss, kernel state a kill."""
        f = self.crash or {'kind': 'kill'}
        lost = 0
        if f['kind'] == 'power':
            lost = self.fs.power_loss(f.get('names', 1.0), f.get('data', 1.0), f.get('torn', 1.0))
            self.stats['power_loss_dropped_state'] += 1 if lost else 0
        else:
            for pid in list(self.fs.dead):
                self.fs.drop_handles(pid)
        self.fs.dead.clear()
        self.fs.sticky = None
        self.crash = None
        self.main_pid += 100
        self.now += 30.0
        self.log('REBOOT %s lost=%s' % (f['kind'], lost))

    # -- tracing -------------------------------------------------------------------------------

    def _trace_main(self, frame, event, arg):
        if event == 'call' and is_repo_code(frame.f_code):
            return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            label = self.step_label
            n = self.step_lines[label]
            self.step_lines[label] += 1
            f = self.line_faults.get((label, n))
            if f is not None and not f.get('done'):
                self.fire(f, 'line')
                self.log('at %s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                raise {'kbd': KeyboardInterrupt, 'mem': MemoryError}[f['kind']]()
        return self._trace_line

    def _trace_task(self, frame, event, arg):
        if event == 'call' and is_repo_code(frame.f_code):
            if self.gran == 'op':
                frame.f_trace_opcodes = True
            return self._trace_task_line
        return None

    def _trace_task_line(self, frame, event, arg):
        if event == 'line':
            # with tracing of instructions on, the interpreter dies if the trace function raises
            self.point('l' if self.gran == 'line' else 'op')
        elif event == 'opcode':
            self.point('op')
        return self._trace_task_line

    # -- tasks ---------------------------------------------------------------------------------

    def run_tasks(self, fns, pids=None, trace=True):
        """Run callables as tasks; returns [(result, exception)].  The scheduler alone decides who runs."""
        self.tasks = [Task(i, fn, (pids[i] if pids else self.main_pid), 't%d' % i) for i, fn in enumerate(fns)]
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()

        def body(t):
            t.lock.acquire()
            if trace:
                sys.settrace(self._trace_task)
            try:
                t.result = t.fn()
            except BaseException as e:
                t.exc = e
            finally:
                sys.settrace(None)
                t.state = 'done'
                self.log('done %d' % t.tid)
                self._next(None)

        for t in self.tasks:
            _thread.start_new_thread(body, (t,))
        self._next(None)
        self.main_lock.acquire()
        self.cur = None
        tasks = self.tasks
        self.tasks = []
        if self.deadlock:
            raise Deadlock(self.deadlock)
        return [(t.result, t.exc) for t in tasks]

    def _ready(self):
        out = []
        for t in self.tasks:
            if t.state == 'ready':
                out.append(t)
            elif t.state == 'blocked' and t.cond():
                out.append(t)
        return out

    def _choose(self, ready, default):
        """The scheduling decision at point self.npoint."""
        i = self.npoint
        self.npoint += 1
        m = self.sched['mode']
        if m == 'explicit':
            want = self.explicit.get(i)
            if want is not None:
                for t in ready:
                    if t.tid == want:
                        return t
            return default if default is not None else ready[0]
        if i >= self.next_switch:
            # distances between switches are drawn, rather than a decision at each point: the same distribution
            p = self.sched.get('p', 0.05)
            self.next_switch = i + 1 + int(math.log(1 - self.sched_rng.random()) / math.log(1 - p))
        t = ready[self.sched_rng.randrange(len(ready))]
        return t

    def _next(self, me):
        """Current task cannot go on (finished, blocked, asleep): hand the baton to somebody."""
        while True:
            ready = self._ready()
            if ready:
                break
            sleeping = [t for t in self.tasks if t.state == 'sleep']
            if sleeping:
                w = min(t.wake for t in sleeping)
                self.now = max(self.now, w)
                for t in sleeping:
                    if t.wake <= self.now:
                        t.state = 'ready'
                continue
            if any(t.state == 'blocked' for t in self.tasks):
                self.deadlock = 'tasks %s wait for each other' % [t.tid for t in self.tasks if t.state == 'blocked']
            self.cur = None
            self.main_lock.release()
            return
        i = self.npoint
        t = self._choose(ready, None)
        if len(ready) > 1:
            self.switches.append([i, t.tid])
        self._handoff(t)

    def _handoff(self, t):
        t.state = 'ready'
        self.cur = t
        self.log('run %d' % t.tid)
        t.lock.release()

    def point(self, kind):
        me = self.cur
        if me is None or not self.tasks or len(self.tasks) < 2:
            return
        if self.fs.dead and kind != 'op' and me.pid in self.fs.dead:
            raise SimCrash()
        i = self.npoint
        if self.sched['mode'] == 'explicit':
            if i not in self.explicit:
                self.npoint += 1
                return
        elif i < self.next_switch:
            self.npoint += 1
            return
        ready = self._ready()
        t = self._choose(ready, me)
        if t is me:
            return
        self.switches.append([i, t.tid])
        self.stats['switch'] += 1
        self._handoff(t)
        me.lock.acquire()
        if self.fs.dead and kind != 'op' and me.pid in self.fs.dead:
            raise SimCrash()

    def sleep(self, s):
        me = self.cur
        if me is None:
            self.now += max(0, s)
            return
        me.state = 'sleep'
        me.wake = self.now + max(0, s)
        self._next(me)
        me.lock.acquire()

    def block(self, cond):
        me = self.cur
        if me is None:
            raise Deadlock('main task blocks forever')
        me.state = 'blocked'
        me.cond = cond
        self._next(me)
        me.lock.acquire()

    def flock(self, fd, op):
        import fcntl
        of = self.fs.of(fd)
        if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
            return self.fs.flock(fd, op)
        while of.inode.lock is not None and of.inode.lock is not of:
            self.block(lambda: of.inode.lock is None)
        return self.fs.flock(fd, op)
