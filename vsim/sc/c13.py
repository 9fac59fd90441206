"""C13: creating a file never costs one, and leaves a complete file or none."""
import pathlib

from ..climod import run_cli
from ..core import Scenario, attempt, fault_at, legal_fault, must, points, sample, save_errs, schedule
from ..docgen import first_diff, norm, snap
from ..world import Violation
from .common import IDENT, M, W, apart, put_decl, quiet_load, show

OTHERS = [b'Title,by somebody else\r\n', b'', b'x' * 20000, b'Title,\xff\r\n']


class C13(Scenario):
    id = 'C13'
    units = {'quick': 100, 'thorough': 4000}
    rule = ('A case is a creation of a metatab file from a template, by the command line program or by a save that may not '
            'overwrite, at a path that is free, taken by a file, link, dangling link or directory, or in a directory that '
            'is missing; or two to three creators of the same file at once. Plans let somebody else create, replace or '
            'remove the file at any I/O operation, and put errors, interrupts, kills and power losses there; creators are '
            'interleaved by a seeded scheduler.')
    stub = Scenario.stub + ['standard streams', 'process exit (flush at exit, status)', 'process scheduler']
    assumptions = ['power loss keeps a prefix of unsynced writes per file and a prefix of uncommitted directory changes',
                   'link() and exclusive open are atomic, as POSIX requires']
    expect_probes = ['created', 'kept', 'raced', 'failed', 'crash-absent', 'crash-complete', 'two-creators', 'interrupted', 'no-link']

    def gen(self, rng, tier):
        odd = rng.random() < .25
        case = {'how': rng.choice(['cli', 'cli', 'api']), 'template': rng.choice([None, None, 'metatab', 'datapackage']),
                'at': rng.choice(['free'] * 6 + ['file', 'file', 'link', 'dangling', 'dir', 'nodir']), 'other': rng.randrange(len(OTHERS)),
                'n': rng.choice([1, 1, 1, 2, 3]), 'nolink': rng.random() < .2,
                'name': rng.choice(['m.csv', 'metadata.csv', 'a b.csv', 'été.csv']), 'rel': rng.random() < .4}
        if odd:
            # names that mean something else as a URL
            case.update(n=1, name=rng.choice(['a%41.csv', 'a.csv#b.csv', 'e:f.csv', 'c.csv?d.csv', 'g;h.csv', ' i.csv', 'http.csv', '%2e%2e.csv']))
        return case

    def describe(self, case):
        return {k: case[k] for k in ('how', 'template', 'at', 'n', 'nolink')}

    def act(self, w, case, path):
        """-> 'created', 'exists' or 'failed'"""
        if case.get('rel'):
            path = path[len(W) + 1:]
        if case['how'] == 'cli':
            argv = ['-C'] + ([case['template'], path] if case['template'] else ['--', path])
            if not case['template']:
                argv = ['--create', 'metatab', path]
            r = run_cli(w, argv)
            if r.code == 0:
                if 'Created' in r.out.decode('utf8') and 'already exists' not in r.err:
                    return 'created', r
                if 'already exists' in r.err:
                    return 'exists', r
                return 'unclear', r
            return 'failed', r
        from metatab.cli import make_metatab_file
        doc = make_metatab_file(case['template'] or 'metatab')
        try:
            doc.write_csv(pathlib.Path(path), overwrite=False)
            return 'created', None
        except FileExistsError:
            return 'exists', None

    def run(self, w, case):
        put_decl(w)
        base = W + ('/none/' if case['at'] == 'nodir' else '/')
        path = base + case['name']
        other = OTHERS[case['other']]
        elsewhere = W + '/elsewhere.csv'
        at = case['at']
        if at == 'file':
            w.fs.put(path, other)
        elif at == 'link':
            w.fs.put(elsewhere, other)
            w.fs.put_symlink(path, elsewhere)
        elif at == 'dangling':
            w.fs.put_symlink(path, elsewhere)
        elif at == 'dir':
            w.fs.put_dir(path)
            w.fs.put(path + '/f', other)
        w.fs.put_dir(W)
        w.fs.cwd = W
        for n in ('aA', 'a', 'f', 'c', 'g', 'i', '..'):
            w.fs.put(W + '/%s.csv' % n, b'another file')
        w.fs.no_links = case['nolink']
        if case['nolink']:
            w.probes['no-link'] += 1

        def model():
            from metatab.cli import make_metatab_file
            w.quiet = 1
            d = make_metatab_file(case['template'] or 'metatab')
            w.fs.no_links = False
            d.write_csv(W + '/model.csv')
            return norm(snap(M().MetatabDoc(W + '/model.csv')), IDENT)
        want = apart(model)
        before = w.fs.tree()
        if at in ('file', 'link', 'dir', 'nodir'):
            return self.taken(w, case, path, before)
        if case['n'] > 1 and at == 'free':
            return self.many(w, case, path, want)
        race = {'put': None}
        real = elsewhere if at == 'dangling' else path

        def on_call(f, op, p):
            what = f['what']
            b = w.fs.peek(path)
            if what == 'create' and b is None:
                w.fs.put(real, other)
                race['put'] = other
            elif what == 'replace' and not (case['nolink'] and b is not None):   # there a name is reserved first
                w.fs.put(real, other)
                race['put'] = other
            elif what == 'remove' and b is not None:
                w.fs.drop(real)
                race['put'] = None
                race['removed'] = True
        w.on_call = on_call
        o = attempt(w, 'create', lambda: self.act(w, case, path), trace=True)
        crashed = o.crashed
        power = crashed and w.crash and w.crash['kind'] == 'power'
        if crashed:
            w.reboot()
        b = w.fs.peek(path)
        faults = ', '.join(w.fired) or 'no fault'
        res = None if not o.ok else o.value[0]
        if res == 'failed':
            kbd = any(f.startswith('kbd') for f in w.fired)
        if o.failed and not w.fired or res == 'failed' and not w.fired or res == 'unclear':
            raise Violation('fails-without-fault' if not w.fired else 'unclear', 'creating: %r' % (o.value[1] if o.ok else o))
        if any(f.startswith('kbd') for f in w.fired):
            w.probes['interrupted'] += 1
            if res in ('created', 'exists'):
                raise Violation('swallowed', 'an interrupt was swallowed (%s)' % faults)
        if race['put'] is not None:
            w.probes['raced'] += 1
            # what somebody else put there stays, whoever came first
            if b != race['put'] and not power:
                raise Violation('overwritten', 'a file that somebody else made was replaced (%s, %s) by %s' %
                                (faults, o if not o.ok else res, show(b)))
            return
        if race.get('removed'):
            return
        if res == 'created':
            self.complete(w, path, b, want, 'after creating (%s)' % faults)
            w.probes['created'] += 1
            if w.moment('later'):
                self.complete(w, path, w.fs.peek(path), want, 'after a power loss after creating')
        elif res == 'exists' and at == 'dangling' and b is None:
            return      # the name is taken by a link
        elif res == 'exists':
            raise Violation('unclear', 'it is said that the file exists already (%s), but there was none; there is %s now' %
                            (faults, show(b)))
        else:
            if b is not None:
                if case['nolink'] and (crashed or len(w.fired) > 1) and b == b'':
                    return      # without links a name has to be reserved first
                self.complete(w, path, b, want, 'after %s (%s)' % ('a crash' if crashed else 'a failure', faults))
            if crashed:
                w.probes['crash-absent' if b is None else 'crash-complete'] += 1
            else:
                w.probes['failed'] += 1
        if not crashed:
            self.litter(w, before, path)
        # faults stop
        if b is None:
            r = must(w, 'again', lambda: self.act(w, case, path))
            if r[0] != 'created':
                raise Violation('no-recovery', 'faults have stopped, but the file cannot be created: %s' % (r,))
            self.complete(w, path, w.fs.peek(path), want, 'after creating again')
        else:
            r = must(w, 'again', lambda: self.act(w, case, path))
            if r[0] != 'exists' or w.fs.peek(path) != b:
                raise Violation('overwritten', 'creating it again gives %s and changes the file' % (r,))

    def litter(self, w, before, path):
        for p, b in before.items():
            if p not in (path, W + '/elsewhere.csv') and w.fs.tree().get(p) != b and not p.startswith('/vsim/.ov'):
                raise Violation('overwritten', 'creating %s changes %s' % (path, p))
        hard = [f for f in w.fired if not f.startswith(('slow', 'clock', 'short', 'call'))]
        extra = [p for p in w.fs.tree() if p not in before and p not in (path, W + '/elsewhere.csv')
                 and not p.startswith(('/vsim/.ov', '/vsim/cache', '/vsim/tmp'))]
        if extra and len(hard) < 2 and not any('@unlink' in f or '@line' in f for f in hard):
            raise Violation('litter', 'creating leaves %s' % extra)

    def complete(self, w, path, b, want, when):
        if b is None:
            raise Violation('lost', '%s there is no file' % when)
        w.fs.put(W + '/check.csv', b)
        got = norm(snap(quiet_load(w, W + '/check.csv', '%s, reading the file (%s)' % (when, show(b)))), IDENT)
        w.fs.drop(W + '/check.csv')
        d = first_diff(want, got)
        if d:
            raise Violation('partial', '%s the file is not the template: %s' % (when, d))

    def taken(self, w, case, path, before):
        o = attempt(w, 'create', lambda: self.act(w, case, path), trace=True)
        crashed = o.crashed
        if crashed:
            w.reboot()
        t = w.fs.tree()
        for p, b in before.items():
            if t.get(p) != b and not p.startswith('/vsim/.ov'):
                raise Violation('overwritten', 'creating a file where there is one (%s) changed %s to %s' %
                                (', '.join(w.fired) or 'no fault', p, show(t.get(p))))
        if case['at'] == 'nodir':
            if o.ok and o.value[0] != 'failed':
                raise Violation('unclear', 'a file in a directory that does not exist: %s' % (o.value,))
            if any(p.startswith(W + '/none') for p in t):
                raise Violation('litter', 'a directory was made')
        elif o.ok and o.value[0] == 'created':
            raise Violation('unclear', 'created, where there is something already')
        elif not w.fired and (not o.ok or o.value[0] != 'exists'):
            raise Violation('unclear', 'there is something already, but the answer is %r' % (o if not o.ok else o.value[1]))
        if any(f.startswith('kbd') for f in w.fired) and o.ok and o.value[0] != 'failed':
            raise Violation('swallowed', 'an interrupt was swallowed (%s)' % ', '.join(w.fired))
        if not crashed:
            self.litter(w, before, path)
        w.probes['kept'] += 1

    def many(self, w, case, path, want):
        """Several processes create the same file at once: exactly one is told that it did."""
        w.probes['two-creators'] += 1
        n = case['n']
        from metatab.cli import make_metatab_file
        docs = []
        for i in range(n):
            d = must(w, 'make%d' % i, lambda: make_metatab_file(case['template'] or 'metatab'))
            d['Root'].new_term('Root.Note', 'by %d ' % i + 'w' * (5000 * i))
            docs.append(d)
        seen = []

        def one(d):
            def f():
                try:
                    d.write_csv(path, overwrite=False)
                    return 'created'
                except FileExistsError:
                    return 'exists'
            return f

        def watch(op, p):
            b = w.fs.peek(path)
            if not seen or seen[-1] != b:
                seen.append(b)
        w.watch = watch
        with w.step('create'):
            res = w.run_tasks([one(d) for d in docs], pids=[1 + i for i in range(n)])
        w.watch = None
        dead = set(w.fs.dead) if w.crash is not None else set()
        if w.crash is not None and w.crash['kind'] == 'power':
            dead = set(range(1, n + 1))
        if w.crash is not None:
            w.reboot()
        b = w.fs.peek(path)
        win = [i for i, (r, e) in enumerate(res) if r == 'created' and i + 1 not in dead]
        faults = ', '.join(w.fired) or 'no fault'
        if not w.fired:
            for i, (r, e) in enumerate(res):
                if e is not None:
                    raise Violation('fails-without-fault', 'creator %d fails: %s: %s' % (i, type(e).__name__, e))
            if len(win) != 1:
                raise Violation('twice', '%d of %d creators are told that they made the file' % (len(win), n))
        if len(win) > 1:
            raise Violation('twice', '%d of %d creators are told that they made the file (%s)' % (len(win), n, faults))
        real = [x for x in seen + [b] if x is not None]
        if case['nolink']:
            real = [x for x in real if x != b'']
        if len(set(real)) > 1:
            raise Violation('overwritten', 'one creator replaced the file of another (%s)' % faults)
        if win:
            if b is None:
                raise Violation('lost', 'creator %d is told that it made the file, there is none (%s)' % (win[0], faults))
            t = norm(snap(quiet_load(w, path, 'reading the file')), IDENT)
            mine = norm(snap(docs[win[0]]), IDENT)
            if t != mine:
                raise Violation('overwritten', 'creator %d is told that it made the file, but it is not the one (%s): %s' %
                                (win[0], faults, first_diff(mine, t)))
        elif b:
            t = norm(snap(quiet_load(w, path, 'reading the file')), IDENT)
            if t not in [norm(snap(d), IDENT) for d in docs]:
                raise Violation('partial', 'the file is none of those that were made (%s)' % faults)

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['create'])
        if not pts:
            return []
        plans = []
        hot = [x for x in pts if not x[3].startswith('<ov>')]
        multi = case['n'] > 1 and case['at'] == 'free'
        for _ in range(14 if tier == 'quick' else 80):
            s, n, op, p = rng.choice(hot or pts) if rng.random() < .8 else rng.choice(pts)
            plan = {'faults': []}
            x = rng.random()
            if multi:
                plan['sched'] = schedule(rng, prof['npoint'], (.02, .1, .4))
                if x < .3:
                    plan['faults'] = [fault_at(rng, s, n, op, rng.choice(['kill', 'power'] + save_errs(op)))]
            elif x < .4 and case['at'] in ('free', 'dangling'):
                plan['faults'] = [{'step': s, 'n': n, 'kind': 'call', 'what': rng.choice(['create', 'create', 'create', 'replace', 'remove'])}]
                if rng.random() < .3:
                    s, n, op, p = rng.choice(hot or pts)
                    plan['faults'].append(fault_at(rng, s, n, op, rng.choice(save_errs(op))))
            elif x < .6:
                plan['faults'] = [fault_at(rng, s, n, op, rng.choice(['kill', 'power']))]
            elif x < .7 and op != 'close':
                plan['faults'] = [fault_at(rng, s, n, op, rng.choice(['kbd', 'mem']))]
            else:
                plan['faults'] = [fault_at(rng, s, n, op, rng.choice(save_errs(op)))]
                if rng.random() < .2:
                    s, n, op, p = rng.choice(hot or pts)
                    plan['faults'].append(fault_at(rng, s, n, op, rng.choice(save_errs(op))))
            plans.append(plan)
        total = prof['lines'].get('create', 0)
        for _ in range(3 if tier == 'quick' else 20):
            if total and not multi:
                plans.append({'faults': [{'step': 'create', 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        if case['at'] == 'free' and not multi:
            plans.append({'faults': [{'step': 'later', 'n': 0, 'kind': 'power', 'names': 0, 'data': 0, 'torn': 0}]})
        return plans

    def shrink(self, case):
        if case['n'] > 2:
            yield dict(case, n=2)


SC = C13()
