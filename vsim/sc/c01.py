"""C01: a save is atomic."""
from ..core import Scenario, attempt, fault_at, must, points, sample, save_errs
from ..world import Violation
from .common import HOWS, IDENT, W, gen_doc, load, put_doc, quiet_load, save, show, shrink_rows, tree_of

WRITE_KINDS = ['kill', 'power', 'power', 'err', 'kbd', 'mem']


class C01(Scenario):
    id = 'C01'
    units = {'quick': 144, 'thorough': 4000}
    rule = ('A case is a generated document, a target (absent, existing, behind a symlink, in a sub directory, with several names) and a '
            'history of one to three saves of successive versions to it, or two processes saving at once. Its dry run '
            'is profiled; each plan then puts one or two faults (error, short write, kill, power loss with a random '
            'surviving part of unsynced data and names, interrupt, out of memory) at I/O operations or source lines of '
            'the saves, and a reader looks at the target at every I/O operation.')
    assumptions = ['power loss keeps a prefix of unsynced writes per file and a prefix of uncommitted directory changes',
                   'rename replaces a name atomically, as POSIX requires']
    expect_probes = ['old-after-crash', 'new-after-crash', 'reader-saw-old', 'reader-saw-new', 'absent-after-crash',
                     'two-writers']

    def gen(self, rng, tier):
        d = gen_doc(rng, big=.15)
        ext = d['fmt']
        target = rng.choice(['t', 't', 't', 'sub/t', 'link', 'absent', 'absent', 'self', 'self'])
        old = {'t': 'old', 'sub/t': 'old', 'link': 'old', 'absent': None, 'self': 'self'}[target]
        return {'doc': d, 'target': target, 'ext': ext, 'old': old, 'presave': rng.random() < .5,
                'nsave': rng.choice([1, 1, 2, 3]), 'two': rng.random() < .2, 'how': rng.choice(HOWS),
                'oldsize': rng.choice([0, 10, 5000, 40000]), 'mode': rng.choice([0o644, 0o600, 0o444 | 0o200]),
                'names': rng.choice([1, 1, 1, 2, 3])}

    def describe(self, case):
        return {k: case[k] for k in ('target', 'ext', 'nsave', 'two', 'presave')}

    def paths(self, case):
        src = W + '/src.' + case['ext']
        t = {'t': W + '/t.', 'sub/t': W + '/sub/t.', 'absent': W + '/t.', 'link': W + '/t.', 'self': W + '/src.'}[case['target']]
        return src, t + case['ext']

    def run(self, w, case):
        src, path = self.paths(case)
        put_doc(w, case['doc'], src)
        if case['old'] == 'old':
            body = b'Title,old\r\nNote,' + b'o' * case['oldsize'] + b'\r\n'
            if case['ext'] == 'txt':
                body = b'Title: old\nNote: ' + b'o' * case['oldsize'] + b'\n'
            w.fs.put_dir(W + '/sub')
            if case['target'] == 'link':
                w.fs.put(W + '/sub/real.' + case['ext'], body, case['mode'])
                w.fs.put_symlink(path, W + '/sub/real.' + case['ext'])
            else:
                w.fs.put(path, body, case['mode'])
        if case['old']:
            for i in range(1, case.get('names', 1)):
                w.fs.put_link(W + '/sub/name%d' % i, path)
        other = w.fs.peek(W + '/small.csv')
        if case['two']:
            return self.run_two(w, case, src, path)
        doc = must(w, 'load', lambda: load(src))
        if case['presave']:
            must(w, 'presave', lambda: save(doc, W + '/ref.' + case['ext']))
        # what may be in the file: list of (kind, bytes or tree)
        current = w.fs.peek(path)
        allowed = [current]
        for i in range(case['nsave']):
            if i:
                doc['Root'].new_term('Note', 'version %d' % i)
            label = 'save%d' % i
            seen = []

            def watch(op, p):
                b = w.fs.peek(path)
                if not seen or seen[-1] != b:
                    seen.append(b)
            w.watch = watch
            want = tree_of(doc, IDENT)
            o = attempt(w, label, lambda: save(doc, path, case['how']), trace=True)
            w.watch = None
            if o.ok:
                new = w.fs.peek(path)
                self.complete(w, case, doc, path, new, want, label)
                for b in seen:
                    if b not in allowed and b != new:
                        raise Violation('torn', 'while %s ran a reader finds %s' % (label, show(b)))
                    w.probes['reader-saw-old' if b != new else 'reader-saw-new'] += 1
                if len(allowed) == 1 and allowed[0] != new:
                    w.probes['reader-saw-old'] += 0
                allowed = [new]
                continue
            crashed = o.crashed
            power = crashed and w.crash and w.crash['kind'] == 'power'
            if crashed:
                w.reboot()
            now = w.fs.peek(path)
            new = None
            for b in seen + [now]:
                if b in allowed:
                    if crashed and b is now:
                        w.probes['absent-after-crash' if b is None else 'old-after-crash'] += 1
                    continue
                if new is None:
                    if b is None:
                        raise Violation('lost', 'after %r in %s there is no file' % (o, label))
                    self.complete(w, case, doc, path, b, want, label, peek=now)
                    new = b
                    if crashed:
                        w.probes['new-after-crash'] += 1
                elif b != new:
                    raise Violation('torn', 'after %r in %s a reader finds %s' % (o, label, show(b)))
            allowed = [now] if power or not new else list({now, new} | set(allowed))
            if crashed:
                # a new process goes on from the file
                if now is None:
                    now_doc = must(w, 'load-again', lambda: load(src))
                else:
                    now_doc = quiet_load(w, path, 'after a crash, reading the target')
                doc = now_doc
        if w.fs.peek(W + '/small.csv') != other:
            raise Violation('other-file', 'another file changed')

    def complete(self, w, case, doc, path, b, want, label, peek=None):
        """b must be all of the document."""
        ref = W + '/check.' + case['ext']
        w.fs.put(ref, b)
        d2 = quiet_load(w, ref, 'after %s, reading what a reader finds (%s)' % (label, show(b)))
        got = tree_of(d2, IDENT)
        if got != want:
            from ..docgen import first_diff
            raise Violation('torn', 'after %s the file is neither the old nor the new one: %s' % (label, first_diff(want, got)))
        w.fs.drop(ref)

    def run_two(self, w, case, src, path):
        w.probes['two-writers'] += 1
        docs = [must(w, 'load%d' % i, lambda: load(src)) for i in (0, 1)]
        news = []
        for i, d in enumerate(docs):
            d['Root'].new_term('Note', 'writer %d ' % i + 'w' * (3000 * i))
            p = W + '/ref%d.%s' % (i, case['ext'])
            must(w, 'presave%d' % i, lambda: save(d, p))
            news.append(w.fs.peek(p))
        old = w.fs.peek(path)
        bad = []

        def watch(op, p):
            b = w.fs.peek(path)
            if b != old and b not in news and not bad:
                bad.append(b)
        w.watch = watch
        label = 'both'
        w.profile.setdefault(label, [])
        with w.step(label):
            res = w.run_tasks([lambda: save(docs[0], path, case['how']), lambda: save(docs[1], path, case['how'])],
                              pids=[1, 2])
        w.watch = None
        crashed = w.crash is not None
        acks = [i for i, (r, e) in enumerate(res) if e is None and not (crashed and (w.crash['kind'] == 'power' or i + 1 in w.fs.dead))]
        if crashed:
            w.reboot()
        b = w.fs.peek(path)
        if bad:
            raise Violation('torn', 'with two processes saving, a reader finds %s' % show(bad[0]))
        ok = [news[0], news[1]] + ([old] if not acks else [])
        if b not in ok:
            raise Violation('torn', 'after two saves at once (%s) the file is %s' %
                            (', '.join(type(e).__name__ if e else 'ok' for r, e in res), show(b)))
        if not w.fired:
            for i, (r, e) in enumerate(res):
                if e is not None:
                    raise Violation('fails-without-fault', 'save by process %d fails: %s: %s' % (i, type(e).__name__, e))

    def variants(self, rng, case, prof, tier):
        plans = []
        if case['two']:
            n = 10 if tier == 'quick' else 40
            for i in range(n):
                plan = {'faults': [], 'sched': {'mode': 'random', 'seed': rng.randrange(1 << 30), 'p': rng.choice([.02, .1, .3]),
                                                'gran': 'line'}}
                if rng.random() < .3:
                    pts = points(prof, ['both'])
                    if pts:
                        s, k, op, p = rng.choice(pts)
                        plan['faults'] = [fault_at(rng, s, k, op, rng.choice(['kill', 'power', rng.choice(save_errs(op))]))]
                plans.append(plan)
            return plans
        pts = points(prof, ['save*'])
        k = 30 if tier == 'quick' else 120
        singles = []
        for s, n, op, p in pts:
            for kind in WRITE_KINDS + (['short'] if op == 'write' else []):
                singles.append((s, n, op, kind))
        for s, n, op, kind in sample(rng, singles, k):
            if kind == 'err':
                kind = rng.choice(save_errs(op))
            fs = [fault_at(rng, s, n, op, kind)]
            if rng.random() < .2:
                s2, n2, op2, _ = rng.choice(pts)
                fs.append(fault_at(rng, s2, n2, op2, rng.choice(['kill', 'power'] + save_errs(op2))))
            plans.append({'faults': fs})
        for s, total in prof['lines'].items():
            if s.startswith('save'):
                for _ in range(2 if tier == 'quick' else 10):
                    plans.append({'faults': [{'step': s, 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        return plans

    def shrink(self, case):
        if case['nsave'] > 1:
            yield dict(case, nsave=case['nsave'] - 1)
        if case['presave']:
            yield dict(case, presave=False)
        yield from shrink_rows(case)


SC = C01()
