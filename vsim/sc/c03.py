"""C03: a save that fails says so, harms nothing, and can be repeated."""
import pathlib

from ..core import Scenario, attempt, fault_at, must, points, sample, save_errs
from ..docgen import first_diff
from ..world import Violation
from .common import HOWS, IDENT, M, W, gen_doc, load, put_doc, quiet_load, rowgen, save, show, shrink_rows, tree_of

# names that mean something else if they are taken for a URL
ODD = ['a%41', 'a.csv#b', 'a.txt#b', 'c.csv?d', 'e:f', ' g', 'h;i', 'p%41q/x', 'h#h/x', '%2e%2e', 'file:j', 'k+l', 'caf\u00e9', 'm n']
DECOYS = ['aA', 'a', 'c', 'f', 'g', 'h', 'j', 'pAq/x', '..', 'h/x']


class C03(Scenario):
    id = 'C03'
    units = {'quick': 150, 'thorough': 4000}
    rule = ('A case is a generated document and a target. Each plan makes one to three attempts to save fail or suffer '
            '(I/O error at any operation, full disk, interrupt or out of memory at any operation or source line); '
            'faults then stop and the save is repeated.')
    assumptions = ['the directory of the target can be opened for reading']
    expect_probes = ['reported', 'tolerated', 'interrupted', 'retry-worked', 'disk-full', 'no-file', 'odd-name']

    def gen(self, rng, tier):
        d = gen_doc(rng, big=.15)
        return {'doc': d, 'target': rng.choice(['self', 'new', 'old']), 'void': rng.choice([None, 'bare', 'bare', 'cols']), 'edit': rng.random() < .6, 'tries': rng.choice([1, 1, 2, 3]),
                'how': rng.choice(HOWS), 'name': rng.choice(ODD) if rng.random() < .3 else None, 'rel': rng.random() < .5, 'source': 'rows' if d['decl'] != 'small' and rng.random() < .25 else 'file', 'full': rng.choice([None, None, None, 0, 10, 500, 3000, 9000])}

    def describe(self, case):
        return {k: case[k] for k in ('target', 'edit', 'tries', 'full')}

    def run(self, w, case):
        ext = case['doc']['fmt']
        src = W + '/src.' + ext
        put_doc(w, case['doc'], src)
        path = {'self': src, 'new': W + '/n.' + ext, 'old': W + '/o.' + ext}[case['target']]
        arg = None
        if case.get('name'):
            # named by a path, whatever it looks like; files stand where it would lead as a URL
            path = W + '/' + case['name'] + '.' + ext
            w.fs.put_dir(path.rsplit('/', 1)[0])
            for d in DECOYS:
                if '/' in d:
                    w.fs.put_dir(W + '/' + d.split('/')[0])
                for e in ('csv', 'txt'):
                    w.fs.put(W + '/%s.%s' % (d, e), b'another file')
            w.fs.cwd = W
            arg = pathlib.Path(case['name'] + '.' + ext if case['rel'] else path)
            w.probes['odd-name'] += 1
        if case['target'] == 'old':
            w.fs.put(path, b'Title: old' if ext == 'txt' else b'Title,old\n')
        if case.get('source') == 'rows':
            doc = must(w, 'load', lambda: M().MetatabDoc(rowgen([list(r) for r in case['doc']['rows']])))
            w.probes['no-file'] += 1
        else:
            doc = must(w, 'load', lambda: load(src))
        ref = str(doc.ref)
        if case['edit']:
            doc['Root'].new_term('Note', 'an edit that is not saved yet', extra='x')
            if case.get('void'):
                doc.new_section('Void', ['Col'] if case['void'] == 'cols' else None)
        want = tree_of(doc, IDENT)
        before = w.fs.tree()

        def go():
            if arg is None:
                return save(doc, path, case['how'])
            if case['how'].endswith('write'):
                return doc.write(arg)
            return doc.write_lines(arg) if ext == 'txt' else doc.write_csv(arg)
        if case['full'] is not None:
            w.fs.limit = w.fs.used() + case['full']
        ident = None
        acked = None
        for k in range(case['tries']):
            label = 'try%d' % k
            nf = len(w.fired)
            o = attempt(w, label, go, trace=True)
            fired = w.fired[nf:]
            self.unharmed(w, doc, want, o, label)
            now = doc.find_first_value('Root.Identifier', section='Root')
            if ident and now != ident:
                raise Violation('identity', 'the identifier changed from %s to %s after %r' % (ident, now, o))
            ident = ident or now
            if o.ok:
                if any(f.startswith('kbd@') for f in fired):
                    raise Violation('swallowed', 'an interrupt at %s in %s was swallowed' % (fired, label))
                self.complete(w, doc, path, want, 'returned normally (%s)' % (', '.join(fired) or 'no fault'))
                w.probes['tolerated'] += 1 if fired else 0
                self.only(w, path, before, fired)
                acked = w.fs.peek(path)
                before = w.fs.tree()
                continue
            if str(doc.ref) != ref:
                raise Violation('harmed', 'after %s failed (%r) the document is that of %s, before it was that of %s' % (label, o, doc.ref, ref))
            if not fired and case['full'] is None:
                raise Violation('fails-without-fault', '%s: %r' % (label, o))
            w.probes['reported'] += 1
            if case['full'] is not None and not fired:
                w.probes['disk-full'] += 1
            kbd = [f for f in fired if f.startswith('kbd@')]
            if kbd:
                w.probes['interrupted'] += 1
                if len(fired) == 1 and case['full'] is None and not isinstance(o.exc, KeyboardInterrupt):
                    raise Violation('swallowed', 'an interrupt at %s came out as %r' % (kbd[0], o))
            # nothing is left behind, unless removing it is what failed
            if not any('@unlink' in f or '@line' in f for f in fired):
                after = w.fs.tree()
                for p in sorted(set(after) | set(before)):
                    if p == path or after.get(p) == before.get(p):
                        continue
                    raise Violation('litter', 'after %s failed (%s, %r), %s %s' %
                                    (label, ', '.join(fired), o, p, 'is left behind' if p not in before else 'changed'))
            before = w.fs.tree()
        w.fs.limit = None
        o = attempt(w, 'final', go)
        if not o.ok:
            raise Violation('no-recovery', 'faults have stopped, but the save still fails: %r' % o)
        self.unharmed(w, doc, want, o, 'the last save')
        self.only(w, path, before, [])
        self.complete(w, doc, path, want, 'was repeated after the faults stopped')
        now = doc.find_first_value('Root.Identifier', section='Root')
        if ident and now != ident:
            raise Violation('identity', 'the identifier changed from %s to %s when the save was repeated' % (ident, now))
        w.probes['retry-worked'] += 1

    def only(self, w, path, before, fired):
        """A save writes its file and no other."""
        after = w.fs.tree()
        for p in sorted(set(after) | set(before)):
            if p != path and after.get(p) != before.get(p) and not any('@unlink' in f for f in fired):
                raise Violation('harmed', 'a save to %s succeeded (%s), and %s %s' %
                                (path, ', '.join(fired) or 'no fault', p, 'is left behind' if p not in before else 'changed'))

    def unharmed(self, w, doc, want, o, label):
        d = first_diff(want, tree_of(doc, IDENT))
        if d:
            raise Violation('harmed', 'after %s (%r) the document in memory has changed: %s' % (label, o, d))

    def complete(self, w, doc, path, want, what):
        b0 = w.fs.peek(path)
        if b0 is None:
            raise Violation('silent', 'a save that %s wrote no file' % what)
        copy = W + '/zz copy' + path[-4:]
        w.fs.put(copy, b0)
        d = first_diff(want, tree_of(quiet_load(w, copy), IDENT))
        w.fs.drop(copy)
        if d:
            raise Violation('silent', 'a save that %s did not write the document: %s' % (what, d))
        # it says that it is done, so it is durable
        durable = w.fs.durable(path)
        if durable != b0:
            raise Violation('silent', 'a save that %s is not on disk: a power loss would leave %s' % (what, show(durable)))

    def variants(self, rng, case, prof, tier):
        plans = []
        by = {}
        for k in range(case['tries']):
            by[k] = points(prof, ['try%d' % k])
        pts = by[0]
        singles = []
        for s, n, op, p in pts:
            for e in save_errs(op):
                singles.append((s, n, op, e))
            singles.append((s, n, op, 'kbd'))
            if op == 'write':
                singles.append((s, n, op, 'short'))
            singles.append((s, n, op, 'mem'))
        for s, n, op, kind in sample(rng, singles, 24 if tier == 'quick' else 100):
            fs = [fault_at(rng, s, n, op, kind)]
            for k in range(1, case['tries']):
                if by[k] and rng.random() < .8:
                    s2, n2, op2, _ = rng.choice(by[k])
                    fs.append(fault_at(rng, s2, n2, op2, rng.choice(save_errs(op2) + ['kbd'])))
            if rng.random() < .1 and len(pts) > 1:
                s2, n2, op2, _ = rng.choice(pts)
                fs.append(fault_at(rng, s2, n2, op2, rng.choice(save_errs(op2) + ['kbd'])))
            plans.append({'faults': fs})
        for s, total in prof['lines'].items():
            for _ in range(3 if tier == 'quick' else 20):
                plans.append({'faults': [{'step': s, 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        return plans

    def shrink(self, case):
        if case['tries'] > 1:
            yield dict(case, tries=case['tries'] - 1)
        if case['edit']:
            yield dict(case, edit=False)
        yield from shrink_rows(case)


SC = C03()
