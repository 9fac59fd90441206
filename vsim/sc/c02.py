"""C02: an acknowledged save is durable and faithful."""
import copy

from ..core import legal_fault, Scenario, attempt, fault_at, must, points, sample, save_errs
from ..docgen import first_diff, norm, snap
from ..world import Violation
from .common import HOWS, IDENT, M, W, gen_doc, load, put_doc, quiet_load, save, show, shrink_rows, tree_of


def build(doc, tree):
    """Make the document of a model tree with the editing interface."""
    for name, args, terms in tree:
        s = doc['Root'] if name == 'root' else doc.get_or_new_section(name.title(), [a for a in args if a])
        for t in terms:
            n = s.new_term(t[0], t[1])
            kids(n, t[2])


def kids(n, l):
    for c in l:
        k = n.new_child(c[0], c[1])
        kids(k, c[2])


def breaks(tree):
    """Is there a line break in a value?"""
    if isinstance(tree, str):
        return '\n' in tree or '\r' in tree
    return isinstance(tree, list) and any(breaks(x) for x in tree)


class C02(Scenario):
    id = 'C02'
    units = {'quick': 400, 'thorough': 6000}
    rule = ('A case is a generated document, loaded from a file or built with the editing interface, and a chain of '
            'saves in CSV and Lines, each followed by a power loss that drops everything not synced. Plans add legal '
            'slowness (short writes and reads, slow operations, clock jumps), failed attempts before the acknowledged '
            'one, and the surviving part of unsynced state.')
    assumptions = ['power loss keeps a prefix of unsynced writes per file and a prefix of uncommitted directory changes']
    expect_probes = ['power-after-ack', 'failed-first', 'built', 'lines', 'csv', 'third-save-identical']

    def gen(self, rng, tier):
        fmt = rng.choice(['csv', 'txt'])
        d = gen_doc(rng, fmt, big=.1)
        mode = rng.choice(['file', 'file', 'file', 'built'])
        n = rng.choice([1, 2, 2, 3])
        chain = []
        for i in range(n):
            chain.append('csv' if fmt == 'csv' else rng.choice(['csv', 'txt', 'txt']))
        if fmt == 'csv' and rng.random() < .3:
            chain[-1] = 'txt'
        return {'doc': d, 'mode': mode, 'chain': chain, 'own': rng.random() < .3, 'how': rng.choice(HOWS),
                'read_chunk': rng.choice([None, None, 7, 100, 1000])}

    def describe(self, case):
        return {k: case[k] for k in ('mode', 'chain', 'own', 'read_chunk')}

    def run(self, w, case):
        ext = case['doc']['fmt']
        src = W + '/src.' + ext
        put_doc(w, case['doc'], src)
        if case['read_chunk']:
            w.fs.read_chunk = lambda n: case['read_chunk']
        tree = case['doc']['tree']
        if case['mode'] == 'built' and tree is not None:
            w.probes['built'] += 1
            decl = {'latest': 'metatab-latest', 'small': W + '/small.csv', None: None}[case['doc']['decl']]
            doc = must(w, 'new', lambda: M().MetatabDoc(decl=decl))
            tree = copy.deepcopy(tree)
            tree[0][2] = [t for t in tree[0][2] if t[0] != 'declare']
            if decl:
                tree[0][2].insert(0, ['declare', decl, []])
            must(w, 'build', lambda: build(doc, [[n, a, [t for t in ts if t[0] != 'declare']] for n, a, ts in tree]))
            if decl and not doc.find('Root.Declare'):
                tree[0][2].pop(0)
        else:
            doc = must(w, 'load', lambda: load(src))
        skip = set(IDENT)
        want = tree_of(doc, skip)
        if tree is not None:
            model = norm(tree, skip)
            if case['mode'] == 'built':
                model = [[n, ts] for n, args, ts in model]
                cmp = [[n, ts] for n, args, ts in want]
            else:
                cmp = want
            d = first_diff(model, cmp)
            if d:
                raise Violation('model', 'the document in memory is not the one written down: %s' % d)
        built = case['mode'] == 'built'
        path = src
        for i, e in enumerate(case['chain']):
            if not (case['own'] and path.endswith('.' + e) and (i or case['mode'] == 'file')):
                path = W + '/out%d.%s' % (i, e)
            label = 'save%d' % i
            w.probes['lines' if e == 'txt' else 'csv'] += 1
            for k in range(4):
                lab = label if k == 0 else '%s.retry%d' % (label, k)
                o = attempt(w, lab, lambda: save(doc, path, case['how']))
                if o.ok:
                    break
                w.probes['failed-first'] += 1
                if o.crashed:
                    w.reboot()
                    doc = must(w, 'reload', lambda: load(src)) if case['mode'] != 'built' else None
                    if doc is None:
                        return
                elif not w.fired:
                    raise Violation('fails-without-fault', '%s: %r' % (lab, o))
            else:
                raise Violation('fails-without-fault', '%s keeps failing: %r' % (label, o))
            inmem = tree_of(doc)
            b0 = w.fs.peek(path)
            if w.moment('after%d' % i):
                w.probes['power-after-ack'] += 1
            b = w.fs.peek(path)
            if b is None:
                raise Violation('lost', 'the save to %s was acknowledged, but after a power loss there is no file' % path)
            if b != b0:
                raise Violation('lost', 'the save to %s was acknowledged; after a power loss it holds %s' % (path, show(b)))
            try:
                text = doc.as_csv() if e == 'csv' else doc.as_lines()
            except Exception as ex:
                raise Violation('exception', '%s: %s' % (type(ex).__name__, ex))
            try:
                d2 = quiet_load(w, path, 'after an acknowledged save, reading the file')
                got = tree_of(d2)
            except Violation:
                if e == 'txt' and breaks(inmem):
                    d2 = None
                else:
                    raise
            if e == 'txt' and breaks(inmem) and (d2 is None or first_diff(inmem, got)):
                w.probes['known-line-break'] += 1       # see known-findings.txt
                return
            d = first_diff(inmem, got)
            if d:
                raise Violation('unfaithful', 'the document saved as %s and read again differs: %s' % (e, d))
            if tree is not None:
                g = norm(snap(d2), skip)
                mdl = norm(tree, skip)
                if built:
                    mdl = [[n, ts] for n, args, ts in mdl]
                    g = [[n, ts] for n, args, ts in g]
                elif e == 'txt':
                    mdl = [[n, [a for a in args if a], ts] for n, args, ts in mdl]
                    g = [[n, [a for a in args if a], ts] for n, args, ts in g]
                d = first_diff(mdl, g)
                if d:
                    raise Violation('unfaithful', 'the saved document is not the one written down: %s' % d)
            # saving what was read again gives the same file, once empty properties are gone
            p2, p3 = W + '/again.' + e, W + '/again2.' + e
            must(w, 'again%d' % i, lambda: save(d2, p2))
            d3 = quiet_load(w, p2)
            must(w, 'again2.%d' % i, lambda: save(d3, p3))
            if w.fs.peek(p2) != w.fs.peek(p3):
                raise Violation('drift', 'saving, reading and saving again changes the file: %s' %
                                first_diff(w.fs.peek(p2).decode('utf8').split('\n'), w.fs.peek(p3).decode('utf8').split('\n')))
            w.probes['third-save-identical'] += 1
            doc = d2
            src = path
            case = dict(case, mode='file')

    def variants(self, rng, case, prof, tier):
        plans = []
        after = ['after%d' % i for i in range(len(case['chain']))]

        def power(step):
            return {'step': step, 'n': 0, 'kind': 'power', 'names': rng.choice([0, 0, 1, rng.random()]),
                    'data': rng.choice([0, 0, rng.random()]), 'torn': rng.choice([0, .5, rng.random()])}
        pts = points(prof, ['save*'])
        for _ in range(5 if tier == 'quick' else 20):
            fs = [power(s) for s in after if rng.random() < .8]
            r = rng.random()
            if r < .5:
                for s, n, op, p in sample(rng, pts, rng.choice([1, 2, 3])):
                    if op == 'write' and rng.random() < .7:
                        fs.append(fault_at(rng, s, n, op, 'short'))
                    else:
                        fs.append(legal_fault(rng, s, n))
            elif r < .8:
                s, n, op, p = rng.choice(pts)
                fs.append(fault_at(rng, s, n, op, rng.choice(save_errs(op) + ['kill'])))
            plans.append({'faults': fs})
        return plans

    def shrink(self, case):
        if len(case['chain']) > 1:
            for i in range(len(case['chain'])):
                yield dict(case, chain=case['chain'][:i] + case['chain'][i + 1:])
        if case['read_chunk']:
            yield dict(case, read_chunk=None)
        if case['mode'] == 'file':
            yield from shrink_rows(case)


SC = C02()
