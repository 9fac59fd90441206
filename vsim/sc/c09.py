"""C09: reading a document never changes it, also when the reading is interrupted, fails or is abandoned."""
from ..core import Scenario, attempt, legal_fault, must, points, sample
from ..docgen import first_diff
from .. import docgen as D
from .. import reads as R
from ..edits import EditGen, Model, apply_doc
from ..world import Violation
from .common import W, load, put_doc, roundtrip, save, shrink_rows, tree_of
from .c05 import whole


SIMPLE = ('t_arg_props', 't_props', 't_all_props', 't_as_dict', 't_rows', 't_descendents', 't_str', 't_names')


def audit(doc, case):
    """What the document says of the terms that were asked about, and as a whole."""
    paths = []
    for o in case['ops']:
        if o[1][0].startswith('t_') and o[1][1] not in paths:
            paths.append(o[1][1])
    return [[k, p, R.do(doc, [k, p])] for p in paths for k in SIMPLE] + [[k, None, R.do(doc, [k])] for k in ('sections', 'as_dict', 'rows', 'lines')]


class C09(Scenario):
    id = 'C09'
    units = {'quick': 160, 'thorough': 5000}
    rule = ('A case is a generated document and 3 to 12 reading operations of 50 kinds (dictionaries, CSV and Lines text, '
            'rows, searches, properties, names of other versions, data packages), some of them abandoned half way. Plans '
            'raise an interrupt or out-of-memory at a source line inside one to three of them. After each operation the '
            'whole structure is compared with what it was, and every result with that of an untouched twin and of a document just loaded.')
    expect_probes = ['complete', 'interrupted', 'abandoned', 'repeated', 'saved', 'mem', 'fresh', 'edited']

    def gen(self, rng, tier):
        d = R.gen(rng)
        sh = R.Shape(d['tree'])
        ops = []
        focus = sh.path(rng)[0] if sh.terms else None       # the term that most is asked of
        for _ in range(rng.choice([3, 5, 8, 12])):
            if rng.random() < .2:
                op = sh.draw(rng, sorted(R.ITER))
                ops.append(['part', op, rng.randrange(12), rng.choice(['close', 'throw', 'drop'])])
            else:
                ops.append(['do', sh.draw(rng)])
        # once more, or something else of the same term
        for _ in range(rng.choice([0, 1, 2, 4])):
            k, o = rng.choice(ops)[:2]
            if len(o) > 1 and o[0].startswith('t_') and rng.random() < .6:
                for _ in range(50):
                    x = sh.draw(rng, [n for n in R.OPS if n.startswith('t_')])
                    if x[0] in SIMPLE or x[1] == o[1]:
                        x[1] = o[1]
                        break
                o = x
            ops.insert(rng.randrange(len(ops) + 1), ['do', o])
        if focus and rng.random() < .7:
            for _ in range(rng.choice([1, 2, 3])):
                ops.insert(rng.randrange(len(ops) + 1), ['do', [rng.choice(SIMPLE), focus]])
        for _ in range(rng.choice([0, 1, 2])):
            # a property that is there
            for _ in range(9):
                p, t = sh.path(rng) if sh.terms else (None, [0, 0, []])
                if t[2]:
                    c = rng.choice(t[2])[0]
                    ops.insert(rng.randrange(len(ops) + 1), ['do', [rng.choice(['t_getattr', 't_getattr', 't_getitem', 't_get_value', 't_find_first_value']), p, c]])
                    break
        return {'doc': d, 'ops': ops, 'edits': self.edits(rng, d, sh, ops)}

    def edits(self, rng, d, sh, ops):
        """Edits that follow the reading, most of them of what was read."""
        m = Model(D.exact(d['tree']))
        e = EditGen(rng, d['fmt'], d['decl'])
        out = []
        asked = [o[1] for o in ops if o[1][0].startswith('t_')]
        for _ in range(rng.choice([0, 2, 4, 8])):
            x = rng.random()
            if asked and x < .6:
                a = rng.choice(asked)
                c = a[2] if len(a) > 2 and isinstance(a[2], str) and '.' not in a[2] else rng.choice(D.CHILD)
                out.append(rng.choice([['set', a[1], c, e.value()], ['set', a[1], c, e.value()], ['set', a[1], c, None], ['value', a[1], e.value()],
                                       ['child', a[1], c, e.value()]]))
            elif sh.terms and x < .8:
                p = sh.path(rng)[0]
                out.append(rng.choice([['value', p, e.value()], ['child', p, rng.choice(D.CHILD), e.value()]]))
            else:
                o = e.op(m)
                m.apply(o)
                out.append(['e', o])
        return out

    def edit(self, doc, op):
        try:
            if op[0] == 'e':
                apply_doc(doc, op[1])
            elif op[0] == 'set':
                R.at(doc, op[1])[op[2]] = op[3]
            elif op[0] == 'value':
                R.at(doc, op[1]).value = op[2]
            else:
                R.at(doc, op[1]).new_child(op[2], op[3])
            return 'done'
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            return type(e).__name__

    def describe(self, case):
        return {'fmt': case['doc']['fmt'], 'decl': case['doc']['decl'], 'operations': [o[1][0] for o in case['ops']]}

    def run(self, w, case):
        path = W + '/doc.' + case['doc']['fmt']
        put_doc(w, case['doc'], path)
        doc = must(w, 'load', lambda: load(path))
        twin = must(w, 'twin', lambda: load(path))
        if doc['Root'].find_first('Root.Identifier') is None:
            for d in (doc, twin):
                d['Root'].new_term('Root.Identifier', 'id-1')
        def untouched():
            d = load(path)
            if d['Root'].find_first('Root.Identifier') is None:
                d['Root'].new_term('Root.Identifier', 'id-1')
            return d
        says = must(w, 'says', lambda: audit(untouched(), case))
        before = whole(doc)
        files = w.fs.tree()
        for i, op in enumerate(case['ops']):
            label = 'op%d' % i
            nf = len(w.fired)
            fn = (lambda: R.do(doc, op[1])) if op[0] == 'do' else (lambda: R.part(doc, op[1], op[2], op[3]))
            o = attempt(w, label, fn, trace=True)
            fired = w.fired[nf:]
            d = first_diff(before, whole(doc))
            if d:
                raise Violation('changed', 'reading (%s, %s) changed the document: %s' % (op[1], outcome(o, fired), d))
            if o.failed:
                if not fired:
                    raise Violation('fails-without-fault', '%s: %r' % (op, o))
                if not isinstance(o.exc, (KeyboardInterrupt, MemoryError)):
                    raise Violation('disguised', 'an interrupt inside %s came out as %r' % (op[1], o))
                w.probes['interrupted'] += 1
            else:
                if any(f.startswith('kbd') for f in fired):
                    raise Violation('swallowed', 'an interrupt inside %s was swallowed' % (op[1],))
                if fired:
                    w.probes['mem'] += 1
                if op[0] == 'part' and o.value and o.value[-1] == 'swallowed':
                    raise Violation('swallowed', 'an interrupt thrown into %s was swallowed' % (op[1],))
            # the same from the twin, and again from the document
            t = must(w, 'twin%d' % i, lambda: R.do(twin, op[1]))
            if not w.faults and not w.line_faults:
                # the same from one that nothing was ever asked
                f = must(w, 'fresh%d' % i, lambda: R.do(untouched(), op[1]))
                if t != f:
                    raise Violation('result', '%s gives another result after %s than on a document just loaded: %s' %
                                    (op[1], [x[1][0] for x in case['ops'][:i]], first_diff(f, t)))
                w.probes['fresh'] += 1
            if o.ok:
                got = o.value
                want = t
                if op[0] == 'part':
                    w.probes['abandoned'] += 1
                    want = [x for x in t][:len(got)]
                if got != want:
                    raise Violation('result', '%s (%s) gives another result: %s' % (op[1], outcome(o, fired), first_diff(want, got)))
                w.probes['complete'] += 1
            if fired or op[0] == 'part':
                again = must(w, 'again%d' % i, lambda: R.do(doc, op[1]))
                w.probes['repeated'] += 1
                if again != t:
                    raise Violation('result', 'after %s, doing %s again gives another result: %s' %
                                    (outcome(o, fired), op[1], first_diff(t, again)))
        d = first_diff(files, w.fs.tree())
        if w.fs.tree() != files:
            raise Violation('touched', 'reading changed files')
        for x, y in zip(says, must(w, 'audit', lambda: audit(doc, case))):
            if x != y:
                raise Violation('result', 'after %s, %s of %s gives another result: %s' %
                                ([o[1] for o in case['ops']], x[0], x[1], first_diff(x[2], y[2])))
        a, b = [must(w, 'save%d' % i, lambda: (save(x, W + '/out%d.csv' % i), w.fs.peek(W + '/out%d.csv' % i))[1])
                for i, x in enumerate((doc, twin))]
        if a != b:
            raise Violation('saved', 'after reading, the document is saved differently')
        w.probes['saved'] += 1
        if not case.get('edits'):
            return
        # edits mean the same for a document that has been read and for one that has not
        new = must(w, 'new', untouched)
        must(w, 'save2', lambda: save(new, W + '/out2.csv'))
        for i, e in enumerate(case['edits']):
            a, b = [must(w, 'edit%d' % i, lambda: self.edit(x, e)) for x in (doc, new)]
            if a != b:
                raise Violation('later', 'the edit %s of a document that has been read: %s, of one that has not: %s' % (e, a, b))
        for o in [['whole']] + [o[1] for o in case['ops']] + [['t_getattr', e[1], e[2]] for e in case['edits'] if e[0] == 'set']:
            a, b = [must(w, 'later', lambda: roundtrip(whole(x)) if o[0] == 'whole' else R.do(x, o)) for x in (doc, new)]
            if a != b:
                raise Violation('later', 'after the edits %s, %s gives another result on a document that had been read: %s' %
                                (case['edits'], o, first_diff(b, a)))
        w.probes['edited'] += 1

    def variants(self, rng, case, prof, tier):
        plans = []
        lines = [(s, n) for s, n in prof['lines'].items() if s.startswith('op') and n]
        if not lines:
            return []
        for _ in range(14 if tier == 'quick' else 80):
            fs = []
            for s, n in sample(rng, lines, rng.choice([1, 1, 2, 3])):
                fs.append({'step': s, 'line': rng.randrange(n), 'kind': rng.choice(['kbd', 'kbd', 'mem'])})
            plans.append({'faults': fs})
        return plans

    def shrink(self, case):
        for i in range(len(case['ops'])):
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        for i in range(len(case['edits'])):
            yield dict(case, edits=case['edits'][:i] + case['edits'][i + 1:])


def outcome(o, fired):
    return ', '.join(fired) + ' ' + o.kind if fired else 'complete' if o.ok else repr(o)


SC = C09()
