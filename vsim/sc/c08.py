"""C08: any number of readers of one document at once each get what they would get alone, and leave it as it was."""
from ..core import Scenario, must, schedule
from ..docgen import first_diff
from .. import reads as R
from ..world import Violation
from .common import W, apart, load, put_doc, roundtrip
from .c05 import whole


class C08(Scenario):
    id = 'C08'
    units = {'quick': 280, 'thorough': 6000}
    rule = ('A case is a generated document and two to four readers, each with one to four reading operations of 50 kinds, '
            'some abandoned half way. In each plan a seeded scheduler switches between the readers at source lines or '
            'byte-code instructions of the code under test. Each result is compared with that of the same operation '
            'done alone in another process, and the whole structure with what it was.')
    stub = ['kernel file system (simulated disk)', 'clock', 'randomness', 'thread scheduler']
    expect_probes = ['same', 'abandoned']

    def gen(self, rng, tier):
        d = R.gen(rng, small=True)
        sh = R.Shape(d['tree'])
        tasks = []
        same = sh.draw(rng) if rng.random() < .4 else None     # all do the same thing first
        full = [[i] for i, t in enumerate(sh.terms) if len(t[2]) > 1]
        twice = [p for p in full if len(set(c[0] for c in sh.terms[p[0]][2])) < len(sh.terms[p[0]][2])]
        crowd = None
        if full and not same and rng.random() < .5:
            crowd = rng.choice(twice if twice and rng.random() < .6 else full)       # all look at one term that has much below it
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = [['do', same]] if same else []
            if crowd:
                ops += [['do', [rng.choice(['t_props', 't_props', 't_arg_props', 't_all_props', 't_as_dict', 't_rows', 't_descendents']), crowd]]
                        for _ in range(rng.choice([1, 2]))]
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < .15:
                    ops.append(['part', sh.draw(rng, sorted(R.ITER)), rng.randrange(6), rng.choice(['close', 'drop'])])
                else:
                    ops.append(['do', sh.draw(rng)])
            tasks.append(ops)
        return {'doc': d, 'tasks': tasks}

    def describe(self, case):
        return {'fmt': case['doc']['fmt'], 'decl': case['doc']['decl'], 'readers': [[o[1][0] for o in t] for t in case['tasks']]}

    def run(self, w, case):
        path = W + '/doc.' + case['doc']['fmt']
        put_doc(w, case['doc'], path)
        doc = must(w, 'load', lambda: load(path))
        before = whole(doc)

        def one(op):
            return R.do(doc, op[1]) if op[0] == 'do' else R.part(doc, op[1], op[2], op[3])
        want = [[apart(lambda: one(op)) for op in ops] for ops in case['tasks']]
        with w.step('conc'):
            res = w.run_tasks([(lambda ops: lambda: [roundtrip(one(op)) for op in ops])(ops) for ops in case['tasks']])
        for i, (ops, (r, e)) in enumerate(zip(case['tasks'], res)):
            if e is not None:
                raise Violation('fails', 'reader %d fails when others read: %s: %s' % (i, type(e).__name__, str(e)[:300]))
            for op, a, b in zip(ops, want[i], r):
                if a != b:
                    raise Violation('result', 'reader %d, %s: not what it gives alone: %s' % (i, op[1], first_diff(a, b)))
                w.probes['same' if op[0] == 'do' else 'abandoned'] += 1
        d = first_diff(before, whole(doc))
        if d:
            raise Violation('changed', 'reading by several readers changed the document: %s' % d)
        for i, ops in enumerate(case['tasks']):
            for op, a in zip(ops, want[i]):
                b = roundtrip(must(w, 'after', lambda: one(op)))
                if a != b:
                    raise Violation('result', 'after several readers, %s gives another result: %s' % (op[1], first_diff(a, b)))

    def variants(self, rng, case, prof, tier):
        n = prof['npoint']
        for i in range(9 if tier == 'quick' else 60):
            yield {'faults': [], 'sched': schedule(rng, n)}

    def shrink(self, case):
        t = case['tasks']
        for i in range(len(t)):
            if len(t) > 2:
                yield dict(case, tasks=t[:i] + t[i + 1:])
            for j in range(len(t[i])):
                yield dict(case, tasks=t[:i] + [t[i][:j] + t[i][j + 1:]] + t[i + 1:])


SC = C08()
