"""C10: a document after any history of edits, saves, failures, crashes and reloads is the one that the edits mean."""
from .. import docgen as D
from ..core import Scenario, attempt, fault_at, legal_fault, must, points, sample, save_errs
from ..docgen import exact, first_diff, norm, snap
from ..edits import SMALL_ARGS, EditGen, Model, apply_doc
from ..world import Violation
from .common import HOWS, M, W, load, put_doc, quiet_load, save


def below(t):
    for c in t.children:
        yield c
        yield from below(c)


class C10(Scenario):
    id = 'C10'
    units = {'quick': 300, 'thorough': 6000}
    rule = ('A case is a document (generated in CSV or Lines, or new) and a history of 5 to 60 edits of 24 kinds, searches, saves '
            'to its own or another file and reloads, drawn together with a small model of the document. Plans make '
            'saves fail, kill the process or cut the power inside or after them, and move the clock; after a crash the '
            'history goes on from the file. The document is compared with the model after every operation.')
    assumptions = ['power loss keeps a prefix of unsynced writes per file and a prefix of uncommitted directory changes']
    expect_probes = ['edit', 'reload', 'crash', 'failed-save', 'search', 'rolled-back', 'crash-kept-new']

    def gen(self, rng, tier):
        fmt = rng.choice(['csv', 'csv', 'txt'])
        decl = rng.choice([None, None, 'small', 'latest'])
        g = D.DocGen(rng, fmt, decl, size=rng.choice([0, 1, 3, 6, 10]), big=.02)
        rows = g.head(W + '/small.csv' if decl == 'small' else None)
        g.cur[2].append(['identifier', 'id-1', []])
        g.order.append(g.cur[2][-1])
        rows.append(['Identifier', 'id-1'])
        rows += g.body(g.size)
        if fmt == 'txt':
            rows = D.lines_ok(rows)
        text = (D.to_csv(rows, rng) if fmt == 'csv' else D.to_lines(rows, rng)).decode('utf8')
        m = Model(D.exact(g.tree))
        for s, t in zip(m.secs, g.tree):
            s[1] = list(t[1])
        order = [[i, j] for n in g.order for i, s in enumerate(g.tree) for j, t in enumerate(s[2]) if t is n]
        m.reorder(order)
        e = EditGen(rng, fmt, decl)
        hist = []
        for _ in range(rng.choice([5, 10, 20, 40] + ([60, 120] if tier == 'thorough' else []))):
            x = rng.random()
            if x < .1:
                hist.append(['save', rng.choice(['own', 'own', 'other', 'format' if fmt == 'txt' else 'own'])])
            elif x < .15:
                hist.append(['save', 'own'])
                hist.append(['reload'])
            elif x < .3:
                old = [h for h in hist if h[0] == 'find']
                hist.append(rng.choice(old) if old and rng.random() < .4 else ['find'] + self.query(rng, m, decl))
            elif x < .33 and decl == 'small':
                # a declared section, made, changed, deleted and made again
                n = rng.choice(sorted(SMALL_ARGS))
                new = ['new_section', n.title(), [], SMALL_ARGS[n]]
                o = [new] if m.sec(n) is None else []
                o += [['add_arg', n.title(), rng.choice(D.CHILD), rng.random() < .3] for _ in range(rng.choice([1, 2]))]
                o += [['remove_arg', n, SMALL_ARGS[n][0]]] if o[0] is new and rng.random() < .3 else []
                o += [['del_section', n.upper()], list(new)]
                for y in o:
                    m.apply(y)
                hist += o
            else:
                o = e.op(m)
                m.apply(o)
                hist.append(o)
        hist += [['save', 'own'], ['reload']]
        return {'doc': {'fmt': fmt, 'decl': decl, 'text': text, 'tree': g.tree}, 'order': order, 'hist': hist, 'how': rng.choice(HOWS)}

    def query(self, rng, m, decl):
        names = [n[0] for n in m.order]
        kids = [(n[0], c[0]) for n in m.order for c in n[2]]
        q = 'root.' + rng.choice(names)
        if kids and rng.random() < .5:
            p, c = rng.choice(kids)
            q = rng.choice(['%s.%s' % (p, c), '*.%s' % c, '%s.*' % p])
        elif rng.random() < .1:
            q = 'root.*'
        sec = rng.choice([None, None, rng.choice(m.secs)[0]])
        if rng.random() < .25:
            sec = rng.sample([s[0] for s in m.secs], rng.randrange(1, 1 + min(3, len(m.secs))))
        value = False
        if rng.random() < .3:
            v = [n[1] for n in m.order if n[1]]
            value = rng.choice(v) if v else False
            if value and rng.random() < .4:     # nearly
                value = rng.choice([value.upper(), value.lower(), value.swapcase(), value + ' ', value[:-1], ' ' + value])
        props = []
        if kids and rng.random() < .3:
            n = rng.choice([n for n in m.order if n[2]])
            c = rng.choice([c for c in n[2]])
            v = [x for x in n[2] if x[0] == c[0]][0][1]     # of several, the first counts
            if v and c[0].isidentifier() and c[0] not in ('term', 'value', 'section', 'self') + tuple(D.VALUE_NAMES):
                props = [[c[0], v]]
                q = 'root.' + n[0]
                value = rng.choice([False, n[1]])
        more = []
        if not props and rng.random() < .15:
            more = ['root.' + rng.choice(names) for _ in range(rng.choice([1, 2]))]
        return [rng.choice([q, q.title(), q.upper()]), sec, value, props, more]

    def describe(self, case):
        return {'fmt': case['doc']['fmt'], 'decl': case['doc']['decl'], 'operations': len(case['hist'])}

    def run(self, w, case):
        fmt, decl = case['doc']['fmt'], case['doc']['decl']
        path = W + '/doc.' + fmt
        put_doc(w, case['doc'], path)
        doc = must(w, 'load', lambda: load(path))
        d = first_diff(exact(case['doc']['tree']), exact(snap(doc)))
        if d:
            raise Violation('load', 'the document was not loaded as written: %s' % d)
        m = Model(snap(doc))
        m.reorder(case['order'])
        cur = norm(m.tree())        # what the file says now
        allowed = [cur]             # what a power loss may leave: more than one if the last save was not acknowledged
        asked = []
        for i, op in enumerate(case['hist']):
            k = op[0]
            if k == 'find':
                self.search(w, case, doc, m, op)
                asked = [x for x in asked if x != op][-2:] + [op]
                continue
            if k not in ('reload', 'save') and asked and i % 2:
                # once more what was asked before
                self.search(w, case, doc, m, asked[i // 2 % len(asked)])
            if k == 'reload':
                doc = must(w, 'reload%d' % i, lambda: load(path))
                m = self.adopt(w, case, path, doc, [cur], 'reloading')
                w.probes['reload'] += 1
                continue
            if k == 'save':
                p = path
                if op[1] == 'other':
                    p = W + '/copy.' + path.rsplit('.', 1)[1]
                elif op[1] == 'format':
                    p = W + '/doc.' + ('csv' if path.endswith('txt') else 'txt')
                o = attempt(w, 'save%d' % i, lambda: save(doc, p, case.get('how', 'fmt')))
                new = norm(m.tree())
                if o.ok:
                    path = p
                    cur, allowed = new, [new]
                    if w.moment('idle%d' % i):
                        w.probes['crash'] += 1
                        doc = quiet_load(w, path, 'after a crash')
                        m = self.adopt(w, case, path, doc, [cur], 'a crash after an acknowledged save')
                elif o.crashed:
                    w.probes['crash'] += 1
                    power = w.crash and w.crash['kind'] == 'power'
                    w.reboot()
                    doc = quiet_load(w, path, 'after a crash')
                    both = list(allowed) if power else [cur]
                    if p == path and new not in both:
                        both.append(new)
                    m = self.adopt(w, case, path, doc, both, 'a crash')
                    cur = norm(m.tree())
                    if len(both) > 1:
                        w.probes['crash-kept-new' if cur == new else 'rolled-back'] += 1
                    allowed = [cur] if power else both + [x for x in allowed if x not in both]
                else:
                    if not w.fired:
                        raise Violation('fails-without-fault', 'save: %r' % o)
                    w.probes['failed-save'] += 1
                    # the file is one of the two
                    if p == path:
                        t = norm(snap(quiet_load(w, path)))
                        if t not in (cur, new):
                            raise Violation('torn', 'after a failed save the file is neither the old nor the new one')
                        cur = t
                        if new not in allowed:
                            allowed = allowed + [new]
                self.same(w, doc, m, op)
                continue
            if not m.ok(op, decl):
                continue
            m.apply(op)
            must(w, 'edit%d' % i, lambda: apply_doc(doc, op), 'the edit %s' % op)
            w.probes['edit'] += 1
            self.same(w, doc, m, op)

    def same(self, w, doc, m, op):
        d = first_diff(exact(m.tree()), exact(snap(doc)))
        if d:
            raise Violation('edit', 'after %s the document is not what it should be (expected != found): %s' % (op, d))
        want = [[n[0], n[1]] for n in m.order]
        got = [[t.record_term_lc, t.value] for t in doc.terms
               if t.file_type != 'declare']   # terms of declarations are there as well
        d = first_diff(want, got)
        if d:
            raise Violation('terms', 'after %s the terms of the document are not those of its sections: %s' % (op, d))
        for s in doc:
            for t in s:
                if t.section is not s or t.doc is not doc or any(x.section is not s or x.doc is not doc for x in below(t)):
                    raise Violation('owner', 'after %s the term %s does not belong to the section that it is in' % (op, t))

    def adopt(self, w, case, path, doc, allowed, what):
        t = norm(snap(doc))
        if t not in allowed:
            raise Violation('reload', 'after %s the document is not what was saved: %s' % (what, first_diff(allowed[0], t)))
        m = Model(snap(doc))
        if w.fs.peek(path) == case['doc']['text'].encode('utf8'):
            m.reorder(case['order'])    # never saved: as it was written by hand
        return m

    def search(self, w, case, doc, m, op):
        if case['doc']['decl'] == 'latest':
            return
        _, q, sec, value, props, more = op
        if (q.lower() == 'root.*' or more) and case['doc']['decl']:
            return
        if props:
            want = [n for n in m.order if 'root.' + n[0] == q.lower() and (value is False or n[1] == value)
                    and (sec is None or m.section_of(n) in ([sec] if isinstance(sec, str) else sec))
                    and all([x[1] for x in n[2] if x[0] == c][:1] == [v] for c, v in props)]
            if case['doc']['decl'] == 'small' and q.lower()[5:] in D.SMALL_DERIVED:
                return
            got = must(w, 'find', lambda: doc.find(q, section=sec, value=value, **dict(props)))
            w.probes['search-props'] += 1
            if [n[1] or None for n in want] != [t.value or None for t in got]:
                raise Violation('search', 'searching %s in section %s with value %r and properties %r finds %r, not %r'
                                % (q, sec, value, props, [t.value for t in got], [n[1] for n in want]))
            return
        if more:
            want = [v for x in [q] + more for v in m.find(x.lower(), sec, value, ())]
            got = [t.value for t in must(w, 'find', lambda: doc.find([q] + more, section=sec, value=value))]
            w.probes['search-list'] += 1
            if [x or None for x in want] != [x or None for x in got]:
                raise Violation('search', 'searching %s in section %s with value %r finds %r, not %r' % ([q] + more, sec, value, got, want))
            return
        derived = D.SMALL_DERIVED.get(q.lower().replace('root.', ''), []) if case['doc']['decl'] == 'small' else []
        want = m.find(q.lower(), sec, value, derived)
        got = [t.value for t in must(w, 'find', lambda: doc.find(q, section=sec, value=value))]
        w.probes['search'] += 1
        first = must(w, 'find', lambda: doc.find_first(q, section=sec, value=value))
        if (first.value if first is not None else None) != (got[0] if got else None):
            raise Violation('search', 'searching %s in section %s with value %r finds %r, but the first is %r' % (q, sec, value, got, first))
        if value is False and must(w, 'find', lambda: doc.find_first_value(q, section=sec)) != (got[0] if got else None):
            raise Violation('search', 'the first value of %s in section %s is not that of the first term %r' % (q, sec, got))
        if value is False and must(w, 'find', lambda: doc.get_value(q, 'none', section=sec)) != (got[0] if got else 'none'):
            raise Violation('search', 'the value of %s in section %s is not that of the first term %r' % (q, sec, got))
        if [x or None for x in want] != [x or None for x in got]:
            raise Violation('search', 'searching %s in section %s with value %r finds %r, not %r' % (q, sec, value, got, want))

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['save*'])
        idle = points(prof, ['idle*'])
        plans = []
        for _ in range(5 if tier == 'quick' else 30):
            fs = []
            for s, n, op, p in sample(rng, pts, rng.choice([1, 2, 3])):
                k = rng.choice(['err', 'err', 'kill', 'power', 'power', 'legal', 'kbd'])
                if k == 'legal':
                    fs.append(legal_fault(rng, s, n))
                elif k == 'err':
                    fs.append(fault_at(rng, s, n, op, rng.choice(save_errs(op))))
                else:
                    fs.append(fault_at(rng, s, n, op, k))
            for s, n, op, p in sample(rng, idle, rng.choice([0, 1, 2])):
                fs.append({'step': s, 'n': n, 'kind': 'power', 'names': 0, 'data': 0, 'torn': 0})
            plans.append({'faults': fs})
        return plans

    def shrink(self, case):
        h = case['hist']
        n = len(h)
        for size in (n // 2, n // 4, 1):
            if size < 1:
                continue
            for i in range(0, n, size):
                c = h[:i] + h[i + size:]
                if self.addressable(case, c):
                    yield dict(case, hist=c)

    def addressable(self, case, h):
        return True


SC = C10()
