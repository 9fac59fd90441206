"""C04: identity is assigned once and stays."""
import re

from ..core import Scenario, attempt, fault_at, legal_fault, must, points, sample, save_errs
from ..docgen import DocGen, to_csv, to_lines
from ..world import Violation
from .common import HOWS, M, W, load, put_decl, quiet_load, rowgen, save

UUID = re.compile(r'^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$')
NAMING = ['Origin', 'Dataset', 'Time', 'Space', 'Grain', 'Variant']
VALS = ['census.gov', 'Foo', 'income', '2011', 'US', 'tract', 'v2', 'a_b', 'St. Mary', 'x-y', 'County',
        'the very long name of a dataset which somebody thought had better say it all at once',
        'rather_long_names.of-subdomains.of-organizations.example.com']


def slug(v):
    v = v.replace('-', '_').strip().lower()
    v = re.sub(r'[^\w\s\-\.]', '', v)
    return re.sub(r'[-\s]+', '-', v)


class C04(Scenario):
    id = 'C04'
    units = {'quick': 140, 'thorough': 4000}
    rule = ('A case is one to three documents, with or without an identifier, a name and naming terms, and a history of '
            'saves, copies into the other format and reloads by new processes. Plans make saves fail, interrupt them, '
            'kill the process or the machine inside them and move the clock; the identifier and the name are followed '
            'through the history.')
    assumptions = ['the operating system gives out random bytes that do not repeat']
    expect_probes = ['assigned', 'kept-given', 'failed-save', 'crash', 'name-generated', 'name-kept', 'name-from-identifier',
                     'cross-format', 'renamed', 'replaced', 'built', 'others']

    def gen(self, rng, tier):
        docs = []
        n = rng.choice([1, 1, 2, 3])
        same = rng.random() < .5
        for i in range(n):
            if same and docs:
                docs.append(dict(docs[0]))
                continue
            rows = []
            decl = rng.choice([None, 'metatab-latest'])
            if decl:
                rows.append(['Declare', decl])
            rows.append(['Title', 'A title %s' % rng.choice(['x', 'y'])])
            ident = rng.choice([None, None, '', 'a1b2c3', 'http://example.com/id/7', '  spaced  '])
            if ident is not None:
                rows.append(['Identifier', ident])
            name = rng.choice([None, '', 'my.name-2', 'census.gov-foo', 'old_name'])
            if name is not None:
                rows.append(['Name', name])
            naming = {}
            if rng.random() < .6:
                for k in NAMING:
                    if k == 'Dataset' or rng.random() < .5:
                        x = rng.choice(VALS) if rng.random() < .85 else rng.choice(['', ' '])
                        rows.append([k, x])
                        if x.strip():
                            naming[k] = x
                v = rng.choice([None, '3', '1.2', 'semver', 'semver'])
                if v == 'semver':
                    rows.append(['Version', rng.choice(['', '9.9.9', 'x'])])
                    parts = []
                    given = rng.choice([('Major', 'Minor', 'Patch'), ('Major', 'Minor', 'Patch'), ('Major', 'Minor', 'Patch', 'Build'),
                                        ('Major',), ('Major', 'Minor'), ('Patch',), ('Major', 'Build')])
                    for c in ('Major', 'Minor', 'Patch', 'Build'):
                        if c in given:
                            x = str(rng.randrange(9))
                            rows.append(['Version.' + c, x])
                        else:
                            x = '1'       # what is missing is 1
                        if c in given or c != 'Build':
                            parts.append(x)
                    naming['Version'] = '.'.join(parts)
                elif v:
                    rows.append(['Version', v])
                    naming['Version'] = v
            if rng.random() < .5:
                head = rows[:1] if decl else []
                rest = rows[len(head):]
                # versions stay with their children
                groups = []
                for r in rest:
                    if r[0].startswith('Version.'):
                        groups[-1].append(r)
                    else:
                        groups.append([r])
                rng.shuffle(groups)
                rows = head + [r for g in groups for r in g]
            if rng.random() < .4:
                rows += [['Section', 'Resources', 'Name', 'Identifier'], ['Datafile', 'http://x/y.csv', 'nested-name', 'nested-id']]
            others = []
            if rng.random() < .4:
                # terms of the same names that are about something else
                others = [[k, 'other %s %d' % (k, rng.randrange(9))] for k in
                          rng.sample(['Name', 'Identifier', 'Dataset', 'Version', 'Origin', 'Time'], rng.choice([1, 2, 4]))]
                sec = [['Section', 'Notes']] + others
                head = 1 if decl else 0
                if rng.random() < .5:
                    rows += sec
                else:
                    rows[head:head] = sec + [['Section', 'Root']]
            docs.append({'rows': rows, 'others': sorted(others), 'ident': (ident or '').strip() or None, 'name': name, 'naming': naming,
                         'fmt': rng.choice(['csv', 'txt']), 'how': rng.choice(['file', 'file', 'rows', 'built'])})
        hist = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            hist.append([rng.randrange(n), rng.choice(['save', 'save', 'save-other', 'reload', 'save', 'touch', 'rename',
                                                         'replace'])])
            if hist[-1][1] == 'rename':
                hist[-1] += [rng.choice(NAMING), rng.choice(VALS)]
                if hist[-1][2] != 'Dataset' and rng.random() < .2:
                    hist[-1][3] = ''
        for i in range(n):
            hist.append([i, 'save'])
        return {'docs': docs, 'hist': hist, 'how': rng.choice(HOWS)}

    def describe(self, case):
        return {'docs': [{k: d[k] for k in ('ident', 'name', 'naming', 'fmt')} for d in case['docs']], 'history': case['hist']}

    def run(self, w, case):
        put_decl(w)
        st = []
        gone = []
        for i, d in enumerate(case['docs']):
            p = W + '/d%d.%s' % (i, d['fmt'])
            doc = must(w, 'load%d' % i, lambda: self.make(w, d, p))
            st.append({'path': p, 'doc': doc, 'ident': d['ident'], 'name': None, 'spec': d, 'mem': d['ident'],
                       'naming': dict(d['naming']), 'disk': [dict(d['naming'])]})
        for k, h in enumerate(case['hist']):
            i, op = h[:2]
            s = st[i]
            label = 'op%d' % k
            if op == 'reload' and w.fs.peek(s['path']) is None:
                continue
            if op == 'replace':
                # another document takes the place of this one
                if s['ident'] and not s['spec']['ident']:
                    gone.append(s['ident'])
                w.fs.drop(s['path'])
                s.update(saved=False, doc=must(w, 're' + label, lambda: self.make(w, s['spec'], s['path'])), ident=s['spec']['ident'],
                         mem=s['spec']['ident'], name=None, naming=dict(s['spec']['naming']), disk=[dict(s['spec']['naming'])])
                w.probes['replaced'] += 1
                continue
            if op == 'reload':
                s['doc'] = must(w, 're' + label, lambda: load(s['path']))
                s['mem'] = self.ident(s['doc'])
                self.follow(w, s, 'reloading')
                self.naming(s)
                continue
            if op == 'rename':
                # change a naming term, in memory only until the next save
                t = s['doc']['Root'].find_first('Root.' + h[2])
                if t is not None:
                    t.value = h[3]
                    s['naming'] = dict(s['naming'], **{h[2]: h[3] or None})
                    s['name'] = None
                    w.probes['renamed'] += 1
                continue
            if op == 'touch':
                s['doc']['Root'].new_term('Note', 'touched %d' % k)
                continue
            path = s['path']
            if op == 'save-other':
                path = path.rsplit('.', 1)[0] + ('.csv' if path.endswith('.txt') else '.txt')
                w.probes['cross-format'] += 1
            o = attempt(w, label, lambda: save(s['doc'], path, case.get('how', 'fmt')), trace=True)
            if path == s['path']:
                s['disk'].append(s['naming'])
            if o.crashed:
                w.probes['crash'] += 1
                w.reboot()
                for x in st:
                    p = x['path']
                    if w.fs.peek(p) is None:
                        if x.get('saved'):
                            raise Violation('lost', 'after a crash, the saved document %s is gone' % p)
                        q, w.quiet = w.quiet, 1
                        x.update(doc=self.make(w, x['spec'], p), ident=x['spec']['ident'], mem=x['spec']['ident'], name=None,
                                 naming=dict(x['spec']['naming']), disk=[dict(x['spec']['naming'])])
                        w.quiet = q
                        continue
                    x['doc'] = quiet_load(w, p, 'after a crash, reading the document')
                    # what only memory knew is gone
                    x['mem'] = self.ident(x['doc'])
                    self.follow(w, x, 'a crash and reload')
                    self.naming(x)
                continue
            if o.failed:
                w.probes['failed-save'] += 1
                if not w.fired:
                    raise Violation('fails-without-fault', '%s: %r' % (label, o))
                now = self.ident(s['doc'])
                if s['mem'] and now != s['mem']:
                    raise Violation('changed', 'a failed save changed the identifier from %s to %s' % (s['mem'], now))
                s['mem'] = now
                continue
            s['path'] = path
            s['saved'] = True
            s['disk'] = [s['naming']]
            now = self.ident(s['doc'])
            if not now:
                raise Violation('none', 'after a save the document has no identifier')
            if s['mem'] and now != s['mem']:
                raise Violation('changed', 'a save changed the identifier from %s to %s' % (s['mem'], now))
            if s['spec']['ident']:
                w.probes['kept-given'] += 1
            else:
                w.probes['assigned'] += 1
                if not UUID.match(now):
                    raise Violation('form', 'the identifier %r is not a UUID' % now)
            s['mem'] = now
            s['ident'] = now
            d2 = quiet_load(w, path)
            if self.ident(d2) != now:
                raise Violation('not-saved', 'the document has the identifier %s, the saved file %s' % (now, self.ident(d2)))
            for d, what in ((s['doc'], 'the document'), (d2, 'the saved file')):
                t = sorted([x.record_term.title(), x.value] for x in d['Notes']) if 'Notes' in d else []
                if t != s['spec']['others']:
                    raise Violation('other', 'after a save the terms of another section are %s in %s, not %s' % (t, what, s['spec']['others']))
            w.probes['others'] += 1 if s['spec']['others'] else 0
            n1 = s['doc'].find_first_value('Root.Name', section='Root')
            n2 = d2.find_first_value('Root.Name', section='Root')
            if (n1 or None) != (n2 or None):
                raise Violation('name', 'the document has the name %r, the saved file %r' % (n1, n2))
            self.name(w, s, n1, now)
            if s['name'] is not None and n1 != s['name']:
                raise Violation('name', 'a save changed the name from %r to %r' % (s['name'], n1))
            s['name'] = n1
            if len([t for t in d2.find('Root.Identifier', section='Root')]) != 1:
                raise Violation('many', 'the saved file has more than one identifier')
        ids = {}
        for g in gone:
            if g in ids:
                raise Violation('shared', 'two documents have had the same identifier %s' % g)
            ids[g] = -1
        for i, s in enumerate(st):
            if not s['spec']['ident'] and s['ident']:
                if s['ident'] in ids:
                    raise Violation('shared', 'documents %d and %d have the same identifier %s' % (ids[s['ident']], i, s['ident']))
                ids[s['ident']] = i

    def make(self, w, d, p):
        """The document, as a program gets it: from a file, from rows, or made term by term."""
        how = d['how']
        if how == 'built' and any(r[0] in ('Declare', 'Section') for r in d['rows']):
            how = 'rows'
        if how == 'file':
            w.fs.put(p, to_csv(d['rows']) if p.endswith('.csv') else to_lines(d['rows']))
            return load(p)
        if how == 'rows':
            return M().MetatabDoc(rowgen(d['rows']))
        doc = M().MetatabDoc()
        w.probes['built'] += 1
        for r in d['rows']:
            if r[0].startswith('Version.'):
                doc['Root'].find_first('Root.Version').new_child(r[0].split('.')[1], r[1])
            else:
                doc['Root'].new_term(r[0], r[1].strip())
        return doc

    def ident(self, doc):
        return doc.find_first_value('Root.Identifier', section='Root') or None

    def follow(self, w, s, what):
        """What is in the file after it was acknowledged there never changes."""
        if s['ident'] and s['mem'] != s['ident']:
            raise Violation('changed', '%s changed the identifier from %s to %s' % (what, s['ident'], s['mem']))

    def naming(self, s):
        """The naming terms of the file are those of one of the saves to it."""
        now = {}
        for k in NAMING + ['Version']:
            v = s['doc'].find_first_value('Root.' + k, section='Root')
            if v:
                now[k] = v
        for n in s['disk']:
            if all(now.get(k) == n.get(k) for k in NAMING):
                s['naming'] = n
                s['name'] = None
                return
        raise Violation('changed', 'the naming terms of the file are %r, those saved were %r' % (now, s['disk']))

    def name(self, w, s, got, ident):
        spec, naming = s['spec'], s['naming']
        if spec['name'] is None:
            return
        if naming.get('Dataset'):
            order = ['Origin', 'Dataset', 'Time', 'Space', 'Grain', 'Variant', 'Version']
            want = '-'.join(slug(naming[k]) for k in order if naming.get(k))
            w.probes['name-generated'] += 1
        elif spec['name']:
            want = spec['name']
            w.probes['name-kept'] += 1
        else:
            want = ident
            w.probes['name-from-identifier'] += 1
        if got != want:
            raise Violation('name', 'after a save the name is %r, not %r' % (got, want))

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['op*'])
        plans = []
        for _ in range(12 if tier == 'quick' else 60):
            fs = []
            for s, n, op, p in sample(rng, pts, rng.choice([1, 1, 2, 3])):
                kind = rng.choice(['err', 'err', 'kill', 'power', 'kbd', 'legal'])
                if kind == 'legal':
                    fs.append(legal_fault(rng, s, n))
                elif kind == 'err':
                    fs.append(fault_at(rng, s, n, op, rng.choice(save_errs(op))))
                else:
                    fs.append(fault_at(rng, s, n, op, kind))
            plans.append({'faults': fs})
        lines = [(s, n) for s, n in prof['lines'].items() if s.startswith('op') and n]
        for _ in range(3 if tier == 'quick' else 15):
            if lines:
                s, n = rng.choice(lines)
                plans.append({'faults': [{'step': s, 'line': rng.randrange(n), 'kind': rng.choice(['kbd', 'mem'])}]})
        return plans

    def shrink(self, case):
        h = case['hist']
        for i in range(len(h)):
            yield dict(case, hist=h[:i] + h[i + 1:])


SC = C04()
