"""C07: documents do not influence each other, whatever else the process does at the same time or did before."""
import os
import re

from ..core import ERRS, Scenario, fault_at, legal_fault, must, points, sample, save_errs, schedule
from ..docgen import first_diff, snap
from .. import docgen as D
from .. import reads as R
from ..edits import apply_doc
from ..world import Violation
from .c05 import whole
from .c10 import SC as C10
from .common import M, W, apart, load, roundtrip, rowgen, save

# declarations that give the same names different meanings
VARIANTS = [lambda s: s,
            lambda s: s.replace('Root.Mu,,,Root,,Root.Nu', 'Root.Mu,,,Root,,Root.Lambda'),
            lambda s: s.replace('Root.Beta,Label', 'Root.Beta,Caption').replace('Alpha,,sequence', 'Alpha,,scalar'),
            lambda s: s.replace('DeclareTerm,Root.Iota,,,Contacts,Root.Beta,\n', '').replace('Email,Organization', 'Phone,City')]

BAD = {'noinclude': 'Title,x\nAlpha,1\nInclude,nothere.csv\nBeta,2\n',
       'nodeclare': 'Declare,nothere.csv\nTitle,x\nAlpha,1\n',
       'notext': b'Title,x\nAlpha,\xff\xfe\nBeta,2\n',
       'badlines': 'Title: x\nAlpha: 1\n'}


UUID = re.compile('[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[0-9a-f]{4}-[0-9a-f]{12}')


def anon(v, ids):
    """Generated identifiers, numbered in the order in which a program meets them."""
    if isinstance(v, str):
        return UUID.sub(lambda m: ids.setdefault(m.group(0), 'id#%d' % len(ids)), v) if '-4' in v else v
    if isinstance(v, list):
        return [anon(x, ids) for x in v]
    return v


class C07(Scenario):
    id = 'C07'
    units = {'quick': 80, 'thorough': 4000}
    rule = ('A case is two to four programs, each with a document of its own (with declarations that give the same names '
            'different meanings) and a history of edits, searches, conversions, saves, reloads, loads that fail, sources '
            'that break off and readings abandoned half way. They run as tasks that a seeded scheduler switches at I/O '
            'operations and source lines or byte-code instructions, with I/O errors for one of them in some plans. What '
            'each program observes (every result, every saved file) has to be what it observes alone in a fresh process.')
    stub = Scenario.stub + ['thread scheduler']
    expect_probes = ['same', 'hit', 'failed-load', 'again', 'shared']

    def gen(self, rng, tier):
        progs = []
        n = rng.choice([2, 2, 3, 4])
        shared = rng.random() < .3
        for i in range(n):
            while True:
                c = C10.gen(rng, 'quick')
                if len(c['doc']['text']) < 3000 and len(c['hist']) <= 24 and (c['doc']['decl'] != 'latest' or rng.random() < .15):
                    break
            sh = R.Shape(c['doc']['tree'])
            ops = [['load']]
            for h in c['hist']:
                ops.append(['h', h])
                x = rng.random()
                if x < .25:
                    ops.append(['do', sh.draw(rng)])
                elif x < .3:
                    ops.append(['part', sh.draw(rng, sorted(R.ITER)), rng.randrange(5), 'close'])
                elif x < .36:
                    ops.append(['bad', rng.choice(sorted(BAD))])
                elif x < .4:
                    ops.append(['broken', rng.randrange(1, 5), rng.random() < .1])
                elif x < .46:
                    ops.append(['incl', rng.choice(['incl', 'near'])])
                elif x < .5:
                    ops.append(['rel', rng.choice(['csv', 'csv', 'txt'])])
                elif x < .53:
                    ops.append(['sources', rng.randrange(1, 4)])
                elif x < .64:
                    ops.append(['build', rng.choice(['none', 'none', 'decl', 'decls', 'latest' if rng.random() < .2 else 'decl', 'rows', 'declare', 'declare']),
                                rng.choice(['get_or_new', 'new', 'add'])])
            ops = ops[:rng.choice([6, 10, 16])]
            ops += [['do', ['as_dict', True]], ['do', ['as_csv']], ['whole']]
            text = c['doc']['text']
            if progs and shared:
                text, c['doc'], variant = progs[0]['text0'], dict(c['doc'], fmt=progs[0]['fmt']), progs[0]['variant']
                ops = [o for o in ops if o[0] != 'h' or o[1][0] not in ('x',)]
            else:
                variant = rng.randrange(len(VARIANTS))
            progs.append({'fmt': c['doc']['fmt'], 'text0': text, 'ops': ops, 'variant': variant})
        return {'progs': progs, 'shared': shared}

    def describe(self, case):
        return {'programs': [[(o[1][0] if o[0] in ('h', 'do', 'part') else o[0]) for o in p['ops']] for p in case['progs']]}

    def place(self, w, case):
        for i, p in enumerate(case['progs']):
            d = W + '/t%d' % (0 if case['shared'] else i)
            text = p['text0'].replace(W + '/small.csv', d + '/small.csv')
            w.fs.put(d + '/small.csv', VARIANTS[p['variant']](D.SMALL_DECL).encode())
            w.fs.put(d + '/doc.' + p['fmt'], text.encode('utf8'))
            # declarations that are named relative to the document
            w.fs.put(W + '/o%d/small.csv' % i, VARIANTS[i % len(VARIANTS)](D.SMALL_DECL).encode())
            w.fs.put(W + '/o%d/near.csv' % i, b'Declare,small.csv\nTitle,x\nAlpha,1\nAlpha,2\nBeta,b,c\nMu,m\nSection,Contacts\nIota,i,e,o\n')
            w.fs.put_dir(W + '/o%d' % i)
            # a document in several files
            w.fs.put(W + '/o%d/incl.csv' % i, b'Title,x\nInclude,deep/part.csv\nNote,z\nSection,Resources,Name\nInclude,deep/more.csv\n')
            w.fs.put(W + '/o%d/deep/part.csv' % i, ('Section,Contacts,Email\nCreator,p%d,e\nInclude,more.csv\nCreator,q,f\n' % i).encode())
            w.fs.put(W + '/o%d/deep/more.csv' % i, ('Beta,b%d,c\nBeta.Colour,red\n' % i).encode())
            for k, b in BAD.items():
                w.fs.put(W + '/o%d/%s.%s' % (i, k, 'txt' if k == 'badlines' else 'csv'), b if isinstance(b, bytes) else b.encode())

    def program(self, w, case, i):
        p = case['progs'][i]
        src = W + '/t%d/doc.%s' % (0 if case['shared'] else i, p['fmt'])
        out = W + '/o%d/' % i
        seen = []
        ids = {}

        def go():
            try:
                return steps()
            except Exception as e:
                seen.append(['ended', type(e).__name__])
                return seen

        def steps():
            doc, last, open_docs = None, None, []
            for op in p['ops']:
                k = op[0]
                if k == 'load':
                    doc = load(src)
                    r = snap(doc)
                elif k == 'h':
                    h = op[1]
                    if h[0] == 'save':
                        last = out + {'own': 'own.', 'other': 'copy.', 'format': 'fmt.'}[h[1]] + p['fmt']
                        save(doc, last)
                        r = w.fs.peek(last).decode('utf8')
                    elif h[0] == 'reload':
                        if last:
                            doc = load(last)
                        r = snap(doc)
                    elif h[0] == 'find':
                        r = R.js(doc.find(h[1], section=h[2], value=h[3]))
                    else:
                        try:
                            apply_doc(doc, h)
                            r = 'done'
                        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                            r = type(e).__name__
                elif k == 'do':
                    r = R.do(doc, op[1])
                elif k == 'part':
                    try:
                        r = R.part(doc, op[1], op[2], op[3])
                    except IndexError:
                        r = 'IndexError'
                elif k == 'bad':
                    f = out + op[1] + ('.txt' if op[1] == 'badlines' else '.csv')
                    try:
                        r = snap(load(f))
                    except Exception as e:
                        r = type(e).__name__
                elif k == 'incl':
                    d2 = load(out + op[1] + '.csv')
                    r = [snap(d2), R.js(d2.as_dict()), R.js(d2.find('Root.Nu')), d2.section_args('contacts') if 'near' in op else None]
                elif k == 'rel':
                    # files are named relative to the working directory
                    d2 = M().MetatabDoc()
                    d2['Root'].new_term('Title', 'rel%d' % i)
                    rel = 'o%d/rel.%s' % (i, op[1])
                    save(d2, rel)
                    r = [w.fs.peek(W + '/' + rel).decode('utf8'), os.getcwd()]
                    if op[1] == 'csv':
                        r.append(snap(load(rel)))
                elif k == 'broken':
                    def rows():
                        yield from [['Declare', 'metatab-latest'] if op[2] else ['Subject', 'y'], ['Title', 'x'], ['Section', 'Contacts', 'Email'],
                                    ['Creator', 'me', 'a@b']][:op[1]]
                        raise LookupError('source ends')
                    try:
                        r = snap(M().MetatabDoc(rowgen(rows())))
                    except LookupError as e:
                        r = str(e)
                elif k == 'sources':
                    # another document is being built while this one is used
                    d2 = M().MetatabDoc()
                    for x in range(op[1]):
                        d2['Root'].new_term('Keyword', 'k%d' % x, lang='l%d' % i)
                    d2.get_or_new_section('Contacts', ['Email']).new_term('Creator', 'c%d' % i, email='e')
                    open_docs.append(d2)
                    r = [d2.as_csv()] + [x.as_csv() for x in open_docs]
                elif k == 'build':
                    r = self.build(i, op, W + '/t%d/small.csv' % (0 if case['shared'] else i), open_docs)
                elif k == 'whole':
                    r = [whole(doc), [x.as_csv() for x in open_docs]]
                seen.append(anon(roundtrip(r), ids))
            return seen
        return go, seen

    def build(self, i, op, decl, open_docs):
        """A document made from nothing, with or without declarations given to it."""
        m = M()
        kind, how = op[1:]
        if kind == 'rows':
            d = m.MetatabDoc(rowgen([['Title', 'x%d' % i]]), decl=decl)
        elif kind == 'declare':
            d = m.MetatabDoc(rowgen([['Declare', decl], ['Title', 'x%d' % i]]))
        else:
            d = m.MetatabDoc(decl={'none': None, 'decl': decl, 'decls': [decl], 'latest': 'metatab-latest'}[kind])
        for name in ('Contacts', 'Resources', 'Schema'):
            if how == 'get_or_new':
                s = d.get_or_new_section(name)
            elif how == 'new':
                s = d.new_section(name)
            else:
                from metatab.terms import SectionTerm
                s = d.add_section(SectionTerm(None, name, doc=d))
            t = s.new_term('Beta', 'b%d' % i, email='e', city='c')
            t['organization'] = 'o'
            t.new_child('Colour', 'x', unit='u')
            s.new_term('Iota', 'k', label='l%d' % i)
            s.new_term('Root.Iota', 'k')
            s.new_term('Root.Kappa', 'k').new_child('Kappa.Colour', 'k')
        for k in range(2):
            d['Root'].new_term('Alpha', 'a%d' % k)
            d['Root'].new_term('Mu', 'm%d' % k)
        out = [R.js(d.as_dict()), d.as_csv(), d.as_lines(), R.js(d.find('Root.Beta')), sorted(d.decl_sections), sorted(d.decl_terms),
               [d.section_args(n) for n in ('Contacts', 'Resources', 'Schema')],
               [[type(x).__name__ for x in [t] + list(t.children)] for t in d.terms]]
        open_docs.append(d)
        return out + [x.as_csv() for x in open_docs]

    def run(self, w, case):
        # the program has classes of its own for some terms
        from metatab.terms import Term
        M().MetatabDoc.register_term_class('root.beta', type('Beta', (Term,), {}))
        M().MetatabDoc.register_term_class('beta.colour', type('Colour', (Term,), {}))
        n = len(case['progs'])
        w.fs.put_dir(W)
        w.fs.cwd = W
        self.place(w, case)
        if case['shared']:
            w.probes['shared'] += 1
        want = []
        for i in range(n):
            def alone():
                with w.step('alone%d' % i):
                    return self.program(w, case, i)[0]()
            want.append(apart(alone))
            if want[-1][-1][0:1] == ['ended']:
                w.probes['ends-early'] += 1
        gos = [self.program(w, case, i) for i in range(n)]
        with w.step('conc'):
            res = w.run_tasks([g for g, s in gos])
        hit = set(t for t, f in zip(w.fired_by, w.fired) if not f.startswith(('slow', 'clock')))
        for i, (r, e) in enumerate(res):
            if i in hit:
                w.probes['hit'] += 1
                continue
            if e is not None:
                raise Violation('fails', 'program %d fails at %s when others run (faults: %s): %s: %s' %
                                (i, case['progs'][i]['ops'][len(gos[i][1])], w.fired or 'none', type(e).__name__, str(e)[:300]))
            self.compare(w, case, i, want[i], r, 'while others run')
        # and once more, after all that
        self.place(w, case)
        for i in range(n):
            go, seen = self.program(w, case, i)
            try:
                with w.step('after%d' % i):
                    r = go()
            except Exception as e:
                raise Violation('fails', 'program %d fails after others ran (faults: %s): %s: %s' %
                                (i, w.fired or 'none', type(e).__name__, str(e)[:300]))
            self.compare(w, case, i, want[i], r, 'after others ran')
            w.probes['again'] += 1

    def compare(self, w, case, i, want, got, when):
        for op, a, b in zip(case['progs'][i]['ops'], want, got):
            if a != b:
                raise Violation('influence', 'program %d observes something else %s than alone, at %s: %s' %
                                (i, when, op, first_diff(a, b)))
            w.probes['same'] += 1
            if op[0] in ('bad', 'broken'):
                w.probes['failed-load'] += 1

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['conc'])
        for i in range(6 if tier == 'quick' else 50):
            fs = []
            if rng.random() < .4:
                s, k, op, p = rng.choice(pts)
                fs.append(fault_at(rng, s, k, op, rng.choice(save_errs(op))))
            elif rng.random() < .3:
                for s, k, op, p in sample(rng, pts, 2):
                    fs.append(legal_fault(rng, s, k))
            yield {'faults': fs, 'sched': schedule(rng, prof['npoint'])}

    def shrink(self, case):
        t = case['progs']
        if len(t) > 2 and not case['shared']:
            for i in range(len(t)):
                yield dict(case, progs=t[:i] + t[i + 1:])
        for i in range(len(t)):
            ops = t[i]['ops']
            m = len(ops)
            for size in (m // 2, m // 4, 1):
                if size < 1:
                    continue
                for j in range(1, m, size):
                    yield dict(case, progs=t[:i] + [dict(t[i], ops=ops[:j] + ops[j + size:])] + t[i + 1:])


SC = C07()
