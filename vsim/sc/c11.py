"""C11: a source of rows is read once, in order and only as far as needed, and its failures reach the caller."""
import asyncio
import csv

from .. import docgen as D
from ..core import Scenario, attempt, must, points, sample, schedule
from ..docgen import exact, first_diff, snap
from ..world import Violation
from .c05 import whole
from .common import M, W, put_decl, rowgen

ERRORS = {'os': lambda: OSError(5, 'Input/output error'), 'value': lambda: ValueError('bad cell'),
          'runtime': lambda: RuntimeError('lost'), 'eof': lambda: EOFError('gone'), 'conn': lambda: ConnectionResetError(104, 'reset'),
          'key': lambda: KeyError('missing'), 'attr': lambda: AttributeError('no such thing'), 'index': lambda: IndexError('past the end'),
          'type': lambda: TypeError('what is this'), 'assert': lambda: AssertionError('never'), 'kbd': lambda: KeyboardInterrupt(),
          'timeout': lambda: TimeoutError(110, 'timed out'), 'unicode': lambda: UnicodeDecodeError('utf8', b'x', 0, 1, 'bad'),
          'mem': lambda: MemoryError(), 'exit': lambda: SystemExit(3), 'block': lambda: BlockingIOError(11, 'would block'),
          'intr': lambda: InterruptedError(4, 'interrupted'), 'perm': lambda: PermissionError(13, 'denied'),
          'nofile': lambda: FileNotFoundError(2, 'gone'), 'pipe': lambda: BrokenPipeError(32, 'broken'), 'os0': lambda: OSError('no number'),
          'lookup': lambda: LookupError('where'), 'zero': lambda: ZeroDivisionError('n/0'), 'stopasync': lambda: StopAsyncIteration(),
          'csv': lambda: csv.Error('field larger than limit'), 'custom': lambda: Custom('mine'), 'base': lambda: CustomBase('mine'),
          'recursion': lambda: RecursionError('deep'), 'notimpl': lambda: NotImplementedError(), 'import': lambda: ImportError('x'),
          'warn': lambda: UserWarning('w'), 'cancel': lambda: asyncio.CancelledError(), 'source': lambda: lib('rowgenerators', 'SourceError'),
          'include': lambda: lib('metatab.exc', 'IncludeError'), 'metatab': lambda: lib('metatab.exc', 'MetatabError'),
          'parser': lambda: lib('metatab.exc', 'ParserError'), 'appurl': lambda: lib('rowgenerators.exceptions', 'AppUrlError')}


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


def lib(mod, name):
    import importlib
    return getattr(importlib.import_module(mod), name)('from the source')


NOTERM = ('header', 'include')      # rows that give no term of their own


def number(c):
    for f in (int, float):
        try:
            if str(f(c)) == c and c != 'nan':
                return f(c)
        except (ValueError, OverflowError):
            pass
    return c


class Feed(object):
    """A source of rows under the control of the simulation, that remembers how it was used."""

    def __init__(self, w, rows, live=None, faults=True):
        self.w, self.rows, self.live, self.faults = w, rows, live, faults
        self.asked = 0          # rows handed over
        self.ended = 0          # times the end was reported
        self.iters = 0
        self.error = None

    def __iter__(self):
        self.iters += 1
        return self

    def __next__(self):
        w = self.w
        if self.error is not None:
            raise Violation('reused', 'a source that has failed is asked for another row')
        if self.ended:
            raise Violation('reused', 'a source that has ended is asked for another row')
        if self.faults and not w.quiet:
            f = w.io_point('row', 'feed')
            if f is not None:
                w.probes['source-failed'] += 1
                self.error = ERRORS[f['kind'][4:]]()
                raise self.error
        if self.live is not None:
            if w.cur is not None:
                while self.live['ready'] <= self.asked and not self.live['closed']:
                    w.block(lambda: self.live['ready'] > self.asked or self.live['closed'])
        if self.asked >= len(self.rows):
            self.ended += 1
            raise StopIteration
        r = list(self.rows[self.asked])
        self.asked += 1
        w.log('row %d' % self.asked)
        return r


class C11(Scenario):
    id = 'C11'
    units = {'quick': 400, 'thorough': 8000}
    rule = ('A case is a generated sequence of rows (with declarations and includes in some), a kind of source (list, '
            'generator, iterator, live feed filled by another task) and a consumer (document, or terms one by one, perhaps '
            'stopping half way). Plans make the source fail at some row with one of 36 kinds of exception, delay rows, '
            'interleave the feeding task, or raise an interrupt at a source line. The use of the source, the terms and '
            'their order, the document and what the caller sees are compared with the model.')
    stub = Scenario.stub + ['row sources', 'thread scheduler']
    expect_probes = ['document', 'streamed', 'stopped', 'source-failed', 'live', 'interrupted', 'recovered', 'two-feeds']

    def gen(self, rng, tier):
        decl = rng.choice([None, None, None, 'small', 'latest'])
        g = D.DocGen(rng, 'csv', decl, big=.02)
        rows = g.doc(W + '/small.csv' if decl == 'small' else None)
        if rng.random() < .6:
            # a source may have numbers in its columns
            rows = [r if len(r) < 3 or str(r[0]).strip().lower().split('.')[-1] in ('section', 'header', 'include', 'declare') else
                    list(r[:2]) + [number(c) for c in r[2:]] for r in rows]
        return {'rows': rows, 'tree': g.tree, 'decl': decl,
                'source': rng.choice(['list', 'gen', 'iter', 'iter', 'live', 'live', 'wrapped', 'tuple']),
                'use': rng.choice(['doc', 'doc', 'terms', 'terms', 'some']), 'some': rng.randrange(1, 30),
                'two': rng.random() < .3}

    def describe(self, case):
        return {k: case[k] for k in ('source', 'use', 'two', 'decl')}

    def source(self, w, case, feed):
        k = case['source']
        if k == 'gen':
            def g():
                for r in feed:
                    yield r
            return rowgen(g())
        if k == 'wrapped':
            from rowgenerators import get_generator

            def g2():
                for r in feed:
                    yield r
            return get_generator(g2())
        return rowgen(feed)

    def run(self, w, case):
        put_decl(w)
        rows = case['rows']
        if case['source'] == 'tuple':
            rows = [tuple(r) for r in rows]
        live = {'ready': 0, 'closed': False} if case['source'] == 'live' else None
        feed = Feed(w, rows, live)
        if case['source'] == 'list':
            src = rowgen([list(r) for r in rows])
        else:
            src = self.source(w, case, feed)
        n = len(rows)
        out = {}

        def use():
            if case['use'] == 'doc':
                out['doc'] = M().MetatabDoc(src)
                return
            from metatab.parser import TermParser
            doc = M().MetatabDoc()
            p = TermParser(src, doc=doc)
            out['rows'] = []
            out['seq'] = []
            k = 0
            for t in p:
                t.doc = doc
                if getattr(t, 'row', None) and t.file_type is None and feed.iters:
                    out['rows'].append([t.row, feed.asked])
                out['seq'].append([t.term, t.value, t.row if t.file_type is None else None])
                k += 1
                if case['use'] == 'some' and k >= case['some']:
                    out['stopped'] = True
                    break
            out['n'] = k
        if live is None:
            o = attempt(w, 'use', use, trace=True)
        else:
            w.probes['live'] += 1

            def fill():
                while live['ready'] < n:
                    w.sleep(.5)
                    live['ready'] += 1
                live['closed'] = True
            fns = [use, fill]
            if case['two']:
                w.probes['two-feeds'] += 1
                l2 = {'ready': 0, 'closed': False}
                f2 = Feed(w, [['Title', 'other'], ['Section', 'S', 'Colour'], ['Alpha', '1', 'red'], ['.Colour', 'blue']], l2, False)

                def use2():
                    out['doc2'] = M().MetatabDoc(rowgen(f2))

                def fill2():
                    while l2['ready'] < 4:
                        w.sleep(.7)
                        l2['ready'] += 1
                    l2['closed'] = True
                fns += [use2, fill2]
            from ..core import Outcome
            with w.step('use'):
                res = w.run_tasks(fns)
            for i, (r, e) in enumerate(res):
                if i and e is not None:
                    if isinstance(e, Violation):
                        raise e
                    raise Violation('fails', 'a task beside the consumer fails: %s: %s' % (type(e).__name__, e))
            e = res[0][1]
            if isinstance(e, Violation):
                raise e
            o = Outcome('ok') if e is None else Outcome('exc', exc=e)
            if case['two']:
                want = [['root', [], [['title', 'other', []]]],
                        ['s', ['colour'], [['alpha', '1', [['colour', 'red', []], ['colour', 'blue', []]]]]]]
                if snap(out['doc2']) != want:
                    raise Violation('mixed', 'two documents from two live sources: %s' % first_diff(want, snap(out['doc2'])))
        counted = feed.iters > 0
        kbd = any(f.startswith(('kbd', 'mem')) for f in w.fired)
        if kbd:
            w.probes['interrupted'] += 1
            if o.ok and any(f.startswith('kbd') for f in w.fired) and not out.get('stopped'):
                raise Violation('swallowed', 'an interrupt was swallowed')
        elif feed.error is not None:
            if o.ok:
                raise Violation('hidden', 'the source failed at row %d with %r, but the caller sees no failure' %
                                (feed.asked, feed.error))
            e, chain = o.exc, []
            while e is not None and e not in chain:
                chain.append(e)
                e = e.__cause__ or e.__context__
            if feed.error not in chain:
                raise Violation('disguised', 'the source failed with %r, the caller sees %r' % (feed.error, o.exc))
            if not isinstance(feed.error, Exception) and o.exc is not feed.error:
                raise Violation('disguised', 'the source was interrupted with %r, the caller sees %r' % (feed.error, o.exc))
        else:
            if not o.ok:
                raise Violation('fails-without-fault', 'reading the rows: %r' % o)
            if counted and not out.get('stopped') and feed.asked != n:
                raise Violation('unread', 'the source was read up to row %d of %d' % (feed.asked, n))
        if counted and feed.iters > 2:
            raise Violation('reused', 'the source was started %d times' % feed.iters)
        # no row is asked for before the terms of the rows before it are out
        last = 0
        for row, asked in out.get('rows', []):
            if row < last:
                raise Violation('order', 'a term of row %d comes after one of row %d' % (row, last))
            last = row
            if asked > row:
                raise Violation('ahead', 'row %d was asked for before the terms of row %d were delivered' % (asked, row))
            w.probes['streamed'] += 1
        if out.get('stopped'):
            w.probes['stopped'] += 1
        if 'seq' in out and not kbd:
            self.sequence(w, case, out['seq'], feed.asked if counted else n, o.ok and not out.get('stopped'), bool(out.get('stopped')))
        if 'doc' in out:
            d = first_diff(exact(case['tree']), exact(snap(out['doc'])))
            if d:
                raise Violation('document', 'the rows give another document: %s' % d)
            w.probes['document'] += 1
            w.fs.put(W + '/same.csv', D.to_csv([[str(c) for c in r] for r in case['rows']]))
            f = must(w, 'file', lambda: M().MetatabDoc(W + '/same.csv'))
            a, b = whole(out['doc']), whole(f)
            d = first_diff(b, a)
            if d and not any(not isinstance(c, str) for r in case['rows'] for c in r):     # numbers stay numbers in the raw columns
                raise Violation('document', 'the same rows in a file give another document: %s' % d)
        # whatever happened, a new source works
        again = Feed(w, case['rows'])
        doc = must(w, 'again', lambda: M().MetatabDoc(rowgen(again)))
        d = first_diff(exact(case['tree']), exact(snap(doc)))
        if d:
            raise Violation('no-recovery', 'afterwards, the rows of another source give: %s' % d)
        w.probes['recovered'] += 1

    def sequence(self, w, case, got, asked, done, stopped):
        """The terms delivered are those of the rows handed over, all of them and nothing else."""
        def ref(upto):
            from metatab.parser import TermParser
            doc = M().MetatabDoc()
            out = []
            for t in TermParser(rowgen([list(r) for r in case['rows'][:upto]]), doc=doc):
                t.doc = doc
                out.append([t.term, t.value, t.row if t.file_type is None else None])
            return out
        want = must(w, 'ref', lambda: ref(asked))
        if stopped:
            want = want[:len(got)]
        d = first_diff(want, got)
        if d:
            raise Violation('delivered', 'of the %d rows handed over, the terms delivered are not those of the rows: %s' % (asked, d))
        # the model of the rows, without what the declarations mean: every row with a name is there in order
        named = [i for i, r in enumerate(case['rows'][:asked], 1) if r and r[0] and str(r[0]).strip() and not str(r[0]).strip().startswith('#')]
        if not stopped:
            seen = []
            for t in got:
                if t[2] is not None and (not seen or seen[-1] != t[2]):
                    seen.append(t[2])
            miss = [i for i in named if i not in seen and str(case['rows'][i - 1][0]).strip().lower() not in NOTERM
                    and [str(c).strip().lower() for c in case['rows'][i - 1][:2]] != ['section', 'root']]   # the section that is there from the start
            if miss:
                raise Violation('delivered', 'row %d was handed over, but no term of it delivered: %r' % (miss[0], case['rows'][miss[0] - 1]))

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['use'], ops=['row'])
        total = prof['lines'].get('use', 0)
        for i in range(6 if tier == 'quick' else 30):
            plan = {'faults': []}
            x = rng.random()
            if case['source'] == 'live':
                plan['sched'] = schedule(rng, prof['npoint'])
            elif total and (x < .4 or not pts):
                plan['faults'] = [{'step': 'use', 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]
            if pts and not plan['faults'] and (case['source'] != 'live' or x < .5):
                s, n, op, p = rng.choice(pts)
                plan['faults'] = [{'step': s, 'n': n, 'kind': 'src:' + rng.choice(sorted(ERRORS))}]
            yield plan

    def shrink(self, case):
        if case['two']:
            yield dict(case, two=False)


SC = C11()
