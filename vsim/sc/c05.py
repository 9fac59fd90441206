"""C05: a load is complete or fails."""
from ..core import ERRS, Scenario, attempt, fault_at, legal_fault, must, points, sample
from ..docgen import exact, first_diff, full_snap, snap
from ..simnet import SimNet
from ..world import Violation
from .common import M, W, gen_doc, put_decl, show

REFS = {'csv': ['path', 'path', 'fileurl', 'metafile', 'metaurl', 'http', 'metahttp', 'dir', 'dirhttp', 'zip',
                'urldoc'],
        'txt': ['metafile', 'metaurl', 'metahttp', 'textpath', 'textpathobj', 'texthandle']}


def open_ref(ref, path):
    """Load the document that is at path in the way that ref names."""
    m = M()
    base = path.rsplit('/', 1)[1]
    if ref == 'path':
        return m.MetatabDoc(path)
    if ref == 'fileurl':
        return m.MetatabDoc('file://' + path)
    if ref == 'metafile':
        return m.MetatabDoc('metatab+file://' + path)
    if ref == 'metaurl':
        return m.MetatabDoc(m.parse_app_url(path, proto='metatab'))
    if ref == 'http':
        return m.MetatabDoc('http://ex.org/d/' + base)
    if ref == 'metahttp':
        return m.MetatabDoc('metatab+http://ex.org/d/' + base)
    if ref == 'dir':
        return m.MetatabDoc('metatab+file://' + path.rsplit('/', 1)[0])
    if ref == 'dirhttp':
        return m.MetatabDoc('metatab+http://ex.org/d')
    if ref == 'zip':
        return m.MetatabDoc('metatab+file://' + path)
    if ref == 'urldoc':
        return m.parse_app_url(path, proto='metatab').doc
    from metatab.rowgen import TextRowGenerator
    if ref == 'textpath':
        return m.MetatabDoc(TextRowGenerator(path))
    if ref == 'textpathobj':
        import pathlib
        return m.MetatabDoc(TextRowGenerator(pathlib.Path(path)))
    if ref == 'texthandle':
        with open(path, encoding='utf8') as f:
            return m.MetatabDoc(TextRowGenerator(f))
    raise RuntimeError(ref)


def zipped(text):
    import io
    import zipfile
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w', zipfile.ZIP_DEFLATED) as z:
        for name, data in (('data/a.csv', b'x,y\r\n1,2\r\n'), ('metadata.csv', text)):
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0)), data, zipfile.ZIP_DEFLATED)
    return f.getvalue()


def whole(doc):
    decl = sorted((k, sorted((a, str(b)) for a, b in v.items())) for k, v in doc.decl_terms.items())
    return [full_snap(doc), decl, sorted((k, str(v)) for k, v in doc.decl_sections.items()),
            sorted((k, sorted(v)) for k, v in doc.derived_terms.items())]


class C05(Scenario):
    id = 'C05'
    units = {'quick': 110, 'thorough': 4000}
    real = Scenario.real + ['requests, urllib3, http.client', 'download cache of rowgenerators']
    stub = Scenario.stub + ['sockets and HTTP servers']
    rule = ('A case is a generated document in CSV or Lines, one of 13 ways to refer to it (path, URLs, web URLs, '
            'package directories and zip files, text sources), how its bytes arrive (short reads, small packets, framing), and sometimes bytes that are '
            'not text. Plans put errors, short reads, resets, early ends, error statuses, interrupts, out of memory, '
            'a removal or an atomic replacement by another process at the I/O operations or source lines of the load.')
    assumptions = ['a web server frames its answers (Content-Length or chunked), so that an early end can be noticed',
                   'the process is not killed while rowgenerators writes its download cache']
    expect_probes = ['complete', 'failed', 'recovered', 'replaced-old', 'replaced-new', 'invalid-refused', 'http',
                     'short-reads', 'interrupted', 'tolerated']

    def gen(self, rng, tier):
        d = gen_doc(rng, big=.2)
        ref = rng.choice(REFS[d['fmt']])
        new = gen_doc(rng, d['fmt'], decl=rng.choice([d['decl'], None]))
        bad = None
        if rng.random() < .12:
            bad = [rng.random(), rng.choice(['ff', 'c3', 'e28', '80', 'f09f'])]
            if len(bad[1]) % 2:
                bad[1] += '0'
        return {'doc': d, 'ref': ref, 'new': new, 'bad': bad, 'read_chunk': rng.choice([None, None, 1, 3, 50, 4096]),
                'net_chunk': rng.choice([None, 1, 10, 700]), 'framing': rng.choice(['length', 'chunked']),
                'again': rng.random() < .5 and ref != 'zip'}

    def describe(self, case):
        return {k: case[k] for k in ('ref', 'bad', 'read_chunk', 'net_chunk', 'framing')}

    def place(self, w, case, text):
        ext = case['doc']['fmt']
        path = W + '/a.' + ext
        if case['ref'] == 'dir':
            path = W + '/metadata.csv'
        elif case['ref'] == 'zip':
            path = W + '/a.zip'
            text = zipped(text)
        if 'http' in case['ref']:
            w.net.serve('ex.org', '/d/metadata.csv' if case['ref'] == 'dirhttp' else '/d/a.' + ext, text)
        else:
            w.fs.put(W + '/.new', text)
            w.fs.rename(W + '/.new', path)
        return path

    def run(self, w, case):
        put_decl(w)
        w.net = SimNet(w)
        w.net.framing = case['framing']
        if case['net_chunk'] and len(case['doc']['text']) < 800 * case['net_chunk']:
            w.net.chunk = lambda n: case['net_chunk']
        if case['read_chunk'] and len(case['doc']['text']) < 800 * case['read_chunk']:
            w.fs.read_chunk = lambda n: case['read_chunk']
            w.probes['short-reads'] += 1
        if 'http' in case['ref']:
            w.probes['http'] += 1
        old = case['doc']['text'].encode('utf8')
        tree = case['doc']['tree']
        if case['bad']:
            i = int(case['bad'][0] * len(old))
            old = old[:i] + bytes.fromhex(case['bad'][1]) + old[i:]
            try:
                old.decode('utf8')
                case = dict(case, bad=None)
                old = case['doc']['text'].encode('utf8')
            except UnicodeDecodeError:
                pass
        path = self.place(w, case, old)
        state = {'now': 'old'}
        trees = {'old': tree, 'new': case['new']['tree']}

        def on_call(f, op, p):
            self.place(w, case, case['new']['text'].encode('utf8'))
            state['now'] = 'new'
        w.on_call = on_call
        for k in range(2 if case['again'] else 1):
            label = 'load%d' % k
            nf = len(w.fired)
            before = self.files(w)
            o = attempt(w, label, lambda: open_ref(case['ref'], path), trace=True)
            fired = w.fired[nf:]
            if o.crashed:
                w.reboot()
                continue
            kbd = [f for f in fired if f.startswith('kbd@')]
            if o.ok:
                if kbd:
                    raise Violation('swallowed', 'an interrupt at %s was swallowed by the load' % kbd[0])
                if case['bad'] and state['now'] == 'old':
                    raise Violation('partial', 'a file with bytes that are not UTF-8 was loaded')
                got = exact(snap(o.value))
                if got == exact(trees['old']) and not case['bad']:
                    if state['now'] == 'new':
                        w.probes['replaced-old'] += 1
                elif state['now'] == 'new' and got == exact(trees['new']):
                    w.probes['replaced-new'] += 1
                else:
                    raise Violation('partial', 'a load that returned normally (%s) gave part of the document: %s' %
                                    (', '.join(fired) or 'no fault', first_diff(exact(trees[state['now']]), got)))
                w.probes['complete'] += 1
                w.probes['tolerated'] += 1 if fired else 0
                if state['now'] == 'old':
                    last = whole(o.value)
            else:
                if kbd:
                    w.probes['interrupted'] += 1
                    if len(fired) == 1 and not isinstance(o.exc, KeyboardInterrupt):
                        raise Violation('swallowed', 'an interrupt at %s came out as %r' % (kbd[0], o))
                if not isinstance(o.exc, Exception) and not kbd:
                    raise Violation('exit', 'a load ended with %r' % o)
                if not fired and not case['bad'] and not any(f.startswith('vanish') for f in w.fired):
                    raise Violation('fails-without-fault', 'load: %r' % o)
                if case['bad']:
                    w.probes['invalid-refused'] += 1
                w.probes['failed'] += 1
            if not any(f.startswith(('vanish', 'call')) for f in fired) and self.files(w) != before:
                raise Violation('touched', 'a load changed the files it read')
        # faults stop; what is there now has to load completely
        now = state['now']
        if case['bad'] and now == 'old':
            now = 'new'
        self.place(w, case, case['doc']['text'].encode('utf8') if now == 'old' else case['new']['text'].encode('utf8'))
        if 'http' in case['ref'] or case['ref'] == 'zip':
            # the cache of the libraries may keep what was complete before, or what could not be unpacked completely
            boot_cache(w)
        put_decl(w)
        o = attempt(w, 'heal', lambda: open_ref(case['ref'], path))
        if not o.ok:
            raise Violation('no-recovery', 'faults have stopped, but the load still fails: %r' % o)
        d = first_diff(exact(trees[now]), exact(snap(o.value)))
        if d:
            raise Violation('no-recovery', 'faults have stopped, but the load is not complete: %s' % d)
        if now == 'old' and state['now'] == 'old' and 'last' in locals():
            d = first_diff(whole(o.value), last)
            if d:
                raise Violation('partial', 'a load that returned normally (%s) misses declarations or structure: %s' %
                                (', '.join(w.fired) or 'no fault', d))
        w.probes['recovered'] += 1
        # nor is anything else affected
        w.fs.put(W + '/other.csv', b'Title,Other\r\nSection,S,Colour\r\nAlpha,1,red\r\n')
        o = attempt(w, 'other', lambda: M().MetatabDoc(W + '/other.csv'))
        want = [['root', [], [['title', 'Other', []]]], ['s', ['colour'], [['alpha', '1', [['colour', 'red', []]]]]]]
        if not o.ok or exact(snap(o.value)) != want:
            raise Violation('infected', 'after a failed load another document does not load: %r' %
                            (o if not o.ok else snap(o.value)))

    def files(self, w):
        return {p: b for p, b in w.fs.tree().items() if p.startswith(W + '/')}

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['load0'])
        singles = []
        ours = [x for x in pts if x[3].startswith((W + '/a.', W + '/metadata.csv'))]
        for s, n, op, p in pts:
            for e in ERRS.get(op, ['EIO']):
                if case['ref'] == 'textpath' and e in ('ENOENT',):
                    continue
                singles.append((s, n, op, e))
            if op != 'close':   # a destructor may close, and drops what it meets
                singles.append((s, n, op, 'kbd'))
                singles.append((s, n, op, 'mem'))
            singles.append((s, n, op, 'call'))
            if 'http' not in case['ref']:
                singles.append((s, n, op, 'kill'))
        plans = []
        # rowgenerators removes what a failed download left in its cache, unless that fails too: that is its own affair
        web = 'http' in case['ref']
        # operations on the file itself or the network matter most
        hot = [x for x in singles if x[1] in {y[1] for y in ours} or x[2] in ('connect', 'send', 'recv')]
        k = 22 if tier == 'quick' else 100
        picks = sample(rng, hot, k * 2 // 3) + sample(rng, singles, k - k * 2 // 3)
        for s, n, op, kind in picks:
            fs = [fault_at(rng, s, n, op, kind)]
            if rng.random() < .15:
                s2, n2, op2, _ = rng.choice(pts)
                fs.append(fault_at(rng, s2, n2, op2, rng.choice(ERRS.get(op2, ['EIO']))) if rng.random() < .5 and not web
                          else legal_fault(rng, s2, n2))
            if case['again'] and not web and rng.random() < .5:
                p1 = points(prof, ['load1'])
                if p1:
                    s2, n2, op2, _ = rng.choice(p1)
                    fs.append(fault_at(rng, s2, n2, op2, rng.choice(ERRS.get(op2, ['EIO']))))
            if case['ref'] == 'textpath':
                fs = [f for f in fs if f['kind'] != 'ENOENT']
            plans.append({'faults': fs})
        if ours and case['ref'] not in ('textpath',):
            for s, n, op, p in sample(rng, ours, 3):
                plans.append({'faults': [{'step': s, 'n': n, 'kind': 'vanish', 'path': p}]})
        total = prof['lines'].get('load0', 0)
        for _ in range(4 if tier == 'quick' else 20):
            if total:
                plans.append({'faults': [{'step': 'load0', 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        return plans

    def shrink(self, case):
        for k in ('read_chunk', 'net_chunk'):
            if case[k]:
                yield dict(case, **{k: None})
        if case['again']:
            yield dict(case, again=False)


def boot_cache(w):
    from .. import boot
    for p in list(w.fs.tree()):
        if p.startswith('/vsim/cache/'):
            w.fs.drop(p)
    boot.fresh_cache()


SC = C05()
