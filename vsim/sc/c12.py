"""C12: the command line program says that it succeeded only if all of the output has been delivered."""
import json

from .. import docgen as D
from .. import reads as R
from ..climod import run_cli
from ..core import ERRS, Scenario, attempt, fault_at, legal_fault, must, points, sample, save_errs
from ..docgen import first_diff, norm, snap
from ..world import Violation
from .common import M, W, apart, put_decl, quiet_load, show

FLAGS = {'csv': ['-c'], 'line': ['-l'], 'json': ['-j'], 'yaml': ['-y'], 'terms': ['-t'], 'prety': ['-p'], 'default': []}
EXT = {'csv': 'csv', 'default': 'csv', 'line': 'txt', 'json': 'json', 'yaml': 'yaml'}

# commands that cannot be carried out, whatever happens
HOPELESS = {'noterm': None, 'nofile': None, 'noinclude': 'Title,x\nInclude,nothere.csv\nNote,y\n', 'nodeclare': 'Declare,nothere.csv\nTitle,x\n',
            'notext': b'Title,x\nNote,\xff\xfe\nNote,y\n', 'loop': 'Title,x\nInclude,doc.csv\n', 'notdecl': None}


class C12(Scenario):
    id = 'C12'
    units = {'quick': 120, 'thorough': 4000}
    rule = ('A case is a generated document and a command line: conversion to CSV, Lines, JSON or YAML, to standard output or '
            'in place, listing terms, printing a value or a declaration. Plans put errors, short writes, a closed or full '
            'output, interrupts, out of memory, kills and power losses at the I/O operations and lines of the run. The '
            'exit status, the standard streams and the whole disk are compared with those of an undisturbed run, and the '
            'output with the model of the document.')
    stub = Scenario.stub + ['standard streams', 'process exit (flush at exit, status)']
    assumptions = ['power loss keeps a prefix of unsynced writes per file and a prefix of uncommitted directory changes']
    expect_probes = ['complete', 'failed', 'in-place', 'printed', 'stdout-fault', 'old-after-crash', 'interrupted', 'tolerated', 'unencodable', 'hopeless']

    def gen(self, rng, tier):
        d = R.gen(rng, size=rng.choice([2, 5, 10, 20]))
        out = rng.choice(['csv', 'line', 'json', 'json', 'yaml', 'terms', 'prety', 'default', 'find', 'decl', 'hopeless'])
        inplace = out in EXT and rng.random() < .45
        if out == 'hopeless':
            out = rng.choice(sorted(EXT))
            return {'doc': d, 'out': out, 'inplace': rng.random() < .6, 'hopeless': rng.choice(sorted(HOPELESS)), 'existing': rng.choice([None, 'old']),
                    'form': 'path', 'enc': 'utf-8', 'linebuf': False}
        existing = rng.choice([None, 'old', 'big'])
        query = None
        if out == 'find' and rng.random() < .6:
            # the same name in several places
            query = 'Root.Quux'
            rows = []
            for i in range(rng.choice([2, 3, 4])):
                sec = rng.choice(['Root', 'Root', 'One Place', 'Another', 'Resources'])
                rows += [['Section', sec]] + [['Quux', 'q%d' % rng.randrange(99)] for _ in range(rng.choice([0, 1, 2]))]
            rows += [['Section', 'Root'], ['Quux', 'last']]
            d = dict(d, text=d['text'].rstrip('\r\n') + '\n\n' + (('\n'.join(': '.join(r) for r in rows) if d['fmt'] == 'txt' else
                                                               '\n'.join(','.join(r) for r in rows)) + '\n'))
        return {'query': query, 'doc': d, 'out': out, 'inplace': inplace, 'existing': existing, 'linebuf': rng.random() < .2,
                'enc': rng.choice(['utf-8', 'utf-8', 'utf-8', 'ascii', 'latin-1', 'cp1252', 'utf-16-le']),
                'form': rng.choice(['path', 'path', 'url']) if d['fmt'] == 'csv' else 'path',
                'term': rng.randrange(1000)}

    def describe(self, case):
        return {k: case[k] for k in ('out', 'inplace', 'existing', 'form', 'enc')}

    def argv(self, case, path):
        if case['form'] == 'url':
            path = 'file://' + path
        o = case['out']
        if o == 'find' and case.get('query'):
            return ['-f', case['query'], path]
        if o == 'find':
            names = [t[0] for s in case['doc']['tree'] for t in s[2]]
            return ['-f', 'Root.' + names[case['term'] % len(names)], path]
        if o == 'decl':
            return ['-d', '-j' if case['term'] % 2 else '-y', W + '/small.csv']
        return (['-W'] if case['inplace'] else []) + FLAGS[o] + [path]

    def run(self, w, case):
        put_decl(w)
        if case.get('hopeless'):
            return self.hopeless(w, case)
        path = W + '/doc.' + case['doc']['fmt']
        w.fs.put(path, case['doc']['text'].encode('utf8'))
        target = W + '/doc.' + EXT[case['out']] if case['inplace'] else None
        if target and target != path and case['existing']:
            w.fs.put(target, b'old' * (1 if case['existing'] == 'old' else 9000))
        argv = self.argv(case, path)
        before = w.fs.tree()

        def calm():
            with w.step('calm'):
                w.quiet = 1
                r = run_cli(w, argv)
            t = w.fs.tree()
            return [r.code, r.out.decode('utf8'), r.err, t[target].decode('utf8') if target else None,
                    sorted(k for k in t if t[k] != before.get(k) and not k.startswith('/vsim/.ov')), sorted(k for k in before if k not in t)]
        code, out, err, written, changed, gone = apart(calm)
        if code != 0:
            raise Violation('fails-without-fault', 'metatab %s: exit %s: %s' % (' '.join(argv), code, err[-300:]))
        if changed != ([target] if target else []) and not (target and changed == [] and before.get(target) == written.encode('utf8')) or gone:
            raise Violation('touched', 'metatab %s changes %s and removes %s' % (' '.join(argv), changed, gone))
        self.content(w, case, path, written if target else out)
        if target and out:
            raise Violation('output', 'metatab %s: output on standard output as well' % ' '.join(argv))
        new = written.encode('utf8') if target else None
        old = before.get(target) if target else None
        seen = []
        if target:
            def watch(op, p):
                b = w.fs.peek(target)
                if b != old and b != new and not seen:
                    seen.append(b)
            w.watch = watch
        # what the terminal or file that takes the output can hold
        enc = case['enc']
        try:
            data = out.encode(enc)
            fits = True
        except UnicodeError:
            fits = False
            w.probes['unencodable'] += 1
        o = attempt(w, 'run', lambda: run_cli(w, argv, case['linebuf'], enc), trace=True)
        w.watch = None
        if seen:
            raise Violation('torn', 'while metatab %s runs, a reader finds %s' % (' '.join(argv), show(seen[0])))
        if o.failed:
            raise o.exc
        if o.crashed:
            w.reboot()
            if target:
                b = w.fs.peek(target)
                if b not in (old, new):
                    raise Violation('torn', 'after a crash in metatab %s the target is %s' % (' '.join(argv), show(b)))
                w.probes['old-after-crash' if b == old else 'new-after-crash'] += 1
        else:
            r = o.value
            faults = ', '.join(w.fired) or 'no fault'
            if not target and any('@write' in x for x in w.fired):
                w.probes['stdout-fault'] += 1
            kbd = any(f.startswith('kbd') for f in w.fired)
            if kbd:
                w.probes['interrupted'] += 1
                if r.code == 0:
                    raise Violation('swallowed', 'metatab %s was interrupted, but exits with 0' % ' '.join(argv))
            if r.code == 0:
                if not fits:
                    raise Violation('incomplete', 'metatab %s exits with 0 (%s), but the output has no form in %s' %
                                    (' '.join(argv), faults, enc))
                if r.out != data:
                    raise Violation('incomplete', 'metatab %s exits with 0 (%s), but of %d bytes of output %d were delivered%s' %
                                    (' '.join(argv), faults, len(data), len(r.out),
                                     '' if len(data) != len(r.out) else ', others'))
                if target and w.fs.peek(target) != new:
                    raise Violation('incomplete', 'metatab %s exits with 0 (%s), but the target is %s' %
                                    (' '.join(argv), faults, show(w.fs.peek(target))))
                w.probes['complete'] += 1
                w.probes['in-place' if target else 'printed'] += 1
                w.probes['tolerated'] += 1 if w.fired else 0
                if target and w.moment('later'):
                    if w.fs.peek(target) != new:
                        raise Violation('not-durable', 'metatab %s exits with 0, but after a power loss the target is %s' %
                                        (' '.join(argv), show(w.fs.peek(target))))
            else:
                if not w.fired and fits:
                    raise Violation('fails-without-fault', 'metatab %s: %r' % (' '.join(argv), r))
                if not r.err.strip() and r.code not in (120, 130):
                    raise Violation('silent', 'metatab %s fails (%s) without a message' % (' '.join(argv), faults))
                if not (data.startswith(r.out) if fits else out.startswith(r.out.decode(enc, 'replace'))):
                    raise Violation('garbage', 'metatab %s fails (%s) and prints something else than the beginning of the output'
                                    % (' '.join(argv), faults))
                if target and w.fs.peek(target) not in (old, new):
                    raise Violation('torn', 'metatab %s fails (%s), the target is %s' % (' '.join(argv), faults, show(w.fs.peek(target))))
                w.probes['failed'] += 1
        # nothing else has changed; what a crash leaves behind is not the document
        t = w.fs.tree()
        for p, b in before.items():
            if p != target and t.get(p) != b and not p.startswith('/vsim/.ov'):
                raise Violation('touched', 'metatab %s changed %s' % (' '.join(argv), p))
        extra = [p for p in t if p not in before and p != target and not p.startswith(('/vsim/.ov', '/vsim/cache', '/vsim/tmp'))]
        hard = [f for f in w.fired if not f.startswith(('slow', 'clock', 'short'))]
        if extra and not o.crashed and len(hard) < 2 and not any('@unlink' in f or '@line' in f for f in hard):
            raise Violation('litter', 'metatab %s left %s' % (' '.join(argv), extra))
        # faults stop: the same command works
        r = must(w, 'again', lambda: run_cli(w, argv))
        if r.code != 0 or r.out.decode('utf8') != out and path != target or target and w.fs.peek(target) != new and path != target:
            raise Violation('no-recovery', 'faults have stopped, but metatab %s: %r' % (' '.join(argv), r))

    def hopeless(self, w, case):
        kind = case['hopeless']
        fmt = 'csv' if HOPELESS[kind] else case['doc']['fmt']
        path = W + '/doc.' + fmt
        text = HOPELESS[kind] or case['doc']['text']
        if kind != 'nofile':
            w.fs.put(path, text if isinstance(text, bytes) else text.encode('utf8'))
        target = W + '/doc.' + EXT[case['out']] if case['inplace'] else None
        if target and target != path and case['existing']:
            w.fs.put(target, b'old')
        argv = (['-W'] if case['inplace'] else []) + FLAGS[case['out']] + [path]
        if kind == 'noterm':
            argv = ['-f', 'Root.Nothing_Has_This_Name', path]
        elif kind == 'notdecl':
            argv = ['-d', '-j', W + '/nodecl.csv']
        before = w.fs.tree()
        o = attempt(w, 'run', lambda: run_cli(w, argv), trace=True)
        if o.crashed:
            w.reboot()
        elif o.failed:
            raise o.exc
        else:
            r = o.value
            if r.code == 0:
                raise Violation('hopeless', 'metatab %s (%s) exits with 0 (%s)' % (' '.join(argv), kind, ', '.join(w.fired) or 'no fault'))
            if not r.err.strip() and r.code not in (120, 130):
                raise Violation('silent', 'metatab %s (%s) fails without a message' % (' '.join(argv), kind))
            w.probes['hopeless'] += 1
        t = w.fs.tree()
        for p in sorted(set(t) | set(before)):
            if t.get(p) != before.get(p) and not p.startswith(('/vsim/.ov', '/vsim/cache', '/vsim/tmp')):
                raise Violation('touched', 'metatab %s (%s) cannot succeed, but %s is now %s' % (' '.join(argv), kind, p, show(t.get(p))))

    def content(self, w, case, path, text):
        """The output is the document."""
        o = case['out']
        if o in ('csv', 'default', 'line'):
            if case['doc']['fmt'] == 'csv' and o == 'line':
                return       # some values, such as those with line breaks, have no exact form in Lines
            p = W + '/check.' + EXT[o]
            w.fs.put(p, text.encode('utf8'))
            want = norm(snap(quiet_load(w, path)))
            got = norm(snap(quiet_load(w, p, 'reading the output')))
            w.fs.drop(p)
            if got != want:
                raise Violation('output', 'the output is not the document: %s' % first_diff(want, got))
        elif o == 'find':
            doc = quiet_load(w, path)
            first = [t for t in doc.terms if t.record_term_lc == self.argv(case, path)[1][5:].lower() and t.parent_term_lc == 'root'][0]
            if text != '%s\n' % (first.value,):
                raise Violation('output', 'the value is printed as %r, not %r' % (text[:80], first.value))
        elif o == 'terms':
            # each of them is there, the ones of a section in their order
            doc = quiet_load(w, path)
            for s in doc:
                k = 0
                for t in s.terms:
                    x = '.%s=%s' % (t.record_term_lc, t.value)
                    k = text.find(x, k)
                    if k < 0:
                        raise Violation('output', 'the term %r is not in the list of terms, or not in its place' % x)
                    k += len(x)
        elif o == 'decl':
            doc = M().MetatabDoc(decl=W + '/small.csv')
            want = json.dumps({'terms': doc.decl_terms, 'sections': doc.decl_sections}, sort_keys=True)
            import yaml
            got = json.loads(text) if case['term'] % 2 else yaml.safe_load(text)
            if json.dumps(got, sort_keys=True) != want:
                raise Violation('output', 'the declaration is printed as something else')
        elif o == 'json':
            got = json.loads(text)
            doc = M().MetatabDoc('metatab+file://' + path)
            if got != json.loads(json.dumps(doc.as_dict())):
                raise Violation('output', 'the JSON output is not the dict of the document')
        elif o == 'yaml':
            import yaml
            got = yaml.safe_load(text)
            doc = M().MetatabDoc('metatab+file://' + path)
            if json.dumps(got, default=str, sort_keys=True) != json.dumps(doc.as_dict(), sort_keys=True):
                raise Violation('output', 'the YAML output is not the dict of the document')

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['run'])
        outs = [x for x in pts if x[3] == '<stdout>']
        tgt = [x for x in pts if not x[3].startswith('<ov>')]
        wr = [x for x in pts if x[2] in ('open_w', 'write', 'fsync', 'rename', 'chmod', 'unlink', 'link') and x[3] != '<stdout>']
        plans = []
        for _ in range(11 if tier == 'quick' else 80):
            pool = rng.choice([pts, tgt, outs or wr or tgt, outs or wr or tgt])
            s, n, op, p = rng.choice(pool)
            x = rng.random()
            if p == '<stdout>':
                k = rng.choice(['EPIPE', 'ENOSPC', 'EIO', 'short', 'kbd', 'kill'])
            elif case['inplace'] and x < .3:
                k = rng.choice(['kill', 'power'])
            elif x < .4 and op != 'close':
                k = rng.choice(['kbd', 'mem'])
            else:
                k = rng.choice(save_errs(op))
            fs = [fault_at(rng, s, n, op, k)]
            if k == 'short':
                fs[0]['frac'] = .5
            if rng.random() < .15:
                s2, n2, op2, p2 = rng.choice(pts)
                fs.append(legal_fault(rng, s2, n2) if rng.random() < .5 or p2 == '<stdout>' else
                          fault_at(rng, s2, n2, op2, rng.choice(save_errs(op2))))
            plans.append({'faults': fs})
        total = prof['lines'].get('run', 0)
        for _ in range(4 if tier == 'quick' else 20):
            if total:
                plans.append({'faults': [{'step': 'run', 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        if case['inplace']:
            plans.append({'faults': [{'step': 'later', 'n': 0, 'kind': 'power', 'names': 0, 'data': 0, 'torn': 0}]})
        return plans


SC = C12()
