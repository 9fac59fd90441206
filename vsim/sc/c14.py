"""C14: what comes out of a document depends on nothing but the document."""
import atexit
import json
import os
import subprocess
import sys

from .. import docgen as D
from .. import reads as R
from ..climod import run_cli
from ..core import Scenario, execute, must
from ..docgen import first_diff
from ..edits import apply_doc
from ..world import Violation
from .c05 import whole
from .c10 import SC as C10
from .common import M, W, load, put_decl, roundtrip, save

HASHSEEDS = ['1', '42', '31337']


class C14(Scenario):
    id = 'C14'
    units = {'quick': 400, 'thorough': 4000}
    rule = ('A case is a generated document (with a schema whose columns are cleaned up in some), a history of edits, and the '
            'outputs made from it: every conversion, searches, saved files, output of the command line program. It is run in '
            'interpreters with different seeds for hashing, and with another clock, random source, time zone, disk latency, '
            'directory layout of earlier work, and history of unrelated documents before it in the same process. All outputs have to be the same bytes.')
    stub = Scenario.stub + ['hash seed (interpreters started with different ones)', 'standard streams']
    expect_probes = ['hash-seed', 'clock', 'history', 'cli', 'saved', 'schema', 'directory']

    # -- helper interpreters ----------------------------------------------------------------------

    helpers = None

    def setup(self):
        if os.environ.get('VSIM_HELPER'):
            return
        from ..main import PY, HERE
        self.helpers = []
        for hs in HASHSEEDS:
            e = dict(os.environ, PYTHONHASHSEED=hs, VSIM_HELPER='1')
            p = subprocess.Popen([PY, '-W', 'ignore', '-m', 'vsim.sc.c14'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, cwd=HERE)
            self.helpers.append(p)
        me = os.getpid()

        def stop():
            if os.getpid() == me:
                for p in self.helpers:
                    p.kill()
                    p.wait()
        atexit.register(stop)

    def ask(self, i, case, plan):
        p = self.helpers[i]
        b = json.dumps([case, plan]).encode() + b'\n'
        fd = p.stdin.fileno()
        while b:
            b = b[os.write(fd, b):]
        out = b''
        fd = p.stdout.fileno()
        while not out.endswith(b'\n'):
            x = os.read(fd, 1 << 20)
            if not x:
                raise RuntimeError('helper ended')
            out += x
        return json.loads(out.decode())

    # -- case -------------------------------------------------------------------------------------

    def gen(self, rng, tier):
        d = R.gen(rng, size=rng.choice([2, 4, 8]))
        sh = R.Shape(d['tree'])
        ops = [sh.draw(rng) for _ in range(rng.choice([4, 8]))]
        ops = [o for o in ops if o[0] not in ('path', 'ref', 'doc_dir')]      # where it is
        ops += [['find', q] for q in ('beta', 'root.beta', 'wrangler', 'root.party')]
        c = C10.gen(rng, 'quick')
        edits = [h for h in c['hist'] if h[0] not in ('save', 'reload', 'find')][:12]
        prior = []
        for _ in range(rng.choice([1, 2, 3])):
            prior.append(rng.choice(['load', 'fail', 'create', 'save', 'dict', 'abandon']))
        return {'doc': d, 'ops': ops, 'edits': c['doc'] if edits else None, 'hist': edits,
                'schema': rng.randrange(1 << 30) if rng.random() < .5 else None, 'prior': prior,
                'cli': rng.choice([None, '-j', '-y', '-c', '-l', '-p', '-t']), 'other': rng.randrange(1 << 30)}

    def describe(self, case):
        return {'operations': [o[0] for o in case['ops']], 'edits': len(case['hist']), 'prior': case['prior'], 'cli': case['cli']}

    def outputs(self, w, case):
        out = []
        base = (case.get('remote') or {}).get('dir') or W
        w.fs.put_dir(base)
        path = base + '/doc.' + case['doc']['fmt']
        put_decl(w)
        w.fs.put(path, case['doc']['text'].encode('utf8'))
        if (case.get('remote') or {}).get('mtime') is not None:
            w.fs.walk(path)[2].mtime = case['remote']['mtime']
        doc = must(w, 'load', lambda: load(path))
        if doc['Root'].find_first('Root.Identifier') is None:
            doc['Root'].new_term('Root.Identifier', 'id-1')
        for op in case['ops']:
            out.append([op, roundtrip(must(w, 'op', lambda: R.do(doc, op)))])
        for name, fn in (('dict', lambda: R.js(doc.as_dict())), ('csv', doc.as_csv), ('lines', doc.as_lines),
                         ('json', lambda: json.dumps(doc.as_dict(), indent=4))):
            out.append([name, roundtrip(must(w, name, fn))])
        if case['cli']:
            r = must(w, 'cli', lambda: run_cli(w, [case['cli'], path]))
            out.append(['metatab ' + case['cli'], [r.code, r.out.decode('utf8')]])
        for ext in ('csv', 'txt'):
            p = base + '/out.' + ext
            must(w, 'save', lambda: save(doc, p))
            out.append(['saved ' + ext, w.fs.peek(p).decode('utf8')])
        if case['edits']:
            p = base + '/ed.' + case['edits']['fmt']
            w.fs.put(p, case['edits']['text'].encode('utf8'))
            d2 = must(w, 'load2', lambda: load(p))
            for h in case['hist']:
                try:
                    apply_doc(d2, h)
                except (KeyError, IndexError, AttributeError, TypeError, ValueError):
                    pass
            if d2['Root'].find_first('Root.Identifier') is None or not d2['Root'].find_first('Root.Identifier').value:
                d2['Root'].get_or_new_term('Root.Identifier', 'id-2')
            must(w, 'save2', lambda: save(d2, base + '/ed2.csv'))
            out.append(['edited and saved', w.fs.peek(base + '/ed2.csv').decode('utf8')])
        if case['schema'] is not None:
            import random
            rng = random.Random(case['schema'])
            d3 = M().MetatabDoc()
            names = ['DataType', 'Description', 'AltName', 'Unit', 'Format', 'Start', 'Width', 'Note_x']
            s = d3.get_or_new_section('Schema', rng.sample(names, rng.choice([2, 4, 6])))
            for t in range(rng.choice([1, 2])):
                tab = s.new_term('Table', 't%d' % t)
                for k in range(rng.choice([1, 3])):
                    tab.new_child('Column', 'c%d' % k, **{n.lower(): 'v%d' % rng.randrange(9) for n in rng.sample(names, rng.choice([1, 2, 4]))})
            must(w, 'clean', d3.clean_unused_schema_terms)
            out.append(['schema', [list(s.args), d3.as_csv(), d3.as_lines()]])
            w.probes['schema'] += 1
        out.append(['structure', roundtrip(whole(doc))])
        return out

    def before(self, w, case):
        """Unrelated work."""
        put_decl(w)
        for i, k in enumerate(case['prior']):
            p = W + '/prior%d.csv' % i
            w.fs.put(p, b'Declare,/vsim/w/pd.csv\r\nAlpha,1\r\nBeta,2\r\nSection,Contacts,Phone\r\nWrangler,x,5\r\nMu,4\r\n')
            w.fs.put(W + '/pd.csv', D.SMALL_DECL.replace('Root.Mu,,,Root,,Root.Nu', 'Root.Nu,,,Root,,Root.Mu').replace('Label', 'Caption').encode())
            if k == 'fail':
                w.fs.put(p, b'Alpha,1\r\nInclude,nothere.csv\r\n')
                try:
                    load(p)
                except Exception:
                    pass
            elif k == 'create':
                from metatab.cli import make_metatab_file
                make_metatab_file()
            elif k == 'abandon':
                it = load(p).rows
                next(it)
            else:
                d = load(p)
                if k == 'save':
                    save(d, W + '/prior-out.csv')
                elif k == 'dict':
                    d.as_dict()

    def conditions(self, w, c):
        """Make the world of this run as different as it may be."""
        w.skew = c.get('skew', 0)
        w.latency = c.get('latency', w.latency)
        w.nrand = c.get('nrand', 0)
        __import__('random').seed(w.nrand)
        if c.get('cwd'):
            w.fs.put_dir(c['cwd'])
            w.fs.cwd = c['cwd']
        w.fs.umask = c.get('umask', w.fs.umask)
        os.environ.update(c.get('env') or {})
        if c.get('host'):
            import platform
            import socket
            socket.gethostname = socket.getfqdn = platform.node = lambda *a: c['host']
        if c.get('chunk'):
            w.fs.read_chunk = lambda n: c['chunk']
        if c.get('tz'):
            os.environ['TZ'] = c['tz']
            __import__('time').tzset()

    def run(self, w, case):
        if case.get('remote') is not None:
            self.conditions(w, case['remote'])
            if case['remote'].get('prior'):
                self.before(w, case)
            self.result = self.outputs(w, case)
            return
        ref = self.outputs(w, case)
        w.log('outputs %s' % __import__('hashlib').sha1(json.dumps(ref).encode()).hexdigest())
        import random
        rng = random.Random(case['other'])
        conds = []
        for i in range(len(HASHSEEDS)):
            conds.append({'skew': rng.choice([0, 86400 * 365 * 9, -86400 * 365 * 16]), 'latency': rng.choice([.0001, 2.5]),
                          'nrand': rng.randrange(9999), 'prior': i != 0 and rng.random() < .7, 'chunk': rng.choice([None, 7, 100]),
                          'dir': rng.choice([None, W + '/other place/2', '/vsim/d.x', W + '/w/w/w']),
                          'tz': rng.choice([None, 'Asia/Tokyo', 'UTC']), 'cwd': rng.choice([None, '/vsim', W + '/other place']),
                          'umask': rng.choice([0o22, 0o77, 0]), 'mtime': rng.choice([None, 0, 4.2e9, 951782400]),
                          'env': rng.choice([{}, {'USER': 'joe', 'HOME': '/vsim/home', 'LOGNAME': 'joe', 'HOSTNAME': 'h2'},
                                             {'LANG': 'C', 'LC_ALL': 'C', 'COLUMNS': '40', 'PWD': '/vsim'},
                                             {'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'tr_TR.UTF-8', 'LC_CTYPE': 'tr_TR.UTF-8', 'LANGUAGE': 'tr',
                                              'TERM': 'dumb', 'EDITOR': 'ed', 'SHELL': '/bin/false', 'LINES': '3', 'NO_COLOR': '1',
                                              'SOURCE_DATE_EPOCH': '1', 'TMPDIR': '/vsim/tmp2', 'PYTHONIOENCODING': 'latin-1', 'DEBUG': '1'}]),
                          'host': rng.choice(['alpha.example.org', 'localhost', 'b'])})
        for i, c in enumerate(conds):
            r = self.ask(i, dict(case, remote=c), {'faults': []})
            if r['status'] != 'ok':
                raise Violation('fails', 'with hash seed %s and %s: %s %s' % (HASHSEEDS[i], c, r.get('cls'), r.get('msg')))
            w.probes['hash-seed'] += 1
            w.stats['hashseed@start'] += 1
            w.stats['clock@start'] += 1 if c['skew'] else 0
            w.probes['clock'] += 1 if c['skew'] else 0
            w.probes['history'] += 1 if c['prior'] else 0
            w.probes['cli'] += 1 if case['cli'] else 0
            w.probes['saved'] += 1
            w.probes['directory'] += 1 if c['dir'] else 0
            w.log('helper %d' % i)
            for (a, x), (b, y) in zip(ref, r['result']):
                if x != y:
                    raise Violation('differs', '%s comes out differently with hash seed %s and %s: %s' % (a, HASHSEEDS[i], c, first_diff(x, y)))
        # and again in this process, after other work
        self.before(w, case)
        w.nrand += 1000
        again = self.outputs(w, case)
        for (a, x), (b, y) in zip(ref, again):
            if x != y:
                raise Violation('differs', '%s comes out differently the second time: %s' % (a, first_diff(x, y)))

    def shrink(self, case):
        for i in range(len(case['ops'])):
            yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
        if case['edits']:
            yield dict(case, edits=None, hist=[])
        if case['schema'] is not None:
            yield dict(case, schema=None)


SC = C14()


def serve():
    """A helper interpreter: runs cases that it is sent, each in a child of its own."""
    from .. import core
    core.warm()
    sc = SC

    class Remote(object):
        pass
    inner = sc.run
    for line in sys.stdin.buffer:
        case, plan = json.loads(line.decode())
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = execute(sc, case, plan)
                data = {'status': res['status'], 'cls': res.get('cls'), 'msg': res.get('msg'), 'result': getattr(sc, 'result', None)}
            except BaseException as e:
                data = {'status': 'error', 'cls': 'helper', 'msg': repr(e)}
            b = json.dumps(data).encode()
            while b:
                b = b[os.write(wr, b):]
            os._exit(0)
        os.close(wr)
        out = b''
        while True:
            x = os.read(r, 1 << 20)
            if not x:
                break
            out += x
        os.close(r)
        os.waitpid(pid, 0)
        sys.__stdout__.buffer.write(out + b'\n')
        sys.__stdout__.buffer.flush()


if __name__ == '__main__':
    serve()
