"""C06: includes and declarations are expanded completely, or the load fails and names the one that failed."""
import copy
import posixpath

from .. import docgen as D
from ..core import ERRS, Scenario, attempt, fault_at, legal_fault, points, sample
from ..docgen import exact, first_diff, snap
from ..simnet import SimNet
from ..world import Violation
from .c05 import boot_cache, whole
from .common import M, W

HOST = 'ex.org'


class Files(object):
    """Generates a tree of including files, and the one document that they mean together."""

    def __init__(self, rng, web):
        self.rng = rng
        self.g = D.DocGen(rng, 'csv', None, size=3, big=.05)
        self.g.noise = rng.random() < .4
        self.files = {}        # where -> text; where is a path or http://host/path
        self.nfile = 0
        self.web = web
        self.leaves = {}       # where -> [section name, terms]
        self.decl = rng.choice(['none', 'top', 'top', 'included'])
        self.links = {}
        self.includes = []     # [value, where]
        self.left = rng.choice([1, 2, 3, 4, 6])
        self.chain = rng.random() < .06        # one file includes the next, many deep
        if self.chain:
            self.left = rng.choice([6, 9, 13, 20])

    def declare(self, where):
        r = self.rng
        dirn = posixpath.dirname(where)
        ref = r.choice(['decl', 'decl.csv', 'sub/decl.csv'])
        if where.startswith('http'):
            ref = 'http://%s/decl.csv' % HOST
            self.files[ref] = D.SMALL_DECL
        elif self.web and r.random() < .3:
            ref = 'http://%s/decl.csv' % HOST
            self.files[ref] = D.SMALL_DECL
        else:
            p = posixpath.join(dirn, ref if ref.endswith('.csv') else ref + '.csv')
            self.files[p] = D.SMALL_DECL
            if r.random() < .5:
                self.split_decl(p)
        self.g.cur[2].append(['declare', ref, []])
        self.g.decl = 'small'
        self.includes.append([ref, ref if ref.startswith('http') else posixpath.normpath(
            posixpath.join(dirn, ref if ref.endswith('.csv') else ref + '.csv'))])
        return [['Declare', ref]]

    def split_decl(self, p):
        """A declaration that takes one half of itself from another file."""
        r = self.rng
        i = D.SMALL_DECL.index('Section,DeclaredTerms')
        halves = [D.SMALL_DECL[:i], D.SMALL_DECL[i:]]
        k = r.randrange(2)
        ref = r.choice(['xdecl.csv', 'deep/xdecl.csv', 'deep/xdecl.csv'])
        x = posixpath.join(posixpath.dirname(p), ref)
        row = '%s,%s\n' % (r.choice(['Include', 'Declare']), ref)
        self.files[x] = halves[k]
        self.files[p] = row + halves[1] if k == 0 else halves[0] + row      # sections are declared before terms
        self.includes.append([ref, x])

    def new_ref(self, where):
        """(value of the Include term, where the file is)"""
        r = self.rng
        self.nfile += 1
        name = r.choice(['inc%d.csv', 'inc%d.csv', 'Inc%dA.csv', 'http%d.csv']) % self.nfile
        if self.web and r.random() < .4:
            w = 'http://%s/%sx%s' % (HOST, r.choice(['', 'd/', 'd/e/']), name)
            return w, w
        sub = r.choice(['', '', 'sub/', 'a b/', './', '../', 'p%41r%20t/', 'caf\u00e9/', 'a+b~c/', 'Up Per/', 'httpdocs/', 'https/', "o'k;x,y/"])
        if sub == '../' and (where.startswith('http') or posixpath.dirname(where) == W):
            sub = ''
        if where.startswith('http') and sub not in ('', 'sub/', '../'):
            sub = 'sub/'
        v = sub + name
        if where.startswith('http'):
            return v, posixpath.dirname(where) + '/' + v
        return v, posixpath.normpath(posixpath.join(posixpath.dirname(where), v))

    def file(self, where, depth, top=False):
        r = self.rng
        rows = []
        if (self.decl == 'top' and top) or (self.decl == 'included' and not top and self.g.decl is None):
            rows += self.declare(where)
        leaf = not top and not rows and not self.chain and r.random() < .3
        if leaf:
            rows += self.g.section()
            mark = len(self.g.cur[2])
            for _ in range(r.choice([1, 2, 3])):
                rows += self.g.noise_rows() + self.g.term()
            self.leaves[where] = [self.g.cur[0], copy.deepcopy(self.g.cur[2][mark:])]
        else:
            for _ in range(r.choice([0, 1, 2, 3])):
                rows += self.piece()
            for _ in range(1 if self.chain else r.choice([1, 1, 2]) if top else r.choice([0, 0, 1, 2])):
                if depth <= 0 or self.left <= 0:
                    break
                self.left -= 1
                rows += self.include(where, depth)
                if r.random() < .3:
                    rows += self.g.late()
                for _ in range(r.choice([0, 1, 2])):
                    rows += self.piece()
        self.files[where] = D.to_csv(rows).decode('utf8')
        return rows

    def piece(self):
        rows = list(self.g.noise_rows())
        if self.rng.random() < .35:
            rows += self.g.section()
        elif self.rng.random() < .25:
            rows += self.g.late()
        return rows + self.g.term()

    def decoys(self):
        """Files that the references of one file would lead to if they were taken for those of another."""
        r = self.rng
        out = {}
        disk = sorted(x for x in self.files if not x.startswith('http'))
        dirs = sorted(set(posixpath.dirname(x) for x in disk) | {W})
        for v, x in self.includes:
            if v.startswith('http') or r.random() < .4:
                continue
            d = r.choice(dirs)
            p = posixpath.normpath(posixpath.join(d, v if v.endswith('.csv') else v + '.csv'))
            if p in self.files or not p.startswith(W + '/'):
                continue
            if x.endswith('decl.csv'):
                out[p] = 'Section,DeclaredSections\nDeclareSection,Root\nDeclareSection,Decoy,A,B\nDeclareSection,Contacts,Decoyed\n'
            else:
                out[p] = 'Decoy,a file that nobody includes\nSection,Decoys,A\nDecoy,b,c\n'
        return out

    def include(self, where, depth):
        r = self.rng
        cur = self.g.cur
        near = [x for x in self.leaves if self.rel(where, x)]
        if near and r.random() < .3:
            # the same file once more
            x = r.choice(near)
            v = self.rel(where, x)
            cur[2].append(['include', v, []])
            name, terms = self.leaves[x]
            for s in self.g.tree:
                if s[0] == name:
                    new = copy.deepcopy(terms)
                    s[2].extend(new)
                    self.g.order.extend(new)
            self.includes.append([v, x])
            return [['Include', v]]
        v, x = self.new_ref(where)
        cur[2].append(['include', v, []])
        self.includes.append([v, x])
        self.file(x, depth - 1)
        self.g.cur, self.g.cols = cur, self.g.orig[cur[0]]
        return [['Include', v]]

    def rel(self, where, x):
        if x.startswith('http'):
            return x
        if where.startswith('http'):
            return None
        d = posixpath.dirname(where)
        if x.startswith(d + '/'):
            return x[len(d) + 1:]
        return None


class C06(Scenario):
    id = 'C06'
    units = {'quick': 300, 'thorough': 8000}
    real = Scenario.real + ['requests, urllib3, http.client', 'download cache of rowgenerators']
    stub = Scenario.stub + ['sockets and HTTP servers']
    rule = ('A case is a generated tree of files on disk and on web servers that include each other up to 20 deep, '
            'some twice, with declarations in any of them, generated together with the one document they mean; a fifth '
            'of the cases have a loop, directly, through other files or through a symbolic link, or a missing file. '
            'Plans put errors, resets, early ends, error statuses, removals, interrupts and out of memory at the I/O '
            'operations and source lines of the load.')
    assumptions = ['a web server frames its answers (Content-Length or chunked), so that an early end can be noticed',
                   'the process is not killed while rowgenerators writes its download cache']
    expect_probes = ['complete', 'include-error', 'loop', 'missing', 'http', 'recovered', 'interrupted', 'nested', 'twice',
                     'declared', 'decoys', 'split-declaration', 'chain']

    def gen(self, rng, tier):
        web = rng.random() < .4
        f = Files(rng, web)
        top = W + '/top.csv'
        f.file(top, 40 if f.chain else 4, True)
        bad = None
        r = rng.random()
        disk = [x for x in f.files if not x.startswith('http') and not x.endswith('decl.csv')]
        if r < .3 and rng.random() < .2:
            disk = [x for x in f.files if not x.startswith('http') and x.endswith('decl.csv')] or disk
        if r < .15:
            # close a loop: some file includes itself or one that includes it
            victim = rng.choice(disk)
            d = posixpath.dirname(victim)
            v = posixpath.relpath(rng.choice([victim, top]), d)
            style = rng.choice(['plain', 'dot', 'link'])
            if style == 'dot':
                v = './' + v
            if style == 'link':
                f.links[d + '/ln.csv'] = posixpath.normpath(posixpath.join(d, v))
                v = 'ln.csv'
            bad = ['loop', victim, v]
        elif r < .25:
            victim = rng.choice(disk)
            bad = ['missing', victim, rng.choice(['nothere.csv', 'sub/nothere.csv', 'http://%s/nothere.csv' % HOST,
                                                  'http://nohost.org/nothere.csv'])]
        elif r < .3:
            victim = rng.choice(disk)
            bad = ['missing-decl', victim, rng.choice(['nothere', 'nothere.csv', 'http://%s/nothere.csv' % HOST])]
        dec = f.decoys() if rng.random() < .6 else {}
        if bad:
            # a file that is not there is not somewhere else either
            dec.update({W + '/' + bad[2].split('/')[-1]: 'Decoy,x\n'} if bad[0] != 'loop' and bad[2] == 'sub/nothere.csv' else {})
        return {'chain': f.chain, 'decoys': dec, 'files': f.files, 'tree': f.g.tree, 'bad': bad, 'ref': rng.choice(['path', 'fileurl', 'metafile', 'metaurl']),
                'links': f.links, 'includes': f.includes, 'framing': rng.choice(['length', 'chunked']),
                'net_chunk': rng.choice([None, 30, 700]), 'pos': rng.choice(['start', 'end'])}

    def describe(self, case):
        return {'files': {k: len(v) for k, v in case['files'].items()}, 'bad': case['bad'], 'ref': case['ref']}

    def place(self, w, case, bad):
        from urllib.parse import urlparse
        for where, text in case['files'].items():
            if bad and bad[1] == where:
                row = '%s,"%s"\r\n' % ('Declare' if bad[0] == 'missing-decl' else 'Include', bad[2])
                text = row + text if case['pos'] == 'start' else text + row
            if where.startswith('http'):
                u = urlparse(where)
                w.net.serve(u.netloc, u.path, text.encode('utf8'))
            else:
                w.fs.put(where, text.encode('utf8'))
        for p, text in case['decoys'].items():
            if p not in case['links']:
                w.fs.put(p, text.encode('utf8'))
        if case['decoys']:
            w.probes['decoys'] += 1
        for l, t in case['links'].items():
            try:
                w.fs.put_symlink(l, t)
            except OSError:
                pass

    def run(self, w, case):
        from .c05 import open_ref
        w.net = SimNet(w)
        w.net.framing = case['framing']
        if case['net_chunk']:
            w.net.chunk = lambda n: case['net_chunk']
        bad = case['bad']
        self.place(w, case, bad)
        if any(k.startswith('http') for k in case['files']):
            w.probes['http'] += 1
        vals = [x for v, x in case['includes']]
        if len(set(vals)) < len(vals):
            w.probes['twice'] += 1
        if case.get('chain'):
            w.probes['chain'] += 1
        if len(vals) > 2:
            w.probes['nested'] += 1
        if any(x.endswith('decl.csv') for x in vals):
            w.probes['declared'] += 1
        top = W + '/top.csv'
        o = attempt(w, 'load', lambda: open_ref(case['ref'], top), trace=True)
        want = exact(case['tree'])
        kbd = [f for f in w.fired if f.startswith('kbd@')]
        mine = None
        if o.crashed:
            w.reboot()
        elif o.ok:
            if kbd:
                raise Violation('swallowed', 'an interrupt at %s was swallowed by the load' % kbd[0])
            if bad:
                raise Violation('partial', 'a document with an include that cannot be followed (%s) was loaded' % bad)
            d = first_diff(want, exact(snap(o.value)))
            if d:
                raise Violation('partial', 'a load that returned normally (%s) is not the whole document: %s' %
                                (', '.join(w.fired) or 'no fault', d))
            mine = whole(o.value)
            w.probes['complete'] += 1
        else:
            if kbd:
                w.probes['interrupted'] += 1
                if len(w.fired) == 1 and not isinstance(o.exc, KeyboardInterrupt):
                    raise Violation('swallowed', 'an interrupt at %s came out as %r' % (kbd[0], o))
            elif not isinstance(o.exc, Exception):
                raise Violation('exit', 'a load ended with %r' % o)
            if not w.fired and not bad:
                raise Violation('fails-without-fault', 'load: %r' % o)
            if not w.fired and bad:
                self.named(w, o, bad[2], bad[0])
                w.probes[bad[0]] += 1
                if bad[0] == 'loop':
                    self.bounded(w, case)
            elif self.fault_in_include(w, case) and not kbd and not bad:
                self.named(w, o, None, 'a fault (%s) while following an include' % w.fired[0])
                w.probes['include-error'] += 1
        # faults stop and the files are put right
        self.place(w, case, None)
        if any(k.startswith('http') for k in case['files']):
            boot_cache(w)
        o = attempt(w, 'heal', lambda: open_ref(case['ref'], top))
        if not o.ok:
            raise Violation('no-recovery', 'faults have stopped, but the load still fails: %r' % o)
        d = first_diff(want, exact(snap(o.value)))
        if d:
            raise Violation('no-recovery', 'faults have stopped, but the load is not complete: %s' % d)
        if mine is not None:
            d = first_diff(whole(o.value), mine)
            if d:
                raise Violation('partial', 'a load that returned normally (%s) misses declarations or structure: %s' %
                                (', '.join(w.fired) or 'no fault', d))
        w.probes['recovered'] += 1
        if any(x.endswith('decl.csv') for x in vals) and not any(k.startswith('http') for k in case['files']):
            # one half of the declaration may come from another file
            w.fs.put(W + '/flat.csv', D.SMALL_DECL.encode())
            w.fs.put(W + '/ref.csv', b'Declare,flat.csv\r\nTitle,x\r\n')
            r = attempt(w, 'flat', lambda: open_ref('path', W + '/ref.csv'))
            if not r.ok:
                raise Violation('fails-without-fault', 'load: %r' % r)
            d = first_diff(whole(r.value)[1:], whole(o.value)[1:])
            if d:
                raise Violation('declarations', 'the declarations are not those of the declared files: %s' % d)
            if any(x.endswith('xdecl.csv') for x in vals):
                w.probes['split-declaration'] += 1

    def named(self, w, o, value, what):
        from metatab.exc import IncludeError
        if not isinstance(o.exc, IncludeError):
            raise Violation('not-include-error', '%s: the load ends with %r rather than an IncludeError' % (what, o))
        names = [value] if value else None
        if names is None:
            names = [self.fault_name]
        if not any(n and posixpath.basename(n.strip('/')) in str(o.exc) for n in names):
            raise Violation('unnamed', '%s: the error %r does not name %s' % (what, str(o.exc), names))

    def fault_in_include(self, w, case):
        """Did the one error that fired hit an included file while it was being read?"""
        if len(w.fired) != 1:
            return False
        for f in list(w.faults.values()):
            if f.get('done') and f['kind'].startswith(('E', 'vanish')):
                op, p = w.profile[f['step']][f['n']]
                if op in ('open_r', 'read') and p.startswith(W + '/') and not p.endswith('/top.csv'):
                    if p.endswith('decl.csv'):
                        self.fault_name = 'decl'
                    elif p in case['links']:
                        return False
                    else:
                        self.fault_name = p
                    return True
        return False

    def bounded(self, w, case):
        opens = [p for op, p in w.profile['load'] if op == 'open_r']
        for p in set(opens):
            if p.startswith(W) and opens.count(p) > 6 * (len(case['includes']) + 2):
                raise Violation('loop', '%s was opened %d times before the loop was noticed' % (p, opens.count(p)))

    def variants(self, rng, case, prof, tier):
        pts = points(prof, ['load'])
        hot = [x for x in pts if (x[3].startswith(W + '/') and not x[3].endswith('/top.csv')) or x[2] in ('connect', 'send', 'recv')]
        plans = []
        k = 18 if tier == 'quick' else 90
        has_web = any(x.startswith('http') for x in case['files'])
        for i in range(k):
            s, n, op, p = rng.choice(hot if hot and rng.random() < .75 else pts)
            kinds = list(ERRS.get(op, ['EIO'])) * 2 + (['kbd', 'mem'] if op != 'close' else [])   # a destructor may close, and drops what it meets
            if op in ('open_r', 'read') and p.startswith(W):
                kinds += ['vanish'] * 2
            if not has_web:
                kinds += ['kill']
            f = fault_at(rng, s, n, op, rng.choice(kinds))
            if f['kind'] == 'vanish':
                f['path'] = p
            fs = [f]
            if rng.random() < .15:
                s2, n2, op2, _ = rng.choice(pts)
                fs.append(fault_at(rng, s2, n2, op2, rng.choice(ERRS.get(op2, ['EIO']))) if rng.random() < .5 and not has_web
                          else legal_fault(rng, s2, n2))
            plans.append({'faults': fs})
        total = prof['lines'].get('load', 0)
        for _ in range(4 if tier == 'quick' else 20):
            if total:
                plans.append({'faults': [{'step': 'load', 'line': rng.randrange(total), 'kind': rng.choice(['kbd', 'mem'])}]})
        return plans


SC = C06()
