"""Documents: a generator that emits rows together with the tree they mean.

The generator writes a document term by term, in a random style (values in argument columns, in
'Parent.Child' rows or in '.Child' rows, noise rows, odd case and spacing), and keeps, next to the
rows, the tree that a reader has to get out of them.  Nothing of the code under test is used.

tree  : [[section name, [arg names], [term, ...]], ...]        term: [name, value or None, [term, ...]]
All names are lower case.
"""
import csv
import io

NAMES = ['alpha', 'Beta', 'gamma_x', 'Delta-2', 'epsilon ray', 'Zeta9', 'eta', 'Theta', 'iota', 'kappa',
         'grassroot', 'Chroot', 'lambda', 'mu', 'nu', 'Höhe ü', 'x/y(2)', '日付']
CHILD = ['Colour', 'size', 'weight_kg', 'Shape', 'Origin-x', 'depth', 'Speed', 'squareroot', 'Länge [m]', '日付2']
GRAND = ['unit', 'Precision', 'source_x', 'Remark']
DEEP = ['Digits', 'extent', 'Layer-x', 'fibre', 'Grain_y']
SECTIONS = ['Contacts', 'Resources', 'schema', 'Bibliography', 'My Section', 'notes-2', 'References', 'Überblick', "A & B's"]

WORDS = ['lorem', 'ipsum', 'dolor', 'sit', 'amet', 'x', '42', '3.14', 'http://example.com/a.csv#b', 'a=b', 'Foo: bar',
         'été', '漢字', 'naïve', '🙂', 'e\u0301', '"quoted"', "it's", 'semi;colon', '-', 'None', 'False', '0',
         '<b>', '#tag', '=1+1', '@x', '%20', 'C:\\dir\\file', 'ÅÄÖ', '\u200b', '{}', '[a](b)']
CSV_WORDS = ['com,ma', 'two\nlines', 'tab\there', 'a|b', '|', 'par\u2028sep', 'ver\x0btab', 'three\n\nlines', '","', 'x\\|y']
LINE_WORDS = ['com,ma', 'a|b', '|', 'p|q|r', 'tab\there', 'co:lon', 'x||y']

# pieces that are put together, with or without blanks, into values that no list foresees
PIECES = ['#', ':', ';', '=', '*', '.', '/', '&', '%', '{', '}', '(', ')', '[', ']', '"', "'", '-', '--', '_', '+', '!', '?', '~',
          '^', '$', '@', '<', '>', '`', '\\', '\\n', '\\t', '==', '====', '//', '...', '0', '1', '7', '00', '42', '1e5', '-1', '1.50',
          '2011-01-02', '12:30:00', 'True', 'no', 'null', 'nan', 'None', 'a', 'b', 'Z', 'foo', 'Bar', 'root', 'Root.', 'Section',
          'Title', '.name', 'http:', '.csv', '.txt', 'file:', '\u00a0', '\u00df', '\u0130', '\ufb01', '\u03a9', '\ufeff', '%s', '{0}',
          '\0', '\x01', '\x1b', '\x7f', '\u200e', '\x1c', '\x1e', '\x85', '\x0b', '\x0c', '\u2028', '\u2029', '&amp;', 'Section:', 'Include', 'a,b', ',', '|']

# what looks like a number, a date, a truth value or a formula is text all the same
SCALARS = ['2.0', '1.0', '007', '1e5', '1E+05', '-0', '+1', '0', '0.0', '00', 'TRUE', 'false', 'null', 'None', 'NULL', '~', 'yes', 'off',
           '2011-01-02', '01/02/2011', '12:30', '1,000', '1_000', '0x1F', '0o17', '.5', '5.', '$5', '50%', 'NaN', 'inf', '-inf', '=A1',
           "'x", "''", '""', '"', '-', '--', '.', '*', '1.10', '3.', '1/2', '1-2', '123456789012345678901234567890', '-1.5e-3', '٢',
           '½', 'a', '[]', '{}', '()', '1.2.3', '1.2.3-rc1', 'v1', '#', '#1', 'N/A', '<NA>', '0.1', '1.', 'e', 'Section', 'Root', 'Title']

# the standard declaration: sections with their usual columns, and terms that belong there
LATEST_SECTIONS = [('Contacts', ['Email', 'Organization', 'Tel', 'Url']),
                   ('Documentation', ['Name', 'Title', 'Description']), ('Resources', ['Name', 'Title', 'Description', 'Encoding']),
                   ('Schema', ['AltName', 'DataType', 'Description']), ('References', ['Name', 'Title', 'Description']),
                   ('Bibliography', ['Name', 'Type', 'Author', 'Title', 'Year'])]
LATEST_TERMS = {'root': ['Title', 'Description', 'Subject', 'Keyword', 'Language', 'Note', 'Summary', 'Custom_term'],
                'contacts': ['Wrangler', 'Creator', 'Publisher', 'Odd_term'],
                'resources': ['Datafile', 'Homepage', 'Sql', 'Supplementarydata'],
                'schema': ['Table'], 'references': ['Reference', 'Citation', 'Sql', 'Dsn'],
                'documentation': ['Homepage', 'Note', 'Webpage', 'Image', 'Api'], 'bibliography': ['Citation', 'Article']}
LATEST_CHILD = {'schema': ['Column'], 'contacts': ['Role', 'Twitter'], 'resources': ['Space', 'Grain_x', 'Nrows', 'Name', 'Url'],
                'root': ['Extra', 'Lang_x'], 'references': ['Detail', 'Name', 'Query'],
                'documentation': ['Url', 'Text', 'Detail'], 'bibliography': ['Doi_x', 'Pages']}
NO_CHILDREN = {'title', 'summary', 'description'}

SMALL_DECL = '''Section,DeclaredSections
DeclareSection,Root
DeclareSection,Contacts,Email,Organization
DeclareSection,Resources,Name,Title
Section,DeclaredTerms
Header,Term,TermValueName,ChildPropertyType,Section,InheritsFrom,Synonym
DeclareTerm,Root.Alpha,,sequence,Root,,
DeclareTerm,Root.Eta,,scalar,Root,,
DeclareTerm,Root.Beta,Label,,Contacts,,
DeclareTerm,Beta.Colour,,,Contacts,,
DeclareTerm,Root.Iota,,,Contacts,Root.Beta,
DeclareTerm,Root.Kappa,,,Contacts,Root.Beta,
DeclareTerm,Root.Theta,,,Contacts,Root.Beta,
DeclareTerm,Root.Mu,,,Root,,Root.Nu
'''
SMALL_SYN = {'mu': 'nu'}
SMALL_DERIVED = {'beta': ['iota', 'kappa', 'theta']}


class DocGen(object):

    def __init__(self, rng, fmt='csv', decl=None, size=None, big=0.05, sections=True, root_args=False,
                 dup_children=True, headers=False):
        self.rng = rng
        self.fmt = fmt
        self.decl = decl          # None, 'latest' or 'small'
        self.words = WORDS + (CSV_WORDS if fmt == 'csv' else LINE_WORDS)
        self.size = size or rng.choice([1, 2, 3, 4, 6, 9, 14] * 7 + [60])
        self.big = big
        self.sections_on = sections
        self.dup = dup_children
        self.tree = [['root', [], []]]
        self.cur = self.tree[0]
        self.headers = headers
        self.orig = {'root': []}  # section -> columns of its Section row
        self.cols = []            # columns of the rows here; a Header row changes them
        self.order = []           # root-level terms in the order of the rows
        self.counter = 0
        self.noise = rng.random() < .4
        self.used = []            # values given so far, some of which come again

    # -- values --------------------------------------------------------------------------------

    def value(self, empty=0.08):
        v = self.value_(empty)
        if v and len(v) < 200:
            self.used.append(v)
        return v

    def value_(self, empty):
        r = self.rng
        self.counter += 1
        if r.random() < empty:
            return None
        if r.random() < self.big:
            n = r.choice([300, 4000, 8190, 9000, 20000])
            v = r.choice(['x', 'é', '漢', 'ab ', '🙂']) * n
            v = v[:n].strip() + '%d' % self.counter
            return v
        x = r.random()
        if x < .1:
            v = r.choice(SCALARS)
            if self.fmt == 'csv' or not v.startswith('"'):
                return v
        elif x < .2 and self.used:
            return r.choice(self.used)
        k = r.choice([1, 1, 1, 2, 3, 5])
        if r.random() < .35:
            v = ''
            for _ in range(r.choice([2, 3, 4, 6])):
                v += r.choice(PIECES) + r.choice(['', '', ' ', ' ', '  '])
            v = v.strip()
            if v:
                return v
        v = ' '.join(r.choice(self.words) for _ in range(k)).strip()
        if r.random() < .5:
            v += ' %d' % self.counter
        v = v.strip()
        return v or 'v%d' % self.counter

    def name(self, pool):
        n = self.rng.choice(pool)
        if self.rng.random() < .25:
            n = self.rng.choice([n.lower(), n.upper(), n.title()])
        return n

    def pad(self, s):
        if s and self.noise and self.rng.random() < .15:
            return ' ' + s + ' '
        return s

    # -- terms ---------------------------------------------------------------------------------

    def pools(self):
        if self.decl == 'latest':
            s = self.cur[0]
            return LATEST_TERMS.get(s, ['Odd_term']), LATEST_CHILD.get(s, ['Extra'])
        return NAMES, CHILD

    def canon(self, n):
        n = n.lower().strip()
        if self.decl == 'small':
            n = SMALL_SYN.get(n, n)
        return n

    def term(self):
        """Emit the rows of one root-level term in the current section; returns the rows."""
        r = self.rng
        tpool, cpool = self.pools()
        n = self.name(tpool)
        node = [self.canon(n), self.value(), []]
        if self.cur[2] and r.random() < .08 and self.cur[2][-1][0] not in ('declare', 'include'):
            n, node[1] = self.cur[2][-1][:2]        # once more
            node[0] = n
        rows = []
        sec = self.cur
        row = [self.pad(n), self.pad(node[1] or '')]
        can = node[0] not in NO_CHILDREN
        if can and self.cols and r.random() < .8:
            for a in self.cols:
                v = self.value(.3) if a and r.random() < .7 else None
                if v and len(self.cols) > 8:
                    # short values, and now and then one that looks like nothing
                    v = r.choice(SCALARS[:22] if r.random() < .3 else ['a', 'b', 'c'])
                row.append(self.pad(v or ''))
                if v and a:
                    node[2].append([a.lower(), v, []])
            while len(row) > 2 and not row[-1] and r.random() < .8:
                row.pop()
        if self.noise and r.random() < .2:
            row += [''] * r.choice([1, 3])
        rows.append(row)
        if can and r.random() < .6:
            elide_ok = True
            for _ in range(r.choice([1, 1, 2, 3])):
                cn = self.name(cpool)
                if node[2] and r.random() < .15:
                    cn = node[2][-1][0]
                if not self.dup and cn.lower() in [c[0] for c in node[2]]:
                    continue
                child = [cn.lower(), self.value(.05), []]
                if node[2] and node[2][-1][0] == child[0] and r.random() < .4:
                    child[1] = node[2][-1][1]       # twice the same
                if elide_ok and r.random() < .5:
                    rows.append(['.' + cn, self.pad(child[1] or '')])
                else:
                    elide_ok = False
                    parent = n if node[0] == n.lower().strip() else node[0]
                    crow = [self.name([parent.strip()]) + '.' + cn, self.pad(child[1] or '')]
                    if self.cols and r.random() < .4:
                        for a in self.cols:
                            v = self.value(.5) if a else None
                            crow.append(v or '')
                            if v and a and a.lower() != cn.lower():
                                child[2].append([a.lower(), v, []])
                            elif v:
                                crow[-1] = ''
                        while not crow[-1] and len(crow) > 2:
                            crow.pop()
                    rows.append(crow)
                    if r.random() < .3:
                        ell = True
                        for _ in range(r.choice([1, 2, 3])):
                            gn = self.name(GRAND)
                            g = [gn.lower(), self.value(0), []]
                            if ell and r.random() < .5:
                                rows.append(['.' + gn, g[1] or ''])
                            else:
                                ell = False
                                rows.append([cn + '.' + gn, g[1] or ''])
                                # and down from there
                                up, pn = g, gn
                                for dn in DEEP[:r.choice([0, 0, 0, 1, 2, 5])]:
                                    dn = self.name([dn])
                                    x = [dn.lower(), self.value(0), []]
                                    rows.append([pn + '.' + dn, x[1] or ''])
                                    up[2].append(x)
                                    up, pn = x, dn
                            child[2].append(g)
                node[2].append(child)
        elif can and not self.decl and r.random() < .05:
            # a property with the name of the term; rows after it would mean the property
            node[2].append([node[0], self.value(0), []])
            rows.append([n + '.' + n, node[2][-1][1]])
        sec[2].append(node)
        self.order.append(node)
        return rows

    def late(self):
        """A property of an earlier term of the section, that comes after other terms (or an include)."""
        r = self.rng
        last = {}
        for t in self.order:
            last[t[0]] = t
        own = [t for t in self.cur[2] if last.get(t[0]) is t and t[0] not in ('include', 'declare') and t[0] not in NO_CHILDREN
               and not own_name(t)]
        if not own:
            return []
        t = r.choice(own)
        cn = r.choice(self.pools()[1])
        if not self.dup and cn.lower() in [c[0] for c in t[2]]:
            return []
        t[2].append([cn.lower(), self.value(0), []])
        return [[self.name([t[0]]) + '.' + cn, t[2][-1][1]]]

    def section(self, name=None, args=None):
        r = self.rng
        if name is None and self.cur is not self.tree[0] and r.random() < .12:
            # back to the root section
            self.cur, self.cols = self.tree[0], []
            return [['Section', r.choice(['Root', 'root', 'ROOT'])]]
        if name is None:
            if self.decl == 'latest':
                name, args = r.choice(LATEST_SECTIONS)
                if r.random() < .3:
                    args = args[:r.randrange(len(args) + 1)]
            else:
                name = r.choice(SECTIONS)
                args = r.sample(CHILD, r.choice([0, 1, 2, 3, 4]))
                if r.random() < .04:
                    # a wide one
                    args = args + ['F%02d' % i for i in range(r.choice([6, 10, 20, 40]))]
        for s in self.tree:
            if s[0] == name.lower():
                self.cur = s
                self.cols = self.orig[s[0]]
                return [['Section', name] + (list(self.cols) if r.random() < .5 else [])]
        s = [name.lower(), list(args), []]
        self.tree.append(s)
        self.cur = s
        row = ['Section', name] + list(args)
        if self.noise and r.random() < .2:
            row += ['']
            if self.fmt == 'csv':
                s[1].append('')
        self.cols = self.orig[s[0]] = list(s[1])
        if self.headers and r.random() < .12:
            return [row] + self.header()
        return [row]

    def header(self):
        """Other names for the columns of the section, from here on."""
        r = self.rng
        self.cols = r.sample(CHILD + ['Height', 'Mass-2'], r.choice([1, 2, 3]))
        self.cur[1][:] = self.cols
        return [['Header', r.choice(['Label', 'value', 'Caption'])] + self.cols]

    def noise_rows(self):
        r = self.rng
        if not self.noise or r.random() > .3:
            return []
        if r.random() < .06:
            # a gap, as spreadsheets have them
            return [r.choice([[''], ['', '', ''], ['', '', '']])] * r.choice([3, 12, 30, 70])
        return [r.choice([['# comment', 'x'], [''], ['', '', ''], ['#'], [' ', 'ignored'], ['#Title', 'no']])]

    def body(self, n):
        rows = []
        for _ in range(n):
            rows += self.noise_rows()
            while self.sections_on and self.rng.random() < .25:
                rows += self.section()
            if self.rng.random() < .1:
                rows += self.late()
            rows += self.term()
        if self.sections_on and self.rng.random() < .12:
            rows += self.section()
        return rows

    def head(self, ref=None):
        if self.decl == 'latest':
            v = ref or 'metatab-latest'
        elif self.decl == 'small':
            v = ref or 'small.csv'
        else:
            return []
        self.cur[2].append(['declare', v, []])
        self.order.append(self.cur[2][-1])
        return [['Declare', v]]

    def doc(self, decl_ref=None):
        rows = self.head(decl_ref)
        rows += self.body(self.size)
        return rows


def own_name(t):
    return any(c[0] == t[0] for c in t[2])


# -- rendering ---------------------------------------------------------------------------------

def to_csv(rows, rng=None):
    s = io.StringIO()
    style = rng.choice(['excel', 'unix', 'all']) if rng else 'excel'
    if style == 'excel':
        w = csv.writer(s)
    elif style == 'unix':
        w = csv.writer(s, lineterminator='\n')
    else:
        w = csv.writer(s, quoting=csv.QUOTE_ALL, lineterminator='\n')
    for r in rows:
        w.writerow(r)
    return s.getvalue().encode('utf8')


def to_lines(rows, rng=None):
    out = []
    for r in rows:
        r = list(r)
        while len(r) > 2 and not r[-1]:
            r.pop()
        if len(r) == 1:
            out.append(r[0])
            continue
        cells = [c.replace('|', '\\|') for c in r[1:]]
        # a backslash before a separator would escape it
        cells = [c + ' ' if c.endswith('\\') else c for c in cells[:-1]] + cells[-1:]
        t = r[0]
        if t.strip().lower() == 'section' and rng and rng.random() < .3:
            out.append('==== ' + '|'.join(cells))
        else:
            ind = '   ' if t.startswith('.') and rng and rng.random() < .5 else ''
            out.append('%s%s: %s' % (ind, t, '|'.join(cells)))
    return ('\n'.join(out) + '\n').encode('utf8')


def lines_ok(rows):
    """Noise rows whose first cell is blank have no faithful Lines form."""
    return [r for r in rows if r and (r[0].strip() or len(r) == 1)]


# -- trees ---------------------------------------------------------------------------------------

def norm_term(t, drop_empty=True):
    # a term with children of its own, even empty ones, is written after those without
    kids = [norm_term(c, drop_empty) for c in sorted(t[2], key=lambda c: (c[0], bool(c[2])))]
    if drop_empty:
        kids = [c for c in kids if c[1] is not None or c[2]]
    return [t[0], t[1] if t[1] != '' else None, kids]


def norm(tree, skip=(), drop_empty=True):
    """The form in which trees are compared after a save: the order of a term's properties is not kept."""
    out = []
    for name, args, terms in tree:
        out.append([name, [a.lower() for a in args],
                    [norm_term(t, drop_empty) for t in terms if (name, t[0]) not in skip]])
    return out


def exact(tree):
    def e(t):
        return [t[0], t[1] if t[1] != '' else None, [e(c) for c in t[2]]]
    return [[n, [a.lower() for a in args], [e(t) for t in ts]] for n, args, ts in tree]


def snap_term(t):
    return [t.record_term_lc, t.value if t.value != '' else None, [snap_term(c) for c in t.children]]


def snap(doc):
    """The tree that a loaded document holds, read from its public structure."""
    out = []
    for k, s in doc.sections.items():
        out.append([s.name.lower(), [str(a).lower() for a in s.property_names], [snap_term(t) for t in s.terms]])
    return out


def full_snap(doc):
    """Everything a user can observe of the structure, for 'is unchanged' checks."""
    def ft(t):
        return [type(t).__name__, t.parent_term, t.record_term, t.value, list(t.args), t.term_value_name, t.child_property_type,
                t.section.name if t.section is not None else None, [ft(c) for c in t.children]]
    secs = [[k, s.name, list(s.args), list(s.header_args or []), [ft(t) for t in s.terms],
             len(s.children), s.doc is doc]
            for k, s in doc.sections.items()]
    ids = {id(t): i for i, t in enumerate(doc.terms)}
    order = [[ids.get(id(t), -1) for t in s.terms] for s in doc.sections.values()]
    return [secs, order, [ft(t) for t in doc.terms]]


def first_diff(a, b, path=''):
    if type(a) != type(b):
        return '%s: %r != %r' % (path, _s(a), _s(b))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, path + '/%d' % i)
            if d:
                return d
        if len(a) != len(b):
            extra = a[len(b):] or b[len(a):]
            return '%s: length %d != %d, first extra %s' % (path, len(a), len(b), _s(extra[0]))
        return None
    if isinstance(a, dict):
        return first_diff(sorted(a.items(), key=str), sorted(b.items(), key=str), path)
    if a != b:
        return '%s: %s != %s' % (path, _s(a), _s(b))
    return None


def _s(x):
    s = repr(x)
    return s if len(s) < 160 else s[:100] + '...' + s[-40:]


# names that declared terms of metatab-latest have for their value
VALUE_NAMES = ('name', 'url', 'query', 'text', 'label', 'term', 'section', 'value')
