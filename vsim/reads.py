"""Reading operations: everything a user can ask of a loaded document without changing it."""
import json

from . import docgen as D


def js(v):
    """A comparable form of a result, in which the order of dicts counts (it is the order of the output)."""
    if isinstance(v, dict):
        return ['{}', [[js(k), js(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ['set', sorted(json.dumps(js(x)) for x in v)]
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if hasattr(v, 'record_term_lc'):
        return ['term', v.join_lc, v.value, js(v.args), v.section.name if v.section is not None else None]
    return str(type(v))


def at(doc, path):
    """The root-level term number path[0] of the document, and down from there."""
    l = [t for s in doc for t in s]
    t = l[path[0] % len(l)]
    for i in path[1:]:
        if t.children:
            t = t.children[i % len(t.children)]
    return t


def sec(doc, i):
    l = list(doc.sections.values())
    return l[i % len(l)]


def _dp(doc):
    from metatab.datapackage import convert_to_datapackage
    return convert_to_datapackage(doc)


# name -> function(doc, *args); those that give an iterator can be abandoned half way
OPS = {
    'as_dict': lambda d, r=True: d.as_dict(r),
    'as_csv': lambda d: d.as_csv(),
    'as_lines': lambda d: d.as_lines(),
    'rows': lambda d: d.rows,
    'lines': lambda d: d.lines,
    'all_terms': lambda d: d.all_terms,
    'iter': lambda d: iter(d),
    'sections': lambda d: [[k, s.name, js(s.args), js(s.property_names)] for k, s in d.sections.items()],
    'find': lambda d, q, sec=None, v=False: d.find(q, section=sec, value=v),
    'find_list': lambda d, qs: d.find(qs),
    'find_first': lambda d, q: d.find_first(q),
    'find_first_value': lambda d, q, sec=None: d.find_first_value(q, section=sec),
    'get': lambda d, q: d.get(q, 'default'),
    'get_value': lambda d, q: d.get_value(q, 'default'),
    'contains': lambda d, s: s in d,
    'getitem': lambda d, s: d[s],
    'get_section': lambda d, s: d.get_section(s, None),
    'as_version': lambda d, v: d.as_version(v),
    'datapackage': lambda d: _dp(d),
    'doc_dir': lambda d: d.doc_dir,
    'path': lambda d: d.path,
    'ref': lambda d: str(d.ref),
    'cache_ref': lambda d: d.resolve_url('http://x.org/y'),
    's_as_dict': lambda d, i: sec(d, i).as_dict(),
    's_rows': lambda d, i: sec(d, i).rows,
    's_lines': lambda d, i: sec(d, i).lines,
    's_as_lines': lambda d, i: sec(d, i).as_lines(),
    's_iter': lambda d, i: iter(sec(d, i)),
    's_find': lambda d, i, q: sec(d, i).find(q),
    's_find_first': lambda d, i, q: sec(d, i).find_first(q),
    's_find_first_value': lambda d, i, q: sec(d, i).find_first_value(q),
    's_get_term': lambda d, i, q: sec(d, i).get_term(q),
    's_getitem': lambda d, i, q: sec(d, i)[q],
    's_args': lambda d, i: [sec(d, i).property_names, sec(d, i).args],
    't_props': lambda d, p: at(d, p).props,
    't_arg_props': lambda d, p: at(d, p).arg_props,
    't_all_props': lambda d, p: at(d, p).all_props,
    't_as_dict': lambda d, p, r=True: at(d, p).as_dict(r),
    't_rows': lambda d, p: at(d, p).rows,
    't_descendents': lambda d, p: at(d, p).descendents,
    't_str': lambda d, p: [str(at(d, p)), repr(at(d, p))],
    't_find': lambda d, p, c: at(d, p).find(c),
    't_find_first': lambda d, p, c: at(d, p).find_first(c),
    't_find_first_value': lambda d, p, c: at(d, p).find_first_value(c),
    't_get': lambda d, p, c: at(d, p).get(c, 'default'),
    't_get_value': lambda d, p, c: at(d, p).get_value(c, 'default'),
    't_getitem': lambda d, p, c: at(d, p)[c],
    't_contains': lambda d, p, c: c in at(d, p),
    't_getattr': lambda d, p, c: getattr(at(d, p), c.lower()),
    't_term_is': lambda d, p, q: at(d, p).term_is(q),
    't_names': lambda d, p: [at(d, p).join, at(d, p).join_lc, at(d, p).qualified_term, at(d, p).is_terminal,
                             at(d, p).is_arg_child, at(d, p).has_elided_parent, at(d, p).property_names, at(d, p).term],
}

WHOLE = ['as_dict', 'as_csv', 'as_lines', 'rows', 'lines', 'all_terms', 'iter', 'sections', 'as_version', 'datapackage',
         'find', 'find', 'find', 'find_list', 'find_first', 'find_first_value', 'get', 'get_value']
ITER = {'rows', 'lines', 'all_terms', 'iter', 's_rows', 's_lines', 's_iter', 't_rows', 't_descendents'}


def do(doc, op):
    """The result of an operation; a document may not have what is asked for, and says so with one of a few exceptions."""
    try:
        v = OPS[op[0]](doc, *op[1:])
        if op[0] in ITER:
            v = list(v)
        return js(v)
    except (KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
        return ['raises', type(e).__name__]
    except Exception as e:
        if type(e).__module__.startswith('metatab'):
            return ['raises', type(e).__name__]
        raise


def part(doc, op, k, how):
    """Go through part of the result, then drop it."""
    it = iter(OPS[op[0]](doc, *op[1:]))
    out = []
    try:
        for _ in range(k):
            out.append(js(next(it)))
    except StopIteration:
        return out
    if how == 'close' and hasattr(it, 'close'):
        it.close()
    elif how == 'throw' and hasattr(it, 'throw'):
        try:
            it.throw(KeyboardInterrupt())
        except KeyboardInterrupt:
            pass
        else:
            out.append('swallowed')
    del it
    return out


class Shape(object):
    """What a document holds, as far as drawing operations for it needs to know."""

    def __init__(self, tree):
        self.nsec = len(tree)
        self.names = [t[0] for s in tree for t in s[2]]
        self.secs = [s[0] for s in tree]
        self.terms = [t for s in tree for t in s[2]]
        self.kids = [(t[0], c[0]) for t in self.terms for c in t[2]]
        self.values = [t[1] for t in self.terms if t[1]]
        self.args = [s[1] for s in tree for t in s[2]]

    def path(self, rng):
        i = rng.randrange(len(self.terms))
        p, t = [i], self.terms[i]
        while t[2] and rng.random() < .4:
            j = rng.randrange(len(t[2]))
            p.append(j)
            t = t[2][j]
        return p, t

    def query(self, rng):
        if self.kids and rng.random() < .4:
            p, c = rng.choice(self.kids)
            q = rng.choice(['%s.%s' % (p, c), '*.%s' % c, '%s.*' % p])
        else:
            q = rng.choice(['', 'root.']) + rng.choice(self.names + ['nothing'])
        return rng.choice([q, q.title(), q.upper()])

    def draw(self, rng, pool=None):
        k = rng.choice(pool or (WHOLE + list(OPS)))
        if k.startswith('t_') and not self.terms:
            k = 'as_csv'
        if k in ('as_dict',):
            return [k, rng.random() < .7]
        if k == 'find':
            return [k, self.query(rng), rng.choice([None, None, rng.choice(self.secs)]),
                    rng.choice([False, False, rng.choice(self.values)]) if self.values else False]
        if k == 'find_list':
            return [k, [self.query(rng) for _ in range(rng.choice([1, 2, 3]))]]
        if k in ('find_first', 'find_first_value', 'get', 'get_value'):
            return [k, self.query(rng)]
        if k in ('contains', 'getitem', 'get_section'):
            s = rng.choice(self.secs + ['absent', 'contacts', 'resources', 'schema', 'references'])
            return [k, rng.choice([s, s.upper(), s.title()])]
        if k == 'as_version':
            return [k, rng.choice(['+1', '-1', '5', 7, None, '+2'])]
        if k.startswith('s_'):
            i = rng.randrange(self.nsec)
            if 'find' in k or 'get' in k:
                return [k, i, self.query(rng)]
            return [k, i]
        if k.startswith('t_'):
            p, t = self.path(rng)
            if k == 't_term_is':
                return [k, p, self.query(rng)]
            if k == 't_as_dict':
                return [k, p, rng.random() < .5]
            if k in ('t_find', 't_find_first', 't_find_first_value', 't_get', 't_get_value', 't_getitem', 't_contains', 't_getattr'):
                args = [a for a in self.args[p[0]] if a]
                c = rng.choice([c[0] for c in t[2]] + ['absent'] + D.CHILD[:2] + ['name', 'url', 'description'][:1] + args)
                if args and rng.random() < .3:
                    c = rng.choice(args)
                return [k, p, rng.choice([c, c.title()])]
            return [k, p]
        return [k]


def rich(rng, rows):
    """Rows that name a document, give it a version, and describe tables, so that names and data packages can be made."""
    out = [['Identifier', 'id-%d' % rng.randrange(100)], ['Name', rng.choice(['some-name', 'Other Name 2', ''])]]
    tree = [['identifier', out[0][1], []], ['name', out[1][1] or None, []]]
    if rng.random() < .7:
        out.append(['Dataset', rng.choice(['cities', 'A Set'])])
        tree.append(['dataset', out[-1][1], []])
        alone = rng.random() < .15
        for n in ('Origin', 'Space', 'Time', 'Grain', 'Variant'):
            if rng.random() < .4 and not alone:
                out.append([n, rng.choice(['example.com', 'ca', '2017', 'tract', ''])])
                tree.append([n.lower(), out[-1][1] or None, []])
        x = rng.random() if not alone else 1
        if x < .4:
            out.append(['Version', str(rng.randrange(1, 30))])
            tree.append(['version', out[-1][1], []])
        elif x < .8:
            out.append(['Version', '1.2.3'])
            kids = []
            for n in ('Major', 'Minor', 'Patch'):
                out.append(['Version.' + n, str(rng.randrange(9))])
                kids.append([n.lower(), out[-1][1], []])
            tree.append(['version', '1.2.3', kids])
    tail, ttree = [], []
    if rng.random() < .7:
        tail += [['Section', 'Resources', 'Name', 'Title']]
        a, b = [], []
        names = ['one', 'two', 'three'][:rng.choice([1, 2, 3])]
        for n in names:
            tail.append(['Datafile', 'http://x.org/%s.csv' % n, n, 'T ' + n])
            a.append(['datafile', tail[-1][1], [['name', n, []], ['title', 'T ' + n, []]]])
        tail += [['Section', 'Schema', 'DataType', 'Description']]
        for n in names:
            tail.append(['Table', n])
            kids = []
            for c in range(rng.choice([1, 2, 4])):
                tail.append(['Table.Column', 'c%d' % c, rng.choice(['int', 'text', 'float', 'date']), 'd%d' % c])
                kids.append(['column', 'c%d' % c, [['datatype', tail[-1][2], []], ['description', 'd%d' % c, []]]])
            b.append(['table', n, kids])
        ttree = [['resources', ['name', 'title'], a], ['schema', ['datatype', 'description'], b]]
    head = rows[:1] if rows and rows[0][0] == 'Declare' else []
    return head + out + rows[len(head):] + tail, tree, ttree


def gen(rng, fmt=None, decl='?', size=None, small=False):
    """A document and what it holds, for reading."""
    from .sc.common import W
    fmt = fmt or rng.choice(['csv', 'csv', 'txt'])
    if decl == '?':
        decl = rng.choice([None, 'small', 'latest', 'latest'])
    g = D.DocGen(rng, fmt, decl, size=size or rng.choice([1, 3, 5] if small else [1, 3, 6, 10]), big=.01 if small else .04, headers=decl != 'latest')
    rows = g.doc(W + '/small.csv' if decl == 'small' else None)
    tree = g.tree
    if rng.random() < .6:
        rows, head, tail = rich(rng, rows)
        n = 1 if tree[0][2] and tree[0][2][0][0] == 'declare' else 0
        tree[0][2][n:n] = head
        for s in tail:
            for t in tree:
                if t[0] == s[0]:
                    t[2].extend(s[2])
                    break
            else:
                tree.append(s)
    if fmt == 'txt':
        rows = D.lines_ok(rows)
    text = (D.to_csv(rows, rng) if fmt == 'csv' else D.to_lines(rows, rng)).decode('utf8')
    return {'fmt': fmt, 'decl': decl, 'text': text, 'tree': tree, 'rows': rows}
