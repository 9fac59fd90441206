"""Edit histories: operations of the editing interface, with the small model that says what they mean.

The model is a list of sections [key, [arg names], [node, ...]] and the order in which root-level terms were added;
a node is [name, value, [node, ...]].
"""
from . import docgen as D

SMALL_ARGS = {'contacts': ['Email', 'Organization'], 'resources': ['Name', 'Title']}


class Model(object):

    def __init__(self, tree):
        self.secs = [[s[0].lower(), [a for a in s[1]], [node(t) for t in s[2]]] for s in tree]
        self.order = [t for s in self.secs for t in s[2]]

    def reorder(self, order):
        self.order = [self.secs[i][2][j] for i, j in order]

    def sec(self, key):
        for s in self.secs:
            if s[0] == key.lower():
                return s
        return None

    def tree(self):
        return [[k, list(a), [node(t) for t in ts]] for k, a, ts in self.secs]

    def forget(self, n):
        self.order = [x for x in self.order if x is not n]

    def section_of(self, n):
        for s in self.secs:
            if any(x is n for x in s[2]):
                return s[0]
        return None

    # -- what the operations mean ------------------------------------------------------------------

    def apply(self, op):
        k = op[0]
        if k == 'section':
            if self.sec(op[1]) is None:
                self.secs.append([op[1].lower(), list(op[2]), []])
        elif k == 'new_section':
            self.secs.append([op[1].lower(), list(op[3] or op[2]), []])
        elif k in ('new_term', 'set_terms'):
            n = [rec(op[2]), op[3], [[rec(c), v, []] for c, v in op[4]]]
            self.sec(op[1])[2].append(n)
            self.order.append(n)
        elif k == 'get_or_new':
            s = self.sec(op[1])
            value, props = op[3], op[4]
            # searching goes through the terms in the order in which they were added
            hit = [n for n in self.order if n[0] == rec(op[2]) and self.section_of(n) == s[0]
                   and (value is None or n[1] == value)]
            if hit:
                n = hit[0]
                for c, v in props:
                    set_child(n, c, v)
            else:
                n = [rec(op[2]), value, [[rec(c), v, []] for c, v in props]]
                s[2].append(n)
                self.order.append(n)
        elif k == 'section_set':
            self.apply(['get_or_new', op[1], op[2], op[3], []])
        elif k == 'section_del':
            s = self.sec(op[1])
            for n in [n for n in s[2] if n[0] == rec(op[2])]:
                self.forget(n)
            s[2] = [n for n in s[2] if n[0] != rec(op[2])]
        elif k in ('remove_term', 'doc_remove_term'):
            s = self.sec(op[1])
            n = s[2].pop(op[2])
            self.forget(n)
        elif k == 'move':
            n = self.sec(op[1])[2].pop(op[2])
            self.sec(op[3])[2].append(n)
        elif k == 'add_obj':
            self.apply(['new_term', op[1], op[2], op[3], []])
        elif k == 'clean':
            s = self.sec(op[1])
            for n in s[2]:
                self.forget(n)
            s[2] = []
        elif k == 'del_section':
            s = self.sec(op[1])
            if s is not None:
                for n in s[2]:
                    self.forget(n)
                self.secs = [x for x in self.secs if x is not s]
        elif k in ('set_value', 'set_value_item'):
            self.at(op)[1] = op[3]
        elif k in ('set_prop', 'set_attr'):
            set_child(self.at(op), op[3], op[4])
        elif k == 'del_prop':
            n = self.at(op)
            for i, c in enumerate(n[2]):
                if c[0] == rec(op[3]):
                    del n[2][i]
                    break
        elif k == 'new_child':
            self.at(op)[2].append([rec(op[3]), op[4], [[rec(c), v, []] for c, v in op[5]]])
        elif k == 'get_or_new_child':
            n = self.at(op)
            c = [c for c in n[2] if c[0] == rec(op[3])]
            if c:
                if op[4] is not None:
                    c[0][1] = op[4]
            else:
                n[2].append([rec(op[3]), op[4], []])
        elif k == 'remove_child':
            del self.at(op)[2][op[3]]
        elif k == 'add_arg':
            s = self.sec(op[1])
            s[1] = [a.strip() for a in s[1] if a.strip()]
            if op[2].lower() not in [a.lower() for a in s[1]]:
                s[1] = [op[2]] + s[1] if op[3] else s[1] + [op[2]]
        elif k == 'remove_arg':
            s = self.sec(op[1])
            s[1] = [a.strip() for a in s[1] if a.strip() and a.lower() != op[2].lower()]
        elif k == 'sort_terms':
            s = self.sec(op[1])
            rest = list(s[2])
            out = []
            for name in op[2] or []:
                out += [n for n in rest if 'root.' + n[0] == name]
                rest = [n for n in rest if 'root.' + n[0] != name]
            s[2] = out + sorted(rest, key=lambda n: 'root.' + n[0])
        elif k == 'sort_sections':
            first = [s for name in op[1] for s in self.secs if s[0] == name.lower()]
            self.secs = first + [s for s in self.secs if not any(s is x for x in first)]
        else:
            raise RuntimeError(op)

    def at(self, op):
        n = self.sec(op[1])[2][op[2][0]]
        for i in op[2][1:]:
            n = n[2][i]
        return n

    def ok(self, op, decl=None):
        """Can the operation be done in this state?  A history goes on after a crash took some of it away."""
        k = op[0]
        if k in ('section', 'sort_sections', 'del_section'):
            return True
        s = self.sec(op[1])
        if k == 'new_section':
            return s is None
        if s is None:
            return False
        if k in ('remove_term', 'doc_remove_term'):
            return op[2] < len(s[2]) and s[2][op[2]][0] not in ('declare', 'identifier')
        if k == 'move':
            return op[2] < len(s[2]) and s[2][op[2]][0] not in ('declare', 'identifier') and self.sec(op[3]) not in (None, s)
        if k == 'get_or_new' and op[4] and any(n[0] == rec(op[2]) and D.own_name(n) for n in s[2]):
            return False
        if k == 'clean' or not isinstance(op[2], list) or k == 'sort_terms':
            return True
        try:
            n = self.at(op)
        except IndexError:
            return False
        if n[0] in ('declare', 'identifier'):
            return False
        if k in ('set_value', 'set_value_item'):
            return True
        if k in ('set_prop', 'del_prop', 'set_attr') and decl == 'latest' and op[3].lower() in D.VALUE_NAMES:
            return False     # the name of the value of some declared terms
        if k == 'remove_child':
            return op[3] < len(n[2])
        if k in ('set_prop', 'new_child', 'get_or_new_child', 'set_attr') and \
                (rec(op[3]) == n[0] or any(D.own_name(self.at([k, op[1], op[2][:i + 1]])) for i in range(len(op[2])))):
            return False     # the format refers to terms by name
        if k == 'set_attr' and op[3].lower() not in [a.lower() for a in s[1]]:
            return False
        return not (decl == 'latest' and n[0] in D.NO_CHILDREN)

    def find(self, name, section=None, value=False, derived=()):
        """[value, ...] of the terms that a search finds, in its order."""
        out = []
        secs = [x.lower() for x in ([section] if isinstance(section, str) else section or [])]
        if name.startswith('root.'):
            for want in list(derived) + [name[5:]]:
                for n in self.order:
                    if (n[0] == want or want == '*') and (section is None or self.section_of(n) in secs) \
                            and (value is False or n[1] == value):
                        out.append(n[1])
            return out
        p, r = name.split('.')

        def walk(n, sec):
            for c in n[2]:
                if (p == '*' or n[0] == p) and (r == '*' or c[0] == r) and (section is None or sec in secs) \
                        and (value is False or c[1] == value):
                    out.append(c[1])
                walk(c, sec)
        for k, a, ts in self.secs:
            for t in ts:
                if p == '*' and r in ('*', t[0]) and (section is None or k in secs) and (value is False or t[1] == value):
                    out.append(t[1])
                walk(t, k)
        return out


def node(t):
    return [t[0], t[1] if t[1] != '' else None, [node(c) for c in t[2]]]


def rec(name):
    return name.split('.')[-1].strip().lower()


def set_child(n, name, value):
    for c in n[2]:
        if c[0] == rec(name):
            c[1] = value
            return
    n[2].append([rec(name), value, []])


# -- the same operations on a document ---------------------------------------------------------------

def term_at(doc, op):
    t = list(doc[op[1]])[op[2][0]]
    for i in op[2][1:]:
        t = t.children[i]
    return t


def apply_doc(doc, op):
    k = op[0]
    if k == 'section':
        doc.get_or_new_section(op[1], list(op[2]))
    elif k == 'new_section':
        doc.new_section(op[1], list(op[2]))
    elif k == 'new_term':
        doc[op[1]].new_term(op[2], op[3], **dict(op[4]))
    elif k == 'set_terms':
        doc[op[1]].set_terms(**{op[2]: (op[3], dict(op[4])) if op[4] else op[3]})
    elif k == 'get_or_new':
        if op[3] is None:
            doc[op[1]].get_or_new_term(op[2], **dict(op[4]))
        else:
            doc[op[1]].get_or_new_term(op[2], op[3], **dict(op[4]))
    elif k == 'section_set':
        doc[op[1]][op[2]] = op[3]
    elif k == 'section_del':
        del doc[op[1]][op[2]]
    elif k == 'remove_term':
        s = doc[op[1]]
        s.remove_term(list(s)[op[2]])
    elif k == 'doc_remove_term':
        doc.remove_term(list(doc[op[1]])[op[2]])
    elif k == 'move':
        s, t = doc[op[3]], list(doc[op[1]])[op[2]]
        if op[4] == 'set':
            s.set_terms(t)
        else:
            (s.move_term if op[4] == 'move' else s.add_term)(t)
    elif k == 'add_obj':
        from metatab.terms import Term
        s = doc[op[1]]
        t = Term(op[2], op[3], section=s)
        if op[4] == 'doc':
            doc.add_term(t)
        elif op[4] == 'set':
            s.set_terms(t)
        else:
            s.add_term(t)
    elif k == 'clean':
        doc[op[1]].clean()
    elif k == 'del_section':
        del doc[op[1]]
    elif k == 'set_value':
        term_at(doc, op).value = op[3]
    elif k == 'set_value_item':
        term_at(doc, op)['value'] = op[3]
    elif k == 'set_prop':
        term_at(doc, op)[op[3]] = op[4]
    elif k == 'set_attr':
        setattr(term_at(doc, op), op[3], op[4])
    elif k == 'del_prop':
        term_at(doc, op)[op[3]] = None
    elif k == 'new_child':
        term_at(doc, op).new_child(op[3], op[4], **dict(op[5]))
    elif k == 'get_or_new_child':
        t = term_at(doc, op)
        if op[4] is None:
            t.get_or_new_child(op[3])
        else:
            t.get_or_new_child(op[3], op[4])
    elif k == 'remove_child':
        t = term_at(doc, op)
        t.remove_child(t.children[op[3]])
    elif k == 'add_arg':
        doc[op[1]].add_arg(op[2], prepend=op[3])
    elif k == 'remove_arg':
        doc[op[1]].remove_arg(op[2])
    elif k == 'sort_terms':
        doc[op[1]].sort_by_term(op[2])
    elif k == 'sort_sections':
        doc.sort_sections(op[1])
    else:
        raise RuntimeError(op)


KINDS = ['new_term'] * 6 + ['set_terms'] * 2 + ['get_or_new'] * 3 + ['section_set'] * 2 + ['section_del'] + \
    ['remove_term', 'remove_term', 'doc_remove_term', 'clean', 'del_section', 'section', 'section', 'new_section', 'new_section'] + \
    ['set_value', 'set_value', 'set_value_item'] + ['set_prop'] * 4 + ['set_attr'] + ['del_prop'] * 2 + ['new_child'] * 3 + \
    ['get_or_new_child'] * 2 + ['remove_child'] * 3 + ['twin'] * 4 + ['add_arg', 'remove_arg', 'sort_terms', 'sort_sections'] + ['move', 'move', 'add_obj']


class EditGen(object):
    """Draws operations that are meaningful for the present state of the model."""

    def __init__(self, rng, fmt, decl):
        self.rng = rng
        self.decl = decl
        self.g = D.DocGen(rng, fmt, decl, big=.01)

    def value(self, empty=0):
        r = self.rng
        if r.random() < .1:
            return r.choice(['ab', 'x', '00', '-1', 'No'])
        return self.g.value(empty)

    def names(self, key):
        if self.decl == 'latest':
            return D.LATEST_TERMS.get(key, ['Odd_term'])
        return [n for n in D.NAMES if not (self.decl == 'small' and n.lower() in D.SMALL_SYN)]

    def children(self, key):
        if self.decl == 'latest':
            return [c for c in D.LATEST_CHILD.get(key, ['Extra']) if c.lower() not in D.VALUE_NAMES] or ['Extra']
        return D.CHILD

    def child_ok(self, n):
        return not (self.decl == 'latest' and n[0] in D.NO_CHILDREN) and n[0] not in ('declare', 'include') and not D.own_name(n)

    def case(self, s):
        return self.rng.choice([s, s, s.lower(), s.upper(), s.title()])

    def props(self, key, k=None):
        r = self.rng
        pool = [c for c in self.children(key)]
        return [[c, self.value()] for c in r.sample(pool, min(len(pool), r.choice([0, 0, 1, 2]) if k is None else k))]

    def op(self, m):
        r = self.rng
        for _ in range(50):
            o = self.draw(m, r.choice(KINDS))
            if o is not None and m.ok(o, self.decl):
                return o
        return ['new_term', 'root', 'Note', self.value(), []]

    def pick(self, m, path_ok=True):
        """A section key and the path of a term in it."""
        r = self.rng
        c = [s for s in m.secs if [n for n in s[2] if n[0] not in ('declare', 'identifier')]]
        if not c:
            return None
        s = r.choice(c)
        i = r.choice([i for i, n in enumerate(s[2]) if n[0] not in ('declare', 'identifier')])
        path = [i]
        n = s[2][i]
        while path_ok and n[2] and r.random() < .3:
            j = r.randrange(len(n[2]))
            path.append(j)
            n = n[2][j]
        return s[0], path, n

    def draw(self, m, k):
        r = self.rng
        sec = r.choice(m.secs)[0]
        title = self.case(sec)
        if k == 'section':
            pool = [n for n, a in D.LATEST_SECTIONS] if self.decl == 'latest' else D.SECTIONS
            return [k, r.choice(pool), r.sample(self.children('root'), 1) if self.decl == 'latest' else r.sample(D.CHILD, r.choice([1, 2, 3]))]
        if k == 'new_section':
            if self.decl == 'latest':
                return None
            n = r.choice(D.SECTIONS + ['Contacts', 'Resources'])
            args = SMALL_ARGS.get(n.lower()) if self.decl == 'small' else None      # those declared, if any, count
            return [k, n, r.sample(D.CHILD, r.choice([0, 1, 2, 3])), args] if m.sec(n) is None else None
        if k in ('new_term', 'set_terms', 'get_or_new', 'section_set'):
            n = r.choice(self.names(sec))
            props = self.props(sec) if not (self.decl == 'latest' and n.lower() in D.NO_CHILDREN) else []
            if k == 'set_terms':
                return [k, title, n, self.value(), props]
            n = self.case(n)
            if r.random() < .4:
                n = r.choice(['Root.', 'root.']) + n
            if k == 'new_term':
                return [k, title, n, self.value(.1), props]
            v = self.value()
            same = [x for x in m.sec(sec)[2] if x[0] == rec(n) and x[1]]
            if same and r.random() < .6:
                v = r.choice(same)[1]
            if self.derived(n):
                return None
            if k == 'section_set':
                return [k, title, n, v]
            return [k, title, n, r.choice([v, v, None]), props]
        if k == 'section_del':
            pool = [n[0] for n in m.sec(sec)[2] if n[0] not in ('declare', 'identifier')] + ['nosuch']
            return [k, title, self.case(r.choice(pool))]
        if k in ('remove_term', 'doc_remove_term'):
            p = self.pick(m, False)
            return [k, self.case(p[0]), p[1][0]] if p else None
        if k == 'move':
            p = self.pick(m, False)
            if p is None or sec == p[0] or self.decl == 'latest' or p[2][0] in D.VALUE_NAMES:
                return None
            return [k, self.case(p[0]), p[1][0], title, r.choice(['move', 'add', 'set'])]
        if k == 'add_obj':
            n = self.case(r.choice(self.names(sec)))
            if self.derived(n):
                return None
            return [k, title, n, self.value(.1), r.choice(['doc', 'set', 'add'])]
        if k in ('clean', 'del_section'):
            if sec == 'root' or r.random() < .5:
                return None
            if k == 'del_section' and r.random() < .1:
                return [k, 'Nosuch']
            return [k, title]
        if k in ('add_arg', 'remove_arg'):
            if sec == 'root':
                return None
            s = m.sec(sec)
            if k == 'remove_arg':
                a = [x for x in s[1] if x]
                return [k, title, self.case(r.choice(a))] if a else None
            return [k, title, r.choice(self.children(sec)), r.random() < .3]
        if k == 'sort_terms':
            names = sorted({'root.' + n[0] for n in m.sec(sec)[2]})
            r.shuffle(names)
            return [k, title, r.choice([None, names[:r.randrange(len(names) + 1)]])]
        if k == 'sort_sections':
            names = [s[0] for s in m.secs if s[0] != 'root']
            r.shuffle(names)
            return [k, ['Root'] + [self.case(n) for n in names[:r.randrange(len(names) + 1)]]]
        p = self.pick(m)
        if k == 'twin':
            # one more of something that is there, with the same value but other properties
            if p is None or not self.child_ok(p[2]) or len(p[1]) > 2 or p[2][1] is None:
                return None
            key, path, n = p
            if len(path) == 1:
                props = self.props(key)
                flat = [[c[0], c[1]] for c in n[2] if c[1] and not c[2] and c[0] not in RESERVED and c[0] not in D.VALUE_NAMES]
                if r.random() < .4 and len({c for c, v in flat}) == len(n[2]):
                    props = flat        # the very same
                return ['new_term', self.case(key), n[0], n[1], props]
            if n[0] in D.VALUE_NAMES and self.decl:
                return None
            return ['new_child', self.case(key), path[:-1], n[0], n[1], self.gprops() if len(path) == 2 else []]
        if p is None:
            return None
        key, path, n = p
        title = self.case(key)
        if k in ('set_value', 'set_value_item'):
            return [k, title, path, self.value(.1 if k == 'set_value' else 0)]
        if k == 'remove_child':
            return [k, title, path, r.randrange(len(n[2]))] if n[2] else None
        if k == 'del_prop':
            names = [c[0] for c in n[2]] + ['nosuch']
            return [k, title, path, self.case(r.choice(names))]
        if not self.child_ok(n) or len(path) > 2:
            return None
        names = self.children(key)
        if len(path) == 2:
            names = D.GRAND
        if k == 'set_attr':
            args = [a for a in m.sec(key)[1] if a and a.lower() not in RESERVED]
            if not args or len(path) > 1:
                return None
            return [k, title, path, r.choice(args), self.value()]
        c = self.case(r.choice(names))
        mine = [x[0] for x in n[2] if x[0] not in D.VALUE_NAMES]
        if mine and r.random() < .5:
            c = self.case(r.choice(mine))
        v = self.value()
        if len(path) == 1 and not self.decl and r.random() < .25:
            # named (and perhaps worth) what another term of the section is
            o = [x for x in m.sec(key)[2] if x[0] != n[0] and x[0] not in ('declare', 'identifier', 'include') and x[1]]
            if o:
                o = r.choice(o)
                c, v = self.case(o[0]), r.choice([v, o[1], o[1]])
                if k == 'new_child':
                    return [k, title, path, c, v, []]
        if k == 'set_prop':
            return [k, title, path, c, v]
        if k == 'new_child':
            return [k, title, path, c, self.value(.05), self.gprops() if len(path) == 1 else []]
        if k == 'get_or_new_child':
            return [k, title, path, c, self.value() if r.random() < .9 or not [x for x in n[2] if x[0] == rec(c)] else None]
        return None

    def gprops(self):
        return [[g, self.value()] for g in self.rng.sample(D.GRAND, self.rng.choice([0, 0, 1, 2]))]

    def derived(self, n):
        return self.decl == 'small' and rec(n) in D.SMALL_DERIVED


RESERVED = {'value', 'name', 'term', 'parent', 'section', 'doc', 'row', 'col', 'args', 'children', 'label', 'url', 'title'}
