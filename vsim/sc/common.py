"""Things that several scenarios use."""
from .. import docgen as D
from ..core import attempt, must, Outcome
from ..world import Violation

W = '/vsim/w'
IDENT = {('root', 'identifier'), ('root', 'name')}


def M():
    import metatab
    return metatab


def gen_doc(rng, fmt=None, decl='?', size=None, **kw):
    fmt = fmt or rng.choice(['csv', 'csv', 'txt'])
    if decl == '?':
        decl = rng.choice([None, None, 'small', 'latest'])
    kw.setdefault('headers', decl != 'latest')
    g = D.DocGen(rng, fmt, decl, size=size, **kw)
    rows = g.doc(W + '/small.csv' if decl == 'small' else None)
    if fmt == 'csv':
        text = D.to_csv(rows, rng)
    else:
        rows = D.lines_ok(rows)
        text = D.to_lines(rows, rng)
    return {'fmt': fmt, 'decl': decl, 'text': text.decode('utf8'), 'tree': g.tree, 'rows': rows}


def ref_of(path):
    return 'metatab+file://' + path if path.endswith('.txt') else path


def put_decl(w):
    w.fs.put(W + '/small.csv', D.SMALL_DECL.encode())


def put_doc(w, d, path):
    put_decl(w)
    w.fs.put(path, d['text'].encode('utf8'))


def load(path, **kw):
    return M().MetatabDoc(ref_of(path), **kw)


HOWS = ['fmt', 'fmt', 'write', 'path', 'pathwrite', 'own', 'ownwrite', 'url']


def save(doc, path, how='fmt'):
    """Each of the ways to say where a document is to be saved."""
    arg = path
    if how in ('path', 'pathwrite'):
        import pathlib
        arg = pathlib.Path(path)
    elif how in ('own', 'ownwrite') and doc.ref is not None and doc.ref.scheme == 'file' and str(doc.ref.fspath) == path:
        arg = None       # to where it came from
    elif how == 'url':
        arg = 'file://' + path
    if how.endswith('write'):
        return doc.write(arg)
    return doc.write_lines(arg) if path.endswith('.txt') else doc.write_csv(arg)


def quiet_load(w, path, what='reading the file'):
    """A read by somebody who meets no faults."""
    q, w.quiet = w.quiet, 1
    try:
        return load(path)
    except Exception as e:
        raise Violation('unreadable', '%s fails: %s: %s' % (what, type(e).__name__, str(e)[:300]))
    finally:
        w.quiet = q


def tree_of(doc, skip=()):
    return D.norm(D.snap(doc), skip)


def show(b):
    if b is None:
        return 'no file'
    return '%d bytes %r%s' % (len(b), b[:60], '...' if len(b) > 60 else '')


def drop_terms(d):
    """Smaller documents: for shrinking.  Needs 'rows' and 'tree' in step, so works on whole documents only by size."""
    return []


def shrink_rows(case, key='doc'):
    """Candidates with fewer rows; only for scenarios that do not use the model tree of the generator."""
    d = case[key]
    rows = d.get('rows')
    if not rows:
        return
    n = len(rows)
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            r = rows[:i] + rows[i + size:]
            if not r:
                continue
            text = (D.to_csv(r) if d['fmt'] == 'csv' else D.to_lines(r)).decode('utf8')
            yield dict(case, **{key: dict(d, rows=r, text=text, tree=None)})
    # shorter values
    for i, row in enumerate(rows):
        for j, c in enumerate(row):
            if j and len(c) > 40:
                r = [list(x) for x in rows]
                r[i][j] = c[:5]
                text = (D.to_csv(r) if d['fmt'] == 'csv' else D.to_lines(r)).decode('utf8')
                yield dict(case, **{key: dict(d, rows=r, text=text, tree=None)})


def apart(fn):
    """What fn gives in a process of its own, that starts from here."""
    import json
    import os
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = json.dumps(['ok', fn()])
            except BaseException as e:
                data = json.dumps(['exc', '%s: %s' % (type(e).__name__, e)])
            b = memoryview(data.encode('utf8', 'surrogatepass'))
            while b:
                b = b[os.write(wr, b):]
        finally:
            os._exit(0)
    os.close(wr)
    out = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        out += b
    os.close(r)
    os.waitpid(pid, 0)
    k, v = json.loads(out.decode('utf8', 'surrogatepass'))
    if k == 'exc':
        raise RuntimeError('helper process: ' + v)
    return v


def roundtrip(v):
    import json
    return json.loads(json.dumps(v))


def rowgen(rows):
    from metatab.rowgen import MetatabRowGenerator
    return MetatabRowGenerator(rows)
