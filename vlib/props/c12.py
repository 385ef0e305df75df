"""C12: rendered HTML never turns document text into markup."""
import re

from vlib.core import Sub, D, Skip, Violation, require  # noqa: F401
from vlib import render
from vlib.gen import htmldoc, latexdoc

TECHNIQUE = 'property-based testing: differential rendering of generated documents (text leaves from an adversarial alphabet against the same document with plain words), compared as parsed HTML trees'
LEVEL = 'property-based'
NOTE = ''
ASSUMPTIONS = []

WORD = re.compile(r'[Qq][a-y]{3}Z')
GENID = re.compile(r'\ba\d{10}\b')
HTMLEXT = ('.html', '.htm', '.xhtml')


def warm():
    render.warm('HTML5', 'XHTML')


def canon(e, f):
    """an element as a nested tuple with its words replaced"""
    kids, buf = [], []
    for c in e.children:
        if isinstance(c, str):
            buf.append(c)
            continue
        if buf:
            kids.append(f(''.join(buf)))
            buf = []
        kids.append(canon(c, f))
    if buf:
        kids.append(f(''.join(buf)))
    return (e.tag, tuple(sorted((k, None if v is None else 'the source' if k == 'alt' and v[:1] == '\\' else ' '.join(f(v).split()) if k == 'title' else f(v)) for k, v in e.attrs.items())), tuple(kids))


def difference(a, b, path=''):
    if isinstance(a, str) or isinstance(b, str):
        if a == b:
            return None
        return '%s holds %.300r, should be %.300r' % (path, b if isinstance(b, str) else '<%s %s>' % (b[0], b[1]), a if isinstance(a, str) else '<%s %s>' % (a[0], a[1]))
    if a[0] != b[0]:
        return '%s holds the element <%s %s>, should be <%s>' % (path, b[0], b[1], a[0])
    here = path + '/' + a[0]
    if a[1] != b[1]:
        return '%s has the attributes %r, should be %r' % (here, b[1], a[1])
    for x, y in zip(a[2], b[2]):
        d = difference(x, y, here)
        if d:
            return d
    if len(a[2]) != len(b[2]):
        i = min(len(a[2]), len(b[2]))
        return '%s has %d children, should have %d; the first of the rest is %.300r' % (here, len(b[2]), len(a[2]), (b[2] + a[2])[i] if len(b[2]) > i else a[2][i])
    return None


ENCODINGS = ['utf-8', 'utf-8', 'utf-8', 'ascii', 'latin-1', 'iso8859-5', 'koi8-r']
THEMES = {'HTML5': ['default', 'default', 'minimal', 'fragment'], 'XHTML': ['default', 'default', 'minimal', 'plain', 'python']}


def gen(d):
    doc = htmldoc.Build(d).document()
    r = d.choice(['HTML5', 'HTML5', 'XHTML'])
    return [r, d.choice(THEMES[r]), d.bool(1, 3), d.choice(ENCODINGS), d.choice([-10, 0, 1, 2, 2, 6]), doc]


def outputs(src, renderer, theme, escape, encoding, level):
    cfg = render.config(renderer, general__theme=theme, files__escape_high_chars=escape, files__output_encoding=encoding, files__split_level=level)
    cfg['files']['filename'] = 'index [sect$num(4)]'
    return {k: v for k, v in render.render(src, cfg).files.items() if k.endswith(HTMLEXT)}


def check(case):
    renderer, theme, escape, encoding, level, doc = case
    plain = htmldoc.Write(doc, True, latexdoc.substitute)
    full = htmldoc.Write(doc, False, latexdoc.substitute)
    texts = dict(full.words)
    try:
        a = outputs(plain.src, renderer, theme, False, 'utf-8', level)
    except Exception as e:
        raise Skip('plain document: %s' % type(e).__name__)
    b = outputs(full.src, renderer, theme, escape, encoding, level)
    what = '%s theme %s split-level %d escape-high-chars %s output-encoding %s in\n%s' % (renderer, theme, level, escape, encoding, full.src)
    require(sorted(a) == sorted(b), 'files %r, should be %r; %s', sorted(b), sorted(a), what)

    # generated identifiers count up during the life of the process
    ids, jds = {}, {}

    def text(w):
        if w[0] == 'q':
            # \cref writes the names of theorems in lower case
            t = texts.get('Q' + w[1:], w)
            return t[0].lower() + t[1:]
        return texts.get(w, w)

    def fill(s):
        return WORD.sub(lambda m: text(m.group()), GENID.sub(lambda m: 'id%d' % ids.setdefault(m.group(), len(ids)), s))

    def same(s):
        return GENID.sub(lambda m: 'id%d' % jds.setdefault(m.group(), len(jds)), s)
    n = 0
    for name in sorted(a):
        ta, pa = render.tree(a[name].decode('utf-8'))
        try:
            bt = b[name].decode(encoding)
        except UnicodeDecodeError as e:
            raise Violation('%s is not %s: %s; %s' % (name, encoding, e, what))
        if escape:
            require(bt.isascii(), '%s has the characters %r although they are to be escaped; %s', name, sorted({c for c in bt if ord(c) > 127}), what)
        tb, pb = render.tree(bt)
        x, y = canon(ta, fill), canon(tb, same)
        if encoding != 'utf-8':
            x = recharset(x, encoding)
        d = difference(x, y, name + ':')
        require(d is None, '%s; %s', d, what)
        require(pa == pb, '%s has the faults %r, without the special characters %r; %s', name, pb, pa, what)
        n += len(set(WORD.findall(a[name].decode('utf-8'))))
    return {'labels': [renderer, 'theme ' + theme, 'enc ' + encoding] + ['escape'] * escape + sorted('%.24s' % u.replace('\n', ' ') for u in full.used), 'nontrivial': n > 0 and any(set('<>&"') & set(t) for t in texts.values()),
            'sample': full.src[-300:]}


def recharset(x, encoding):
    """the name of the encoding is the only other difference"""
    if isinstance(x, str):
        return x
    attrs = tuple((k, v.replace('utf-8', encoding) if x[0] == 'meta' and k in ('charset', 'content') and v and '=' not in v.replace('charset=', '') else v) for k, v in x[1])
    return (x[0], attrs, tuple(recharset(c, encoding) for c in x[2]))


SUBS = [Sub('documents', check, gen=gen, quick=1400, thorough=40000, rule='at least one leaf with a markup character appears in the output')]
