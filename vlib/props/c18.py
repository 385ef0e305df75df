"""C18: the index lists every entry once, under its key, in collation order.

Multisets of index entries are drawn as trees, scattered over a document, and
the tree, groups and columns of the \\printindex node (and the rendered index)
are compared with the multiset itself.
"""
import re

from ..core import Sub, Skip, require
from .. import sut

TECHNIQUE = 'property-based testing: generated multisets of index entries against a model of the index; splitColumns on generated sizes; rendered index read back'
LEVEL = 'random'
NOTE = 'Order is required only up to the collation key (the Unicode collation of pyuca if it is installed, else case-insensitive comparison).'
ASSUMPTIONS = ['entries have the same path if their sort keys and displays (text and markup) agree', 'see/seealso targets and formats contain no !, @ or | (an error in makeindex)',
               'keys have no outer blanks and no empty levels; initials are ASCII, accented Latin letters, ligatures, digits, symbols']

def warm():
    from .. import render
    render.warm('HTML5')


try:
    from pyuca.collator import Collator_10_0_0
    _C = Collator_10_0_0()

    def collate(s):
        return _C.sort_key(s)
except ImportError:
    def collate(s):
        return s.lower()

# (source, text): words of keys; the special characters of makeindex are quoted
WORDS = [('a', 'a'), ('A', 'A'), ('ab', 'ab'), ('Ab', 'Ab'), ('aB', 'aB'), ('abc', 'abc'), ('b', 'b'), ('B', 'B'), ('ba', 'ba'), ('z', 'z'), ('Zeta', 'Zeta'), ('foo', 'foo'), ('foo bar', 'foo bar'),
         ('foobar', 'foobar'), ('foo-bar', 'foo-bar'), ('Foo', 'Foo'), ('f', 'f'), ('é', 'é'), ("\\'etude", 'étude'), ('École', 'École'), ('eta', 'eta'), ('ecole', 'ecole'), ('ez', 'ez'), ('Äpfel', 'Äpfel'), ('apfel', 'apfel'), ('öl', 'öl'), ('ol', 'ol'),
         ('œuvre', 'œuvre'), ('oe', 'oe'), ('oz', 'oz'), ('æon', 'æon'), ('az', 'az'), ('ae', 'ae'), ('ß', 'ß'), ('ssa', 'ssa'), ('st', 'st'), ('ø', 'ø'), ('Łódź', 'Łódź'), ('lo', 'lo'), ('lz', 'lz'),
         ('1', '1'), ('10', '10'), ('2', '2'), ('02', '02'), ('3d', '3d'), ('-x', '-x'), ('+', '+'), ('*a', '*a'), ('.', '.'), ('/a', '/a'), ('(b)', '(b)'), ('\\_x', '_x'), ('\\_', '_'), ('\\&', '&'), ('\\$a', '$a'),
         ('\\%', '%'), ('→', '→'), ('∑', '∑'), ('😀', '😀'), ('€', '€'), ('x"!y', 'x!y'), ('"!', '!'), ('"@at', '@at'), ('a"@b', 'a@b'), ('"|', '|'), ('q""q', 'q"q'), ('q"uote', 'quote'), ('"x', 'x'), ('""', '"'), ('<', '<'), ('\\"u', 'ü'), ('\\kw', 'keyword'), ('u', 'u'), ('key', 'key'), ('keyx', 'keyx')]
TEXTS = dict(WORDS)
SYLL = ['ba', 'Ce', 'do', 'fé', 'gu', 'n', 'ta', 'x ']
STEMS = {}
for _a in 'aAé1m':
    for _b in SYLL:
        for _c in SYLL:
            STEMS[(_a + _b + _c).strip()] = (_a + _b + _c).strip()
TEXTS.update(STEMS)
DISPLAYS = ['\\textbf{%s}', '\\emph{%s}', '\\texttt{%s}', 'the %s', '\\emph{%s} x', '$%s$']
FORMATS = ['textbf', 'emph', 'textit', 'see{bar}', 'see{foo, \\emph{b}}', 'seealso{bar}', 'see{a"!b}', 'PG']
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
LIG = {'æ': 'A', 'Æ': 'A', 'œ': 'O', 'Œ': 'O', 'ß': 'S', 'ø': 'O', 'Ł': 'L', 'ł': 'L'}


def heading(sort):
    import unicodedata
    c = sort[:1]
    if c in LIG:
        return LIG[c]
    b = unicodedata.normalize('NFD', c)[:1].upper()
    return b if b and b in LETTERS else ('_' if b == '_' else 'symbol')


def level_model(lv):
    """-> (sort text, display marker, display text)"""
    src, sort, disp = lv
    if disp is None:
        text = TEXTS[src]
        return (text if sort is None else TEXTS[sort], '', text)
    d = DISPLAYS[disp]
    text = d % TEXTS[src] if '{' not in d else re.sub(r'\\\w+\{(.*)\}', r'\1', d) % TEXTS[src]
    if '$' in d:
        text = TEXTS[src]
    marker = ''.join(re.findall(r'\\(\w+)', d)) or ('math' if '$' in d else '')
    return (text if sort is None else TEXTS[sort], marker, text)


def level_source(lv):
    src, sort, disp = lv
    out = src if disp is None else DISPLAYS[disp] % src
    return out if sort is None else sort + '@' + out


def gen_level(d, pool):
    src = d.choice(pool)
    kind = d.weighted([(8, 'plain'), (2, 'disp'), (3, 'sort'), (3, 'sortdisp')])
    disp = sort = None
    if 'disp' in kind:
        # math only with letters and an explicit sort key
        disp = d.int(0, len(DISPLAYS) - 1 if 'sort' in kind and src.isascii() and src.isalpha() else len(DISPLAYS) - 2)
    if 'sort' in kind:
        sort = d.choice(pool)
    return [src, sort, disp]


PLACES = ['text', 'text', 'text', 'emph', 'group', 'macro', 'item', 'footnote', 'title', 'subtitle', 'cell', 'caption', 'quote', 'center', 'two', 'env']


def gen_doc(d):
    pool = [w for w, _ in WORDS]
    if d.bool(2, 3):
        pool = [d.choice(pool) for _ in range(d.int(2, 6))]
    elif d.bool():
        pool = [w for w in pool if heading(TEXTS[w]) in ('symbol', '_')]
    big = d.bool(1, 12)
    if big:
        # many entries under few headings
        pool = [w for w in STEMS if w[0] in d.choice(['aA', 'aAé', 'é1', 'm'])]
    levels = [gen_level(d, pool) for _ in range(d.int(2, 7))]
    entries = []
    for _ in range(d.weighted([(2, 1), (3, 4), (4, 8), (4, 14), (2, 25)]) + d.int(0, 3) + (50 if big else 0)):
        path = [d.choice(levels) if d.bool(1 if big else 2, 3) else gen_level(d, pool) for _ in range(d.weighted([(5, 1), (4, 2), (2, 3)]))]
        fmt = None
        if d.bool(1, 4):
            fmt = d.choice(FORMATS)
        entries.append([path, fmt, d.choice(PLACES)])
    return {'entries': entries, 'cols': d.int(1, 4), 'where': d.weighted([(5, 'end'), (2, 'middle'), (1, 'twice')]), 'split': d.int(0, 3), 'cls': d.choice(['article', 'report', 'book'])}


def write(case):
    """-> (source, model): model maps identity paths to the markers of their occurrences"""
    body = []
    model = {}
    n = len(case['entries'])
    top = '\\section' if case['cls'] == 'article' else '\\chapter'
    for i, (path, fmt, place) in enumerate(case['entries']):
        mark = 'w%dw' % i
        src = '!'.join(level_source(lv) for lv in path)
        if fmt == 'PG':
            src += '|PG{%s}' % mark
        elif fmt:
            src += '|' + fmt
        ind = mark + '\\index{%s}' % src
        key = tuple(level_model(lv) for lv in path)
        model.setdefault(key, []).append((mark, fmt))
        if place == 'text':
            s = 'Some %s text.' % ind
        elif place == 'emph':
            s = 'Some \\emph{%s} text.' % ind
        elif place == 'group':
            s = 'Some {\\bf x %s} text.' % ind
        elif place == 'macro':
            s = 'Some \\mac{%s} text.' % ind
        elif place == 'item':
            s = '\\begin{itemize}\\item a\\item %s\n\n second\\end{itemize}' % ind
        elif place == 'footnote':
            s = 'Some\\footnote{note %s} text.' % ind
        elif place == 'title':
            s = top + '{Title %s}' % ind
        elif place == 'subtitle':
            s = '\\subsection{Title %s}' % ind
        elif place == 'cell':
            s = '\\begin{tabular}{ll}a & %s\\\\ c & d\\end{tabular}' % ind
        elif place == 'caption':
            s = '\\begin{figure}x\\caption{Caption %s}\\end{figure}' % ind
        elif place == 'quote':
            s = '\\begin{quote}%s\\end{quote}' % ind
        elif place == 'center':
            s = '\n\n\\begin{center}a %s\\end{center}' % ind
        elif place == 'env':
            s = '\\begin{myenv}a %s\\end{myenv}' % ind
        else:
            s = 'Some %s text' % ind
        body.append(s)
        if place == 'title' or i % 5 == 4:
            body.append('\n')
        if case['where'] != 'end' and i == n // 2:
            body.append('\n\n\\printindex\n' + top + '{Next}\n')
    if case['where'] != 'middle':
        body.append('\n\n\\printindex\n')
    pre = ('\\documentclass{%s}\\usepackage{makeidx}\\makeindex\n\\newcommand{\\kw}{keyword}\\newcommand{\\PG}[2]{#1(#2)}\\newcommand{\\mac}[1]{<#1>}\n'
           '\\newenvironment{myenv}{\\begin{quote}}{\\end{quote}}\n\\begin{document}\n' % case['cls'])
    return pre + top + '{First} one\n' + '\n'.join(body) + '\n\\end{document}\n', model


def identity(item):
    key = item.key
    marker = ''
    for name in ('textbf', 'emph', 'texttt', 'math'):
        if key.getElementsByTagName(name):
            marker += name
    text = sut.squeeze(key.textContent) if marker == 'math' else str(key.textContent)
    return (str(item.sortkey), marker, text)


def page_mark(page):
    """the marker word before the \\index command"""
    prev = page.previousSibling
    m = re.search(r'w\d+w$', str(prev.textContent)) if prev is not None else None
    return m.group(0) if m else None


def page_text(page):
    return ''.join(str(c.textContent) for c in page.childNodes)


def walk(node, path, found, what):
    last = None
    seen = set()
    for item in node:
        ident = identity(item)
        p = path + (ident,)
        require(ident not in seen, '%s: two lines for %r', what, p)
        seen.add(ident)
        c = collate(ident[0])
        require(last is None or last[0] <= c, '%s: %r comes after %r below %r', what, ident[0], last and last[1], path)
        last = (c, ident[0])
        found[p] = item
        walk(item, p, found, what)


def check_index(node, model, cols, what):
    found = {}
    walk(node, (), found, what)
    want = set()
    for key in model:
        for i in range(len(key)):
            want.add(key[:i + 1])
    for p in sorted(want - set(found)):
        require(False, '%s: no line for %r; lines: %r', what, p, sorted(found))
    for p in sorted(set(found) - want):
        require(False, '%s: a line %r that no entry names', what, p)
    for p, item in found.items():
        occ = model.get(p, [])
        marks = [page_mark(x) for x in item.pages]
        require(marks == [m for m, f in occ], '%s: references of %r are %r, expected %r', what, p, marks, [m for m, f in occ])
        for n, (page, (mark, fmt)) in enumerate(zip(item.pages, occ)):
            t = sut.squeeze(page_text(page))
            see = bool(fmt) and fmt.startswith('see{')
            also = bool(fmt) and fmt.startswith('seealso')
            require(bool(page.see) == see and bool(page.seealso) == also and bool(page.normal) == (not see and not also), '%s: kind of reference %d of %r (%r) is see=%r seealso=%r', what, n, p, fmt, page.see, page.seealso)
            if fmt == 'PG':
                require(t == '%s(%d)' % (mark, n + 1), '%s: reference %d of %r is shown as %r', what, n, p, t)
            elif see or also:
                target = {'see{bar}': 'bar', 'see{foo, \\emph{b}}': 'foo,b', 'seealso{bar}': 'bar', 'see{a"!b}': 'a!b'}[fmt]
                require(t == target, '%s: reference %d of %r (%s) is shown as %r', what, n, p, fmt, t)
            else:
                require(t == str(n + 1), '%s: reference %d of %r is shown as %r', what, n, p, t)
                if fmt:
                    require(page.getElementsByTagName(fmt), '%s: reference %d of %r is not in %s', what, n, p, fmt)
    # groups and columns
    groups = node.groups
    flat, titles = [], []
    for g in groups:
        require(len(g) == cols, '%s: group %r has %d columns, not %d', what, g.title, len(g), cols)
        items = [x for col in g for x in col]
        require(items, '%s: group %r is empty', what, g.title)
        flat += items
        titles.append(g.title)
        for x in items:
            h = heading(str(x.sortkey))
            if h in LETTERS:
                require(g.title == h, '%s: %r is under heading %r', what, x.sortkey, g.title)
            else:
                require(g.title not in LETTERS and len(g.title) > 1, '%s: %r is under heading %r', what, x.sortkey, g.title)
                require((h == '_') == ('_' in g.title), '%s: %r is under heading %r', what, x.sortkey, g.title)
    require(len(flat) == len(node) and all(a is b for a, b in zip(flat, node)), '%s: the columns of the groups hold %r, the index %r', what, [str(x.sortkey) for x in flat], [str(x.sortkey) for x in node])
    require(len(set(titles)) == len(titles), '%s: headings %r', what, titles)
    return found, titles


def fn_tree(case):
    src, model = write(case)
    from plasTeX.Config import defaultConfig
    config = defaultConfig()
    config['document']['index-columns'] = case['cols']
    doc, tex = sut.parse(src, config)
    nodes = doc.getElementsByTagName('printindex')
    require(len(nodes) == (2 if case['where'] == 'twice' else 1), '%d index nodes', len(nodes))
    for node in nodes:
        found, titles = check_index(node, model, case['cols'], 'index of %r' % src)
    merged = sum(1 for v in model.values() if len(v) > 1)
    return {'labels': {'lines': len(found), 'merged': merged, 'groups': len(titles), 'sub': sum(1 for k in model if len(k) > 1), 'formats': sum(1 for e in case['entries'] if e[1])},
            'nontrivial': len(model) >= 2 and len(case['entries']) >= 3, 'sample': src[300:600]}


# --------------------------------------------------------------- rendering

def read_list(ul, path, lines, what):
    for li in [c for c in ul.children if not isinstance(c, str)]:
        if li.tag != 'li':
            continue
        key = [c for c in li.children if not isinstance(c, str) and 'index-item' in (c.attrs.get('class') or '')]
        require(len(key) == 1, '%s: a line of the index without a key: %r', what, li.text())
        text = re.sub(r'\\[()]', '', sut.squeeze(key[0].text()))
        links = [c for c in li.children if not isinstance(c, str) and c.tag == 'a']
        p = path + (text,)
        lines.append((p, [sut.squeeze(a.text()) for a in links], [a.attrs.get('href') for a in links]))
        for sub in [c for c in li.children if not isinstance(c, str) and c.tag == 'ul']:
            read_list(sub, p, lines, what)


def fn_rendered(case):
    from .. import render
    src, model = write(case)
    what = 'rendering %r' % src
    out = render.render(src, render.config('HTML5', files__split_level=case['split'] - 1, document__index_columns=case['cols']))
    trees = {}
    for name in out.files:
        if name.endswith('.html'):
            trees[name] = render.tree(out.text(name))[0]
    want = {}
    for key, occ in model.items():
        for i in range(len(key)):
            want.setdefault(key[:i + 1], [])
        for n, (mark, fmt) in enumerate(occ):
            want[key].append((n + 1, mark, fmt))
    lists = []
    for name, t in trees.items():
        navs = t.find('nav', cls='index-groups')
        heads = [sut.squeeze(a.text()) for n in navs for a in n.find('a')]
        secs = t.find('section', cls='theindex')
        if not navs:
            require(not secs, '%s: an index without its groups in %s', what, name)
            continue
        lines, titles = [], []
        for sec in secs:
            titles += [sut.squeeze(h.text()) for h in sec.find('h2')]
            for ul in [c for c in sec.children if not isinstance(c, str) and c.tag == 'ul']:
                read_list(ul, (), lines, what)
        require(heads == titles, '%s: headings %r, links to them %r', what, titles, heads)
        lists.append((lines, titles))
    total = [x for lines, _ in lists for x in lines]
    copies = 2 if case['where'] == 'twice' else 1
    exp = sorted((tuple(sut.squeeze(lv[2]) for lv in key), len(occ)) for key, occ in want.items())
    got = sorted((p, len(t)) for p, t, h in total)
    require(got == sorted(exp * copies), '%s: lines of the index (path, references) are %r, expected %r', what, got, sorted(exp * copies))
    # the references lead to the occurrences
    texts = {}
    for p, shown, hrefs in total:
        texts.setdefault(p, []).append((shown, hrefs))
    byname = {}
    for key, occ in want.items():
        byname.setdefault(tuple(sut.squeeze(lv[2]) for lv in key), []).append(occ)
    for p, occs in byname.items():
        if len(occs) > 1 or copies > 1:
            continue
        (shown, hrefs), = texts[p]
        for (n, mark, fmt), t, h in zip(occs[0], shown, hrefs):
            if fmt and fmt.startswith('see'):
                continue
            require(t == ('%s(%d)' % (mark, n) if fmt == 'PG' else str(n)), '%s: reference %d of %r is shown as %r', what, n, p, t)
            f, _, anchor = (h or '').partition('#')
            require(f in trees or not f and len(trees) == 1, '%s: reference %d of %r leads to %r', what, n, p, h)
            t = trees[f or next(iter(trees))]
            require([e for e in t.walk() if e.attrs.get('id') == anchor or e.attrs.get('name') == anchor], '%s: reference %d of %r leads to %r, which does not exist', what, n, p, h)
            before = text_before(t, anchor)
            require(before.endswith(mark), '%s: reference %d of %r leads to a place after %r, not after %s', what, n, p, before[-20:], mark)
    return {'labels': {'lines': len(total), 'files': len(trees)}, 'nontrivial': len(model) >= 2, 'sample': src[300:600]}


def text_before(root, anchor):
    out = []

    class Found(Exception):
        pass

    def go(e):
        if e.attrs.get('id') == anchor or e.attrs.get('name') == anchor:
            raise Found
        for c in e.children:
            if isinstance(c, str):
                out.append(c)
            else:
                go(c)
    try:
        go(root)
    except Found:
        pass
    return ''.join(out).rstrip()


# ------------------------------------------------------------------ columns

def gen_columns(d):
    def tree(depth):
        return [tree(depth + 1) for _ in range(d.weighted([(4, 0), (2, 1), (1, 2), (1, 4)]))] if depth < 3 else []
    return {'items': [tree(1) for _ in range(d.weighted([(1, 0), (2, 1), (3, 3), (3, 7), (2, 12), (1, 25)]))], 'cols': d.int(1, 6)}


def fn_columns(case):
    from plasTeX.Base.LaTeX.Index import IndexUtils, printindex
    from plasTeX import TeXDocument
    doc = TeXDocument()

    def make(tree):
        x = IndexUtils.Index()
        x.ownerDocument = doc
        for t in tree:
            x.append(make(t))
        return x

    def size(tree):
        return 1 + sum(size(t) for t in tree)
    items = [make(t) for t in case['items']]
    for x, t in zip(items, case['items']):
        require(x.totallen == size(t), 'totallen of %r is %r', t, x.totallen)
    cols = printindex().splitColumns(list(items), case['cols'])
    require(len(cols) == case['cols'], 'sizes %r: %d columns instead of %d', [size(t) for t in case['items']], len(cols), case['cols'])
    flat = [x for c in cols for x in c]
    require(len(flat) == len(items) and all(a is b for a, b in zip(flat, items)), 'sizes %r in %d columns: columns hold %r', [size(t) for t in case['items']], case['cols'],
            [[items.index(x) if x in items else '?' for x in c] for c in cols])
    return {'labels': {'cols%d' % case['cols']: 1}, 'nontrivial': len(items) > 1 and case['cols'] > 1, 'sample': [size(t) for t in case['items']]}


SUBS = [
    Sub('tree', fn_tree, gen=gen_doc, quick=900, thorough=20000, rule='at least two distinct paths and three entries'),
    Sub('rendered', fn_rendered, gen=gen_doc, quick=240, thorough=2500, rule='at least two distinct paths'),
    Sub('columns', fn_columns, gen=gen_columns, quick=1500, thorough=20000, rule='more than one item and column'),
]
