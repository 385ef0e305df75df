"""C07: parsing loses, duplicates or reorders no text and yields a well-formed tree."""
import itertools
from ..core import load_known, Sub, Violation, Skip, require
from .. import sut
from ..gen import latexdoc
from ..gen.latexdoc import Gen, Emit, substitute
from plasTeX.DOM import Node

TECHNIQUE = "grammar-based generation of whole documents with marker words; the emitter records text, order and containers as the oracle; exhaustive enumeration of adjacent construct pairs"
LEVEL = "random + exhaustive-bounded"
NOTE = "Text is compared without blanks; the containers of every piece of text (all but paragraphs and groups made by the system) are compared by name and identity."

ASSUMPTIONS = [
    'generated documents are valid LaTeX: no \\verb in arguments, no lists in narrow cells, no paragraph breaks in font commands, optional arguments braced',
    'a declaration lasts to the end of its group, cell or item in the tree (LaTeX continues it in the following items of the list)',
    'text in the preamble (\\title) may or may not have typographic substitutions applied',
    'running text inside boxes within mathematics carries no quotes or dashes',
]


def walk(n, parent, chain, out, seen, src):
    """depth-first, arguments before content; out gets (text, chain)"""
    k = n.nodeType
    require(id(n) not in seen, 'a node (%r) is reachable from two places in\n%s', n, src)
    seen[id(n)] = n
    if k == Node.TEXT_NODE:
        out.append((str.__str__(n), chain))
        return
    if k == Node.ELEMENT_NODE:
        if n.nodeName in ('newcommand', 'def', 'newtheorem', 'documentclass'):
            return
        chain = chain + (n,)
    if getattr(n, 'str', None) is not None:
        # a symbol
        out.append((n.str, chain[:-1]))
        return
    kids = n.childNodes if n.hasChildNodes() else []
    for name, v in (n.attributes or {}).items():
        if v is kids or name == 'widelabel':
            continue
        for x in values(v):
            up(x, n, 'attribute %s of' % name, src)
            walk(x, n, chain, out, seen, src)
    for i, x in enumerate(kids):
        up(x, n, 'child %d of' % i, src)
        walk(x, n, chain, out, seen, src)


def values(v):
    if isinstance(v, sut.Tok.Token):
        return []               # unexpanded, like column specifications
    if isinstance(v, Node) or isinstance(v, sut.plasTeX.DOM.Text):
        return [v]
    if isinstance(v, list):
        return [y for x in v for y in values(x)]
    if isinstance(v, dict):
        return [y for x in v.values() for y in values(x)]
    return []


def up(x, n, what, src):
    p = x.parentNode
    if p is n or p is n.childNodes:
        return
    raise Violation('the parent of %r, %s %r, is %r in\n%s' % (x, what, n, p, src))


def text_of(v):
    return ''.join(v.split())


def expected_runs(leaves):
    """merge neighbouring text leaves of the same place, apply the substitutions"""
    out = []
    for text, kind, chain, par, where, nopar in leaves:
        if kind in ('text', 'glue'):
            if out and out[-1][1] == 'text' and out[-1][2] == chain and out[-1][3] == par:
                out[-1][0] += text
            elif text:
                out.append([text, 'text', chain, par, where, nopar])
        else:
            out.append([text, kind, chain, par, where, nopar])
    for r in out:
        if r[1] == 'text' and r[4] == 'body':
            r[0] = substitute(r[0])
    return [r for r in out if text_of(r[0])]


def check(src, leaves, sections, labels):
    doc, tex = sut.parse(src)
    out, seen = [], {}
    walk(doc, None, (), out, seen, src)
    runs = expected_runs(leaves)
    got = ''.join(text_of(t) for t, c in out)
    pre = sum(len(text_of(r[0])) for r in runs if r[4] == 'preamble')
    exp = ''.join(text_of(r[0]) for r in runs)
    if pre:
        # the preamble may be substituted or not
        a = ''.join(c for r in runs if r[4] == 'preamble' for c in r[0] if c.isalnum())
        b = ''.join(x for t, c in out if not any(n.nodeName == 'document' for n in c) for x in t if x.isalnum())
        require(a == b, 'text of the preamble is %r, should be %r in\n%s', b, a, src)
        got = ''.join(text_of(t) for t, c in out if any(n.nodeName == 'document' for n in c))
        exp = ''.join(text_of(r[0]) for r in runs if r[4] != 'preamble')
    if got != exp:
        i = 0
        while i < min(len(got), len(exp)) and got[i] == exp[i]:
            i += 1
        raise Violation('the text of the document differs at %d: ...%r, should be ...%r in\n%s' % (i, got[max(i - 12, 0):i + 30], exp[max(i - 12, 0):i + 30], src))
    # containers: by name and identity, for every piece of text
    pos, ident, back = 0, {}, {}
    gotpos = []
    for t, c in out:
        t = text_of(t)
        if t and (not pre or any(n.nodeName == 'document' for n in c)):
            gotpos.append((pos, pos + len(t), c))
            pos += len(t)
    pos, g = 0, 0
    pars = {}
    for text, kind, chain, par, where, nopar in runs:
        if pre and where == 'preamble':
            continue
        n = len(text_of(text))
        while gotpos[g][1] <= pos:
            g += 1
        c = gotpos[g][2]
        pos += n
        actual = [x for x in c if x.nodeName not in ('par', 'bgroup')]
        chain = [x for x in chain if x[1] != 'bgroup']
        names = [x.nodeName for x in actual]
        want = [x[1] for x in chain]
        require(names == want, 'text %r is inside %r, should be inside %r in\n%s', text, names, want, src)
        for (uid, _), node in zip(chain, actual):
            require(ident.setdefault(uid, node) is node, 'the text %r is in another %s than the text before it in\n%s', text, node.nodeName, src)
            require(back.setdefault(id(node), uid) == uid, 'the text %r is in the same %s as earlier text, but belongs to another one in\n%s', text, node.nodeName, src)
        # paragraphs: text of one paragraph of the source is in one paragraph, of different ones in different ones
        mine = [x for x in c if x.nodeName == 'par']
        if mine and kind == 'text' and not nopar:
            p = mine[-1]
            after = [x.nodeName for x in c[max(i for i, x in enumerate(c) if x is p) + 1:]]
            if not all(x in INLINE for x in after):
                continue
            labels.add('paragraph identity')
            other = pars.setdefault(id(p), par)
            require(other == par, 'the text %r is in the same paragraph as text of another paragraph in\n%s', text, src)
    # sections
    for me, star, stack in sections:
        if me[0] in ident:
            n = ident[me[0]]
            require(bool(n.attributes.get('*modifier*')) == star, 'starred form of %r in\n%s', n, src)
    for n in list(seen.values()):
        if n.nodeType != Node.ELEMENT_NODE:
            continue
        lv = n.level
        if lv < Node.ENDSECTIONS_LEVEL and lv > Node.DOCUMENT_LEVEL:
            labels.add('section unit')
            for x in n:
                if x.level < Node.ENDSECTIONS_LEVEL:
                    require(x.level > lv, 'the %s contains the %s in\n%s', n.nodeName, x.nodeName, src)
                else:
                    require(x.level == Node.PAR_LEVEL, 'the %s contains %r, which is not in a paragraph, in\n%s', n.nodeName, x, src)
        elif lv == Node.PAR_LEVEL:
            for x in n:
                require(x.level != Node.PAR_LEVEL, 'a paragraph contains a paragraph in\n%s', src)
                require(x.level > Node.PAR_LEVEL, 'a paragraph contains the %s in\n%s', x.nodeName, src)
        elif lv >= Node.ENDSECTIONS_LEVEL:
            for x in n:
                require(x.level > Node.ENDSECTIONS_LEVEL, 'the %s contains the sectioning unit %r in\n%s', n.nodeName, x, src)
        # chains lead to the document
        k, p = 0, n
        while p is not doc:
            p = p.parentNode
            k += 1
            require(p is not None and k < 200, 'the parents of %r do not lead to the document in\n%s', n, src)
    return doc, ident


INLINE = set(latexdoc.FONTCMDS + latexdoc.DECLS + ['bgroup'])


def gen(d):
    return Gen(d).document(depth=d.choice([2, 3, 4]))


def kinds(x, out):
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in KINDS:
            out.add(x[0] if x[0] not in ('list', 'env', 'sec') else '%s %s' % (x[0], x[1]))
        for y in x:
            kinds(y, out)


KINDS = {'p', 'list', 'env', 'tab', 'float', 'verb', 'disp', 'eqn', 'thm', 'sec', 'group', 'raw', 'cmd', 'grp', 'sym', 'math', 'mac', 'src', 'nest', 'ienv', 'decl', 'open', 'gsec'}


def documents(ast):
    e = Emit(ast)
    labels = set()
    kinds(ast, labels)
    check(e.src, e.leaves, e.sections, labels)
    return {'labels': sorted(labels) + [e.cls], 'nontrivial': len(e.leaves) >= 8 and len(labels) >= 4, 'sample': e.src}


# ------------------------------------------------------- what follows what
W = ['w', '', '']
Wq = ['w', '``', "''"]
T1 = ['tabular', '', 'll', [['', [[0, '', [W]], [0, 'bfseries', [W]]]], ['\\hline', [[2, '', [W]]]]], '\\\\ \\hline']
UNITS = [
    ['p', [W]],
    ['p', [W, ['sp', ' '], Wq]],
    ['p', [['cmd', 'emph', '', [W]]]],
    ['p', [['grp', 'bfseries', [W]]]],
    ['p', [['cmd', 'footnote', '', [W]]]],
    ['p', [['math', '$', '$', [W]]]],
    ['p', [['verb', '|', False, '%']]],
    ['p', [['src', '\\label{a}']]],
    ['p', [['sym', '\\ldots{}', '\u2026'], ['sp', '~'], W]],
    ['p', [['ienv', 'small', [W]]]],
    ['p', [['mac', 'mya', [[W], [W]]]]],
    ['decl', 'itshape', ['p', [W]]],
    ['group', 'small', [['p', [W]], ['p', [W]]]],
    ['list', 'itemize', [[None, [['p', [W]]]], [None, [['p', [W]], ['p', [W]]]]]],
    ['list', 'enumerate', [[None, []], [None, [['decl', 'bfseries', ['p', [W]]]]]]],
    ['list', 'description', [[[W], [['p', [W]]]]]],
    ['list', 'itemize', [[None, [['list', 'enumerate', [[None, [['p', [W]]]]]]]], [None, [['p', [W]]]]]],
    ['env', 'quote', [['p', [W]]]],
    ['env', 'center', [['p', [W]], ['p', [W]]]],
    ['tab', T1],
    ['float', 'figure', '[h]', 1, [W], None, [['p', [W]]]],
    ['float', 'table', '', 0, [W], [W], [['tab', T1]]],
    ['verb', 'verbatim', ['--`', "''"]],
    ['disp', '\\[', '\\]', 'displaymath', [['w', '', '--']]],
    ['disp', '\\begin{equation}', '\\end{equation}', 'equation', [W]],
    ['eqn', 'eqnarray', [[[W], [W], [W]], [[W], [W], [W]]]],
    ['thm', 'thm', [W], [['p', [W]]]],
    ['raw', '\\bigskip'],
    ['raw', '\\noindent'],
    ['open', 'small'],
    ['sec', 'section', False, None, [W], ''],
    ['sec', 'subsection', True, [W], [W], '\\label{s}'],
    ['sec', 'paragraph', False, None, [W], '\n\n'],
]
CONTEXTS = ['body', 'section', 'item', 'quote', 'group', 'thm', 'bfseries']
NOSEC = [u for u in UNITS if u[0] != 'sec']


def wrap(ctx, units):
    if ctx == 'body':
        return units
    if ctx == 'section':
        return [['sec', 'section', False, None, [W], '']] + units
    if ctx == 'item':
        return [['list', 'itemize', [[None, units], [None, [['p', [W]]]]]]]
    if ctx == 'quote':
        return [['env', 'quote', units]]
    if ctx == 'group':
        return [['group', '', units], ['p', [W]]]
    if ctx == 'bfseries':
        return [['sec', 'section', False, None, [W], ''], ['group', 'bfseries', units], ['p', [W]]]
    if ctx == 'thm':
        return [['thm', 'lem', None, units]]


def cases(tier):
    for ctx in CONTEXTS:
        us = UNITS if ctx in ('body', 'section') else NOSEC
        for a, b in itertools.product(range(len(us)), repeat=2):
            if tier == 'quick' and ctx not in ('body', 'section', 'item') and (a + b) % 3:
                continue
            for sep in (['\n\n', '\n'] if tier != 'quick' else ['\n\n' if (a + b) % 2 else '\n']):
                yield [ctx, [a, b], sep]
    if tier != 'quick':
        for ctx in CONTEXTS[:4]:
            us = UNITS if ctx in ('body', 'section') else NOSEC
            for t in itertools.product(range(len(us)), repeat=3):
                yield [ctx, list(t), '\n\n' if sum(t) % 2 else '\n']


def adjacent(case):
    ctx, idx, sep = case
    us = UNITS if ctx in ('body', 'section') else NOSEC
    units = [us[i] for i in idx]
    ast = ['article', [], wrap(ctx, units), [sep], []]
    e = Emit(ast)
    check(e.src, e.leaves, e.sections, set())
    return {'labels': [ctx] + ['unit ' + u[0] for u in units], 'nontrivial': True, 'sample': e.src}


# ------------------------------------------------------- mathematics
MATHS = [('$', '$'), ('\\(', '\\)'), ('\\begin{math}', '\\end{math}'), ('\\ensuremath{', '}'), ('\\[', '\\]'), ('$$', '$$'),
         ('\\begin{displaymath}', '\\end{displaymath}'), ('\\begin{equation}', '\\end{equation}'), ('\\begin{equation*}', '\\end{equation*}'),
         ('\\[\\begin{array}{l}', '\\end{array}\\]'), ('\\begin{eqnarray}', '\\end{eqnarray}'), ('\\begin{eqnarray*}', '\\end{eqnarray*}'),
         ('\\begin{align}', '\\end{align}'), ('\\begin{align*}', '\\end{align*}'), ('\\begin{gather}', '\\end{gather}')]
INMATH = ['%s', '{%s}', '\\frac{1}{%s}', 'x_{%s}', '\\mathbf{%s}', '\\sqrt[%s]{2}', '\\left(%s\\right)']
CHARS = ["a'b--``c''"]
AROUND = ['%s', 'Text %s text.', '\\section{T%s}', '\\begin{itemize}\\item %s\\end{itemize}', '\\begin{tabular}{l}%s\\end{tabular}', '\\emph{%s}', '\\footnote{%s}']


CELLS = ['\\begin{equation*}', '\\begin{eqnarray}', '\\begin{eqnarray*}', '\\begin{align}', '\\begin{align*}', '\\begin{gather}']
TOP = INMATH


def cell_cases(tier):
    known = {k['case'] for k in load_known() if k['property'] == 'C07' and k['sub'] == 'cells' and k.get('status') != 'fixed'}
    for m in CELLS:
        for t in TOP:
            for a in AROUND[:2]:
                c = [m, TOP[0], AROUND[0]]
                if repr(c) not in known:
                    yield [m, t, a]


def math_cases(tier):
    for i in range(len(MATHS)):
        for j in range(len(INMATH)):
            if MATHS[i][0] in CELLS and INMATH[j] in TOP:
                continue                        # sub 'cells'
            for k in range(len(AROUND) if 'begin' not in MATHS[i][0] and MATHS[i][0][0] != '$$' else 2):
                yield [MATHS[i][0], INMATH[j], AROUND[k]]


def maths(case):
    """no substitution of characters in mathematics, whatever it is written in"""
    m, i, a = case
    n = [y for x, y in MATHS if x == m][0]
    ch = CHARS[0]
    src = '\\documentclass{article}\\usepackage{amsmath}\\begin{document}\n%s\n\\end{document}' % (a % (m + i % ch + n))
    doc, tex = sut.parse(src)
    out = []
    walk(doc, None, (), out, {}, src)
    text = text_of(''.join(t for t, c in out))
    require(ch in text, 'no %r in %r, the text of\n%s', ch, text, src)
    return {'labels': [m], 'nontrivial': True, 'sample': src}


SUBS = [
    Sub('cells', maths, cases=cell_cases,
        rule='text directly in the cells of equation arrays (the kinds listed in known_findings.json are left out of the search)'),
    Sub('mathematics', maths, cases=math_cases,
        rule='15 kinds of mathematics x 7 ways to write text in it x the places it may stand; all count as non-trivial'),
    Sub('adjacent', adjacent, cases=cases,
        rule='every ordered pair (thorough: triple) of 33 constructs in 7 contexts (quick: a third of the pairs in 4 of them); all count as non-trivial'),
    Sub('documents', documents, gen=gen, quick=3000, thorough=150000,
        rule='documents of the grammar (sections, lists, tables, floats, verbatim, mathematics, theorems, footnotes, boxes, macros); '
             'non-trivial: 8 or more pieces of text and 4 or more kinds of constructs'),
]
