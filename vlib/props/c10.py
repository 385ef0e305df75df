"""C10: lists and tables keep their shape."""
import re
from ..core import Sub, Skip, require
from .. import sut
import plasTeX
from plasTeX.DOM import Node, Text
from plasTeX.Base.LaTeX.Arrays import Array
from plasTeX.Base.LaTeX.Lists import List

TECHNIQUE = "generated nests of lists and tables (separators, spans, rules, column specifications) against the abstract document they are printed from; exhaustive small tables of rules and spans"
LEVEL = "random + exhaustive (small tables)"
NOTE = "Borders are compared as edges of the grid: a line between two rows may be marked on either of the cells it touches."

ASSUMPTIONS = [
    'rows of blank cells only are empty rows: they yield no row, their rules belong to the neighbouring row',
    '\\cline ranges are aligned with the cells of the rows above and below; rules next to cells missing from short rows are not compared',
    'the text of @{} and >{} in column specifications is empty or a declaration; \\vline is not used',
    'declarations in list items are inside of groups (LaTeX does not end them at the next item)',
]

MARK = re.compile('Q[a-y]{3}Z')
FORMAT = {'textbf', 'emph', 'textit', 'textsc', 'bfseries', 'itshape', 'em', 'tiny', 'large', 'sffamily', 'underline', 'mbox', 'bf', 'it'}
NESTED = ('tab', 'btab', 'arr', 'list')
TABLES = {'tabular', 'tabular*', 'tabularx', 'array', 'pmatrix'}
LISTS = {'itemize', 'enumerate', 'description'}


def expand(spec):
    """column specification -> [bars after each column]"""
    out = []
    for it in spec:
        if it[0] == 'col':
            out.append(it[2])
        else:
            out += expand(it[2]) * it[1]
    return out


def spec_source(spec):
    s = ''
    for it in spec:
        if it[0] == 'col':
            s += {'': '', '@': '@{}', '>': '>{\\bfseries}', '!': '@{ }', 's': ' '}[it[3]] + {'p': 'p{2cm}', 'm': 'm{1.5cm}'}.get(it[1], it[1]) + '|' * it[2] + (it[4] if len(it) > 4 else '')
        else:
            s += '*{%d}{%s}' % (it[1], spec_source(it[2]))
    return s


class Doc:
    def __init__(self, ast):
        self.out, self.n = [], 0
        self.leaves = {}         # mark -> chain
        self.shapes = []         # expected structures in document order
        self.labels = set()
        self.depth = {}
        self.chain = []
        self.deep = 0
        S = self.out.append
        S('\\documentclass{article}\\usepackage{amsmath}\\usepackage{tabularx}\\usepackage{booktabs}\\begin{document}\n')
        self.blocks(ast, self.shapes)
        S('\\end{document}\n')
        self.src = ''.join(self.out)

    def mark(self):
        i = self.n
        self.n += 1
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[i % 25] + s
            i //= 25
        mk = 'Q' + s + 'Z'
        self.leaves[mk] = list(self.chain)
        return mk

    def blocks(self, bs, into):
        for b in bs:
            self.block(b, into)

    def inline(self, xs, math=False):
        """source of inline content; records the leaves"""
        s = ''
        opened = 0
        for x in xs:
            k = x[0]
            if k == 'w':
                s += self.mark() + ' '
            elif math:
                s += '\\mbox{%s} ' % self.mark() if k != 'm' else 'x_1 '
            elif k == 'b':
                self.chain.append(x[1])
                s += '\\%s{%s} ' % (x[1], self.inline(x[2]))
                self.chain.pop()
            elif k == 'g':
                self.chain.append(x[1])
                s += '{\\%s %s} ' % (x[1], self.inline(x[2]))
                self.chain.pop()
            elif k == 'd':
                self.labels.add('declaration in a cell')
                self.chain.append(x[1])
                opened += 1
                s += '\\%s ' % x[1]
            elif k == 'm':
                s += '$a_%d<b$ ' % (len(s) % 7)
            elif k == 'brace':
                s += '{%s}' % self.inline(x[1])
            elif k == 'n':
                s += '\n'
            elif k == 'amp':
                s += '\\& \\%% c\n'
        del self.chain[len(self.chain) - opened:]
        return s

    def block(self, b, into):
        S, k = self.out.append, b[0]
        if k == 'p':
            S(self.inline(b[1]) + '\n\n')
        elif k == 't':
            S(self.inline(b[1]))
        elif k == 'env':
            S('\\begin{%s}\n' % b[1])
            self.blocks(b[2], into)
            S('\\end{%s}\n' % b[1])
        elif k == 'group':
            self.chain.append(b[1])
            S('{\\%s ' % b[1])
            self.blocks(b[2], into)
            S('}\n')
            self.chain.pop()
        elif k == 'list':
            self.list(b, into)
        elif k == 'tab':
            S(self.table(b, into))
            S('\n\n' if b[-1] else '\n')
        elif k == 'array':
            S('\\[')
            S(self.table(b, into, True))
            S('\\]\n')
        else:
            raise AssertionError(k)

    def list(self, b, into):
        S = self.out.append
        _, kind, sep, items = b
        if sum(self.depth.values()) == 6 or self.depth.get(kind, 0) == 4:
            return
        self.depth[kind] = self.depth.get(kind, 0) + 1
        self.deep = max(self.deep, sum(self.depth.values()))
        self.labels.add('%s at depth %d' % (kind, sum(self.depth.values())))
        S('\\begin{%s}%s' % (kind, sep))
        shape = ['list', kind, []]
        into.append(shape)
        self.chain.append(['list', len(self.shapes_seen())])
        for i, (term, gap, blocks) in enumerate(items):
            self.chain.append(['item', i])
            S('\\item')
            start = self.n
            tm = None
            if term is not None:
                S('%s[' % ('' if gap % 2 else ' '))
                a = self.n
                src = self.inline(term)
                S(('{%s}' if '[' in src or gap == 3 else '%s') % src.strip())
                S(']')
                tm = [self.m(j) for j in range(a, self.n)]
            S(['\n', ' ', '%\n', ' \n', '{}'][gap % 5])
            inner = []
            c = self.n
            self.blocks(blocks, inner)
            shape[2].append([tm, [self.m(j) for j in range(c, self.n)], inner])
            if gap == 4:
                S('\n\n')
            self.chain.pop()
        S('\\end{%s}%s' % (kind, '\n' if len(sep) < 2 else ''))
        self.chain.pop()
        self.depth[kind] -= 1

    def m(self, i):
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[i % 25] + s
            i //= 25
        return 'Q' + s + 'Z'

    def shapes_seen(self):
        return []

    def table(self, b, into, math=False):
        _, env, lead, spec, rows, tail, width, _ = b
        if math and env not in ('array', 'pmatrix') or not math and env in ('array', 'pmatrix'):
            env = 'array' if math else 'tabular'
        bars = expand(spec)
        n = len(bars)
        self.labels.add('table %s' % env)
        # cells: (span, left bars, right bars, content or None)
        grid = []
        for lines, cells, end in rows:
            row, at = [], 0
            for c in cells:
                if at == n:
                    break
                if c[0] == 'multi':
                    sp = min(c[1], n - at)
                    row.append([sp, c[2], c[4], c])
                else:
                    sp = 1
                    row.append([1, lead if at == 0 else 0, bars[at], c])
                at += sp
            grid.append(row)
        if env == 'pmatrix':
            bars = [0] * n
            for row in grid:
                for c in row:
                    if c[3][0] != 'multi':
                        c[1] = c[2] = 0
        kept = [i for i, row in enumerate(grid) if any(c[3][0] == 'multi' or c[3][1] for c in row)]
        if not kept:
            return ''
        shape = ['table', env, n, [], [], []]
        into.append(shape)
        edges = [[0] * n for _ in range(len(kept) + 1)]
        s = ['\\begin{%s}%s%s%s' % (env, '{5cm}' if env in ('tabular*', 'tabularx') else '[%s]' % width if width in 'tbc' and width and env in ('array', 'tabular') else '',
                                    '' if env == 'pmatrix' else '{%s%s%s}' % ('@{}' if lead > 2 else '', '|' * (lead % 3), spec_source(spec)), '\n' if width else '')]
        lead %= 3
        at = 0
        for i, (lines, cells, end) in enumerate(rows):
            s.append(self.lines(lines, grid, kept, at, n, edges))
            self.chain.append(['row', at])
            isk = i in kept
            out = []
            rowshape = []
            for j, (sp, lb, rb, c) in enumerate(grid[i]):
                self.chain.append(['cell', j])
                a = self.n
                inner = []
                if c[0] == 'multi':
                    self.labels.add('multicolumn')
                    src = '\\multicolumn{%d}{%s%s%s}{%s}' % (sp, '|' * lb, c[3], '|' * rb, self.content(c[5], inner, math))
                    src = ' ' * (sp % 2) + src
                else:
                    src = self.content(c[1], inner, math)
                rowshape.append([[self.m(x) for x in range(a, self.n)], sp, bool(lb if c[0] == 'multi' or j else lb % 3), bool(rb), inner])
                self.chain.pop()
                out.append(src)
            self.chain.pop()
            s.append(' & '.join(out) if i % 2 else '&'.join(out))
            if i < len(rows) - 1 or end or tail:
                s.append({'': '\\\\', 'a': '\\\\\n', 'b': '\\\\[2pt]\n', 'c': '\\\\*', 'd': ' \\tabularnewline\n'}.get(end or '', '\\\\\n'))
            if isk:
                shape[3].append(rowshape)
                at += 1
        if tail:
            s.append(self.lines(tail, grid, kept, at, n, edges))
        shape[4] = edges
        shape[5] = [sum(c[0] for c in grid[i]) for i in kept]
        s.append('\\end{%s}' % env)
        return ''.join(s)

    def lines(self, lines, grid, kept, at, n, edges):
        s = ''
        near = [grid[kept[k]] for k in (at - 1, at) if 0 <= k < len(kept)]
        for ln in lines:
            if ln[0] in ('cline', 'cmidrule'):
                a, b = sorted((ln[1] % n, ln[2] % n))
                while True:
                    a0, b0 = a, b
                    for row in near:
                        x = 0
                        for sp, _, _, _ in row:
                            if x < a < x + sp:
                                a = x
                            if x <= b < x + sp - 1:
                                b = x + sp - 1
                            x += sp
                    if (a, b) == (a0, b0):
                        break
                self.labels.add('cline')
                s += '\\%s%s{%d-%d}%s' % (ln[0], '(lr)' if ln[0] == 'cmidrule' and a == b else '', a + 1, b + 1, ' ' if b % 2 else '\n')
                for x in range(a, b + 1):
                    edges[at][x] = 1
            else:
                self.labels.add(ln[0])
                s += '\\%s ' % ln[0]
                for x in range(n):
                    edges[at][x] = 1
        return s

    def content(self, xs, into, math):
        """inline content, then nested structures (the other way round if there are declarations, which last to the end of the cell)"""
        inl = [x for x in xs if x[0] not in NESTED]
        if any(x[0] == 'd' for x in xs):
            return self.nested(xs, into, math) + self.inline(inl, math)
        s = self.inline(inl, math)
        return s + self.nested(xs, into, math)

    def nested(self, xs, into, math):
        s = ''
        for x in xs:
            if x[0] not in NESTED or self.depth.get('tab', 0) == 2 or math and x[0] in ('arr', 'list'):
                continue
            self.labels.add(x[0] + ' in a cell')
            self.depth['tab'] = self.depth.get('tab', 0) + 1
            if x[0] == 'list':
                keep, self.out = self.out, []
                self.list(x, into)
                s += ''.join(self.out)
                self.out = keep
            else:
                t = self.table(['array' if x[0] == 'arr' else 'tab'] + x[1:], into, math or x[0] == 'arr')
                s += {'tab': '%s', 'btab': '{%s}', 'arr': '$%s$'}[x[0]] % t
            self.depth['tab'] -= 1
        return s


# ------------------------------------------------------------------- observe

def border(cell, side):
    return any(k.startswith('border-' + side) and v and 'none' not in str(v) for k, v in (cell.style or {}).items())


def kids(n):
    out = []
    if n.nodeType == Node.ELEMENT_NODE:
        for v in list((n.attributes or {}).values()):
            if isinstance(v, Node) and v is not n.childNodes:
                out.append(v)
    return out + list(n.childNodes)


def structures(n, out, chain, leaves, own):
    """collect lists and tables below n (not inside others), and the leaves with their chains"""
    for x in kids(n):
        if isinstance(x, Text):
            own.append(str.__str__(x))
            for mk in MARK.findall(str.__str__(x)):
                leaves.setdefault(mk, []).append(list(chain))
            continue
        nm = x.nodeName
        if isinstance(x, List) and nm in LISTS:
            items = []
            extra = []
            i = 0
            for it in x.childNodes:
                if not isinstance(it, Text) and it.nodeName == 'item':
                    term = it.attributes.get('term')
                    inner = []
                    tm = None
                    if term is not None:
                        txt = []
                        structures(term, inner, chain + [['list', 0], ['item', i]], leaves, txt)
                        tm = marks(txt)
                        own.extend(txt)
                    txt = []
                    structures_children(it, inner, chain + [['list', 0], ['item', i]], leaves, txt)
                    own.extend(txt)
                    items.append([tm, marks(txt), inner])
                    i += 1
                elif it.textContent.strip():
                    extra.append(it)
            out.append(['list', nm, items, [e.nodeName for e in extra]])
        elif isinstance(x, Array) and nm in TABLES:
            rows, styles = [], []
            for i, r in enumerate(x.childNodes):
                if r.nodeName != 'ArrayRow':
                    rows.append(r.nodeName)
                    continue
                row = []
                for j, c in enumerate(r.childNodes):
                    if c.nodeName != 'ArrayCell':
                        row.append(c.nodeName)
                        continue
                    inner, txt = [], []
                    structures(c, inner, chain + [['row', i], ['cell', j]], leaves, txt)
                    own.extend(txt)
                    row.append([marks(txt), c.attributes.get('colspan', 1) if c.attributes else 1, {s: border(c, s) for s in ('top', 'bottom', 'left', 'right')}, inner,
                                [[q for q, sp in enumerate(x.colspec or []) if sp is getattr(c, at, None)] for at in ('colspecStart', 'colspecEnd')]])
                rows.append(row)
            out.append(['table', nm, x, rows])
        else:
            structures(x, out, chain + ([nm] if nm in FORMAT else []), leaves, own)


def structures_children(n, out, chain, leaves, own):
    for x in n.childNodes:
        if isinstance(x, Text):
            own.append(str.__str__(x))
            for mk in MARK.findall(str.__str__(x)):
                leaves.setdefault(mk, []).append(list(chain))
        else:
            class One:
                nodeType = Node.DOCUMENT_FRAGMENT_NODE
                childNodes = [x]
            structures(One, out, chain, leaves, own)


def marks(txt):
    return MARK.findall(''.join(txt))


def compare(got, want, d, at):
    require(len(got) == len(want), '%s: %d lists and tables %r, should be %d %r in\n%s', at, len(got), [g[:2] for g in got], len(want), [w[:2] for w in want], d.src)
    for g, w in zip(got, want):
        here = '%s/%s' % (at, w[1])
        require(g[:2] == w[:2], '%s: a %s %s, should be a %s %s in\n%s', at, g[0], g[1], w[0], w[1], d.src)
        if w[0] == 'list':
            require(not g[3], '%s: %r between the items in\n%s', here, g[3], d.src)
            require(len(g[2]) == len(w[2]), '%s: %d items, should be %d in\n%s', here, len(g[2]), len(w[2]), d.src)
            for i, (gi, wi) in enumerate(zip(g[2], w[2])):
                require((gi[0] or None) == (wi[0] or None), '%s: the term of item %d is %r, should be %r in\n%s', here, i + 1, gi[0], wi[0], d.src)
                require((gi[0] is None) == (wi[0] is None), '%s: item %d: term is %r, should be %r in\n%s', here, i + 1, gi[0], wi[0], d.src)
                require(gi[1] == wi[1], '%s: item %d holds %r, should be %r in\n%s', here, i + 1, gi[1], wi[1], d.src)
                compare(gi[2], wi[2], d, here + '/item %d' % (i + 1))
            continue
        _, env, n, rows, edges, sums = w
        require(len(g[3]) == len(rows), '%s: %d rows, should be %d in\n%s', here, len(g[3]), len(rows), d.src)
        tops = [[0] * n for _ in range(len(rows) + 1)]
        known = [[True] * n for _ in range(len(rows) + 1)]
        for i, (gr, wr) in enumerate(zip(g[3], rows)):
            require(isinstance(gr, list) and all(isinstance(c, list) for c in gr), '%s: row %d is %r in\n%s', here, i + 1, gr, d.src)
            require(len(gr) == len(wr), '%s: row %d has %d cells %r, should be %d %r in\n%s', here, i + 1, len(gr), [c[0] for c in gr], len(wr), [c[0] for c in wr], d.src)
            x = 0
            vg, vw = [0] * (n + 1), [0] * (n + 1)
            for j, (gc, wc) in enumerate(zip(gr, wr)):
                cell = '%s: row %d cell %d' % (here, i + 1, j + 1)
                require(gc[0] == wc[0], '%s holds %r, should be %r in\n%s', cell, gc[0], wc[0], d.src)
                require(gc[1] == wc[1], '%s spans %r columns, should be %r in\n%s', cell, gc[1], wc[1], d.src)
                b = gc[2]
                if wc[1] > 1 and env != 'pmatrix':
                    require(gc[4] == [[x], [x + wc[1] - 1]], '%s spans columns %r, should be %r in\n%s', cell, gc[4], [x, x + wc[1] - 1], d.src)
                for y in range(x, x + wc[1]):
                    tops[i][y] |= b['top']
                    tops[i + 1][y] |= b['bottom']
                vg[x] |= b['left']
                vg[x + wc[1]] |= b['right']
                vw[x] |= wc[2]
                vw[x + wc[1]] |= wc[3]
                x += wc[1]
                compare(gc[3], wc[4], d, cell)
            for y in range(x, n):
                known[i][y] = known[i + 1][y] = False
            require([bool(v) for v in vg[:x + 1]] == [bool(v) for v in vw[:x + 1]], '%s: row %d has vertical lines at %r, should be %r in\n%s', here, i + 1,
                    [q for q, v in enumerate(vg) if v], [q for q, v in enumerate(vw) if v], d.src)
        for i in range(len(rows) + 1):
            for y in range(n):
                if known[i][y]:
                    require(bool(tops[i][y]) == bool(edges[i][y]), '%s: %s line between rows %d and %d at column %d in\n%s', here, 'a' if tops[i][y] else 'no', i, i + 1, y + 1, d.src)
        require(getattr(g[2], 'numCols', None) == max(sums), '%s: %r columns, should be %r in\n%s', here, getattr(g[2], 'numCols', None), max(sums), d.src)


def clean(chain):
    return [c if isinstance(c, str) else c[0] if c[0] == 'list' else tuple(c) for c in chain]


def documents(ast):
    d = Doc(ast)
    doc, tex = sut.parse(d.src)
    got, leaves, own = [], {}, []
    structures(doc, got, [], leaves, own)
    compare(got, d.shapes, d, 'document')
    for mk, chain in d.leaves.items():
        if mk not in leaves and mk in ''.join(own):
            continue    # letters of mathematics
        require(mk in leaves, '%s is lost in\n%s', mk, d.src)
        require(len(leaves[mk]) == 1, '%s is there %d times in\n%s', mk, len(leaves[mk]), d.src)
        a = clean(leaves[mk][0])
        b = clean(chain)
        if 'mbox' in a:
            a.remove('mbox')
        require(a == b, '%s is at %r, should be at %r in\n%s', mk, a, b, d.src)
    n = len(re.findall(r'\\begin\{', d.src)) - 1
    return {'labels': sorted(d.labels), 'nontrivial': n >= 2 and d.n >= 8, 'sample': d.src}


# ----------------------------------------------------------------- generator

class Gen:
    def __init__(self, d):
        self.d = d

    def document(self):
        d = self.d
        self.budget = d.choice([6, 12, 20, 30])
        out = []
        while self.budget > 0:
            out.append(self.block(d.choice([3, 3, 5])))
        return out

    def words(self, lo=1, hi=3, cell=False):
        d = self.d
        out = []
        for _ in range(d.int(lo, hi)):
            k = d.weighted([(8, 'w'), (1, 'b'), (1, 'g'), (1, 'm'), (1, 'brace'), (1 if cell else 0, 'd'), (1, 'n'), (1, 'amp')])
            if k == 'b':
                out.append(['b', d.choice(['textbf', 'emph', 'textsc']), [['w']]])
            elif k == 'g':
                out.append(['g', d.choice(['bfseries', 'itshape', 'em', 'tiny']), [['w'], ['w']][:d.int(1, 2)]])
            elif k == 'd':
                out += [['d', d.choice(['bfseries', 'itshape', 'em', 'large', 'bf', 'sffamily'])], ['w']]
            elif k == 'brace':
                out.append(['brace', [['w']]])
            elif k == 'n' and cell:
                out += [['n'], ['w']]
            else:
                out.append(['w'] if k == 'n' else [k])
        return out

    def block(self, depth):
        d = self.d
        self.budget -= 1
        deep = 1 if depth > 0 and self.budget > 0 else 0
        k = d.weighted([(3, 'p'), (2, 't'), (5 * deep, 'list'), (4 * deep, 'tab'), (1 * deep, 'env'), (1 * deep, 'group'), (1 * deep, 'array')])
        if k in 'pt':
            return [k, self.words()]
        if k == 'env':
            return ['env', d.choice(['quote', 'center', 'flushleft']), self.inner(depth)]
        if k == 'group':
            return ['group', d.choice(['bfseries', 'itshape', 'large']), self.inner(depth)]
        if k == 'list':
            return self.list(depth)
        return [k] + self.table(depth - 1)

    def inner(self, depth):
        return [self.block(depth - 1) for _ in range(self.d.int(0, 3))]

    def list(self, depth):
        d = self.d
        kind = d.choice(['itemize', 'enumerate', 'description'])
        items = []
        for _ in range(d.int(1, 4)):
            term = None
            if kind == 'description' and d.int(0, 4) or d.int(0, 9) == 9:
                term = self.words(0, 2)
                term = [t for t in term if t[0] not in ('n', 'amp')]
            items.append([term, d.int(0, 4), self.inner(depth)])
        return ['list', kind, d.choice(['\n', '', '\n\n', '%\n']), items]

    def spec(self, n):
        d = self.d
        out = []
        while n:
            if d.int(0, 4) == 4:
                k = d.int(1, n)
                if k == 4 and d.bool():
                    out.append(['star', 2, [self.col(), self.col()]])
                else:
                    out.append(['star', k, [self.col()]])
                n -= k
            else:
                out.append(self.col())
                n -= 1
        return out

    def col(self):
        d = self.d
        return ['col', d.weighted([(6, 'l'), (4, 'c'), (4, 'r'), (2, 'p'), (1, 'm')]), d.weighted([(6, 0), (4, 1), (1, 2)]), d.weighted([(10, ''), (2, '@'), (1, '>'), (1, '!'), (1, 's')]),
                d.weighted([(8, ''), (1, '@{}')])]

    def table(self, depth, n=None):
        d = self.d
        self.budget -= 2
        n = n or d.int(1, 5)
        rows = []
        nr = d.int(1, 6) if depth else d.int(1, 3)
        for i in range(nr):
            lines = [self.line() for _ in range(d.weighted([(6, 0), (4, 1), (1, 2)]))]
            cells = []
            blank = d.int(0, 11) == 11
            for _ in range(n if d.int(0, 5) else d.int(1, n)):
                if not blank and n > 1 and d.int(0, 7) == 7 or n == 1 and not blank and d.int(0, 15) == 15:
                    cells.append(['multi', d.int(1, n), d.int(0, 1), d.choice(['c', 'l', 'r', 'p{2cm}', '@{}c']), d.int(0, 1), self.cell(depth)])
                else:
                    cells.append(['cell', [] if blank or d.int(0, 6) == 6 else self.cell(depth)])
            rows.append([lines, cells, d.choice(['a', 'a', 'a', 'b', 'c', 'd'])])
        if not any(c[0] == 'multi' or c[1] for c in rows[-1][1]):
            rows[-1][1][0] = ['cell', [['w']]]
        tail = [self.line() for _ in range(d.weighted([(4, 0), (4, 1), (1, 2)]))]
        if not tail and d.bool():
            rows[-1][2] = ''
        return [d.weighted([(8, 'tabular'), (1, 'tabular*'), (1, 'tabularx'), (2, 'array'), (1, 'pmatrix')]), d.weighted([(5, 0), (4, 1), (1, 2), (1, 3), (1, 4)]), self.spec(n), rows, tail,
                d.choice(['', 'x', 't']), d.bool()]

    def line(self):
        d = self.d
        k = d.weighted([(6, 'hline'), (5, 'cline'), (1, 'midrule'), (1, 'cmidrule')])
        return [k, d.int(0, 4), d.int(0, 4)] if k in ('cline', 'cmidrule') else [k]

    def cell(self, depth):
        d = self.d
        xs = self.words(1, 2, True)
        if depth > 0 and self.budget > 0 and d.int(0, 9) == 9:
            k = d.choice(['tab', 'btab', 'arr', 'list'])
            xs.append(self.list(0) if k == 'list' else [k] + self.table(depth - 1))
        return xs


def gen(d):
    return Gen(d).document()


# ------------------------------------------------------------- small tables

def small_cases(tier):
    """tables of up to 3 columns and 2 rows: every spanning of the rows, every bar pattern, every rule above, between and below"""
    import itertools
    comps = {1: [[1]], 2: [[1, 1], [2]], 3: [[1, 1, 1], [1, 2], [2, 1], [3]], 4: [[1, 1, 2], [2, 2], [1, 3], [4], [1, 2, 1]]}
    rules = {n: [[], [['hline']]] + [[['cline', a, b]] for a in range(n) for b in range(a, n)] for n in comps}
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        pats = list(itertools.product([0, 1], repeat=n + 1))
        for top in comps[n]:
            for bot in comps[n]:
                for i, r in enumerate(itertools.product(rules[n], repeat=3)):
                    if n > 2 and tier == 'quick' and (i * 7 + len(top) + 3 * len(bot)) % 4:
                        continue
                    yield [n, top, bot, list(r), list(pats[(i * 5 + len(top)) % len(pats)]), i % 8]


def small(case):
    n, top, bot, r, bars, v = case

    def cells(comp, odd):
        return [['cell', [['w']]] if c == 1 and not (odd and v % 2) else ['multi', c, (v >> 1) & 1, 'c', (v >> 2) & 1, [['w']]] for c in comp]
    t = ['tab', 'tabular', bars[0], [['col', 'lcr'[i % 3], bars[i + 1], '@' if v == 3 and i == 0 else ''] for i in range(n)],
         [[r[0], cells(top, False), 'a'], [r[1], cells(bot, True), 'a']], r[2], '', True]
    res = documents([t, ['t', [['w']]]])
    return dict(res, labels=['%d columns' % n], nontrivial=any(r))


SUBS = [
    Sub('small', small, cases=small_cases,
        rule='tables of 2 rows and up to 3 columns (thorough 4): every spanning, every \\hline or \\cline above, between and below (a quarter of them for 3 columns), bars; non-trivial: some rule'),
    Sub('documents', documents, gen=gen, quick=2500, thorough=200000,
        rule='nests of lists and tables; non-trivial: 2 or more environments and 8 words'),
]
