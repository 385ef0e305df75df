"""C09: every reference resolves to the object its label names."""
import itertools
import re
from ..core import Sub, Skip, require
from .. import sut
import plasTeX
from plasTeX.DOM import Node, Text
from plasTeX.Context import Context

TECHNIQUE = "generated documents of labelled objects and references (model of the innermost numbered object at each label, identity of the resolved node), metamorphic variants with the references moved, exhaustive short interleavings of labels and references; random and exhaustive histories of the label/ref interface"
LEVEL = "random + exhaustive (interleavings)"
NOTE = "Labels of figures and tables follow their caption; the printed number is the number of the object (see C08 for its value)."

ASSUMPTIONS = [
    'labels are unique; a label is inside the object, after its caption, or (sections) anywhere in the section outside of other numbered objects, as in LaTeX',
    'labels in the text of starred or unnumbered deep sections only directly after the title; labels of rows without a number are not used',
    'the first row of an equation array may be represented by the array itself (it has the number of the row)',
    'an unresolved reference refers to nothing, or to a placeholder which is no part of the document and has no number',
    'labels are letters, digits and : . - _ / + = ( ) * and inner spaces',
]

SECS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph'],
        'book': ['chapter', 'section', 'subsection', 'subsubsection']}
LEVEL_OF = {'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4}
NAMES = ['sec:intro', 'a', 'A', 'ab', 'a b', 'eq:x_1', '1', '2.3', 'a-b', 'a--b', 'fig/one', 'abc', 'a.b', 'x+y', '*', 'a=b', 'tab:q(1)',
         'label', 'section', 'thm:' + 'long' * 12, 'B', 'b', '11', 'eq:', ':', 'ref', 'none', 'a b c', 'fig:1', 'fig:2', 'fig:10', 'Fig:1', '0', 'a_', '_a',
         'document', 'equation', 'id', 'q-1', 'q-2', 'q-3', 'q-4']
KEYS = ['knuth', 'lamport94', 'k', 'K', 'a', 'a:b', 'x_1', 'Knuth']
MARK = re.compile('Q[a-y]{3}Z')
EQENV = ['equation', 'eqnarray', 'align', 'gather']


class Doc:
    def __init__(self, ast):
        self.cls, self.ams, self.hyper, self.perm, bib, body = ast
        self.out, self.n = [], 0
        self.objects = []      # (marker, kind, numbered)
        self.labelled = {}     # label -> index of the object
        self.refs = {}         # (command, label) -> count
        self.scope = [None]
        self.free = [NAMES[(i * 5 + self.perm) % len(NAMES)] for i in range(len(NAMES))]
        self.used = 0
        self.labels = set()
        self.cites = []        # (marker, keys, note)
        self.keys = []
        self.depth = {}
        S = self.out.append
        S('\\documentclass{%s}\n' % self.cls)
        if self.ams:
            S('\\usepackage{amsmath}\n')
        if self.hyper:
            S('\\usepackage{hyperref}\n')
        S('\\newtheorem{thm}{Thm}\\newtheorem{lem}[thm]{Lem}\\newtheorem{defi}{Def}[section]\n')
        S('\\newcommand{\\lab}[1]{\\label{#1}}\\newcommand{\\see}[1]{see~\\ref{#1}}\\newcommand{\\sect}[2]{\\section{#1}\\label{#2}}\n')
        S('\\begin{document}\n')
        if bib and bib[0] == 'first':
            self.bib(bib[1])
        self.blocks(body)
        if bib and bib[0] == 'last':
            self.bib(bib[1])
        S('\\end{document}\n')
        self.src = ''.join(self.out)

    # ------------------------------------------------------------- pieces
    def mark(self):
        i = self.n
        self.n += 1
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[i % 25] + s
            i //= 25
        return 'Q' + s + 'Z'

    def obj(self, mk, kind, numbered=True):
        self.objects.append((mk, kind, numbered))
        return len(self.objects) - 1

    def name(self):
        if self.used == len(self.free):
            return None
        self.used += 1
        return self.free[self.used - 1]

    def label(self, on, o=None, ctx='text'):
        """\\label for the current object"""
        o = self.scope[-1] if o is None else o
        if not on or o is None:
            return ''
        nm = self.name()
        if nm is None:
            return ''
        self.labelled[nm] = o
        self.labels.add('label ' + ctx)
        return {1: '\\label{%s}', 2: '\\lab{%s}', 3: '\\label{ %s}'}.get(on, '\\label{%s}') % nm

    def ref(self, rs):
        s = ''
        for how, t in rs:
            nm = NAMES[t % len(NAMES)]
            if how == 'eqref' and not self.ams or how == 'autoref' and not self.hyper:
                how = 'ref'
            if how == 'see':
                s += ' \\see{%s} ' % nm
                how = 'ref'
            elif how == 'spaced':
                s += '~\\ref{ %s } ' % nm
                how = 'ref'
            elif how == 'braced':
                s += '({\\itshape\\ref{%s}}) ' % nm
                how = 'ref'
            elif how == 'foot':
                s += '\\footnote{\\pageref{%s}} ' % nm
                how = 'pageref'
            elif how == 'cell':
                s += '\n\\begin{tabular}{ll}a & \\ref{%s} \\\\ b & c\\end{tabular} ' % nm
                how = 'ref'
            elif how == 'math':
                s += ' $\\mbox{\\ref{%s}}$ ' % nm
                how = 'ref'
            else:
                s += ' \\%s{%s} ' % (how, nm)
            self.refs[how, nm] = self.refs.get((how, nm), 0) + 1
        return s

    def blocks(self, bs):
        for b in bs:
            self.block(b)

    def inner(self, bs):
        self.scope.append(self.scope[-1])
        self.blocks(bs)
        self.scope.pop()

    def nested(self, z):
        if z is None:
            return ''
        self.labels.add('nested ' + z)
        if z in ('cases', 'split', 'aligned'):
            if not self.ams:
                z = 'array'
            else:
                return '\\begin{%s} a & b \\\\ c & d \\end{%s}' % (z, z)
        return '\\begin{array}{ll} a & b \\\\ c & d \\end{array}'

    def cite(self, b):
        _, ks, note = b
        mk = self.mark()
        ks = [KEYS[k] for k in ks]
        self.cites.append((mk, ks, note))
        self.out.append('%s\\cite%s{%s} ' % (mk, '[%s]' % note if note else '', ', '.join(ks) if len(ks) % 2 else ','.join(ks)))

    def bib(self, items):
        S = self.out.append
        S('\\begin{thebibliography}{9}\n')
        for k, lab in items:
            k = KEYS[k]
            if k in [x[0] for x in self.keys]:
                continue
            mk = self.mark()
            num = lab if lab is not None else str(1 + sum(1 for x in self.keys if x[2] is None))
            self.keys.append((k, mk, lab, num))
            S('\\bibitem%s{%s} %s.\n' % ('[%s]' % lab if lab is not None else '', k, mk))
        S('\\end{thebibliography}\n')

    def block(self, b):
        S, k = self.out.append, b[0]
        self.labels.add(k if k not in ('eq', 'rows') else '%s %s' % (k, b[1]))
        if k == 'sec':
            _, lev, star, how, lab, refs = b
            nm = SECS[self.cls][lev]
            mk = self.mark()
            loose = bool(star) or LEVEL_OF[nm] > 2
            o = self.obj(mk, nm, not loose)
            self.scope[-1] = o
            st = '*' if star else ''
            opt = ''
            if how == 'opt' and not star:
                opt = '[short%s]' % self.ref(refs[:1])
                refs = refs[1:]
            if how == 'title':
                S('\n\\%s%s{%s %s %s}\n' % (nm, st, mk, self.label(lab, o, 'in title'), self.ref(refs)))
            elif how == 'macro' and nm == 'section' and not star and lab:
                x = self.name()
                if x is None:
                    S('\n\\section{%s}' % mk)
                else:
                    self.labelled[x] = o
                    S('\n\\sect{%s}{%s}' % (mk, x))
            else:
                S('\n\\%s%s%s{%s %s}%s%s ' % (nm, st, opt, mk, self.ref(refs), {'space': ' ', 'line': '\n', 'com': '% x\n'}.get(how, ''), self.label(lab, o, 'after title')))
                if lab == 3:
                    S(self.label(1, o, 'second'))
        elif k == 'text':
            _, lab, refs = b
            o = self.scope[-1]
            if o is None or not self.objects[o][2]:
                lab = 0
            S('%s %s %s\n' % (self.mark(), self.ref(refs), self.label(lab, o)))
        elif k == 'par':
            S('\n\n')
        elif k == 'cite':
            self.cite(b)
        elif k == 'eq':
            _, env, lab, pos, z, refs = b
            mk = self.mark()
            o = self.obj(mk, 'equation')
            r = '\\mbox{%s}' % self.ref(refs) if refs else ''
            if pos == 'begin':
                S('\\begin{equation}%s %s %s %s\\end{equation}\n' % (self.label(lab, o, 'begin'), mk, self.nested(z), r))
            elif pos == 'line':
                S('\\begin{equation}\n %s = 1 %s %s\n%s\n\\end{equation}\n' % (mk, self.nested(z), r, self.label(lab, o, 'line')))
            else:
                S('\\begin{equation}%s %s %s %s\\end{equation}\n' % (mk, self.nested(z), r, self.label(lab, o, 'end')))
        elif k == 'rows':
            _, env, rows = b
            if env in ('align', 'gather') and not self.ams:
                env = 'eqnarray'
            out = []
            for i, (lab, cell, z, refs, non) in enumerate(rows):
                mk = self.mark()
                o = self.obj(mk, 'row0' if i == 0 else 'ArrayRow', not non)
                cells = ['%s' % mk] + (['=', 'x'] if env == 'eqnarray' else ['= x'] if env == 'align' else [])
                c = cell % len(cells)
                cells[c] += ' ' + self.nested(z)
                if refs:
                    cells[-1] += '\\mbox{%s}' % self.ref(refs)
                if non:
                    cells[0] += '\\nonumber '
                elif cell == 4:
                    cells[0] = self.label(lab, o, 'row start') + cells[0]
                else:
                    cells[c] += self.label(lab, o, 'cell %d' % c)
                out.append(' & '.join(cells))
            S('\\begin{%s} %s \\end{%s}\n' % (env, ' \\\\\n '.join(out), env))
        elif k == 'float':
            _, env, wrap, caps = b
            S('\\begin{%s}[h]\n' % env)
            self.scope.append(self.scope[-1])
            if wrap:
                S('\\begin{%s}%s\n' % (wrap, '{5cm}' if wrap == 'minipage' else ''))
            for lab, how, refs in caps:
                mk = self.mark()
                o = self.obj(mk, 'caption')
                if how == 'in':
                    S('\\caption{%s %s %s}\n' % (mk, self.label(lab, o, 'in caption'), self.ref(refs)))
                elif how == 'far':
                    S('\\caption{%s %s}\n\\begin{tabular}{ll} a & b \\\\ c & d \\end{tabular} $x$ {\\bfseries x}\n%s\n' % (mk, self.ref(refs), self.label(lab, o, 'far from caption')))
                elif how == 'opt':
                    S('x\\caption[short]{%s %s}%s\n' % (mk, self.ref(refs), self.label(lab, o, 'after caption')))
                else:
                    S('body\n\\caption{%s %s}\n%s\n' % (mk, self.ref(refs), self.label(lab, o, 'after caption')))
            if wrap:
                S('\\end{%s}\n' % wrap)
            S('\\end{%s}\n' % env)
            self.scope.pop()
        elif k == 'thm':
            _, nm, lab, pos, refs, inner = b
            mk = self.mark()
            o = self.obj(mk, 'thmenv')
            opt = ''
            if pos == 'title':
                opt = '[Name%s]' % self.ref(refs)
                refs = []
            S('\\begin{%s}%s%s %s %s ' % (nm, opt, '' if pos == 'end' else self.label(lab, o, 'theorem'), mk, self.ref(refs)))
            self.scope.append(o)
            self.blocks(inner)
            if pos == 'end':
                S(self.label(lab, o, 'end of theorem'))
            self.scope.pop()
            S('\\end{%s}\n' % nm)
        elif k == 'enum':
            if self.depth.get('enum', 0) == 4:
                return
            self.depth['enum'] = self.depth.get('enum', 0) + 1
            S('\\begin{enumerate}\n')
            self.scope.append(self.scope[-1])
            for lab, pos, refs, inner in b[1]:
                mk = self.mark()
                o = self.obj(mk, 'item')
                S('\\item %s %s %s ' % ('' if pos == 'end' else self.label(lab, o, 'item'), mk, self.ref(refs)))
                self.scope[-1] = o
                self.blocks(inner)
                if pos == 'end':
                    S(self.label(lab, o, 'end of item'))
            S('\n\\end{enumerate}\n')
            self.scope.pop()
            self.depth['enum'] -= 1
        elif k == 'env':
            if self.depth.get(b[1], 0) == 4:
                return
            self.depth[b[1]] = self.depth.get(b[1], 0) + 1
            S('\\begin{%s}%s ' % (b[1], {'itemize': '\\item ', 'description': '\\item[T] '}.get(b[1], '')))
            self.inner(b[2])
            S('\\end{%s}\n' % b[1])
            self.depth[b[1]] -= 1
        elif k == 'group':
            S('{\\bfseries ')
            self.inner(b[1])
            S('}\n')
        else:
            raise AssertionError(k)


def walk(doc):
    """every node of the document with its ancestors"""
    seen = set()

    def go(n, anc):
        if id(n) in seen:
            return
        seen.add(id(n))
        yield n, anc
        if isinstance(n, Text):
            return
        anc = anc + [n]
        if n.nodeType == Node.ELEMENT_NODE:
            for v in list((n.attributes or {}).values()):
                for w in (v if isinstance(v, list) and not isinstance(v, Node) else [v]):
                    if isinstance(w, Node):
                        yield from go(w, anc)
        for x in list(n.childNodes):
            yield from go(x, anc)
    yield from go(doc, [])


KINDS = {'row0': ('ArrayRow', 'eqnarray', 'align', 'gather')}


def check(d):
    doc, tex = sut.parse(d.src)
    where = {}
    refs, cites = [], []
    kind = {mk: k for mk, k, _ in d.objects}
    bibs = {x[1]: None for x in d.keys}
    prev = ''
    present = set()
    nodes = []
    for n, anc in walk(doc):
        present.add(id(n))
        if isinstance(n, Text):
            s = str.__str__(n)
            prev = (prev + s)[-60:]
            # letters of mathematics are separate nodes
            for mk in MARK.findall(prev):
                if mk in kind and mk not in where:
                    where[mk] = [a for a in anc if a.nodeName in KINDS.get(kind[mk], (kind[mk],))]
                elif mk in bibs and bibs[mk] is None:
                    bibs[mk] = ([a for a in anc if a.nodeName == 'bibitem'] or [None])[-1]
            continue
        prev = ''  if n.nodeName not in ('#document-fragment', 'par') else prev
        nodes.append(n)
        if n.nodeName in ('ref', 'pageref', 'eqref', 'autoref'):
            refs.append(n)
        elif n.nodeName == 'cite':
            cites.append(n)
    # the objects
    for i, (mk, k, numbered) in enumerate(d.objects):
        require(where.get(mk), 'no %s with %s in\n%s', k, mk, d.src)

    def target(o):
        mk, k, _ = d.objects[o]
        c = where[mk]
        return c if k == 'row0' else c[-1:]
    names = {}
    for nm, o in d.labelled.items():
        names.setdefault(o, []).append(nm)
    got = {}
    resolved = {}
    dangling = 0
    for r in refs:
        nm = r.attributes['label'].strip()
        got[r.nodeName, nm] = got.get((r.nodeName, nm), 0) + 1
        t = r.idref.get('label')
        if nm in d.labelled:
            o = d.labelled[nm]
            mk, k, numbered = d.objects[o]
            want = target(o)
            require(any(t is w for w in want), '\\%s{%s} resolves to %s, should be the %s with %s in\n%s', r.nodeName, nm, show(t), k, mk, d.src)
            require(resolved.setdefault(nm, t) is t, 'two references to %s resolve to different objects in\n%s', nm, d.src)
            if numbered:
                require(number(t), 'the %s with %s has no number in\n%s', k, mk, d.src)
        else:
            dangling += 1
            require(t is None or id(t) not in present and not number(t), '\\%s{%s} names no label, but resolves to %s in\n%s', r.nodeName, nm, show(t), d.src)
    require(got == d.refs, 'references are %r, should be %r in\n%s', got, d.refs, d.src)
    # the identifiers
    ids = {}
    for o, nms in names.items():
        mk, k, numbered = d.objects[o]
        ts = target(o)
        ok = [t for t in ts if t.id in nms]
        require(ok, 'the %s with %s has the identifier %r, should be %r in\n%s', k, mk, ts[-1].id, nms, d.src)
        if nms[0] in resolved:
            require(resolved[nms[0]] in ok, 'the %s with %s is not what %s refers to in\n%s', k, mk, nms[0], d.src)
        for nm in nms:
            require(doc.context.labels.get(nm) is (resolved.get(nm) or ok[0]) or doc.context.labels.get(nm) in ok, 'label %s is the %s, should be %s', nm, show(doc.context.labels.get(nm)), mk)
        require(ids.setdefault(ok[0].id, o) == o, 'two objects with the identifier %s', ok[0].id)
    for n in nodes:
        i = getattr(n, '@id', None)
        if i in d.labelled and n.nodeType == Node.ELEMENT_NODE and n.nodeName != 'bibitem':
            require(n in target(d.labelled[i]), '%s has the identifier %s of the object with %s in\n%s', show(n), i, d.objects[d.labelled[i]][0], d.src)
    # citations
    by = {k: (bibs[mk], num) for k, mk, lab, num in d.keys}
    require(all(v[0] is not None for v in by.values()), 'no bibitem for one of %r in\n%s', sorted(by), d.src)
    require(len(cites) == len(d.cites), '%d citations, should be %d in\n%s', len(cites), len(d.cites), d.src)
    for n, (mk, ks, note) in zip(cites, d.cites):
        ks = [k for k in ks if k in by]
        got = n.bibitems
        require(len(got) == len(ks) and all(a is by[k][0] for a, k in zip(got, ks)), '%s: cites %s, should be %r in\n%s', mk, [show(x) for x in got], ks, d.src)
        for _ in range(2):
            c = n.citation()
            if not ks:
                continue
            want = '[%s%s]' % (', '.join(by[k][1] for k in ks), ', ' + note if note else '')
            require(c.textContent == want, '%s: the citation is %r, should be %r in\n%s', mk, c.textContent, want, d.src)
            links = [x for x in c.childNodes if not isinstance(x, Text) and x.idref.get('bibitem') is not None]
            require(len(links) == len(ks) and all(x.idref.get('bibitem') is by[k][0] for x, k in zip(links, ks)), '%s: wrong items in the citation in\n%s', mk, d.src)
    return dangling, resolved


def number(n):
    r = n.ref
    return None if r is None else r if isinstance(r, str) else r.textContent


def show(n):
    if n is None:
        return 'nothing'
    try:
        return '%s %r' % (n.nodeName, n.textContent[:40])
    except Exception:
        return n.nodeName


def documents(ast):
    d = Doc(ast)
    dangling, resolved = check(d)
    return {'labels': sorted(d.labels) + [d.cls] + (['dangling'] if dangling else []),
            'nontrivial': len(resolved) >= 2 and len(set(d.labelled[x] for x in resolved)) >= 2, 'sample': d.src}


# ----------------------------------------------------------------- generator

class Gen:
    def __init__(self, d):
        self.d = d

    def document(self):
        d = self.d
        self.ams = d.bool()
        self.perm = d.int(0, len(NAMES) - 1)
        self.nl = d.choice([1, 3, 6])
        self.budget = d.choice([6, 12, 20, 30])
        bib = None
        if d.int(0, 3) == 3:
            bib = [d.choice(['first', 'last', 'last']), [[d.int(0, len(KEYS) - 1), d.choice([None, None, 'Knu84', 'X'])] for _ in range(d.int(1, 5))]]
        self.bib = bib is not None
        body = [self.sec()] if d.int(0, 3) else []
        while self.budget > 0:
            self.budget -= 1
            body.append(self.sec() if d.int(0, 3) == 3 else self.block(3))
        for at in [0, len(body), d.int(0, len(body))][:d.int(0, 3)]:
            body.insert(at, ['text', 0, [[d.choice(['ref', 'pageref']), (i * 5 + self.perm) % len(NAMES)] for i in d.choice([[0], [1, 0], [0, 1, 2], [2, 3, 1, 0], [3, 0, 0]])]])
        return [d.choice(['article', 'book']), self.ams, d.int(0, 4) == 4, self.perm, bib, body]

    def lab(self):
        return self.d.weighted([(4, 0), (6, 1), (1, 2), (1, 3)])

    def refs(self, most=2):
        d = self.d
        if d.int(0, 2) == 0:
            return []
        return [[d.weighted([(6, 'ref'), (3, 'pageref'), (1, 'eqref'), (1, 'autoref'), (1, 'see'), (1, 'spaced'), (1, 'braced')]),
                 (d.int(0, self.nl) * 5 + self.perm) % len(NAMES)] for _ in range(d.int(1, most))]

    def textrefs(self):
        d = self.d
        if d.int(0, 5) == 5:
            return [[d.choice(['foot', 'cell', 'math']), (d.int(0, self.nl) * 5 + self.perm) % len(NAMES)]]
        return self.refs(3)

    def sec(self):
        d = self.d
        return ['sec', d.weighted([(4, 0), (4, 1), (2, 2), (1, 3)]), d.int(0, 6) == 6, d.choice(['', '', 'space', 'line', 'com', 'title', 'opt', 'macro']), self.lab(), self.refs() if d.int(0, 2) == 2 else []]

    def inner(self, depth):
        return [self.block(depth - 1) for _ in range(self.d.int(0, 3))] if depth else []

    def block(self, depth):
        d = self.d
        self.budget -= 1
        deep = 1 if depth and self.budget > 0 else 0
        k = d.weighted([(5, 'text'), (1, 'par'), (4, 'eq'), (3, 'rows'), (3 if depth == 3 else 0, 'float'), (3 * deep, 'thm'), (2 * deep, 'enum'),
                        (2 * deep, 'env'), (1 * deep, 'group'), (3 if self.bib else 0, 'cite')])
        if k == 'text':
            return ['text', d.weighted([(3, 0), (1, 1)]), self.textrefs()]
        if k == 'par':
            return ['par']
        if k == 'cite':
            return ['cite', [d.int(0, len(KEYS) - 1) for _ in range(d.int(1, 3))], d.choice(['', '', 'p. 3'])]
        nest = lambda: d.weighted([(6, None), (1, 'array'), (1, 'cases'), (1, 'split'), (1, 'aligned')])
        if k == 'eq':
            return ['eq', 'equation', self.lab(), d.choice(['begin', 'line', 'end']), nest(), self.refs(1) if d.int(0, 3) == 3 else []]
        if k == 'rows':
            return ['rows', d.choice(['eqnarray', 'align', 'gather']), [[self.lab(), d.int(0, 4), nest(), self.refs(1) if d.int(0, 3) == 3 else [], d.int(0, 6) == 6]
                                                                     for _ in range(d.int(1, 4))]]
        if k == 'float':
            return ['float', d.choice(['figure', 'table', 'figure*', 'table*']), d.choice(['', '', 'center', 'minipage']),
                    [[self.lab(), d.choice(['in', 'far', 'opt', 'after', 'after']), self.refs()] for _ in range(d.weighted([(5, 1), (1, 2), (1, 3)]))]]
        if k == 'thm':
            return ['thm', d.choice(['thm', 'lem', 'defi']), self.lab(), d.choice(['begin', 'end', 'title']), self.refs(), self.inner(depth)]
        if k == 'enum':
            return ['enum', [[self.lab(), d.choice(['begin', 'end']), self.refs(1), self.inner(depth)] for _ in range(d.int(1, 3))]]
        if k == 'env':
            return ['env', d.choice(['quote', 'center', 'itemize', 'description']), self.inner(depth)]
        return ['group', self.inner(depth)]


def gen(d):
    return Gen(d).document()


# ------------------------------------------------------------------- moved

def move(ast, how):
    """the document with all its references before ('front') or after ('back') everything else"""
    cls, ams, hyper, perm, bib, body = ast
    refs = []

    def strip(b):
        k = b[0]
        b = list(b)
        if k == 'sec':
            refs.extend(b[5]); b[5] = []
        elif k == 'text':
            refs.extend(b[2]); b[2] = []
        elif k == 'eq':
            refs.extend(b[5]); b[5] = []
        elif k == 'rows':
            b[2] = [[r[0], r[1], r[2], refs.extend(r[3]) or [], r[4]] for r in b[2]]
        elif k == 'float':
            b[3] = [[c[0], c[1], refs.extend(c[2]) or []] for c in b[3]]
        elif k == 'thm':
            refs.extend(b[4]); b[4] = []
            b[5] = [strip(x) for x in b[5]]
        elif k == 'enum':
            b[1] = [[i[0], i[1], refs.extend(i[2]) or [], [strip(x) for x in i[3]]] for i in b[1]]
        elif k == 'env':
            b[2] = [strip(x) for x in b[2]]
        elif k == 'group':
            b[1] = [strip(x) for x in b[1]]
        return b
    body = [strip(b) for b in body]
    t = ['text', 0, refs]
    return [cls, ams, hyper, perm, bib, [t] + body if how == 'front' else body + [t]]


def moved(ast):
    out = []
    for how in ('front', 'back'):
        d = Doc(move(ast, how))
        dangling, res = check(d)
        out.append({nm: (d.objects[d.labelled[nm]][1], number(t)) for nm, t in res.items()})
    require(out[0] == out[1], 'references at the front resolve to %r, at the end to %r in\n%s', out[0], out[1], d.src)
    return {'labels': sorted(d.labels), 'nontrivial': len(out[0]) >= 2, 'sample': d.src}


# ------------------------------------------------------------ interleavings

def orders(tier):
    """labels a, b (each at most once, on a section, equation, item or theorem) and references to a, b and nothing, in every order"""
    for n in range(1, 6 if tier == 'quick' else 8):
        for c in itertools.product('LMabn', repeat=n):
            if c.count('L') > 1 or c.count('M') > 1 or 'L' not in c:
                continue
            if tier != 'quick' or n < 5 or hash_of(c) % 3 == 0:
                yield ''.join(c)


def hash_of(c):
    return sum((ord(x) * (i * 7 + 3)) for i, x in enumerate(c))


OBJS = [lambda lab: ['sec', 1, False, '', lab, []], lambda lab: ['eq', 'equation', lab, 'end', None, []],
        lambda lab: ['thm', 'thm', lab, 'begin', [], []], lambda lab: ['enum', [[lab, 'begin', [], []]]],
        lambda lab: ['float', 'figure', '', [[lab, 'after', []]]], lambda lab: ['rows', 'eqnarray', [[0, 0, None, [], False], [lab, 1, None, [], False]]]]


def interleavings(word):
    h = hash_of(word)
    body = []
    perm = 0
    first = word.index('L') < word.find('M') if 'M' in word else True
    names = {'a': 0 if first else 1, 'b': 1 if first else 0, 'n': 2}
    if h % 2:
        body.append(['sec', 0, False, '', 0, []])
    for i, c in enumerate(word):
        if c in 'LM':
            body.append(OBJS[(h + i) % len(OBJS)](1))
        else:
            body.append(['text', 0, [['ref' if (h + i) % 3 else 'pageref', names[c] * 5]]])
    d = Doc(['article', False, False, perm, None, body])
    dangling, res = check(d)
    return {'labels': ['length %d' % len(word)], 'nontrivial': bool(res), 'sample': d.src}


# ------------------------------------------------------------------ histories

class Thing(plasTeX.Macro):
    pass


def history(ops):
    """Context.label and Context.ref directly: objects with several named references"""
    ctx = Context(load=False)
    ctx['Macro'] = plasTeX.Macro
    things = [Thing() for _ in range(4)]
    users = [Thing() for _ in range(4)]
    labels, want = {}, {}
    for op in ops:
        if op[0] == 'label':
            nm = NAMES[op[1]]
            if nm in labels:
                continue
            labels[nm] = things[op[2]]
            if op[3]:
                ctx.label(nm, things[op[2]])
            else:
                ctx.currentlabel = things[op[2]]
                ctx.label(' %s ' % nm if op[1] % 2 else nm)
            require(things[op[2]].id == nm, 'labelled %s, but the identifier is %r', nm, things[op[2]].id)
        else:
            nm = NAMES[op[1]]
            if (op[2], op[3]) in want:
                continue
            ctx.ref(users[op[2]], op[3], nm)
            want[op[2], op[3]] = nm
    for (u, key), nm in want.items():
        t = users[u].idref.get(key)
        if nm in labels:
            require(t is labels[nm], 'reference %r of %d to %s resolves to %s, should be %d', key, u, nm, show(t), things.index(labels[nm]))
        else:
            require(t is None or t not in things, 'reference %r of %d to the missing %s resolves to %s', key, u, nm, show(t))
    return {'labels': ['%d labels' % len(labels), '%d refs' % len(want)], 'nontrivial': len(labels) >= 2 and len(want) >= 2}


def history_gen(d):
    n = d.int(1, 6)
    return [['label', d.int(0, n), d.int(0, 3), d.bool()] if d.bool() else ['ref', d.int(0, n), d.int(0, 3), d.choice(['label', 'other', 'third'])] for _ in range(d.int(1, 14))]


SUBS = [
    Sub('interleavings', interleavings, cases=orders,
        rule='every order of up to two labels and any references to them and to nothing, to length 4 (a third of length 5; thorough 7); non-trivial: some reference resolves'),
    Sub('histories', history, gen=history_gen, quick=6000, thorough=500000,
        rule='sequences of label and reference on the context interface, objects with several references; non-trivial: 2 labels and 2 references'),
    Sub('documents', documents, gen=gen, quick=2200, thorough=200000,
        rule='documents of labelled objects with references anywhere; non-trivial: references resolve to 2 or more objects'),
    Sub('moved', moved, gen=gen, quick=500, thorough=50000,
        rule='the same with all references moved to the front, and to the end; non-trivial: references resolve to 2 or more objects'),
]
