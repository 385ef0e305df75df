"""LaTeX documents: a generator of abstract documents and an emitter that gives the source together with what it contains.

An abstract document is made of plain lists and strings, so that it can be stored, compared and shrunk:

  block   ['p', inlines]  ['list', kind, [[label or None, blocks], ...]]  ['env', name, blocks]  ['tab', table]  ['float', name, caption-first, caption, toc, blocks]
          ['verb', lines] ['disp', form, maths]  ['thm', note, blocks]  ['sec', level, star, toc, title]  ['group', declaration, blocks]  ['raw', source]
  inline  ['w', before, after]  ['sp', blank]  ['cmd', name, inlines]  ['grp', decl, inlines]  ['sym', source, text]  ['math', form, maths]  ['verb', delim, star, text]
          ['fn', inlines] ['mac', name, [inlines, ...]]  ['src', source]  ['nest', table]

The emitter replaces every 'w' by a fresh marker word and records, in source order, the leaves: (text, kind, chain of containers, paragraph key).
"""

SECTIONS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'],
            'report': ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph'],
            'book': ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph']}
SLEVEL = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
FONTCMDS = ['emph', 'textbf', 'textit', 'texttt', 'textsc', 'textrm', 'underline', 'mbox', 'fbox']
DECLS = ['bfseries', 'itshape', 'ttfamily', 'em', 'small', 'Large', 'tt', 'scshape', 'bf', 'it']
BOXES = [('makebox', '[2cm][l]'), ('framebox', '[3cm]'), ('parbox', '{4cm}'), ('parbox', '[t]{4cm}'), ('raisebox', '{1ex}'), ('textsuperscript', ''), ('centerline', '')]
SYMS = [('\\ldots{}', '\u2026'), ('\\&', '&'), ('\\%', '%'), ('\\#', '#'), ('\\$', '$'), ('\\_', '_'), ('\\{', '{'), ('\\}', '}'), ("\\'e", '\xe9'), ('\\"{o}', '\xf6'),
        ('\\ss{}', '\xdf'), ('\\S{}', '\xa7'), ('\\ae{}', '\xe6'), ('\\c{c}', '\xe7'), ('\\copyright{}', '\xa9'), ('\\dag{}', '\u2020'), ('\\^{o}', '\xf4'), ('\\~n', '\xf1')]
PRE = ['', '', '', '', '``', '`', '(', '---', '--', '-', '!', '"']
POST = ['', '', '', '', "''", "'", ')', '---', '--', '-', ']', '?', '.', ',', ';', ':', "'s", '!', '/', '*', '=', '"', "'''", '----']
ENVS = ['quote', 'quotation', 'center', 'flushleft', 'flushright', 'verse', 'minipage', 'abstract']
MATHFORMS = [('$', '$'), ('\\(', '\\)'), ('\\begin{math}', '\\end{math}')]
DISPFORMS = [('\\[', '\\]', 'displaymath'), ('$$', '$$', 'displaymath'), ('\\begin{displaymath}', '\\end{displaymath}', 'displaymath'), ('\\begin{equation}', '\\end{equation}', 'equation')]
MACROS = {'mya': ('\\newcommand{\\mya}[2]{\\emph{#1}--\\textbf{#2}}', 2), 'myb': ('\\newcommand{\\myb}[1]{{\\itshape #1}}', 1), 'myc': ('\\newcommand{\\myc}[2][opt]{(#2)}', 1), 'myd': ('\\def\\myd#1{#1}', 1)}
SUBST = [('``', '\u201c'), ("''", '\u201d'), ('"`', '\u201e'), ('"\'', '\u201c'), ('`', '\u2018'), ("'", '\u2019'), ('---', '\u2014'), ('--', '\u2013')]


def substitute(s):
    for a, b in SUBST:
        s = s.replace(a, b)
    return s


class Gen:
    """draws abstract documents"""

    def __init__(self, d, verbs=True, maths=True, thms=True, quotes=True):
        self.d, self.verbs, self.maths, self.thms, self.quotes = d, verbs, maths, thms, quotes
        self.budget = 60

    def w(self):
        d = self.d
        self.budget -= 1
        if not self.quotes or d.int(0, 2):
            return ['w', '', '']
        return ['w', d.choice(PRE), d.choice(POST)]

    def inls(self, k, arg=False, least=1, fn=True, deep=0):
        d = self.d
        out = []
        for i in range(d.int(least, 4 if k else 2)):
            if i:
                out.append(['sp', d.weighted([(8, ' '), (1, '~'), (1, '\\ '), (2, '\n'), (1, ' % note\n'), (2, ''), (1, '\\,'), (1, '\\quad{}'), (1, '%\n')])])
            out.append(self.inl(k, arg, fn, deep))
        return out

    def inl(self, k, arg, fn, deep=0):
        d = self.d
        if not k or self.budget < 0:
            return self.w()
        z = d.weighted([(9, 'w'), (3, 'cmd'), (2, 'grp'), (2, 'sym'), (2, 'math'), (1, 'verb'), (1, 'fn'), (2, 'mac'), (1, 'box'), (1, 'src'), (1, 'bare'), (1, 'env')])
        if z == 'cmd':
            return ['cmd', d.choice(FONTCMDS), '', self.inls(k - 1, True, fn=fn)]
        if z == 'box':
            n, a = d.choice(BOXES)
            return ['cmd', n, a, self.inls(k - 1, True, fn=fn)]
        if z == 'grp':
            return ['grp', d.choice(DECLS), self.inls(k - 1, arg, fn=fn)]
        if z == 'bare':
            return ['grp', '', self.inls(k - 1, arg, fn=fn)]
        if z == 'env':
            return ['ienv', d.choice(['bfseries', 'itshape', 'small', 'em']), self.inls(k - 1, arg, fn=fn)]
        if z == 'sym':
            return ['sym'] + list(d.choice(SYMS))
        if z == 'math' and self.maths:
            f = d.choice(MATHFORMS)
            return ['math', f[0], f[1], self.math(2)]
        if z == 'verb' and self.verbs and not arg:
            dl = d.choice('|+!=:')
            t = ''.join(x for x in d.text('ab \\{}%$&#_^~-`\'"<>', 0, 8) if x != dl)
            return ['verb', dl, d.int(0, 3) == 0, t]
        if z == 'fn' and fn:
            return ['cmd', 'footnote', '', self.inls(k - 1, True, fn=False)]
        if z == 'mac':
            n = d.choice(sorted(MACROS))
            return ['mac', n, [self.inls(k - 1, True, fn=fn) for _ in range(MACROS[n][1])]]
        if z == 'src':
            return ['src', d.choice(['\\label{l%d}' % d.int(0, 9), '\\ref{l1}', '\\index{ab!cd}', '\\pageref{l2}', '\\relax ', '\\cite{zz}', '{}', '\\/', '\\-', '\\nopagebreak ', '\\hspace{1cm}'])]
        return self.w()

    def math(self, k, cell=False):
        # (substitutions in the cells of alignments: C07 sub 'cells')
        d = self.d
        out = []
        for i in range(d.int(1, 3)):
            z = d.int(0, 8) if k else 0
            if z <= 3:
                out.append(['w', '', d.choice(['', '+', '=1', '<', '-'] if cell else ['', '+', '=1', '--', "'", '<', '`', '-'])])
            elif z == 4:
                out.append(['msub', d.choice('_^'), self.math(k - 1, cell)])
            elif z == 5:
                out.append(['mfrac', self.math(k - 1, cell), self.math(k - 1, cell)])
            elif z == 6:
                out.append(['mcmd', d.choice(['sqrt', 'mathbf', 'mathrm', 'hat', 'overline']), self.math(k - 1, cell)])
            elif z == 7:
                out.append(['mtext', d.choice(['mbox', 'textrm']), [['w', '', '']]])
            else:
                out.append(['mgrp', self.math(k - 1, cell)])
        return out

    def blocks(self, k, least=1, most=3, par=True):
        d = self.d
        out = []
        for _ in range(d.int(least, most if self.budget > 0 else least)):
            out.append(self.block(k))
        return out

    def block(self, k):
        d = self.d
        z = d.weighted([(8, 'p'), (3, 'list'), (2, 'env'), (2, 'tab'), (1, 'float'), (1, 'verb'), (2, 'disp'), (1, 'thm'), (1, 'group'), (1, 'decl')]) if k and self.budget > 0 else 'p'
        if z == 'list':
            kind = d.choice(['itemize', 'enumerate', 'description', 'itemize', 'enumerate', 'trivlist'])
            return ['list', kind, [[self.inls(1, True, fn=False) if kind == 'description' or d.int(0, 5) == 0 else None, self.blocks(k - 1, 1, 2)] for _ in range(d.int(1, 3))]]
        if z == 'env':
            return ['env', d.choice(ENVS), self.blocks(k - 1, 1, 2)]
        if z == 'tab':
            return ['tab', self.table(k)]
        if z == 'float':
            return ['float', d.choice(['figure', 'table', 'figure*', 'table*']), d.choice(['', '[h]', '[tbp]']), d.int(0, 1), self.inls(2, True, fn=False), self.inls(1, True, fn=False) if d.int(0, 2) == 0 else None,
                    [d.weighted([(2, ['tab', self.table(1)]), (2, ['p', self.inls(2, fn=False)]), (1, ['env', 'center', [['p', self.inls(1, fn=False)]]])])]]
        if z == 'verb' and self.verbs:
            return ['verb', d.choice(['verbatim', 'verbatim*']), [d.text('ab \\{}%$&#_^~-`\'"<>', 0, 10) for _ in range(d.int(1, 3))]]
        if z == 'disp' and self.maths:
            if d.int(0, 3) == 0:
                return ['eqn', d.choice(['eqnarray', 'eqnarray*']), [[self.math(1, True) for _ in range(3)] for _ in range(d.int(1, 3))]]
            f = d.choice(DISPFORMS)
            return ['disp', f[0], f[1], f[2], self.math(2)]
        if z == 'thm' and self.thms:
            return ['thm', d.choice(['thm', 'lem', 'rem']), self.inls(1, True, fn=False) if d.int(0, 2) == 0 else None, self.blocks(k - 1, 1, 2)]
        if z == 'group':
            return ['group', d.choice(['', 'small', 'bfseries']), [['p', self.inls(2)]] if d.int(0, 1) else self.blocks(k - 1, 1, 2)]
        if z == 'decl':
            return ['decl', d.choice(['bfseries', 'itshape', 'small', 'centering', 'raggedright']), ['p', self.inls(2)]]
        return ['p', self.inls(3)]

    def table(self, k):
        d = self.d
        n = d.int(1, 4)
        rows = []
        for _ in range(d.int(1, 3)):
            cells, c = [], 0
            while c < n:
                s = d.int(1, n - c) if d.int(0, 4) == 0 else 0
                z = d.int(0, 7)
                body = [] if z == 0 else self.inls(2, arg=bool(s)) if z < 6 or k < 2 or s else [['nest', self.table(k - 2)]]
                cells.append([s, d.choice(['', '', '', 'bfseries', 'itshape']), body])
                c += s or 1
            rows.append([d.weighted([(3, ''), (1, '\\hline'), (1, '\\cline{1-%d}' % n)]), cells])
        return [d.choice(['tabular', 'tabular', 'tabular*']), d.choice(['', '[t]']), ''.join(d.choice(['l', 'c|', '|r', 'p{2cm}', '@{}l']) for _ in range(n)), rows, d.choice(['', '\\\\', '\\\\ \\hline'])]

    def document(self, depth=3, size=None):
        d = self.d
        cls = d.choice(['article', 'article', 'book', 'report'])
        self.budget = size or d.choice([6, 20, 45, 80])
        body = []
        secs = SECTIONS[cls]
        nsec = d.weighted([(2, 0), (3, d.int(1, 3)), (3, d.int(2, 6))])
        body += self.blocks(depth, 0 if nsec else 1, 3)
        for _ in range(nsec):
            self.budget += 6
            lv = d.weighted([(4, d.int(0, min(2, len(secs) - 1))), (2, d.int(0, len(secs) - 1))])
            body.append(['sec', secs[lv], d.int(0, 3) == 0, self.inls(1, True, fn=False) if d.int(0, 4) == 0 else None, self.inls(2, True, fn=False), d.choice(['', '', '\\label{s}', '\n\n'])])
            if d.int(0, 9) == 0:
                body.append(['raw', d.choice(['\\appendix', '\\tableofcontents', '\\newpage', '\\bigskip', '\\listoffigures', '\\noindent', '\\clearpage'])])
            more = self.blocks(depth, 0, 3)
            if d.int(0, 7) == 0:
                # a declaration that lasts until the next section
                more.insert(d.int(0, len(more)), ['open', d.choice(['small', 'itshape', 'centering', 'bfseries'])])
            body += more
        if nsec and d.int(0, 5) == 0:
            # a group around sections
            i = d.int(0, len(body) - 1)
            j = d.int(i + 1, len(body))
            body[i:j] = [['gsec', d.choice(['', '', 'small', 'sffamily']), body[i:j]]]
        seps = [d.weighted([(6, '\n\n'), (1, '\n'), (1, '\n\n\n'), (1, '\\par '), (1, '\n%x\n\n')]) for _ in range(8)]
        pre = {'title': self.inls(1, True, fn=False), 'author': [['w', '', '']]} if d.int(0, 2) == 0 else {}
        bib = [[d.choice(['', '[L]']), self.inls(1)] for _ in range(d.int(1, 3))] if d.int(0, 7) == 0 else []
        return [cls, sorted(pre.items()), body, seps, bib]


class Emit:
    """source and contents of an abstract document"""

    def __init__(self, ast, marker=None, leaf=None):
        self.out, self.leaves, self.n, self.uid = [], [], 0, 0
        self.marker = marker or self.mark
        self.chain = []
        self.mode = 'text'
        self.nopar = False
        self.par = 0            # number of the current stretch of paragraph text
        self.sections = []      # (level name, star, first leaf index, stack) in order
        self.secstack = []
        self.opened = []        # declarations without a group
        self.cls, pre, body, self.seps, bib = ast
        self.nsep = 0
        S = self.out.append
        S('\\documentclass{%s}\n' % self.cls)
        for n in sorted(MACROS):
            S(MACROS[n][0] + '\n')
        S('\\newtheorem{thm}{Theorem}\\newtheorem{lem}[thm]{Lemma}\\newtheorem*{rem}{Remark}\n')
        self.where = 'preamble'
        for n, inls in pre:
            S('\\%s{' % n)
            with self.within(n):
                self.inls(inls)
            S('}\n')
        self.where = 'body'
        S('\\begin{document}\n')
        with self.within('document'):
            if pre:
                S('\\maketitle\n\n')
            self.blocks(body, lambda: self.bibliography(bib))
        S('\n\\end{document}\n')
        self.src = ''.join(self.out)

    def bibliography(self, bib):
        S = self.out.append
        if bib:
            with self.within('thebibliography'):
                S('\n\n\\begin{thebibliography}{9}\n')
                for i, (lab, inls) in enumerate(bib):
                    S('\\bibitem%s{key%d} ' % (lab, i))
                    with self.within('bibitem'):
                        if lab:
                            self.leaf('L', 'text', '')
                        self.par += 1
                        self.inls(inls)
                    S('\n')
                S('\\end{thebibliography}\n')

    def mark(self):
        i = self.n
        self.n += 1
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[i % 25] + s
            i //= 25
        return 'Q' + s + 'Z'

    def within(self, name):
        e = self
        e.uid += 1
        me = (e.uid, name)

        class C:
            def __enter__(s):
                e.chain.append(me)

            def __exit__(s, *a):
                e.chain.remove(me)
        return C()

    def leaf(self, text, kind=None, src=None):
        self.out.append(text if src is None else src)
        self.leaves.append((text, kind or self.mode, tuple(self.chain), self.par, self.where, self.nopar))

    # ---- inlines
    def inls(self, inls):
        for x in inls:
            self.inl(x)

    def inl(self, x):
        S, k = self.out.append, x[0]
        if k == 'w':
            m = self.marker()
            self.leaf(x[1] + m + x[2])
        elif k == 'sp':
            if x[1] in ('~', '\\ ', '\\,', '\\quad{}'):
                S(x[1])
                self.leaf({'~': '\xa0', '\\ ': ' ', '\\,': '\u2009', '\\quad{}': ''}[x[1]], 'blank', '')
            else:
                # a blank line would be a new paragraph
                s = '' if x[1][:1] == '\n' and self.tail().endswith('\n') else x[1]
                self.leaf('' if s in ('', '%\n') else ' ', 'glue', s)
        elif k == 'cmd':
            S('\\%s%s{' % (x[1], x[2]))
            p = self.par
            if x[1] == 'footnote':
                self.par = self.fresh()
            with self.within(x[1]):
                self.inls(x[3])
            self.par = p
            S('}')
        elif k == 'grp':
            S('{\\%s ' % x[1] if x[1] else '{')
            with self.within('bgroup'):
                if x[1]:
                    with self.within(x[1]):
                        self.inls(x[2])
                else:
                    self.inls(x[2])
            S('}')
        elif k == 'ienv':
            S('\\begin{%s}' % x[1])
            with self.within(x[1]):
                self.inls(x[2])
            S('\\end{%s}' % x[1])
        elif k == 'sym':
            self.leaf(x[2], 'sym', x[1])
        elif k == 'math':
            S(x[1])
            with self.within('math'):
                self.maths(x[3])
            S(x[2])
        elif k == 'verb':
            m = self.marker()
            S('\\verb%s%s' % ('*' if x[2] else '', x[1]))
            with self.within('verb'):
                self.leaf(m + x[3], 'verb')
            S(x[1])
        elif k == 'mac':
            self.macro(x[1], x[2])
        elif k == 'src':
            self.leaf('', 'break', x[1])
        elif k == 'nest':
            self.table(x[1])
        else:
            raise AssertionError(k)

    def tail(self):
        for s in reversed(self.out):
            if s:
                return s.rstrip(' ')
        return ''

    def fresh(self):
        self.uid += 1
        return -self.uid

    def macro(self, n, args):
        S = self.out.append
        S('\\%s' % n)
        if n == 'mya':
            S('{')
            with self.within('emph'):
                self.inls(args[0])
            S('}{')
            self.leaf('--', 'text', '')
            with self.within('textbf'):
                self.inls(args[1])
            S('}')
        elif n == 'myb':
            S('{')
            with self.within('bgroup'), self.within('itshape'):
                self.inls(args[0])
            S('}')
        elif n == 'myc':
            S('{')
            self.leaf('(', 'text', '')
            self.inls(args[0])
            self.leaf(')', 'text', '')
            S('}')
        else:
            S('{')
            self.inls(args[0])
            S('}')

    def maths(self, ms):
        S, mode = self.out.append, self.mode
        self.mode = 'math'
        for x in ms:
            k = x[0]
            if k == 'w':
                self.leaf(self.marker() + x[2], 'math')
            elif k == 'msub':
                if self.tail().endswith(x[1] + '}') or True:
                    S('{}')
                S(x[1] + '{')
                with self.within({'_': 'active::_', '^': 'active::^'}[x[1]]):
                    self.maths(x[2])
                S('}')
            elif k == 'mfrac':
                S('\\frac{')
                with self.within('frac'):
                    self.maths(x[1])
                    S('}{')
                    self.maths(x[2])
                S('}')
            elif k == 'mcmd':
                S('\\%s{' % x[1])
                with self.within(x[1]):
                    self.maths(x[2])
                S('}')
            elif k == 'mtext':
                S('\\%s{' % x[1])
                with self.within(x[1]):
                    self.mode = 'mathtext'
                    self.inls(x[2])
                    self.mode = 'math'
                S('}')
            elif k == 'mgrp':
                S('{')
                with self.within('bgroup'):
                    self.maths(x[1])
                S('}')
        self.mode = mode

    # ---- blocks
    def sep(self):
        s = self.seps[self.nsep % len(self.seps)]
        self.nsep += 1
        return s

    def blocks(self, bs, then=None, base=None):
        mine, np = [], self.nopar
        base = np if base is None else base
        for i, b in enumerate(bs):
            if b[0] == 'open':
                self.uid += 1
                self.opened.append((self.uid, b[1]))
                mine.append(self.opened[-1])
                self.chain.append(self.opened[-1])
                self.nopar = True
                self.out.append('\n\\%s ' % b[1])
                continue
            if i:
                s = self.sep()
                self.out.append(s)
                if s != '\n':
                    self.par += 1
                self.leaves.append((' ', 'break' if s != '\n' else 'glue', tuple(self.chain), self.par, self.where, self.nopar))
            self.block(b)
            if b[0] in ('sec', 'gsec'):
                self.nopar = base
        if then:
            self.par += 1
            then()
        for x in mine:
            if x in self.opened:
                self.opened.remove(x)
                self.chain.remove(x)
        self.nopar = np
        self.par += 1

    def block(self, b):
        S, k = self.out.append, b[0]
        if k == 'p':
            self.inls(b[1])
            return
        if k in ('group', 'decl'):
            # a group does not start a new paragraph by itself; no statement about paragraphs inside
            p, np = self.par, self.nopar
            self.nopar = True
            self.grouped(b)
            self.par, self.nopar = p, np
            return
        self.block1(b)

    def grouped(self, b):
        S, k = self.out.append, b[0]
        if k == 'group':
            S('{\\%s ' % b[1] if b[1] else '{')
            with self.within('bgroup'):
                if b[1]:
                    with self.within(b[1]):
                        self.blocks(b[2])
                else:
                    self.blocks(b[2])
            S('}')
        else:
            S('\\begingroup\\%s ' % b[1])
            with self.within('begingroup'), self.within(b[1]):
                self.block(b[2])
            S('\\endgroup{}')

    def block1(self, b):
        S, k = self.out.append, b[0]
        if k == 'gsec':
            # the group does not end the sections in it
            self.par += 1
            S('\n\n{')
            np, self.nopar = self.nopar, True
            self.blocks(([['open', b[1]]] if b[1] else []) + b[2], base=np)
            self.nopar = np
            S('}\n\n')
            self.par += 1
            return
        if k == 'raw':
            self.par += 1
            S(b[1] + '\n')
            return
        self.par += 1
        if k == 'list':
            S('\\begin{%s}\n' % b[1])
            with self.within(b[1]):
                for lab, blocks in b[2]:
                    S('\\item')
                    self.par += 1
                    with self.within('item'):
                        if lab is not None:
                            S('[{')
                            self.inls(lab)
                            S('}]')
                        self.par += 1
                        S(' ')
                        self.blocks(blocks)
                    S('\n')
            S('\\end{%s}' % b[1])
        elif k == 'env':
            S('\\begin{%s}%s\n' % (b[1], '{5cm}' if b[1] == 'minipage' else ''))
            with self.within(b[1]):
                self.blocks(b[2])
            S('\n\\end{%s}' % b[1])
        elif k == 'thm':
            S('\\begin{%s}' % b[1])
            with self.within('thmenv'):
                if b[2] is not None:
                    S('[{')
                    self.inls(b[2])
                    S('}]')
                self.par += 1
                S('\n')
                self.blocks(b[3])
            S('\n\\end{%s}' % b[1])
        elif k == 'tab':
            self.table(b[1])
        elif k == 'float':
            S('\\begin{%s}%s\n' % (b[1], b[2]))
            with self.within(b[1]):
                if not b[3]:
                    self.caption(b)
                self.blocks(b[6])
                S('\n')
                if b[3]:
                    self.caption(b)
            S('\\end{%s}' % b[1])
        elif k == 'verb':
            S('\\begin{%s}\n' % b[1])
            with self.within(b[1]):
                for line in b[2]:
                    self.leaf(self.marker() + line, 'verb')
                    S('\n')
            S('\\end{%s}' % b[1])
        elif k == 'disp':
            S(b[1])
            with self.within(b[3]):
                self.maths(b[4])
            S(b[2])
        elif k == 'eqn':
            S('\\begin{%s}' % b[1])
            with self.within(b[1]):
                for i, row in enumerate(b[2]):
                    if i:
                        S('\\\\ ')
                    with self.within('ArrayRow'):
                        for j, cell in enumerate(row):
                            if j:
                                S('&')
                            with self.within('ArrayCell'):
                                self.maths(cell)
            S('\\end{%s}' % b[1])
        elif k == 'sec':
            lv = SLEVEL[b[1]]
            # sections end declarations
            while self.opened:
                self.chain.remove(self.opened.pop())
            self.secdone(lv)
            self.uid += 1
            me = (self.uid, b[1])
            self.secstack.append((lv, me))
            self.chain.append(me)
            S('\n\n\\%s%s' % (b[1], '*' if b[2] else ''))
            if b[3] is not None:
                S('[{')
                self.inls(b[3])
                S('}]')
                self.par += 1
            S('{')
            self.inls(b[4])
            S('}%s' % b[5])
            S('\n')
            self.sections.append((me, b[2], [x[1] for x in self.secstack]))
        else:
            raise AssertionError(k)
        self.par += 1

    def secdone(self, lv):
        while self.secstack and self.secstack[-1][0] >= lv:
            self.chain.remove(self.secstack.pop()[1])

    def caption(self, b):
        S = self.out.append
        S('\\caption')
        self.par += 1
        with self.within('caption'):
            if b[5] is not None:
                S('[{')
                self.inls(b[5])
                S('}]')
            self.par += 1
            S('{')
            self.inls(b[4])
            S('}\n')
        self.par += 1

    def table(self, t):
        S = self.out.append
        name, pos, spec, rows, last = t
        p = self.par
        S('\\begin{%s}%s%s{%s}\n' % (name, '{5cm}' if name == 'tabular*' else '', pos, spec))
        with self.within(name):
            for i, (rule, cells) in enumerate(rows):
                if i:
                    S('\\\\ ')
                S(rule + (' ' if rule else ''))
                with self.within('ArrayRow'):
                    for j, (span, decl, body) in enumerate(cells):
                        if j:
                            S(' & ')
                        self.par = self.fresh()
                        with self.within('ArrayCell'):
                            if span:
                                S('\\multicolumn{%d}{c}{' % span)
                                with self.within('multicolumn'):
                                    if decl:
                                        S('\\%s ' % decl)
                                        with self.within(decl):
                                            self.inls(body)
                                    else:
                                        self.inls(body)
                                S('}')
                            elif decl:
                                S('\\%s ' % decl)
                                with self.within(decl):
                                    self.inls(body)
                            else:
                                self.inls(body)
            S(last)
        S('\n\\end{%s}' % name)
        self.par = p
