"""Documents for the HTML renderers: text leaves in every position that shows text.

A document is a list of snippets; a snippet is [number, children].  In the source of a snippet
  @T  a text leaf          @S  a text leaf on one line with no comma, bracket or equals sign      @V  a verbatim leaf (may span lines)
  @v  a \\verb leaf         @U  a leaf used as a URL           @I  inline material (leaves and inline snippets)    @B  a list of block snippets
"""

import re

INLINE = [
    '@T', '@T', '@T', '\\emph{@I}', '\\textbf{@I}', '\\texttt{@I}', '{\\itshape @I}', '\\textsc{@I}', '\\underline{@I}', '\\mbox{@I}', '\\fbox{@I}', '\\makebox[2cm]{@I}', '\\parbox{3cm}{@I}',
    '\\framebox{@I}', '\\raisebox{1ex}{@I}', '\\textsuperscript{@I}', '\\textsubscript{@I}', '``@T\'\'', '`@T\'', '\\footnote{@I}', '\\footnote[7]{@I}', '\\verb|@v|', '\\verb*+@v+', '\\url{@U}', '\\href{@U}{@I}',
    '\\marginpar{@T}', '\\footnotemark\\footnotetext{@I}', '{\\bf @I}', '{\\small @I}', '{\\tt @T}', '\\cite[@S]{k1}', '\\cite{k1}', '\\cite{k2,k1}', '\\ref{l1}', '\\pageref{l1}', '\\index{@X}', '\\hyperref[l1]{@I}',
    '\\hyperlink{t}{@I}', '\\textcolor{red}{@I}', '\\colorbox{red}{@T}', '\\mine{@I}{@T}', '\\textsf{@I}', '\\textnormal{@T}', '\\textrm{@I}', '\\texttt{\\emph{@T}}', '\\foreignlanguage{french}{@I}', '$x<y$', '\\thanks{@T}',
    '\\begin{small}@I\\end{small}', '\\autoref{l1}', '\\nameref{l1}', '\\hypertarget{t}{@T}', '\\texorpdfstring{@I}{@T}', '\\cref{l1}', '\\nolinkurl{@U}', '\\lstinline|@v|', '\\uline{@I}', '\\raggedright @T',
    '\\fcolorbox{red}{blue}{@I}', '\\ovalbox{@T}', '\\shadowbox{@I}', '\\doublebox{@I}', '\\centerline{@T}', '\\citet{k1}', '\\citep[@S][@S]{k1}', '\\citeauthor{k1}', '\\@T', '@T~@T', '\\ensuremath{x}', '\\textup{@I}', '\\ifthenelse{1<2}{@I}{@T}',
    '\\cbdelete{}', '\\title{@I}', '\\llap{@T}', '\\input{nofile}', '\\unknowncmd{@T}', '\\symbol{60}', '\\textvisiblespace{}', '\\scalebox{2}{@T}', '\\rotatebox{90}{@T}', '\\reflectbox{@T}', '\\MakeUppercase{x}', '\\printindex']
DROP = ('\\@T', '\\title{@I}', '\\printindex', '\\MakeUppercase{x}', '\\symbol{60}', '\\input{nofile}', '\\thanks{@T}', '\\raggedright @T')
INLINE = [x for x in INLINE if x not in DROP]

BLOCK = [
    '@I', '@I', '@I', '@I\n\n@I', '\\begin{itemize}\n\\item @B\n\\item[@S] @I\\end{itemize}', '\\begin{enumerate}\n\\item @I\n\\item @B\\end{enumerate}', '\\begin{description}\n\\item[{@I}] @B\n\\item[@S] @T\\end{description}',
    '\\begin{quote}@B\\end{quote}', '\\begin{quotation}@B\\end{quotation}', '\\begin{verse}@I\\\\ @I\\end{verse}', '\\begin{center}@B\\end{center}', '\\begin{flushleft}@B\\end{flushleft}', '\\begin{flushright}@I\\end{flushright}',
    '\\begin{tabular}{|l|c|}\\hline @I & @I\\\\\\hline @T & @I\\\\\\hline\\end{tabular}', '\\begin{tabular}{lll}\\multicolumn{2}{c}{@I} & @T\\\\ @I & & @T\\end{tabular}', '\\begin{tabular*}{3cm}{p{2cm}r}@I & @T\\end{tabular*}',
    '\\begin{longtable}{ll}\\caption{@I}\\\\ @I & @T\\\\ @T & @I\\end{longtable}', '\\begin{figure}@B\\caption{@I}\\end{figure}', '\\begin{figure}[h]\\caption[@S]{@I}\\label{l@N}@I\\end{figure}', '\\begin{table}@B\\caption{@I}\\end{table}',
    '\\begin{table}\\caption{@I}\\begin{tabular}{c}@I\\end{tabular}\\end{table}', '\\begin{verbatim}\n@V\n\\end{verbatim}', '\\begin{verbatim*}@V\\end{verbatim*}', '\\begin{thm}@B\\end{thm}', '\\begin{thm}[@S]@B\\end{thm}',
    '\\begin{thm}[{@I}]\\label{l@N}@I\\end{thm}', '\\begin{odd}[{@T}]@I\\end{odd}', '\\begin{proof}@B\\end{proof}', '\\begin{proof}[{@I}]@I\\end{proof}', '\\begin{minipage}{4cm}@B\\end{minipage}', '\\begin{abstract}@B\\end{abstract}',
    '\\section{@I}\\label{l@N}\n@B', '\\section*{@I}@B', '\\subsection{@I}@B', '\\subsubsection{@T}@I', '\\section[@S]{@I}@B', '\\paragraph{@I}@I', '\\subparagraph{@T}@I', '\\tableofcontents', '\\subsection{@I}\\label{l@N}\n@I',
    '\\begin{equation}x<y\\label{l@N}\\end{equation}', '\\[ a<b \\]', '\\begin{lstlisting}\n@V\n\\end{lstlisting}', '\\begin{lstlisting}[caption={@S}]\n@V\n\\end{lstlisting}', '\\begin{alltt}\n@A\n\\end{alltt}',
    '\\begin{tabbing}@T \\= @T \\\\ @T \\> @T\\end{tabbing}', '\\begin{trivlist}\\item @I\\end{trivlist}', '\\begin{list}{@T}{}\\item @I\\end{list}', '\\begin{changebar}@B\\end{changebar}', '\\begin{figure*}@I\\caption{@I}\\end{figure*}',
    '\\begin{ours}@B\\end{ours}', '{\\centering @B}', '\\begin{wrapfigure}{r}{3cm}@I\\caption{@I}\\end{wrapfigure}', '\\begin{figure}\\subfloat[@S]{@I}\\caption{@T}\\end{figure}', '\\noindent @I', '{\\small @B}', '\\begin{titlepage}@B\\end{titlepage}',
    '\\listoffigures', '\\begin{picture}(2,2)\\put(0,0){@T}\\end{picture}', '\\begin{equation*}x\\end{equation*}', '\\begin{otherlanguage}{french}@B\\end{otherlanguage}', '\\begin{samepage}@B\\end{samepage}', '\\begin{rawthm}@B\\end{rawthm}',
    '\\begin{theindex}\\item @T\\end{theindex}', '\\begin{multicols}{2}@B\\end{multicols}', '\\begin{tabularx}{3cm}{lX}@I & @I\\end{tabularx}', '\\part{@I}@B', '\\minitoc', '\\caption*{@I}', '\\HTML{@T}']
BDROP = ('\\begin{theindex}\\item @T\\end{theindex}', '\\HTML{@T}', '\\caption*{@I}', '\\minitoc', '\\listoffigures', '\\begin{equation*}x\\end{equation*}')
BLOCK = [x for x in BLOCK if x not in BDROP]
PRE = ['', '\\maketitle', '\\maketitle\\tableofcontents']
PACKAGES = ['url', 'hyperref', 'color', 'listings', 'longtable', 'alltt', 'babel', 'changebar', 'amsthm', 'fancybox', 'natbib', 'wrapfig', 'subfig', 'ifthen', 'cleveref', 'nameref', 'ulem', 'graphicx', 'tabularx', 'multicol', 'minitoc', 'makeidx']
NEEDS = {'\\url': 'url', '\\href': 'hyperref', '\\path': 'url', '\\nolinkurl': 'hyperref', '\\hyper': 'hyperref', '\\autoref': 'hyperref', '\\nameref': 'nameref', '\\texorpdf': 'hyperref', '\\textcolor': 'color', '\\colorbox': 'color', '\\fcolorbox': 'color',
         'lstinline': 'listings', 'lstlisting': 'listings', 'longtable': 'longtable', 'alltt': 'alltt', 'foreignlanguage': 'babel', 'otherlanguage': 'babel', 'changebar': 'changebar', 'cbdelete': 'changebar', '{proof}': 'amsthm',
         '{odd}': 'amsthm', '\\ovalbox': 'fancybox', '\\shadowbox': 'fancybox', '\\doublebox': 'fancybox', '\\citet': 'natbib', '\\citep': 'natbib', '\\citeauthor': 'natbib', 'wrapfigure': 'wrapfig', '\\subfloat': 'subfig', '\\ifthenelse': 'ifthen',
         '\\cref': 'cleveref', '\\uline': 'ulem', '\\scalebox': 'graphicx', '\\rotatebox': 'graphicx', '\\reflectbox': 'graphicx', 'tabularx': 'tabularx', 'multicols': 'multicol'}

# (source, what is shown)
FRAGS = [('<', '<'), ('>', '>'), ('\\&', '&'), ('"', '"'), ("'", "'"), ('`', '`'), (';', ';'), ('=', '='), ('/', '/'), ('a', 'a'), ('B', 'B'), ('1', '1'), (' ', ' '), ('\\#', '#'), ('\\%', '%'), ('\\{', '{'), ('\\}', '}'), ('\\$', '$'),
         ('\\_', '_'), ('~', '\xa0'), ('--', '--'), ('<b>', '<b>'), ('</b>', '</b>'), ('</p>', '</p>'), ('</td>', '</td>'), ('<script>', '<script>'), ('</script>', '</script>'), ('<!--', '<!--'), ('-->', '-->'), ('<?php ', '<?php '),
         ('<![CDATA[', '<![CDATA['), (']]>', ']]>'), ('<img src=x onerror=y>', '<img src=x onerror=y>'), ('<p> </p>', '<p> </p>'), ('<td></td>', '<td></td>'), ('<br>', '<br>'), ('<hr', '<hr'), ('<a href="x">', '<a href="x">'),
         ('\\&lt;', '&lt;'), ('\\&amp;', '&amp;'), ('\\&lt', '&lt'), ('\\&\\#60;', '&#60;'), ('\\&\\#x3C;', '&#x3C;'), ('\\&nbsp;', '&nbsp;'), ('\\&copy', '&copy'), ('\\&quot;', '&quot;'), ('\\&x-width;', '&x-width;'),
         ('\\&a-height;\\&px;', '&a-height;&px;'), ('\\&amp;b-depth;', '&amp;b-depth;'), ('\\&\\$\\{filename\\}-width;', '&${filename}-width;'), ('\\{\\{ obj \\}\\}', '{{ obj }}'), ('\\{\\% if \\%\\}', '{% if %}'), ('\\$\\{here\\}', '${here}'), ('\\%s', '%s'),
         ('\\%(x)s', '%(x)s'), ('\xe9', '\xe9'), ('\u65e5', '\u65e5'), ('\U0001d49c', '\U0001d49c'), ('\u2003', '\u2003'), ('\xa0', '\xa0'), ('\u2028', '\u2028'), ('\ufffd', '\ufffd'), ("\\'e", '\xe9'), ('\\"{o}', '\xf6'), ('\\ss{}', '\xdf'),
         ('\\textbackslash{}', '\\'), ('\\textless{}', '<'), ('\\textgreater{}', '>'), ('\\ldots{}', '\u2026'), ('\\copyright{}', '\xa9'), ('\\S{}', '\xa7'), ('\\dag{}', '\u2020'), (' onclick="x" ', ' onclick="x" '), ("' x='", "' x='"), ('\\\\1', None), ('</title>', '</title>'),
         ('<title>', '<title>'), ('</pre>', '</pre>'), ('javascript:', 'javascript:'), ('\\{here/x\\}', '{here/x}'), ('$x$', None)]
FRAGS = [f for f in FRAGS if f[1] is not None]
VFRAGS = sorted({f[1] for f in FRAGS} | {'&', '\\', '{', '}', '%', '$', '#', '^', '_', '~', '``', "''", '\\begin{x}', '\\1', '\\g<0>', '%s', '\t'})
UFRAGS = ['a', 'b', '/', '.', ':', 'http://', '?', '=', '&', '"', "'", '<', '>', '&lt;', '&amp;', '&copy', '#', '%', '%20', '_', '~', ';', '"onclick="', '--', '&x-width;', '<b>', '\xe9', '-', '+', '(', ')', '$', '^']
XFRAGS = [f for f in FRAGS if not set('!|@"=-\'`') & set(f[0]) and f[0] not in ('\\"{o}',)]


ARGLESS = ('\\verb', '\\lstinline', '\\url', '\\path', '\\nolinkurl', '\\href')


EDGE = '\'"`-\u2018\u2019\u201c\u201d\u201e\u2013\u2014 '


class Build:
    """draws a document"""

    def __init__(self, d, depth=3):
        self.d, self.n, self.n_leaf = d, 0, 0

    def leaf(self, kind):
        d = self.d
        self.n_leaf += 1
        if kind in 'TSX':
            pool = XFRAGS if kind == 'X' else FRAGS
            fr = [list(d.choice(pool)) for _ in range(d.weighted([(6, 1), (5, 2), (3, 3), (1, 6)]))]
            if kind == 'S':
                fr = [f for f in fr if not set(f[0]) & set(',[]=')]
            return [kind, fr]
        if kind == 'A':
            pool = [f[1] for f in FRAGS if not set(f[1]) & set('\\{}')]
            return [kind, [d.choice(pool) for _ in range(d.weighted([(4, 1), (4, 2), (3, 4)]))]]
        pool = {'V': VFRAGS, 'v': VFRAGS, 'U': UFRAGS}[kind]
        fr = [d.choice(pool) for _ in range(d.weighted([(4, 1), (4, 2), (3, 4)]))]
        if kind == 'V' and d.bool(1, 3):
            fr.insert(d.int(0, len(fr)), '\n')
        if kind == 'v':
            fr = [f for f in fr if '|' not in f and '+' not in f]
        return [kind, fr]

    def snippet(self, pool, depth, arg=False):
        """arg: inside the argument of a command, where verbatim text cannot stand"""
        d = self.d
        i = d.int(0, len(pool) - 1)
        if arg and any(x in pool[i] for x in ARGLESS):
            i = 0
        src = pool[i]
        kids = []
        j = 0
        while True:
            j = src.find('@', j)
            if j < 0:
                break
            k = src[j + 1]
            t = src[:j]
            a = arg or (t.count('{') > t.count('}') and src[:2] != '{\\') or t.count('[') > t.count(']') or 'tabularx' in src
            j += 2
            if k == 'N':
                continue
            if k == 'I':
                kids.append(['I', [self.snippet(INLINE, depth - 1, a) if depth > 0 and self.n_leaf < 40 else [0, [self.leaf('T')]] for _ in range(d.weighted([(6, 1), (3, 2), (1, 3)]))]])
            elif k == 'B':
                kids.append(['B', [self.snippet(BLOCK, depth - 1, a) if depth > 1 and self.n_leaf < 40 else [0, [['I', [[0, [self.leaf('T')]]]]]] for _ in range(d.weighted([(5, 1), (3, 2)]))]])
            else:
                kids.append(self.leaf(k))
        return [i, kids]

    def document(self):
        d = self.d
        blocks = [self.snippet(BLOCK, 3) for _ in range(d.int(1, 4))]
        return [d.choice(['article', 'article', 'book', 'report']), d.int(0, len(PRE) - 1), self.leaf('T'), self.leaf('T'), [self.leaf('T'), self.leaf('T')], blocks, d.bool(1, 4), d.bool(1, 4), self.leaf('T')]


class Write:
    """the source of a document, with its leaves (plain=False) or with plain words in their place"""

    def __init__(self, doc, plain, substitute, tail=''):
        self.plain, self.sub = plain, substitute
        self.words = []     # (word, text)
        self.labels = 0
        self.used = set()
        cls, pre, title, author, bib, blocks, tight, idx, thm = doc
        body = self.blocks(blocks)
        packs = []
        for k, p in NEEDS.items():
            if k in body and p not in packs:
                packs.append(p)
        src = '\\documentclass{%s}\n' % cls
        for p in packs:
            src += '\\usepackage%s{%s}\n' % ('[french,english]' if p == 'babel' else '', p)
        if '\\index' in body:
            src += '\\usepackage{makeidx}\\makeindex\n'
        if cls != 'article':
            body = body.replace('\\begin{abstract}', '\\begin{quote}').replace('\\end{abstract}', '\\end{quote}')
        src += '\\newcommand{\\mine}[2]{#1 and #2}\\newenvironment{ours}{\\begin{quote}}{\\end{quote}}\\newtheorem{thm}{%s}\\newtheorem{rawthm}[thm]{Lemma}\n' % self.leaf(thm)
        if 'amsthm' in packs:
            src += '\\theoremstyle{definition}\\newtheorem{odd}{Odd}\n'
        src += '\\title{%s}\\author{%s}\\date{%s}\n\\begin{document}\n%s\n\n' % (self.leaf(title), self.leaf(author), self.leaf(thm), PRE[pre])
        src += body
        src += '\n\n\\begin{thebibliography}{9}\\bibitem{k1} %s\n\\bibitem[%s]{k2} x\\end{thebibliography}\n' % (self.leaf(bib[0]), self.leaf(['S', [f for f in bib[1][1] if not set(f[0]) & set(',[]=')]]))
        if '\\index' in src or idx:
            src += '\\printindex\n'
        src += '\\end{document}\n'
        self.src = src

    def leaf(self, leaf):
        kind, fr = leaf
        n = len(self.words)
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[n % 25] + s
            n //= 25
        word = 'Q' + s + 'Z'
        if kind in 'TSX':
            text = self.sub(''.join(f[1] for f in fr))
            src = ''.join(f[0] for f in fr)
            src = src.replace('  ', ' ')
            while '  ' in text:
                text = text.replace('  ', ' ')
            if text != text.strip(' ') or text == '':
                src, text = src.strip(' ') or 'x', text.strip(' ') or 'x'
            if kind == 'S' and not text.strip():
                src, text = 'x' + src, 'x' + text
            # nothing that could form a ligature with what stands before or after
            if text[0] in EDGE:
                src, text = 'x' + src, 'x' + text
            if text[-1] in EDGE:
                src, text = src + 'x', text + 'x'
        else:
            src = text = ''.join(fr)
            if kind == 'v':
                src = text = text.replace('\n', '').strip() or '<'
            if kind == 'U':
                src = text = text.replace('}', '').replace('{', '') or '<'
            if kind in 'AV':
                src = text = re.sub(r'\A(\s*\n)+', '', text).rstrip() or '<'
        if kind == 'X':
            # keeps its place in the index
            src, text = word + src, word + text
        self.words.append((word, text))
        return word if self.plain else src

    def snippet(self, pool, x):
        i, kids = x
        src = pool[i]
        self.used.add(src)
        out, j, k = [], 0, 0
        while True:
            n = src.find('@', j)
            if n < 0:
                return ''.join(out) + src[j:]
            out.append(src[j:n])
            c = src[n + 1]
            j = n + 2
            if c == 'N':
                self.labels += 1
                out.append(str(self.labels))
            else:
                kid = kids[k]
                k += 1
                if c == 'I':
                    out.append(' '.join(self.snippet(INLINE, y) for y in kid[1]))
                elif c == 'B':
                    out.append(self.blocks(kid[1]))
                else:
                    out.append(self.leaf(kid))

    def blocks(self, bs):
        return '\n\n'.join(self.snippet(BLOCK, b) for b in bs)
