"""C14: every internal link in the rendered output lands on an existing target.

All href attributes of all files are resolved against the files that were
written and the identifiers in them.  References are checked further: the
number shown, and the place the link leads to, found by the marker word that
follows the labelled thing in the source.
"""
import re
import urllib.parse

from ..core import Sub, require
from .. import render

TECHNIQUE = 'property-based testing: generated documents with every kind of cross-reference x split levels x toc settings x base-url x themes; all links resolved against the identifiers found in the written files; numbers and places of references against a model'
LEVEL = 'random'
NOTE = ''
ASSUMPTIONS = ['labels are defined once', 'characters that are special in URLs do not get into file names (the default bad-chars)', 'labels that are equal to identifiers of the themes (footnotes, doc_title, toc-toggle) or look like generated identifiers are not used']

WORD = re.compile(r'Q[a-y]{3}Z')
LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
TITLES = ['Foo', 'Foo', 'Bar baz', '\\emph{It} is', 'A \\& B', 'x < y', '$x$', 'Gr\\"un', '``q\'\'', '']
STYLES = ['%s', 'sec:%s', 'a %s', '%s.x', '%s/y', 'é%s', '%s_1', "%s'", '%s+', '(%s)', '%s:a:b', '%s=']

# @ marker, L a fresh label, one object each; the label stands for the thing in which it is
BLOCKS = [('text', '@'), ('text', '@'), ('text', '@'),
          ('equation', '\\begin{equation}x=y\\label{L}\\end{equation} @'), ('equation', '\\begin{equation}\\label{L}x=y\\end{equation} @'), ('equation', '\\begin{equation}x\\end{equation} @'), ('eqnarray', '\\begin{eqnarray}a & = & b\\label{L}\\\\ c & = & d\\label{L}\\end{eqnarray} @'),
          ('eqnarray', '\\begin{eqnarray}a & = & b\\nonumber\\\\ c & = & d\\label{L}\\end{eqnarray} @'), ('align', '\\begin{align}a &= b\\label{L}\\\\ c &= d\\label{L}\\end{align} @'), ('gather', '\\begin{gather}a\\label{L}\\\\ b\\end{gather} @'),
          ('multline', '\\begin{multline}a\\label{L}\\\\ b\\end{multline} @'),
          ('figure', '\\begin{figure}@\\caption{@}\\label{L}\\end{figure}'), ('figure', '\\begin{figure}\\caption{@\\label{L}}@\\end{figure}'), ('figure', '\\begin{figure*}@\\caption[x]{@}\\label{L}\\end{figure*}'), ('figure', '\\begin{figure}@\\end{figure}'), ('table', '\\begin{table}@\\end{table}'),
          ('table', '\\begin{table}\\caption{@}\\label{L}\\begin{tabular}{c}@\\end{tabular}\\end{table}'), ('table', '\\begin{longtable}{ll}\\caption{@}\\label{L}\\\\ @ & @\\\\ @ & @\\end{longtable}'), ('tab', '\\begin{longtable}{ll} @ & @\\\\ @ & @\\end{longtable}'),
          ('figure', '\\begin{wrapfigure}{r}{3cm}@\\caption{@}\\label{L}\\end{wrapfigure}'), ('sub', '\\begin{figure}\\subfloat[x]{@\\label{L}}\\subfloat[y]{@}\\caption{@}\\label{L}\\end{figure}'), ('figure2', '\\begin{figure}@\\caption{@}\\label{L}@\\caption{@}\\label{L}\\end{figure}'),
          ('enumi', '\\begin{enumerate}\\item\\label{L} @\\item @\\end{enumerate}'), ('enumi2', '\\begin{enumerate}\\item @\\item \\label{L}@\\end{enumerate}'), ('enumii', '\\begin{enumerate}\\item @ \\begin{enumerate}\\item\\label{L} @\\item\\label{L} @\\end{enumerate}\\end{enumerate}'),
          ('listing', '\\begin{lstlisting}[caption={x},label={L}]\n@\n\\end{lstlisting}'), ('thm', '\\begin{thm}\\label{L}@\\end{thm}'), ('thm', '\\begin{thm}[x]\\label{L}@\\end{thm}'), ('proof', '\\begin{proof}@\\end{proof}'), ('item', '\\begin{itemize}\\item @\\item @\\end{itemize}'),
          ('target', '\\hypertarget{L}{@}'), ('foot', '@\\footnote{#}'), ('foot', '@\\footnote{#} @\\footnote{# #}'), ('foot', '@\\footnotemark\\footnotetext{#}'), ('foot', '\\begin{tabular}{cc} @\\footnote{#} & @\\\\ @ & @\\end{tabular}'), ('foot', '\\begin{itemize}\\item @\\footnote{#}\\end{itemize}'),
          ('foot', '@\\footnotemark{} @\\footnotemark{} @\\footnotetext{#}\\footnotetext{#}'), ('foot', '\\begin{quote}@\\footnote[3]{#}\\end{quote}'), ('foot', '\\begin{figure}@\\footnote{#}\\caption{@}\\end{figure}'),
          ('index', '@\\index{KEY} @'), ('index', '@ \\index{KEY!KEY}@'), ('index', '@\\index{KEY}\\index{KEY}\\index{KEY}\\index{KEY}\\index{KEY}'), ('index', '@\\index{KEY}\\index{KEY} @\\index{KEY}'), ('index', '@\\index{KEY|textbf}'), ('index', '@\\index{KEY|see{KEY}}'), ('index', '@\\footnote{#\\index{KEY}}'), ('index', '\\begin{figure}@\\index{KEY}\\caption{@}\\end{figure}'), ('index', '@\\index{KEY!KEY!KEY|(}@\\index{KEY!KEY!KEY|)}'), ('index', '@\\index{KEY@KEY}'),
          ('cite', '@ \\cite{k1} @'), ('cite', '@ \\cite[p.~1]{k1,k2} @'), ('cite', '@ \\cite{k2} \\cite{nokey} @'), ('phantom', '\\phantomsection @'), ('verb', '\\begin{verbatim}\n@\n\\end{verbatim}'), ('lof', '\\listoffigures'), ('lot', '\\listoftables'), ('toc', '\\tableofcontents'), ('quote', '\\begin{quote}@\\end{quote}')]
REFS = ['\\ref{L}', '\\ref{L}', '\\ref{L}', '\\pageref{L}', '\\autoref{L}', '\\cref{L}', '\\eqref{L}', '\\nameref{L}', '\\hyperref[L]{x}', '\\hyperlink{T}{x}', '\\Cref{L}', '\\ref{undef}', '\\pageref{undef}', '\\autoref{undef}', '\\nameref{undef}', '\\hyperref[undef]{x}', '\\cref{undef}', '\\hyperlink{undef}{x}', '\\subref{S}']
KEYS = ['alpha', 'α', 'Ж', 'ω', '\\_x', '日', '-', 'Beta', 'beta', 'zoo', '\\emph{em}', '!', '10', 'Alpha', 'é', '\\$x', 'a b']
NEEDS = {'\\hyper': 'hyperref', '\\autoref': 'hyperref', '\\phantomsection': 'hyperref', '\\nameref': 'nameref', '\\cref': 'cleveref', '\\Cref': 'cleveref', '\\eqref': 'amsmath', '{align}': 'amsmath', '{gather}': 'amsmath', '{multline}': 'amsmath', '{proof}': 'amsthm', 'lstlisting': 'listings',
         'longtable': 'longtable', 'wrapfigure': 'wrapfig', '\\subfloat': 'subfig', '\\subref': 'subfig'}
THEMES = [('HTML5', 'default'), ('HTML5', 'default'), ('HTML5', 'minimal'), ('XHTML', 'default')]


def warm():
    render.warm('HTML5', 'XHTML')


# -------------------------------------------------------------- generation

def gen(d):
    renderer, theme = d.choice(THEMES)
    conf = {'renderer': renderer, 'theme': theme, 'level': d.weighted([(3, 2), (3, 1), (3, 3), (3, 0), (1, 6), (2, -1), (1, -10), (1, 4), (1, 5)]), 'tocdepth': d.choice([3, 3, 1, 0, 2, 10]), 'nonfiles': d.bool(), 'base': d.choice(['', '', '', 'http://ex.org/d', 'http://ex.org/d/', 'https://e.org'])}
    cls = d.choice(['article', 'article', 'book'])
    names = [n for n in LEVELS if not (n == 'chapter' and cls == 'article')]
    main = ['section', 'subsection', 'subsubsection'] if cls == 'article' else ['chapter', 'section', 'subsection']
    items = []
    for _ in range(d.int(1, 8)):
        if d.bool(2, 3):
            name = d.choice(main) if d.bool(3, 4) else d.choice(names)
            items.append(['sec', name, d.bool(1, 5), d.choice(TITLES), d.bool(2, 3), d.int(0, 1)])
            if d.bool(1, 12):
                items.append(['appendix'])
        for _ in range(d.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])):
            items.append(['blk', d.int(0, len(BLOCKS) - 1), d.int(0, 20)])
        for _ in range(d.weighted([(2, 0), (4, 1), (2, 2)])):
            items.append(['ref', d.int(0, len(REFS) - 1), d.int(0, 30)])
    return [conf, {'cls': cls, 'items': items, 'title': d.bool(2, 3), 'toc': d.bool(1, 3), 'bib': d.bool(1, 2), 'index': d.bool(2, 3), 'style': d.choice(STYLES), 'packs': d.bool(1, 3)}]


class Write:
    def __init__(self, doc):
        self.doc, self.n, self.nl, self.nk = doc, 0, 0, 0
        self.words, self.notes = [], []
        self.labels = []            # [name, kind, marker that follows, number or None]
        self.refs = []              # (marker before, command, label entry or None, marker after)
        self.count = {}
        self.marks = []             # (marker before the footnote mark, first word of the text)
        self.entries = []           # the markers before the index entries that are links
        self.cites = []             # (marker before, number of the item)
        self.appendix = False
        self.pending, self.block = [], []
        cls = doc['cls']
        self.book = cls == 'book'
        items = doc['items']
        # the labels first: references may come before them
        bodies = [None if it[0] == 'ref' else self.item(it) for it in items]
        for i, it in enumerate(items):
            if it[0] == 'ref':
                bodies[i] = self.ref(it)
        body = '\n\n'.join(bodies) + '\n\n'
        if doc['bib']:
            body += '\\begin{thebibliography}{9}\\bibitem{k1} QkaZ\\bibitem[x]{k2} QkbZ\\end{thebibliography}\n\n'
        if doc['index']:
            body += '\\printindex\n'
        src = '\\documentclass{%s}\n' % cls
        packs = sorted({p for k, p in NEEDS.items() if k in body})
        if doc['packs'] and 'hyperref' not in packs:
            packs.append('hyperref')
        if 'cleveref' in packs:
            packs.remove('cleveref')
            packs.append('cleveref')
        for p in packs + ['makeidx']:
            src += '\\usepackage{%s}\n' % p
        src += '\\makeindex\\newtheorem{thm}{Theorem}\n'
        if doc['title']:
            src += '\\title{Title}\\author{A}\n'
        src += '\\begin{document}\n' + '\\maketitle\n' * doc['title'] + '\\tableofcontents\n' * doc['toc']
        self.src = src + body + '\\end{document}\n'

    def word(self, pool):
        s, n = '', self.n
        self.n += 1
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[n % 25] + s
            n //= 25
        s = 'Q%sZ' % s
        pool.append(s)
        if pool is self.words:
            self.block.append(s)
            for e in self.pending:
                e[2] = s
            self.pending = []
        return s

    def label(self, kind, number):
        self.nl += 1
        e = [('lst:%s' if kind == 'listing' else self.doc['style']) % ('L%d' % self.nl), kind, None, number]
        self.labels.append(e)
        if kind in ('figure', 'table', 'sub', 'figure2') and self.block:
            e[2] = self.block[-1]
        else:
            self.pending.append(e)
        return e

    def step(self, *names):
        self.count[names[0]] = self.count.get(names[0], 0) + 1
        for n in names[1:]:
            self.count[n] = 0
        return self.count[names[0]]

    def show(self, name):
        n = self.count.get(name, 0)
        if self.appendix and name == ('chapter' if self.book else 'section'):
            return chr(64 + n) if n else '?'      # outside the range of \\Alph
        return str(n)

    def item(self, it):
        self.block = []
        if it[0] == 'appendix':
            if self.appendix:
                return '%'
            self.appendix = True
            for n in LEVELS:
                self.count[n] = 0
            return '\\appendix'
        if it[0] == 'sec':
            _, name, star, title, labelled, own = it
            number = None
            order = ['chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
            if not star and name in order:
                i = order.index(name)
                self.step(name, *order[i + 1:i + 2])
                for n in order[i + 2:]:
                    pass
                if name == 'chapter':
                    self.count.update(figure=0, table=0, equation=0, lstlisting=0)
                first = 0 if self.book else 1
                if i < 3:
                    number = '.'.join(self.show(n) for n in order[first:i + 1])
                    # a counter is reset by the one above it and, through it, by those further up
                for n in order[i + 1:]:
                    self.count[n] = 0
            s = '\\%s%s{%s}' % (name, '*' * star, title)
            if labelled:
                for _ in range(1 + own):
                    s += '\\label{%s}' % self.label('starred' if star or number is None and name != 'part' else name, None if star else number)[0]
            return s + '\n' + self.word(self.words) + ' '
        kind, src = BLOCKS[it[1] % len(BLOCKS)]
        k = it[2]
        pre = self.show('chapter') + '.' if self.book and (self.count.get('chapter') or self.appendix) else ''
        nums = []
        if '\\caption' in src:
            base = 'table' if kind == 'table' else 'figure'
            for _ in range(src.count('\\caption')):
                nums.append('%s%d' % (pre, self.step(base)))
            if kind == 'sub':
                nums.insert(0, None)
        elif kind in ('equation', 'align', 'eqnarray', 'gather', 'multline'):
            rows = 1 if kind in ('equation', 'multline') else src.count('\\\\') + 1 - src.count('\\nonumber')
            for _ in range(rows):
                nums.append('%s%d' % (pre, self.step('equation')))
        elif kind == 'thm':
            nums = [str(self.step('thm'))]
        elif kind == 'enumi':
            nums = ['1']
        elif kind == 'enumi2':
            nums = ['2']
        elif kind == 'enumii':
            nums = [None, None]
        out, i, j = [], 0, 0
        last, marks, texts = None, [], []
        while i < len(src):
            c = src[i]
            if src.startswith('\\footnote', i):
                if not src.startswith('\\footnotetext', i):
                    marks.append(last)
                if not src.startswith('\\footnotemark', i):
                    texts.append(None)
            elif src.startswith('\\index', i) and '|see' not in src:
                self.entries.append(last)
            elif src.startswith('\\cite', i):
                self.cites.append([last, [int(k) for k in re.findall(r'k(\d)', src[i:src.index('}', i)])]])
            if c == '@' and not src.startswith('@KEY', i):
                out.append(self.word(self.words))
                last = out[-1]
            elif c == '#':
                out.append(self.word(self.notes))
                last = out[-1]
                if texts and texts[-1] is None or None in texts:
                    texts[texts.index(None)] = last
            elif src.startswith('{L}', i):
                out.append('{%s}' % self.label(kind, nums[j] if j < len(nums) else None)[0])
                j += 1
                i += 2
            elif src.startswith('KEY', i):
                out.append(KEYS[k % len(KEYS)].replace('!', '"!'))
                k = k * 7 + 3
                i += 2
            else:
                out.append(c)
            i += 1
        self.marks.extend(zip(marks, texts))
        return ''.join(out)

    def ref(self, it):
        src = REFS[it[1] % len(REFS)]
        e = None
        if '{L}' in src or '[L]' in src:
            es = [e for e in self.labels if e[1] != 'target' and not (e[1] == 'sub' and e[3] is None)]
            if src.startswith(('\\cref', '\\Cref', '\\autoref')):
                es = [e for e in es if e[1] not in ('starred',)]
            if src.startswith('\\nameref'):
                es = [e for e in es if e[1] in LEVELS]
            if not es:
                return 'none'
            e = es[it[2] % len(es)]
            src = src.replace('{L}', '{%s}' % e[0]).replace('[L]', '[%s]' % e[0])
        elif '{T}' in src or '{S}' in src:
            es = [e for e in self.labels if e[1] == ('target' if '{T}' in src else 'sub') and (e[3] is None)]
            if not es:
                return 'none'
            e = es[it[2] % len(es)]
            src = src.replace('{T}', '{%s}' % e[0]).replace('{S}', '{%s}' % e[0])
        a = self.word(self.words)
        b = self.word(self.words)
        self.refs.append((a, src, e, b))
        return '%s %s %s' % (a, src, b)


# --------------------------------------------------------------- the output

class Page:
    """what a file has: identifiers, links, and its text with the places of both"""

    def __init__(self, text):
        self.root, self.problems = render.tree(text)
        self.ids, self.names, self.links, self.runs = {}, {}, [], []
        self.pos = 0
        self.double = []
        self.anchors = []           # (place, target, element)
        self.walk(self.root, None)
        self.text = ''.join(r[0] for r in self.runs)

    def walk(self, e, href):
        a = e.attrs
        if 'id' in a:
            if a['id'] in self.ids:
                self.double.append(a['id'])
            self.ids[a['id']] = self.pos
        if e.tag == 'a' and 'name' in a:
            self.names[a['name']] = self.pos
        if 'href' in a and e.tag in ('a', 'area', 'link'):
            rel = (a.get('rel') or '').split()
            if not (e.tag == 'link' and ('stylesheet' in rel or 'icon' in rel)):
                href = a['href']
                self.links.append((href, e))
                self.anchors.append((self.pos, href, e))
        start = len(self.runs)
        for c in e.children:
            if isinstance(c, str):
                self.runs.append((c, href))
                self.pos += len(c)
            elif c.tag not in ('script', 'style', '#comment'):
                self.walk(c, href)

    def between(self, a, b):
        """the links and the text between two words"""
        i, j = self.text.index(a) + len(a), self.text.index(b)
        hrefs, p = [], 0
        for t, h in self.runs:
            if p < j and p + len(t) > i and h is not None:
                if h not in hrefs:
                    hrefs.append(h)
            p += len(t)
        return hrefs, ' '.join(self.text[i:j].split())


def check(case):
    conf, doc = case
    w = Write(doc)
    cfg = render.config(conf['renderer'], general__theme=conf['theme'], files__split_level=conf['level'], document__toc_depth=conf['tocdepth'], document__toc_non_files=conf['nonfiles'], document__base_url=conf['base'])
    out = render.render(w.src, cfg)
    what = '%r in\n%s' % (conf, w.src)
    pages = {n: Page(b.decode('utf-8')) for n, b in out.files.items() if n.endswith('.html')}
    base = conf['base'].rstrip('/')

    def resolve(href, here):
        """(file, fragment) of a link into the document; None for others"""
        if base and href.startswith(base + '/'):
            href = href[len(base) + 1:]
        elif re.match(r'[a-z]+:', href):
            return None
        elif base and not href.startswith('#'):
            require(False, 'the link %r in %s does not have the base URL; %s', href, here, what)
        name, hash, frag = href.partition('#')
        return urllib.parse.unquote(name) or here, urllib.parse.unquote(frag) if hash else None

    edges = {}
    nlinks = 0
    for n, p in pages.items():
        require(not p.double, '%s has the identifiers %r more than once; %s', n, sorted(set(p.double)), what)
        for href, e in p.links:
            require(href is not None and href != 'None', '%s has a link with the target %r; %s', n, href, what)
            t = resolve(href, n)
            if t is None:
                continue
            nlinks += 1
            require(t[0] in pages, '%s has the link %r, there are the files %r; %s', n, href, sorted(pages), what)
            q = pages[t[0]]
            if t[1] is not None:
                require(t[1] in q.ids or t[1] in q.names, '%s has the link %r (%r), but %s has the identifiers %r; %s', n, href, e.text()[:40], t[0], sorted(set(q.ids) | set(q.names)), what)
            elif href == '':
                require(False, '%s has an empty link (%r); %s', n, e.text()[:40], what)
            if e.tag == 'a':
                edges.setdefault(n, set()).add(t[0])
    # with a table of contents everything can be reached
    if conf['tocdepth'] >= 1 and conf['theme'] == 'default':
        start = [n for n in pages if n == 'index.html']
        seen, todo = set(start), list(start)
        while todo:
            for m in edges.get(todo.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        require(seen == set(pages), 'the files %r cannot be reached from %r; %s', sorted(set(pages) - seen), start, what)
    # references
    home = {}
    for n, p in pages.items():
        for m in WORD.finditer(p.text):
            require(m.group() not in home, 'the word %s appears twice; %s', m.group(), what)
            home[m.group()] = (n, m.start())
    shown = 0
    for a, src, e, b in w.refs:
        require(a in home and b in home and home[a][0] == home[b][0], 'the words about %s are missing; %s', src, what)
        n = home[a][0]
        hrefs, text = pages[n].between(a, b)
        if e is None:
            require(not hrefs, '%s shows %r with the links %r; %s', src, text, hrefs, what)
            continue
        name, kind, marker, number = e
        if kind == 'starred' and not hrefs and src.startswith(('\\ref', '\\eqref', '\\pageref', '\\vref')):
            continue
        if src.startswith('\\nameref') and not text:
            continue        # no title
        require(len(hrefs) == 1, '%s (%s) shows %r with the links %r, one is right; %s', src, kind, text, hrefs, what)
        t = resolve(hrefs[0], n)
        require(t is not None, '%s leads to %r; %s', src, hrefs[0], what)
        if number is not None and '?' not in number and src.startswith(('\\ref', '\\eqref', '\\autoref', '\\cref', '\\Cref', '\\vref')):
            shown += 1
            require(re.search(r'(?<![\d.])%s(?![\d]|\.\d)' % re.escape(number), text), '%s (%s) shows %r, should be %r; %s', src, kind, text, number, what)
        if marker is not None and kind not in ('starred', 'listing'):
            require(t[0] == home[marker][0], '%s (%s) leads to the file %s, should be %s; %s', src, kind, t[0], home[marker][0], what)
            if kind in ('figure2',):
                continue
            q = pages[t[0]]
            at = 0 if t[1] is None else q.ids.get(t[1], q.names.get(t[1]))
            if t[1] is None and q.root.find('nav'):
                continue
            nxt = WORD.search(q.text, at)
            want = marker
            require(nxt is not None and w.words.index(nxt.group()) <= w.words.index(want) and w.words.index(nxt.group()) > w.words.index(want) - 3 or not w.words.index(want), '%s (%s) leads to %r, which is before the word %s, should be before %s; %s', src, kind, hrefs[0], nxt and nxt.group(), want, what)
    # footnote marks lead to their text and show its number
    for before, note in w.marks:
        n, at = home[before]
        a = [x for x in pages[n].anchors if x[0] > at and 'footnote' in (x[2].attrs.get('class') or '')]
        require(a, 'the footnote mark after %s is missing; %s', before, what)
        _, href, e = a[0]
        t = resolve(href, n)
        q = pages[t[0]]
        nxt = WORD.search(q.text, q.ids[t[1]])
        if t[1] == 'footnotes':
            # to all of the page, at least
            require(home[note][0] == t[0] and home[note][1] >= q.ids[t[1]], 'the footnote mark after %s leads to %r, the text is in %s; %s', before, href, home[note][0], what)
            nxt = None
        require(nxt is None or nxt.group() == note, 'the footnote mark after %s leads to %r, which is before %s, should be %s; %s', before, href, nxt and nxt.group(), note, what)
        items = [x for x in q.root.find(id='footnotes')[0].walk() if x.tag == 'li' and x.parent.parent.attrs.get('id') == 'footnotes']
        num = [i for i, x in enumerate(items) if note in x.text()]
        require(num and e.text().strip() == str(num[0] + 1), 'the footnote mark after %s shows %r, the text has the number %s; %s', before, e.text(), num and num[0] + 1, what)
    # index entries lead to their places
    if doc['index']:
        got, here = [], [n for n, p in pages.items() if p.root.find('section' if conf['renderer'] == 'HTML5' else 'div', cls='theindex')]
        require(len(here) == (1 if [i for i in doc['items'] if i[0] == 'blk' and BLOCKS[i[1] % len(BLOCKS)][0] == 'index'] else 0), 'the index is in the files %r; %s', here, what)
        for n in here:
            for sec in pages[n].root.find('section' if conf['renderer'] == 'HTML5' else 'div', cls='theindex'):
                for a in sec.find('a'):
                    if 'href' in a.attrs:
                        t = resolve(a.attrs['href'], n)
                        q = pages[t[0]]
                        ms = [m.group() for m in WORD.finditer(q.text) if m.start() < q.ids.get(t[1], 0)]
                        got.append(ms[-1] if ms else '')
        require(sorted(got) == sorted(w.entries), 'the links of the index lead to the places after %r, the entries are after %r; %s', sorted(got), sorted(w.entries), what)
    # citations lead to the items
    for before, keys in w.cites:
        n, at = home[before]
        want = [k for k in keys if doc['bib']]
        a = [x for x in pages[n].anchors if x[0] >= at and x[2].parent.attrs.get('class') == 'cite'][:len(want)]
        got = []
        for _, href, e in a:
            t = resolve(href, n)
            q = pages[t[0]]
            m = re.compile('Qk(.)Z').search(q.text, q.ids.get(t[1], q.names.get(t[1], 0)))
            got.append((' ab'.find(m.group(1)) if m else None, e.text().strip()))
        require(got == [(k, '1' if k == 1 else 'x') for k in want], 'the citation of %r after %s has links to %r; %s', want, before, got, what)
    return {'labels': [conf['renderer'] + ' ' + conf['theme'], 'level %d' % conf['level'], 'files %d' % min(len(pages), 8), 'base' if base else 'no base'] + ['number'] * bool(shown) + sorted({'ref ' + (e[1] if e else 'undef') for _, _, e, _ in w.refs}) +
            sorted({BLOCKS[i[1] % len(BLOCKS)][0] for i in doc['items'] if i[0] == 'blk'}), 'nontrivial': nlinks > 1 and bool(w.refs), 'sample': [conf, w.src[-300:]]}


SUBS = [Sub('documents', check, gen=gen, quick=1500, thorough=40000, rule='at least two internal links, and a reference')]
