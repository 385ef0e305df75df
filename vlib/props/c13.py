"""C13: the document is split into files without losing or repeating content.

Every piece of body text is a word that occurs once in the source.  Where each
word must appear follows from the sequence of sectioning commands alone.
"""
import json
import os
import re
import subprocess
import sys

from ..core import HERE, Sub, Skip, require
from .. import render

TECHNIQUE = 'property-based testing: generated documents with unique marker words x split levels x filename templates x forbidden characters x themes, against a model of the grouping into files; second rendering in the same and in another interpreter'
LEVEL = 'random'
NOTE = ''
ASSUMPTIONS = ['titles and labels have no slash unless slashes are forbidden characters (a name with a slash is a path, and may lead out of the output directory)',
               'where every alternative of the template is exhausted the renderer may stop with an error']

INDEX = object()
WORD = re.compile(r'Q[a-y]{3}Z')
LEVELS = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5, 'subsubparagraph': 6}
DEFAULT_BAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'

# @ is a marker, ^ a piece of running text, % a list of blocks, N a fresh number
INLINE = ['@', '@', '@', '@ @', '\\emph{^}', '\\textbf{^ ^}', '{\\itshape ^}', '\\texttt{@}', '\\mbox{^}', '\\footnote{#}', '\\footnote{#}', '@\\footnote{#} @', '\\verb|@|', '{\\small ^}', '\\textsc{^}', '``^\'\'', '$x$ @', '\\underline{^}',
          '\\fbox{^}', '\\parbox{3cm}{^}', '\\footnotemark\\footnotetext{#}', '\\footnotemark{} @ \\footnotetext{# #}', '\\href{http://x.y/}{^}', '\\url{http://x.y/@}', '\\ref{first} @', '\\index{foo} @', '\\textcolor{red}{^}', '\\makebox[2cm]{^}',
          '\\begin{small}^\\end{small}', '\\hyperref[first]{^}', '\\mine{^}{@}', '\\textsuperscript{@}', '\\footnote[4]{#}', '\\ifthenelse{1<2}{@}{never}', '\\raisebox{1ex}{^}', '\\cite{k1} @', '\\label{in@N}', '\\footnote{# \\emph{#} #}', '\\foo']
BLOCK = ['^', '^', '^', '^ ^', '^\n\n^', '^\\par ^', '\\begin{itemize}\n\\item %\n\\item[^] ^\\end{itemize}', '\\begin{enumerate}\\item ^\n\n^\\item %\\end{enumerate}', '\\begin{description}\\item[@] %\\item[@] ^\\end{description}',
         '\\begin{quote}%\\end{quote}', '\\begin{quotation}^\\end{quotation}', '\\begin{verse}^\\\\ ^\\end{verse}', '\\begin{center}%\\end{center}', '\\begin{flushleft}^\\end{flushleft}', '\\begin{tabular}{|l|c|}\\hline ^ & ^\\\\\\hline @ & ^\\\\\\hline\\end{tabular}',
         '\\begin{tabular}{lll}\\multicolumn{2}{c}{^} & @\\\\ ^ & & @\\end{tabular}', '\\begin{figure}%\\caption{@}\\end{figure}', '\\begin{figure}[h]\\caption{@ @}\\label{in@N}^\\end{figure}', '\\begin{table}\\caption{@}\\begin{tabular}{c}^\\end{tabular}\\end{table}',
         '\\begin{verbatim}\n@ @\n  @\n\\end{verbatim}', '\\begin{thm}%\\end{thm}', '\\begin{thm}[@]\\label{in@N}^\\end{thm}', '\\begin{proof}%\\end{proof}', '\\begin{minipage}{4cm}%\\end{minipage}', '\\begin{equation}x\\label{in@N}\\end{equation}\n^', '\\[ x \\] ^',
         '\\begin{lstlisting}\n@\n@\n\\end{lstlisting}', '\\begin{longtable}{ll} ^ & @\\\\ @ & ^\\end{longtable}', '{\\centering %}', '\\begin{ours}%\\end{ours}', '\\noindent ^', '\\begin{figure*}^\\caption{@}\\end{figure*}', '\\begin{list}{x}{}\\item ^\\item %\\end{list}',
         '\\begin{abstract}%\\end{abstract}', '\\begin{multicols}{2}%\\end{multicols}', '\\tableofcontents', '\\begin{trivlist}\\item ^\\end{trivlist}', '\\newpage ^', '\\appendix', '{\\small %}', '\\begin{eqnarray}a & b & c\\end{eqnarray} ^',
         '\\begin{alltt}\n@ \\emph{@}\n\\end{alltt}', '\\begin{tabular}{p{2cm}}\\begin{itemize}\\item ^\\end{itemize}\\\\ ^\\end{tabular}', '% comment\n^', '\\vspace{1cm}\n\n^', '\\hrule ^', '\\begin{titlepage}%\\end{titlepage}']
NEEDS = {'\\href': 'hyperref', '\\url': 'url', '\\hyperref': 'hyperref', '\\textcolor': 'color', '\\ifthenelse': 'ifthen', '{proof}': 'amsthm', 'lstlisting': 'listings', 'longtable': 'longtable', 'multicols': 'multicol', 'alltt': 'alltt'}
VERBAL = ('\\verb', '{verbatim', '{alltt', '{lstl', '\\url', '\\href')
FLOATS = ('{figure', '{table}', '\\footnote', '{longtable', '{multicols', '\\newpage', '\\tableofcontents', '\\appendix', '{abstract}', '{titlepage}')

TITLES = ['Foo', 'Foo', 'foo', 'Foo Bar', 'index', 'Index', 'A B C D', 'sect0001', 'One. Two', 'a.b', 'C\\&D', 'What?', 'x:y', '\\emph{It} is', '$x$', 'Gr\\"un', '\u65e5\u672c', '``q\'\'', '1', 'doc', '---', 'a--b', '\\$\\{id\\}', '\\$title', 'a\\_b', '\\{x\\}',
          "it's", 'index.html', '(x)', '[', '~', '', '\\textbf{}', 'foo  bar', '<b>', 'x;y', 'a=b', '\\%(x)s', 'Foo\\index{foo}', 'a,b', 'document', 'section', '..', 'A/B', '/', '../x', '/tmp/x', 'x.html', '.']
LABELS = ['a', 'b', 'sec:one', 'index', 'sect0001', 'x y', 'doc', 'sect0002', 'A', 'index.html', 'c.d', 'a/b', '../x', 's_1', 'e\xe9', '1', 'foo', 'Foo']
TEMPLATES = ['index [$id, sect$num(4)]', 'index [$id, sect$num(4)]', '[$id, sect$num(4)]', '[$title, sect$num]', 'index [$title(2), s$num(2)]', '[$title(1), $id, s$num(3)]', '[$jobname-$num(3)]', 'index toc [s$num]', 'a b c [$id,$title,x$num(2)]',
             '[$name-$num(2)]', '[sec$ref, s$num]', '[$name-$ref, $name-$num(3)]', '$jobname [$id, $jobname-$num]', 'index s$num(2)', 'a.html [$num(4)]', '[$title-$id, $title, x$num]', 'd/[$id, s$num(3)]', 'd/index e/[$title, s$num]',
             '${jobname} [ ${id} , ${title}-${num}(2) ]', '[$num]', 'index.htm [$num(4).htm]', '$num(2) [$id, x$num(2)]', '$id index [$id, f$num]', '[$title]', '[$id]', 'one two three', 'index $title', '[$id$num]', '[$ref.$num]', '[p_$num(1), q]']
SINGLE = ['index', 'all.html', '$jobname', 'd/x', '$jobname-x', 'index.htm', ' index ', '$num', '$num(3)', 'x_${jobname}.html', '$name']
BADS = [None, None, None, ': ', '', 'aeiou', ' /', '-', '.', '$', '/%$ ']
SUBS_ = ['-', '-', '-', '', '_', '--', 'x']
# what the text renderer has no form for
BAN = ('\\url{http://x.y/@}', '\\begin{thm}[@]\\label{in@N}^\\end{thm}',)
OTHER = ['Text']
THEMES = {'Text': ['default'], 'ManPage': ['default'], 'DocBook': ['default', 'book', 'article'], 'S5': ['default'], 'EPUB': ['default'], 'HTML5': ['default', 'minimal', 'fragment'], 'XHTML': ['default', 'minimal', 'plain', 'python']}
EXTRA = {'HTML5': (), 'XHTML': ('eclipse-toc.xml', 'index.hhc', 'index.hhk', 'index.hhp', 'eclipse-plugin.xml', 'eclipse-index.xml')}


def warm():
    render.warm('HTML5', 'XHTML')


# -------------------------------------------------------------- generation

POOLS = {}


def pick(d, pool, inside):
    key = (id(pool), inside)
    if key not in POOLS:
        ban = {'arg': VERBAL, 'float': FLOATS, 'note': ('#', '\\verb', '{verb', '\\foot'), 'mbox': ('\\parbox',)}
        POOLS[key] = [i for i, s in enumerate(pool) if not any(x in s for k in inside for x in ban[k])]
    return d.choice(POOLS[key])


def make(d, pool, depth, inside):
    """a snippet: [number, children]"""
    if depth <= 0:
        return [0, []]
    i = pick(d, pool, inside)
    src = pool[i]
    now = set(inside)
    kids = []
    if any(x in src for x in ('{tabular}', '{figure', '{table}', '{longtable}', '{minipage}', '{thm}', '\\fbox', '\\mbox', '\\makebox', '\\raisebox', '{multicols}', '{list}', '{itemize}', '{enumerate}', '{description}', '{verse}', '{quote}', '{trivlist}', '{ours}', '{titlepage}', '{abstract}', '\\small', '{center}', '\\parbox',
                                '\\centering', '{proof}')):
        now.add('float')
    for j, c in enumerate(src):
        if c not in '^%' or src[j:j + 9] == '% comment':
            continue
        t = src[:j]
        here = set(now)
        if (t.count('{') > t.count('}') and t[:2] not in ('{\\',)) or t.count('[') > t.count(']'):
            here |= {'arg', 'float'}
        if 'raisebox' in src:
            here |= {'note', 'mbox'}
        if c == '^':
            kids.append([make(d, INLINE, depth - 1, tuple(sorted(here))) for _ in range(d.weighted([(6, 1), (3, 2), (1, 3)]))])
        else:
            kids.append([make(d, BLOCK, depth - 1, tuple(sorted(here))) for _ in range(d.weighted([(5, 1), (3, 2), (1, 3)]))])
    return [i, kids]


def gen_items(d, cls, level):
    names = [n for n in LEVELS if not (n == 'chapter' and cls == 'article')]
    main = ['section', 'subsection', 'subsubsection'] if cls == 'article' else ['chapter', 'section', 'subsection']
    if level is not None and d.bool(1, 2):
        # units about the level where files end
        main = [n for n in names if abs(LEVELS[n] - level) <= 1] or main
    items = []
    n = d.int(1, 9)
    for _ in range(n):
        if d.bool(2, 3):
            name = d.choice(main) if d.bool(3, 4) else d.choice(names)
            items.append(['sec', name, d.bool(1, 4), d.choice(TITLES), d.choice(LABELS) if d.bool(1, 3) else None, d.bool(1, 8)])
        if d.bool(4, 5):
            items.append(['blk', [make(d, BLOCK, 3, ()) for _ in range(d.weighted([(5, 1), (3, 2), (1, 3)]))]])
    if d.bool(1, 6):
        items.append(['bib'])
    if d.bool(1, 8):
        items.insert(len(items) - d.bool(1, 4), ['index'])
    return items


def gen_doc(d, level):
    cls = d.choice(['article', 'article', 'book', 'report'])
    return {'cls': cls, 'items': gen_items(d, cls, level), 'title': d.choice(TITLES) if d.bool(1, 2) else None, 'maketitle': d.bool(1, 2), 'toc': d.bool(1, 3)}


def gen_conf(d):
    r = d.choice(['HTML5', 'XHTML'])
    bad = d.choice(BADS)
    return {'renderer': r, 'theme': d.choice(THEMES[r]), 'level': d.weighted([(3, 2), (3, 1), (3, 3), (2, 0), (2, 6), (2, -1), (1, -2), (1, -10), (2, 4), (2, 5)]), 'template': d.int(0, len(TEMPLATES) - 1), 'bad': bad, 'sub': d.choice(SUBS_),
            'tocdepth': d.choice([3, 3, 0, 1]), 'nonfiles': d.bool(1, 3), 'jobname': d.choice(['doc', 'doc', 'my.doc', 'a b', 'index', 'f(x)'])}


def gen(d):
    conf = gen_conf(d)
    return [conf, gen_doc(d, conf['level'])]


def gen_single(d):
    conf, doc = gen(d)
    conf['template'] = d.int(0, len(SINGLE) - 1)
    return [conf, doc]


# ------------------------------------------------------------------- model

class Write:
    """source text, and the groups of marker words"""

    def __init__(self, doc, slash=True, ban=()):
        self.ban = ban
        self.n = self.labels = 0
        self.main, self.notes = [], []       # the current group
        self.groups = []
        self.units = []                      # (level, title)
        self.slash = slash
        self.hrefs = 0
        used = set()
        body = self.unit(-1 << 60, None) or ''
        for item in doc['items']:
            if item[0] == 'sec':
                _, name, star, title, label, toc = item
                self.unit(LEVELS[name], title)
                body += '\\%s%s%s{%s}' % (name, '*' * star, '[short]' if toc and not star else '', self.clean(title))
                if label is not None and label not in used and self.clean(label) == label:
                    used.add(label)
                    body += '\\label{%s}' % label
                body += '\n'
            elif item[0] == 'blk':
                body += '\n\n'.join(self.block(b) for b in item[1]) + '\n\n'
            elif item[0] == 'bib':
                body += '\\begin{thebibliography}{9}\\bibitem{k1} %s\\bibitem[x]{k2} %s\\end{thebibliography}\n\n' % (self.word(), self.word())
            elif item[0] == 'index':
                self.unit(1 if doc['cls'] == 'article' else 0, INDEX)
                body += '\\printindex\n\n'
        if doc['cls'] == 'book':
            body = body.replace('{abstract}', '{quote}')
        src = '\\documentclass{%s}\n' % doc['cls']
        packs = sorted({p for k, p in NEEDS.items() if k in body})
        for p in packs + ['makeidx']:
            src += '\\usepackage{%s}\n' % p
        src += '\\makeindex\\newcommand{\\mine}[2]{#1 #2}\\newcommand{\\foo}{}\\newenvironment{ours}{\\begin{quote}}{\\end{quote}}\\newtheorem{thm}{Theorem}\n'
        if doc['title'] is not None:
            src += '\\title{%s}\\author{A}\n' % self.clean(doc['title'])
        src += '\\begin{document}\n'
        if doc['maketitle'] and doc['title'] is not None:
            src += '\\maketitle\n'
        if doc['toc']:
            src += '\\tableofcontents\n'
        self.src = src + body + '\\end{document}\n'

    def clean(self, s):
        return s if self.slash else s.replace('/', '')

    def unit(self, level, title):
        self.units.append((level, title))
        self.main, self.notes = [], []
        self.groups.append((self.main, self.notes))

    def word(self, note=False):
        s, n = '', self.n
        self.n += 1
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[n % 25] + s
            n //= 25
        s = 'Q%sZ' % s
        (self.notes if note else self.main).append(s)
        return s

    def write(self, pool, x):
        src, kids = pool[x[0]], iter(x[1])
        if src in self.ban:
            return self.word()
        out = []
        i = 0
        while i < len(src):
            c = src[i]
            if src.startswith('in@N', i):
                self.labels += 1
                out.append('in%d' % self.labels)
                i += 4
                continue
            if c == '@':
                out.append(self.word())
            elif c == '#':
                out.append(self.word(True))
            elif c == '^':
                out.append(' '.join(self.write(INLINE, k) for k in next(kids, [])))
            elif c == '%' and not src.startswith('% comment', i):
                out.append('\n\n'.join(self.block(k) for k in next(kids, [])))
            else:
                out.append(c)
            i += 1
        return ''.join(out)

    def block(self, x):
        if not x[1] and x[0] == 0:
            return self.word()
        return self.write(BLOCK, x)


def groups(w, level):
    """(title, words, footnote words) for each file"""
    files, stack = [], []
    for (lev, title), (main, notes) in zip(w.units, w.groups):
        while stack and stack[-1][0] >= lev:
            stack.pop()
        if title is INDEX:
            # takes nothing of what follows it
            if lev <= level:
                files.append([None, [], []])
            f = stack[-1][1]
            f[1].extend(main)
            f[2].extend(notes)
            continue
        if lev <= level or not stack:
            f = [title, [], []]
            files.append(f)
        else:
            f = stack[-1][1]
        f[1].extend(main)
        f[2].extend(notes)
        stack.append((lev, f))
    return files


def config(conf, template, level):
    opts = dict(general__theme=conf['theme'], files__split_level=level, files__filename=template, document__toc_depth=conf['tocdepth'], document__toc_non_files=conf['nonfiles'], files__bad_chars_sub=conf['sub'])
    if conf['bad'] is not None:
        opts['files__bad_chars'] = conf['bad'].replace('%', '%%')
    return render.config(conf['renderer'], **opts)


def words(text, renderer):
    if renderer in ('Text', 'ManPage'):
        return WORD.findall(text)
    root, problems = render.tree(text)
    return WORD.findall(shown(root))


def shown(e):
    """the text of an element; boxes may be shown as images"""
    if e.tag == 'img':
        return ' %s ' % e.attrs['alt'] if 'gen' in (e.attrs.get('class') or '') else ''
    return ''.join(c if isinstance(c, str) else shown(c) for c in e.children)


def outputs(src, conf, template, level):
    out = render.render(src, config(conf, template, level), jobname=conf['jobname'])
    return out, {k: v for k, v in out.files.items() if k not in EXTRA.get(conf['renderer'], ()) and k != conf['jobname'] + '.paux' and not (k.startswith('styles/') and k.endswith('.css'))}


def exhausted(template):
    """whether the template may have no further name to give"""
    t = re.sub(r'[{} ]', '', re.search(r'\[[^\]]*\]|\S+$', template.strip()).group())
    return not any('$num' in a and not re.search(r'\$(id|title|ref)', a) for a in t.split(','))


def check(case):
    conf, doc = case
    return run(conf, doc, TEMPLATES[conf['template'] % len(TEMPLATES)], conf['level'])


def check_single(case):
    conf, doc = case
    return run(conf, doc, SINGLE[conf['template'] % len(SINGLE)], None)


def run(conf, doc, template, level):
    bad = DEFAULT_BAD if conf['bad'] is None else conf['bad']
    w = Write(doc, slash='/' in bad and '/' not in conf['sub'], ban=BAN if conf['renderer'] == 'Text' else ())
    what = '%r template %r in\n%s' % (conf, template, w.src)
    expected = groups(w, -10 if level is None else level)
    if level is None:
        require(len(expected) == 1, 'broken model')
    try:
        out, files = outputs(w.src, conf, template, conf['level'])
    except ValueError as e:
        if 'Filename could not be created' in str(e) and level is not None and exhausted(template):
            raise Skip('names exhausted')
        raise
    require(len(files) == len(expected), '%d files %r, should be %d; %s', len(files), sorted(files), len(expected), what)
    got = {n: words(b.decode('utf-8'), conf['renderer']) for n, b in files.items()}
    where = {}
    for n, ws in got.items():
        for x in ws:
            where.setdefault(x, []).append(n)
    for title, main, notes in expected:
        for x in main + notes:
            require(len(where.get(x, ())) == 1, 'the word %s appears in %r, once is right; %s', x, where.get(x, []), what)
    require(len(where) == w.n, 'broken model')
    seqs = sorted((main + notes, title) for title, main, notes in expected if main or notes)
    for seq, title in seqs:
        n = where[seq[0]][0]
        if conf['renderer'] == 'Text' and ('{tabular}' in w.src or '{longtable}' in w.src):
            # lines of text run across the columns of a table
            require(sorted(got[n]) == sorted(seq), 'the file %s has the words %r, should be %r; %s', n, got[n], seq, what)
            continue
        require(got[n] == seq, 'the file %s has the words %r, should be %r; %s', n, got[n], seq, what)
    require(sum(1 for g in got.values() if g) == len(seqs), 'words in %r, should be in %d files; %s', {n: g for n, g in got.items() if g}, len(seqs), what)
    # names
    static = re.sub(r'\$\{?\s*\w+\s*\}?(\s*\(\s*\d+\s*\))?', '', template)
    forbidden = set(bad) - set(static) - {'.'} - set(conf['sub'])
    if '$num' in template:
        forbidden -= set('0123456789')
    for n in files:
        stem = n
        for ext in ('.html', '.htm', '.txt', '.xml'):
            if stem.endswith(ext):
                stem = stem[:-len(ext)]
                break
        f = [c for c in stem if c in forbidden or c == '.' and '.' in bad and '.' not in static.replace('.html', '').replace('.htm', '') and '.' not in conf['sub']]
        require(not f, 'the file name %r has the characters %r; %s', n, f, what)
    # the same again
    out2, files2 = outputs(w.src, conf, template, conf['level'])
    require(sorted(files2) == sorted(files), 'files %r, when rendered again %r; %s', sorted(files), sorted(files2), what)
    for n, b in files2.items():
        require(words(b.decode('utf-8'), conf['renderer']) == got[n], '%s has the words %r, when rendered again %r; %s', n, got[n], words(b.decode('utf-8'), conf['renderer']), what)
    return {'labels': [conf['renderer'], 'theme ' + conf['theme'], 'level %d' % conf['level'], 'template ' + template, 'files %s' % min(len(files), 8), 'bad %r' % conf['bad']], 'nontrivial': len(files) > 1 and len(seqs) > 1 or level is None and len(w.units) > 1,
            'sample': [template, sorted(files), w.src[-200:]]}


def gen_other(d):
    conf, doc = gen(d)
    conf['renderer'] = d.choice(OTHER)
    conf['theme'] = d.choice(THEMES[conf['renderer']])
    return [conf, doc]


def gen_again(d):
    return [d.int(1, 1 << 20), [gen(d) for _ in range(d.int(2, 8))]]


def listing(cases):
    """the names of the files and the words in each of them"""
    res = []
    for conf, doc in cases:
        bad = DEFAULT_BAD if conf['bad'] is None else conf['bad']
        w = Write(doc, slash='/' in bad and '/' not in conf['sub'])
        try:
            out, files = outputs(w.src, conf, TEMPLATES[conf['template'] % len(TEMPLATES)], conf['level'])
        except Exception as e:
            res.append(str(type(e)))
            continue
        res.append([[n, words(b.decode('utf-8'), conf['renderer'])] for n, b in sorted(files.items())])
    return res


def check_again(case):
    """in another interpreter, where sets and dictionaries of strings have another order"""
    seed, cases = case
    here = listing(cases)
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=HERE)
    p = subprocess.run([sys.executable, '-c', 'import sys, json; from vlib import core; from vlib.props import c13; import logging; logging.disable(50)\nprint("RESULT" + json.dumps(c13.listing(json.load(sys.stdin))))'],
                       input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=300)
    lines = [x for x in p.stdout.splitlines() if x.startswith('RESULT')]
    require(lines, 'the other interpreter ended with %s', p.stderr[-1000:])
    there = json.loads(lines[0][6:])
    for c, a, b in zip(cases, json.loads(json.dumps(here)), there):
        require(a == b, 'files and words %r, in another interpreter %r; %r', a, b, c)
    return {'labels': ['documents %d' % len(cases)], 'nontrivial': sum(len(x) > 2 for x in here if not isinstance(x, str)) > 0, 'sample': here[0]}


SUBS = [Sub('split', check, gen=gen, quick=1800, thorough=40000, rule='at least two files with body text'),
        Sub('single', check_single, gen=gen_single, quick=200, thorough=5000, rule='a document with sectioning units rendered to a single file'),
        Sub('other', check, gen=gen_other, quick=200, thorough=5000, rule='at least two files with body text'),
        Sub('again', check_again, gen=gen_again, quick=12, thorough=300, rule='a document with at least three files', cpu=300)]
