"""C17: a document's result does not depend on what was processed before it.

A case is a history A1..Ak;B.  B is processed alone in a forked child that has
not seen a document, and after the history in this process; both results (the
tree as XML, the rendered files) have to agree once generated identifiers are
numbered in their order.  Around every document of the history the state of
the classes that existed before it is compared.
"""
import marshal
import os
import re

from ..core import Sub, Skip, require
from .. import render

TECHNIQUE = 'property-based testing over histories: generated sequences of documents A1..Ak;B, differential against B alone in a fresh interpreter, and a comparison of the class-level state before and after each document'
LEVEL = 'random'
NOTE = ''
ASSUMPTIONS = ['documents that end with a Python exception are not processed to completion: such histories are discarded', 'state is compared on classes that exist before the document: a class made by it cannot concern others',
               'column types are defined in documents; ColumnType.new called from Python is meant to be interpreter-wide']

DIMENS = ['parindent', 'hsize', 'vsize', 'hfuzz', 'hangindent', 'mathsurround', 'maxdepth', 'textwidth', 'textheight', 'oddsidemargin', 'columnsep', 'tabcolsep', 'arrayrulewidth', 'fboxsep', 'fboxrule', 'leftmargin', 'labelwidth', 'unitlength', 'footnotesep', 'jot', 'linewidth', 'marginparsep', 'headheight', 'topmargin', 'itemindent', 'labelsep', 'listparindent', 'mathindent', 'bibindent', 'columnseprule', 'doublerulesep', 'arraycolsep', 'hoffset', 'overfullrule', 'scriptspace', 'delimitershortfall', 'splitmaxdepth']
SKIPS = ['parskip', 'baselineskip', 'leftskip', 'tabskip', 'topskip', 'abovedisplayskip', 'parsep', 'itemsep', 'topsep', 'partopsep', 'textfloatsep', 'floatsep', 'lineskip', 'parfillskip', 'spaceskip', 'footskip', 'intextsep']
COUNTS = ['tolerance', 'pretolerance', 'hbadness', 'widowpenalty', 'clubpenalty', 'linepenalty', 'hangafter', 'looseness', 'mag', 'fam', 'escapechar', 'endlinechar', 'language', 'lefthyphenmin', 'maxdeadcycles', 'uchyph', 'tracingmacros', 'hyphenpenalty', 'year', 'day', 'month', 'defaulthyphenchar', 'errorcontextlines', 'globaldefs']
MUS = ['thinmuskip', 'medmuskip', 'thickmuskip']

CLASSES = ['article', 'article', 'book', 'report', 'amsart', 'amsbook', 'memoir', 'beamer', 'jss', 'quotchap']
PACKAGES = ['alltt', 'amsfonts', 'amsmath', 'amssymb', 'amsthm', 'babel', 'booktabs', 'cancel', 'caption', 'ccaption', 'cleveref', 'color', 'comment', 'embed', 'enumerate', 'fancybox', 'fancyhdr', 'fancyvrb', 'float', 'fontenc', 'geometry', 'graphicx', 'html', 'hyperref', 'ifpdf', 'iftex', 'ifthen', 'inputenc', 'keyval', 'lipsum', 'listings', 'longtable', 'makeidx', 'mathtools', 'minitoc', 'multicol', 'nameref', 'natbib', 'rotating', 'setspace', 'shortvrb', 'subfig', 'subfigure', 'tabularx', 'tabulary', 'textcomp', 'tocbibind', 'todonotes', 'url', 'verbatim', 'verse', 'wrapfig', 'xcolor', 'xr', 'splitbib', 'bbm', 'dsfont', 'afterpage', 'changebar', 'textpos', 'tikz', 'wasysym', 'endfloat', 'imakeidx', 'float', 'unicode-math', 'pslatex', 'times', 'type1cm', 'eso-pic', 'marginnote', 'microtype', 'bbold', 'bbding']
OPTIONS = {'babel': ['french', 'ngerman', 'spanish', 'english', 'french,ngerman'], 'natbib': ['numbers', 'super', 'sectionbib', 'square,comma', 'authoryear'], 'hyperref': ['colorlinks', 'pdftex'], 'inputenc': ['utf8', 'latin1'], 'geometry': ['a4paper'], 'book': ['french', 'ngerman'], 'article': ['fleqn', '12pt', 'a4paper', 'french'], 'report': ['fleqn', 'twocolumn'], 'subfig': ['lofdepth'], 'fontenc': ['T1'], 'color': ['dvips', 'usenames'], 'xcolor': ['dvipsnames', 'table'], 'memoir': ['oneside'], 'beamer': ['handout', 'compress'], 'cleveref': ['capitalise', 'noabbrev'], 'listings': ['numbers=left'], 'tikz': ['']}

# what documents do; {n} {m} numbers, {w} a word
BODIES = ['plain {w} text', '$x_{n}$ and $$y^{n}$$ and \\[z\\]', '\\begin{{itemize}}\\item a\\item[b] b\\end{{itemize}}', '\\begin{{enumerate}}\\item a \\begin{{enumerate}}\\item b\\begin{{enumerate}}\\item c\\end{{enumerate}}\\end{{enumerate}}\\item d\\end{{enumerate}}', '\\begin{{description}}\\item[a] b\\end{{description}}',
          '\\mbox{{a $x$ b}} \\hbox{{$y$ b}} $a \\mbox{{b $c$}} d$', '\\begin{{tabular}}{{l|c@{{-}}r}}a&b&c\\\\ \\hline d&$e$&f\\end{{tabular}}', '\\begin{{tabular}}{{Z>{{x}}c p{{2cm}}*{{2}}{{r}}}}a&b&c&d&e\\end{{tabular}}', '\\section{{A}}\\label{{s{n}}} see \\ref{{s{n}}}\\pageref{{s{n}}} \\ref*{{s1}} \\subsection{{B}} x', '\\begin{{figure}}a\\caption{{c}}\\label{{f{n}}}\\end{{figure}} \\begin{{table}}b\\caption{{c}}\\end{{table}}',
          'x\\footnote{{n}}\\footnote[4]{{m}} \\footnotemark\\footnotetext{{f}}', '\\index{{a}}\\index{{b!c}}x\\printindex', '\\begin{{thebibliography}}{{9}}\\bibitem{{k{n}}} Foo\\end{{thebibliography}}\\cite{{k1}} \\cite{{k{n}}}', '\\begin{{equation}}x\\end{{equation}}\\begin{{eqnarray}}a&=&b\\\\c&=&d\\end{{eqnarray}}', '\\textbf{{b}}\\emph{{x}} \\textbf<1>{{x}} {{\\bf y \\it z}} \\textit{{q}}\\textrm{{a}} \\textsf{{b}}',
          '\\newcommand{{\\foo}}[1]{{<#1>}}\\foo{{a}}\\foo{{b}}', '\\def\\mac#1.{{(#1)}}\\mac abc.', '\\foo{{a}} \\mac x.', '\\newcounter{{cn}}\\stepcounter{{cn}}\\stepcounter{{cn}}\\thecn', '\\setcounter{{section}}{{{n}}}\\section{{x}}\\thesection', '\\newif\\iffoo\\footrue\\iffoo a\\else b\\fi', '\\verb|a{{%| \\begin{{verbatim}}\n a \\b\n\\end{{verbatim}} z',
          '\\catcode`\\@=11 \\def\\a@b{{c}}\\a@b', '\\catcode`\\!=13 \\def!{{bang}}!', 'a!b@c', '\\begin{{quote}}q\\end{{quote}}\\begin{{center}}c\\end{{center}}\\begin{{abstract}}a\\end{{abstract}}', '\\title{{T}}\\author{{A}}\\date{{\\today}}\\maketitle', '\\tableofcontents\\listoffigures', '\\newtheorem{{thm}}{{Theorem}}\\begin{{thm}}a\\end{{thm}}', "``q'' -- --- `s'", '\\appendix\\section{{App}}', '\\part{{P}}\\chapter{{C}}',
          '\\newlength{{\\len}}\\len={n}pt \\ifdim\\len>5pt A\\else B\\fi', '\\newcount\\cnt \\cnt={n} \\advance\\cnt by 2 \\number\\cnt', '\\count{n}={m} \\number\\count{n}', '\\dimen{n}={m}pt \\skip{n}=1pt plus 2pt \\toks{n}={{a}}', '\\renewcommand{{\\theequation}}{{E\\arabic{{equation}}}}\\begin{{equation}}x\\label{{e}}\\end{{equation}}\\ref{{e}}', '\\newenvironment{{env}}[1]{{b#1}}{{e}}\\begin{{env}}x y\\end{{env}}',
          '\\ifthenelse{{\\equal{{a}}{{b}}}}{{$x$}}{{\\(y\\)}}', '\\(a\\) \\[b\\] \\ensuremath{{x}}', '\\color{{red}}a\\textcolor{{blue}}{{b}}\\definecolor{{foo}}{{rgb}}{{1,0,{n}}}\\textcolor{{foo}}{{x}}', '\\textcolor{{foo}}{{x}}', '\\citep{{k1}}\\citet{{k1}}', '\\href{{u}}{{x}}\\url{{http://a_b}}\\autoref{{s1}}', '\\begin{{lstlisting}}[caption={{c}}]\nint x;\n\\end{{lstlisting}}', '\\lstset{{language=Python}}', '\\begin{{theindex}}\\item a\\end{{theindex}}', '\\begin{{verse}}a\\end{{verse}}\\begin{{quotation}}a\\end{{quotation}}',
          '\\newfloat{{Program}}{{t}}{{p}}\\begin{{Program}}a\\caption{{b}}\\end{{Program}}', '\\begin{{frame}}<1>{{x}}a\\end{{frame}}', '\\begin{{align}}a&b\\\\c&d\\end{{align}}\\eqref{{x}}', '\\theoremstyle{{definition}}\\newtheorem{{dfn}}[section]{{Def}}\\begin{{dfn}}a\\end{{dfn}}', '\\MakeShortVerb{{\\|}}|a_b|', 'a|b|c', '\\DefineShortVerb{{\\+}}+x+', '\\lipsum[1]', '\\begin{{comment}}a\\end{{comment}}b', '\\excludecomment{{foo}}\\begin{{foo}}a\\end{{foo}}b', '\\cref{{s1}}\\crefname{{section}}{{S}}{{SS}}', '\\selectlanguage{{french}}\\chaptername\\today', '\\figurename\\contentsname \\languagename',
          '\\let\\oldemph\\emph\\let\\emph\\textbf\\emph{{x}}', '\\renewcommand{{\\emph}}[1]{{E#1}}\\emph{{x}}', '\\makeatletter\\@ifundefined{{foo}}{{u}}{{d}}', '\\global\\def\\foo#1{{g#1}}', '\\char65 \\accent 23 a', '\\begin{{tabbing}}a\\=b\\\\c\\>d\\end{{tabbing}}', '\\begin{{list}}{{x}}{{\\setlength{{\\leftmargin}}{{{n}pt}}}}\\item a\\end{{list}}', '\\parbox{{2cm}}{{x}}\\begin{{minipage}}{{2cm}}y\\end{{minipage}}\\fbox{{z}}', '\\bibliographystyle{{plain}}\\bibliography{{nofile}}', '\\begin{{longtable}}{{ll}}\\caption{{x}}\\\\ a&b\\end{{longtable}}',
          '\\newcolumntype{{Z}}{{>{{x}}c}}', '\\section<1>{{A}} \\label<2>{{b}} \\begin{{itemize}}[<+->]\\item<1> x\\end{{itemize}}', '\\quote{{x}} \\footnote<1>{{x}}', '\\frac{{1}}{{2}}$\\frac 1 2\\over 3$', '\\pagestyle{{empty}}\\thispagestyle{{plain}}\\newpage', '\\DeclareMathOperator{{\\foo}}{{foo}}$\\foo x$', '\\begin{{subequations}}\\begin{{equation}}x\\end{{equation}}\\end{{subequations}}', '\\usecounter{{enumi}}\\theenumi', '\\graphicspath{{{{x/}}}}\\rotatebox{{9}}{{x}}',
          '\\parskip=\\baselineskip \\parindent=2\\hsize \\hskip 2\\parindent x', '\\thinmuskip=\\medmuskip \\tolerance=\\hbadness x', '\\chardef\\x=65 \\x \\string\\foo \\meaning\\foo', '\\whiledo{{\\value{{section}}<{n}}}{{\\stepcounter{{section}}a}}', '\\begin{{Verbatim}}[numbers=left]\na\n\\end{{Verbatim}}', '\\begin{{wrapfigure}}{{r}}{{2cm}}a\\caption{{b}}\\end{{wrapfigure}}', '\\subfloat[a]{{b}}', '\\bibpunct{{(}}{{)}}{{;}}{{a}}{{,}}{{,}}\\citep{{k1}}', '\\ifthenelse{{\\lengthtest{{\\parindent>{n}pt}}\\or\\isodd{{{m}}}}}{{a}}{{b}}', '\\captionof{{figure}}{{x}} \\todo{{x}}\\listoftodos', '\\begin{{tabularx}}{{2cm}}{{lX}}a&b\\end{{tabularx}}', '\\expandafter\\def\\csname a b\\endcsname{{x}}\\csname a b\\endcsname', '\\ifx\\a\\b x\\fi \\let\\a=\\b \\uppercase{{abc}}', '\\onlypreamble \\mathchardef\\y="12 \\the\\parindent']
# packages of commands
NEEDS = [('ifthenelse', 'ifthen'), ('color', 'color'), ('citet', 'natbib'), ('href', 'hyperref'), ('lstlisting', 'listings'), ('lstset', 'listings'), ('newfloat', 'float'), ('align', 'amsmath'), ('theoremstyle', 'amsthm'), ('MakeShortVerb', 'shortvrb'), ('DefineShortVerb', 'fancyvrb'), ('lipsum', 'lipsum'), ('comment', 'comment'), ('cref', 'cleveref'), ('selectlanguage', 'babel'), ('longtable', 'longtable'), ('DeclareMath', 'amsmath'), ('subequations', 'amsmath'), ('rotatebox', 'rotating'), ('graphicspath', 'graphicx'), ('verse', 'verse'), ('index', 'makeidx'), ('subfloat', 'subfig'), ('wrapfigure', 'wrapfig'), ('tabularx', 'tabularx'), ('Verbatim', 'fancyvrb'), ('captionof', 'caption'), ('setspace', 'setspace'), ('whiledo', 'ifthen'), ('bibpunct', 'natbib'), ('todo', 'todonotes')]
OPEN = ['$x', '$x + \\mbox{{a $y', '$$y', '\\[z', '\\(a', '\\begin{{itemize}}\\item a', '\\begin{{enumerate}}\\item a\\begin{{enumerate}}\\item b', '\\begin{{equation}}x', '{{\\bf a', '\\begin{{tabular}}{{c}}a', '\\begingroup a', '\\hbox{{$a', '\\if ab c', '\\iftrue a', '\\begin{{quote}}q', '\\begin{{verbatim}}a', '\\begin{{figure}}a', '\\begin{{enumerate}}\\item a\\[b', '\\begin{{eqnarray}}a&', '\\begin{{document}}', '\\mbox{{$x$', '\\parbox{{1cm}}{{$z', '\\parindent=', '\\tolerance', '\\setlength{{\\parindent}}', '\\section', '\\footnote', '\\ref', '\\advance\\tolerance', '\\parskip=1pt plus', '\\verb|x', '\\item', '\\ifnum 1<', '\\count1', '\\def\\x', '\\let\\x', '\\ifx\\x', '\\ifx', '\\parskip', '\\thinmuskip=', '\\let\\x=', '\\string', '\\ifthenelse', '\\parindent=2', '\\parskip=\\baselineskip']
ENDINGS = ['\\end{document}', '\\end{document}', '\\end{document}\n', '\\end{document} after', '', '\\endinput']


def warm():
    render.warm('HTML5', 'XHTML')


# -------------------------------------------------------------- generation

def assign(d, name, kind):
    n = d.choice([0, 1, 3, 7, 100, 2000])
    v = {'count': '%d' % n, 'dimen': '%dpt' % n, 'skip': d.choice(['%dpt', '%dpt plus 1pt', '%dpt plus 1fil minus 2pt']) % n, 'mu': '%dmu' % n}[kind]
    how = d.int(0, 5)
    if how <= 2:
        return '\\%s%s%s ' % (name, d.choice(['=', ' = ', ' ']), v)
    if how == 3:
        return '\\advance\\%s by %s ' % (name, v)
    if how == 4 and kind != 'count':
        return '\\%s{\\%s}{%s}' % (d.choice(['setlength', 'addtolength']), name, v)
    return '{\\global\\%s=%s }' % (name, v)


def probe(d, name, kind):
    n = d.choice([0, 2, 10, 300])
    if kind == 'count':
        return d.choice(['\\number\\%s ' % name, '\\ifnum\\%s>%d A\\else B\\fi' % (name, n), '\\romannumeral\\%s ' % name])
    if kind == 'mu':
        return '$a\\hskip 1pt b\\mskip\\%s c$' % name
    return d.choice(['\\ifdim\\%s>%dpt A\\else B\\fi' % (name, n), '\\number\\%s ' % name, '\\the\\%s ' % name])


def register(d):
    return d.weighted([(5, lambda: (d.choice(DIMENS), 'dimen')), (3, lambda: (d.choice(SKIPS), 'skip')), (4, lambda: (d.choice(COUNTS), 'count')), (1, lambda: (d.choice(MUS), 'mu'))])()


def document(d, pool, last):
    """pool: what the documents of the history have in common"""
    pre, body = '', []
    cls = d.choice(pool['classes']) if d.bool(3, 4) else d.choice(CLASSES)
    bare = d.bool(1, 8)

    def option(n):
        return '[%s]' % d.choice(OPTIONS[n]) if n in OPTIONS and d.bool() else ''
    packs = []
    for _ in range(d.weighted([(3, 0), (4, 1), (2, 2), (1, 4)])):
        packs.append(d.choice(pool['packages']) if d.bool(1, 2) else d.choice(PACKAGES))
    for _ in range(d.int(1, 6)):
        kind = d.weighted([(5, 'body'), (2, 'poolbody'), (3, 'register')])
        if kind == 'register':
            name, k = d.choice(pool['registers']) if d.bool(3, 4) else register(d)
            # assignments early in the history, questions at its end
            body.append((probe if d.bool(4, 5) else assign)(d, name, k) if last else (assign if d.bool(4, 5) else probe)(d, name, k))
        else:
            s = d.choice(pool['bodies']) if kind == 'poolbody' else d.choice(BODIES)
            packs += [p for w, p in NEEDS if w in s and d.bool(3, 5)]
            body.append(s.format(n=d.int(1, 3), m=d.int(0, 9), w=d.choice(['foo', 'bar', '\\^o', '{\\ss}'])))
    end = d.choice(ENDINGS)
    if d.bool(1, 4):
        body.append(d.choice(OPEN).format())
        if d.bool(2, 3):
            end = ''
    text = d.choice(['\n\n', ' ', '\n']).join(body)
    if bare:
        return ''.join('\\usepackage%s{%s}' % (option(p), p) for p in packs) + text
    return '\\documentclass%s{%s}%s\\begin{document}\n%s\n%s' % (option(cls), cls, ''.join('\\usepackage%s{%s}' % (option(p), p) for p in packs), text, end)


def gen(d):
    pool = {'classes': [d.choice(CLASSES) for _ in range(2)], 'packages': [d.choice(PACKAGES) for _ in range(2)], 'registers': [register(d) for _ in range(2)], 'bodies': [d.choice(BODIES) for _ in range(2)]}
    k = d.weighted([(3, 1), (3, 2), (2, 3), (1, 4)])
    history = [[document(d, pool, False), d.weighted([(5, None), (2, 'HTML5'), (1, 'XHTML'), (1, 'Text'), (1, 'ManPage'), (1, 'DocBook')])] for _ in range(k)]
    return [history, [document(d, pool, True), d.weighted([(4, None), (6, 'HTML5'), (2, 'XHTML'), (1, 'Text'), (1, 'ManPage'), (1, 'DocBook')])], d.bool(1, 4), d.bool(1, 4)]


# -------------------------------------------------------------- state

SCALAR = (int, float, str, bool, type(None))


def scalar(v):
    if isinstance(v, SCALAR):
        return (type(v).__name__, str(v) if isinstance(v, str) else float.__repr__(float(v)) if v is not None and not isinstance(v, bool) else repr(v)) + tuple(repr(getattr(v, a, None)) for a in ('stretch', 'shrink') if hasattr(v, a))
    return None


def snapshot():
    """the plain values of all macro classes, as they are seen through inheritance, and the lists of the known trackers"""
    import plasTeX
    from plasTeX.Base.TeX.Primitives import MathShift
    from plasTeX.Base.LaTeX.Lists import List
    from plasTeX.Base.LaTeX.Arrays import ColumnType
    out, own, todo, seen = {}, {}, [plasTeX.Macro, plasTeX.TeXDocument], set()
    while todo:
        cls = todo.pop()
        if cls in seen:
            continue
        seen.add(cls)
        todo.extend(cls.__subclasses__())
        got = {}
        for c in reversed(cls.__mro__):
            p = own.get(c)
            if p is None:
                p = own[c] = {k: scalar(v) for k, v in vars(c).items() if not k.startswith(('@', '__')) and isinstance(v, SCALAR)}
            got.update(p)
        out[cls] = got
    for cls, name in ((MathShift, 'inEnv'), (List, 'depth'), (ColumnType, 'columnTypes')):
        v = getattr(cls, name, None)
        if isinstance(v, (list, dict)):
            out[cls] = dict(out[cls], **{name: sorted(map(str, v))})
    return out


def changes(a, b):
    for cls, vals in a.items():
        now = b.get(cls)
        if now is None or now == vals:
            continue
        for k, v in vals.items():
            if now.get(k) != v:
                yield '%s.%s.%s: %s -> %s' % (cls.__module__, cls.__qualname__, k, v, now.get(k))


# -------------------------------------------------------------- processing

IDS = re.compile(r'(?<![0-9a-zA-Z])a\d{10}(?!\d)')


def process(src, renderer, cfg=None):
    """-> list of (name, text), generated identifiers in the order of their appearance"""
    from plasTeX.TeX import TeX
    from plasTeX import TeXDocument
    if renderer is None and cfg is None:
        doc = TeXDocument()
        tex = TeX(doc)
        tex.toplevel = True
        tex.input(src)
        tex.parse()
        parts = [('tree', doc.toXML())]
    else:
        if cfg is None:
            cfg = render.config(renderer or 'HTML5')
        else:
            cfg['general']['renderer'] = renderer or 'HTML5'
        out = render.render(src, cfg)
        parts = [('tree', out.doc.toXML())] + [(n, out.files[n].decode('latin-1')) for n in sorted(out.files) if not n.endswith('.paux')]
    new = {}
    # files first: the identifiers in the tree are made when it is printed
    return [(IDS.sub(lambda m: new.setdefault(m.group(), 'ID%d' % len(new)), n), IDS.sub(lambda m: new.setdefault(m.group(), 'ID%d' % len(new)), t)) for n, t in parts]


def attempt(src, renderer, cfg=None):
    try:
        return 'done', process(src, renderer, cfg)
    except (Exception, SystemExit) as e:
        return 'error', [type(e).__name__, str(e)[:200]]


def alone(src, renderer):
    """in a child of this process, which has not seen a document"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(marshal.dumps(attempt(src, renderer)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Skip('B alone does not end')
    state, parts = marshal.loads(data)
    return state, [tuple(p) for p in parts] if state == 'done' else parts


def differ(a, b):
    names = [n for n, _ in a]
    if names != [n for n, _ in b]:
        return 'the files are %r instead of %r' % ([n for n, _ in b], names)
    for (n, s), (_, t) in zip(a, b):
        if s != t:
            i = next((i for i in range(min(len(s), len(t))) if s[i] != t[i]), min(len(s), len(t)))
            return '%s has\n   %r\ninstead of\n   %r' % (n, t[max(0, i - 100):i + 60], s[max(0, i - 100):i + 60])
    return None


def check(case):
    history, (src, renderer), shared, twice = case
    state, first = alone(src, renderer)
    if state == 'error':
        raise Skip('B raises %s' % first[0])
    cfg = render.config('HTML5') if shared else None
    if twice:
        history = history + [[src, renderer]]
    before = snapshot()
    for i, (a, r) in enumerate(history):
        st, got = attempt(a, r, cfg)
        if st == 'error':
            raise Skip('A raises %s' % got[0])
        after = snapshot()
        ch = sorted(changes(before, after))
        require(not ch, 'after the document\n%s\nthis state of the interpreter has changed:\n  %s', a, '\n  '.join(ch[:8]))
        before = after
    if cfg is None or renderer is not None:
        st, second = attempt(src, renderer, cfg)
    else:
        st, second = attempt(src, renderer)
    require(st == 'done', 'the document\n%s\nraises %r after the documents\n%s', src, second, '\n=====\n'.join(a for a, _ in history))
    diff = differ(first, second)
    require(diff is None, '%s\nfor the document\n%s\n(renderer %s) after the documents\n%s', diff, src, renderer, '\n=====\n'.join(a for a, _ in history))
    words = [m for m in re.findall(r'\\(?:usepackage|documentclass)(?:\[.*?\])?\{(.*?)\}', ' '.join(a for a, _ in history))]
    return {'labels': ['k=%d' % len(history), str(renderer)] + ['shared config'] * shared + ['twice'] * twice + sorted(set(words)), 'nontrivial': any(len(a) > 60 for a, _ in history) and len(first[0][1]) > 150, 'sample': [[a[:150] for a, _ in history], src[:200]]}


SUBS = [Sub('histories', check, gen=gen, quick=1400, thorough=20000, cpu=60, rule='a document of the history has more than 60 characters and the tree of B more than 150')]
