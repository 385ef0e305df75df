"""C11: verbatim text and mathematics pass through character for character."""
import re
import string
from ..core import Sub, Violation, Skip, require
from .. import sut
from ..gen import mathgen as mg
from plasTeX.DOM import Node

TECHNIQUE = "property-based testing: random verbatim bodies over the printable alphabet (with near-misses of the end marker) and random formulas of a grammar whose expansion is known, against the author's text re-tokenized by an independent tokenizer"
LEVEL = "random + enumerated"
NOTE = "Blanks are ignored in mathematics only (a blank line counts as \\par); \\left< means \\left\\langle and < means \\lt, as MathJax needs."

ASSUMPTIONS = [
    '\\verb is delimited by any printable ASCII character that is not a letter, a blank or a star (these are no delimiters in LaTeX); the body has no line break and not the delimiter',
    'no empty \\verb^^: TeX itself reduces ^^ there while it looks for the end of the command name',
    '\\verb and verbatim do not occur in arguments of commands',
    'user macros take braced arguments or single symbols, and are not used unbraced as an argument (\\frac\\R\\R), where a textual expansion means something else',
    'quotes and dashes directly in cells of eqnarray, align and equation* (amsmath) are not generated: a known finding of C07 (sub cells), pinned by a stable benchmark',
    'the source of mathematics is delimited by $, \\( \\[ or the environment, whichever way the author delimited it',
    '\\ensuremath{x} within mathematics may be written as x',
]

# ------------------------------------------------------------------------------------ verbatim
PRINT = [chr(c) for c in range(32, 127)]
FRAG = ['\\end{verbatim', '\\end', '\\end{', '{verbatim}', '\\end{verbatim*}', '\\endverbatim', '\\begin{verbatim}', 'end{verbatim}', '\\end {verbatim}', '\\end{verbatim }', '\\END{VERBATIM}',
        '\\end{Verbatim}', '\\end{verb}', '\\end{\\end{verbatim', '\\\\end', '^^M', '^^41', '^^^^0041', '^^5c', '%', '% c\n', '--', '---', '``', "''", '\\\\', '  ', '   ', '\n', '\n\n', '\n\n\n', '\n  ',
        '  \n', '\\verb|x|', '$x$', '&', '#1', '\\par', '~', '\\iffalse', '\\fi', '\\end{document}', '\\input{x}', '\\begin{itemize}', '\\item', '{', '}', '{}', '\t', '\\', '?`', '!`', '<<', ',,',
        '\\x', '\\end{verbatim*', '\u00e9', '\u20ac', '\u4e2d', '"a', '\\catcode', '@', '|', '\\relax ', '\\begin{verbatim*}', '\\(a\\)', '\\today']
TEXTS = [('w', 'w'), ('\\emph{abc}', 'abc'), ('$x$', 'x'), ("a--b ``c''", 'a\u2013b\u201cc\u201d'), ('{\\bf d}', 'd'), ('% comment\n', ''), ('e~f', 'e\u00a0f'), ('\\textbf{g}%\n h', 'gh'), ('\\& \\%', '&%'),
         ('\n\nnew', 'new'), ('\\mc{k}', '<k>'), ('{\\mc z}', '<z>'), ('\\^{}', None), ('a^^41b', 'aAb'), ('\\begin{quote}q\\end{quote}', 'q'), ("it's", 'it\u2019s'), ('', ''), ('.', '.'), ('(x]', '(x]'), ('+*', '+*')]
TEXTS = [t for t in TEXTS if t[1] is not None]
WRAPS = [('%s', ''), ('\\begin{itemize}\\item i %s\\end{itemize}', 'i'), ('\\begin{quote}%s\\end{quote}', ''), ('{\\it %s}', ''), ('{%s}', ''), ('\\begin{enumerate}\\item %s\\item j\\end{enumerate}', 'j'),
         ('\\begin{center}%s\\end{center}', ''), ('\\begin{thm} %s\\end{thm}', ''), ('\\begin{figure}%s\\end{figure}', ''), ('\\begin{minipage}{3cm}%s\\end{minipage}', ''), ('\\begin{mine}%s\\end{mine}', ''),
         ('\\begin{description}\\item[k] %s\\end{description}', 'k'), ('\\section{h}%s', 'h'), ('\\begin{tabular}{p{3cm}l}%s& c\\\\\\end{tabular}', 'c')]
SETUP = ['', '', '', '\\makeatletter\n', '\\catcode`\\|=13 \\def|{Q}', '\\catcode`\\"=13 \\def"{Q}', '\\catcode`\\!=14 ', '\\catcode`\\<=1 \\catcode`\\>=2 ', '\\catcode`\\?=0 ', '\\catcode`\\@=9 ', '\\catcode`\\/=5 ', '\\catcode`\\e=12 ']
SETUP = [s for s in SETUP if 'e=12' not in s]
PRE = '\\documentclass{article}\n\\newcommand\\mc[1]{<#1>}\\newtheorem{thm}{Theorem}\\newenvironment{mine}{\\begin{quote}}{\\end{quote}}%s\\begin{document}\n'
VERBDELIMS = [c for c in PRINT if not c.isalpha() and c not in ' *']


def body(d, end):
    n = d.int(0, 9)
    while True:
        s = ''
        for _ in range(n):
            if d.bool(2, 5):
                s += d.choice(FRAG)
            else:
                s += ''.join(d.choice(PRINT) for _ in range(d.int(1, 4)))
        # the end marker occurs only at the end
        if (s + end).find(end) == len(s):
            return s
        n = n // 2


def verb_gen(d):
    setup = d.choice(SETUP)
    parts = []
    for _ in range(d.int(1, 5)):
        k = d.weighted([(3, 'text'), (4, 'verb'), (4, 'env')])
        if k == 'text':
            parts.append(['text', d.int(0, len(TEXTS) - 1)])
        elif k == 'verb':
            c = d.choice(VERBDELIMS)
            if c == '@' and 'atletter' in setup:
                c = '|'
            star = d.bool(1, 3)
            s = ''.join(d.choice(FRAG) if d.bool(1, 4) else d.choice(PRINT) for _ in range(d.int(0, 8))).replace('\n', ' ').replace(c, '')
            if c == '^' and not s:
                s = '%'
            parts.append(['verb', c, star, s])
        else:
            name = d.choice(['verbatim', 'verbatim', 'verbatim*'])
            form = d.bool(1, 8) and name == 'verbatim'
            end = '\\endverbatim' if form else '\\end{%s}' % name
            s = body(d, end)
            if form and '\\end{verbatim}' in s:
                s = ''
            if form:
                s = ' ' + s if s[:1].isalpha() or s[:2] == '^^' else s
            parts.append(['cmd' if form else 'env', name, s])
    return [setup, d.int(0, len(WRAPS) - 1), parts, d.int(0, len(TEXTS) - 1)]


def verb_nodes(n, out, text, seen=None):
    seen = set() if seen is None else seen
    for c in n.childNodes or []:
        if id(c) in seen:
            continue
        seen.add(id(c))
        if c.nodeType == Node.TEXT_NODE:
            text.append(str(c))
        elif c.nodeType in (Node.ELEMENT_NODE, Node.DOCUMENT_FRAGMENT_NODE):
            if c.nodeName in ('verbatim', 'verbatim*', 'verb') and c.macroMode != c.MODE_END:
                out.append(c)
                continue
            if getattr(c, 'str', None):
                text.append(c.str)
                continue
            for v in (c.attributes or {}).values():
                if hasattr(v, 'childNodes') and v.childNodes is not c.childNodes:
                    verb_nodes(v, out, text, seen)
            if c.hasChildNodes():
                verb_nodes(c, out, text, seen)


def verbatim(case):
    setup, wrap, parts, after = case
    src, want, text = '', [], ''
    special = set()
    if '`\\' in setup:
        special.add(setup[setup.index('`\\') + 2])
        if '<' in setup:
            special |= {'<', '>'}
    def word(i):
        s, t = TEXTS[i]
        return ('w', 'w') if special & set(s + 'mc' * ('mc' in s)) or ('<' in special and '\\mc' in s) else (s, t)
    for p in parts:
        if p[0] == 'text':
            s, t = word(p[1])
            src += ' ' + s + ' '
            text += t
        elif p[0] == 'verb':
            src += ' \\verb' + '*' * p[2] + p[1] + p[3] + p[1]
            want.append(('verb', p[3], p[2]))
        elif p[0] == 'cmd':
            src += '\\verbatim' + p[2] + '\\endverbatim '
            # blanks after the command \verbatim are skipped
            want.append(('verbatim', p[2], True))
        else:
            src += '\\begin{%s}%s\\end{%s}' % (p[1], p[2], p[1])
            want.append((p[1], p[2], False))
    w, wt = WRAPS[wrap]
    if special & set(w):
        w, wt = WRAPS[2]
    a, at = word(after)
    src = w.replace('%s', src) + ' ' + a
    full = PRE % setup + src + '\n\\end{document}'
    doc, tex = sut.parse(full)
    out, got = [], []
    verb_nodes(doc.getElementsByTagName('document')[0], out, got)
    require(len(out) == len(want), 'verbatim pieces %r, should be %r in\n%s', [(n.nodeName, n.textContent) for n in out], want, full)
    for n, (name, s, flag) in zip(out, want):
        t = n.textContent
        if name == 'verbatim' and flag:
            t, s = t.lstrip(' '), s.lstrip(' ')
        require(n.nodeName == name and t == s, '%s holds %r, should be %s %r in\n%s', n.nodeName, t, name, s, full)
        require(s in n.source, 'the source of %r is %r in\n%s', s, n.source, full)
        if name == 'verb':
            require(bool(n.attributes.get('*modifier*')) == flag, 'star of %r in\n%s', n, full)
            require(n.source == '\\verb%s%s%s%s' % ('*' * flag, n.delimiter, s, n.delimiter), 'the source of %r is %r in\n%s', s, n.source, full)
    # the text around the pieces
    g = sut.squeeze(''.join(got))
    if w.startswith('\\begin{enumerate}') or w.startswith('\\begin{tabular}'):
        e = sut.squeeze(text + wt + at)
    else:
        e = sut.squeeze(wt + text + at)
    require(g == e, 'the text outside is %r, should be %r in\n%s', g, e, full)
    ch = set(''.join(x[1] for x in want))
    return {'labels': sorted({x[0] for x in want}) + ['setup'] * bool(setup) + ['wrapped'] * (wrap > 0) + ['marker'] * ('\\end' in ''.join(x[1] for x in want)),
            'nontrivial': bool(ch & set('\\{}%$&#^_~')), 'sample': src}


def verb_cases(tier):
    """every delimiter x star x every printable character in the body; every short prefix of the end marker"""
    for c in VERBDELIMS:
        for star in (False, True):
            bs = PRINT if tier == 'thorough' or not star else ['\\', '{', '%', ' ', 'x']
            yield ['', 0, [['verb', c, star, b] for b in bs if b != c][:400], 0]
            yield ['', 0, [['verb', c, star, b + b2] for b in '\\{%^ ' for b2 in '\\}%^ $' if c not in (b, b2)] + [['verb', c, star, '']] * (c != '^'), 3]
    end = '\\end{verbatim}'
    for i in range(len(end)):
        for tail in ('', ' ', '\n', '}', '{', '\\', 'v', end[:i], end[:1], '\\endverbatim'):
            for name in ('verbatim', 'verbatim*'):
                if '\\end{%s}' % name in end[:i] + tail:
                    continue
                yield ['', 0, [['env', name, end[:i] + tail], ['text', 1], ['env', name, 'x' + end[:i] + tail + '\n'], ['text', 10]], 2]
    for i in range(0, len(PRINT), 3):
        yield ['', i % len(WRAPS), [['env', 'verbatim', a + b] for a in PRINT[i:i + 3] for b in ('', 'a', ' ', '\n', a, '\\', '{')], 1]


# ------------------------------------------------------------------------------------ mathematics
MATHS = {'$': ('$%s$', '\\('), '(': ('\\(%s\\)', '\\('), '[': ('\\[%s\\]', '\\['), '$$': ('$$%s$$', '\\['), 'equation': ('\\begin{equation}%s\\end{equation}', 'equation'),
         'displaymath': ('\\begin{displaymath}%s\\end{displaymath}', '\\['), 'math': ('\\begin{math}%s\\end{math}', '\\('), 'ensuremath': ('\\ensuremath{%s}', ''),
         'eqnarray': ('\\begin{eqnarray}%s\\end{eqnarray}', 'eqnarray'), 'eqnarray*': ('\\begin{eqnarray*}%s\\end{eqnarray*}', 'eqnarray*'),
         'align': ('\\begin{align}%s\\end{align}', 'align'), 'align*': ('\\begin{align*}%s\\end{align*}', 'align*'), 'gather': ('\\begin{gather}%s\\end{gather}', 'gather'),
         'equation*': ('\\begin{equation*}%s\\end{equation*}', 'equation*')}
INLINE = ['$', '$', '(', 'math', 'ensuremath']
ANYMATH = INLINE + ['$', '(', '[', '[', '$$', 'equation', 'equation', 'displaymath', 'eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'equation*']
CELLS = ('eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'equation*')
PLACES = ['T %s U', '\\emph{a %s b}', 'x\\footnote{a %s}', '\\section{%s}', '\\mbox{a %s b}', '\\textbf{%s}', '\\begin{itemize}\\item %s\\end{itemize}', '\\begin{tabular}{ll}a&%s\\\\%s&b\\end{tabular}',
          '\\begin{figure}\\caption{%s}\\end{figure}', '\\mine{%s}', '\\mine{\\emph{%s}}', '\\parbox{3cm}{%s}', '\\begin{thm}[{%s}] t\\end{thm}', '\\begin{description}\\item[{%s}] t\\end{description}', '\\begin{center}%s\\end{center}',
          '{\\it %s}', '\\fbox{%s}', '\\two{%s}{%s}', '\\begin{thm}%s\\end{thm}', '\\begin{quote}%s\\end{quote}', '\\hbox{%s}', '\\textit{\\textbf{%s} k %s}', '\\subsection[{%s}]{x}', '\\paragraph{%s} t', '\\begin{boxed}%s\\end{boxed}',
          '\\raisebox{1pt}{%s}', '\\makebox[2cm]{%s}', '\\text{%s}', '\\begin{minipage}{2cm}%s\\end{minipage}', '\\underline{%s}', '\\uppercase{}%s', '\\mine{\\mine{%s}}', '\\opti[{%s}]{%s}']
PLACES = [p for p in PLACES if 'uppercase' not in p]
BLOCK = ['T %s U', '\\begin{itemize}\\item %s\\end{itemize}', '\\begin{center}%s\\end{center}', '\\begin{thm}%s\\end{thm}', '\\begin{quote}%s\\end{quote}', '\\begin{minipage}{2cm}%s\\end{minipage}', 'x\\footnote{a %s}',
         '\\parbox{3cm}{%s}', '{\\it %s}', '\\begin{boxed}%s\\end{boxed}', '\\mine{%s}']
MPRE = '\\documentclass{article}\n%s' + mg.PRE + '\\newcommand\\mine[1]{#1}\\newcommand\\two[2]{#2 and #1}\\newcommand\\opti[2][x]{#1: #2}\\newtheorem{thm}{Theorem}\\newenvironment{boxed}{\\begin{quote}}{\\end{quote}}\\begin{document}\n'


def math_gen(d):
    ams = d.bool(3, 4)
    out = []
    for _ in range(d.int(1, 3)):
        kind = d.choice(ANYMATH)
        if not ams and kind in ('align', 'align*', 'gather', 'equation*'):
            kind = '$'
        place = d.choice(PLACES if kind in INLINE else BLOCK)
        if kind == 'math' and 'section' in place:
            kind = '$'
        ms = []
        for _ in range(place.count('%s')):
            bad = ["'", '`', '-', '"', '~'] if kind in CELLS else []
            if kind in CELLS:
                bad.append('row')
            m = mg.Math(d, ams, bad)
            s, e = m.formula(d.int(1, 4), 1, 5)
            if kind in CELLS and kind != 'equation*':
                for _ in range(d.int(0, 2)):
                    a, b = m.formula(d.int(0, 2), 1, 3)
                    c = '&' if d.bool() and kind != 'gather' else '\\\\'
                    if b[:1] in ('[', '*'):
                        a, b = 'u' + a, 'u' + b
                    s, e = s + c + a, e + c + b
            if not e.strip() or (not e.strip(' {}') and kind in ('$', '$$')):
                s, e = s + 'x', e + 'x'
            if kind == '$' and not mg.tokens(s):
                s = s + 'x'; e = e + 'x'
            if kind == 'equation' and d.bool(1, 4):
                s, e = '\\label{q}' + s, '\\label{q}' + e
            if kind in CELLS and e[:1] in ('[', '*'):
                s, e = 'u' + s, 'u' + e
            if d.bool(1, 4) and kind != 'ensuremath':
                s = d.choice([' ', '\n', '%\n']) + s
            ms.append([s, e, m.inner, sorted(m.kinds)])
        out.append([kind, place, ms])
    return [ams, out]


def math_nodes(n, out, depth=0):
    """formulas in document order with their nesting"""
    seen = set()
    def walk(n, inside):
        if id(n) in seen or n.nodeType == Node.TEXT_NODE:
            return
        seen.add(id(n))
        if n.nodeType == Node.ELEMENT_NODE:
            if n.nodeName in ('newcommand', 'def', 'newtheorem', 'documentclass', 'newenvironment'):
                return
            if n.nodeName in MATHS or n.nodeName in ('math', 'displaymath'):
                out.append((n, inside))
                inside = True
        if n.attributes:
            for v in list(n.attributes.values()):
                for x in v if isinstance(v, list) else [v]:
                    if hasattr(x, 'nodeType') and hasattr(x, 'childNodes'):
                        walk(x, inside)
        for c in list(n.childNodes or []):
            walk(c, inside)
    walk(n, False)


FORMS = {'math': [['$', '$'], ['\\(', '\\)']], 'displaymath': [['\\[', '\\]']], 'ensuremath': [[]]}


def strip(toks, name, mj):
    if name == 'math':
        a, b = (['\\('], ['\\)']) if mj else (['$'], ['$'])
    elif name == 'displaymath':
        a, b = ['\\['], ['\\]']
    elif name == 'ensuremath':
        return toks
    else:
        a, b = ['\\begin'] + list('{%s}' % name), ['\\end'] + list('{%s}' % name)
    if toks[:len(a)] != a or toks[len(toks) - len(b):] != b or len(toks) < len(a) + len(b):
        return None
    return toks[len(a):len(toks) - len(b)]


NODE = {'$': 'math', '(': 'math', 'math': 'math', '[': 'displaymath', '$$': 'displaymath', 'displaymath': 'displaymath'}


def build(case):
    ams, items = case
    src, want, inner = '', [], []
    for kind, place, ms in items:
        order = list(range(len(ms)))
        if place.startswith('\\two'):
            order.reverse()
        fs = [re.sub(r'\n[ \t]*(\n[ \t]*)+', '\n', MATHS[kind][0] % m[0]) for m in ms]
        s = place
        for f in fs:
            i = s.index('%s')
            s = s[:i].replace('%s', '') + '\0' + s[i + 2:]
        for f in fs:
            s = s.replace('\0', f, 1)
        src += s + '\n\n'
        for i in order:
            want.append((NODE.get(kind, kind), mg.tokens(ms[i][1])))
            inner += [mg.tokens(x) for x in ms[i][2]]
    return MPRE % ('\\usepackage{amsmath}\n' if ams else '') + src + '\\end{document}', want, inner


def maths(case):
    src, want, inner = build(case)
    doc, tex = sut.parse(src)
    nodes = []
    math_nodes(doc, nodes)
    tops = [n for n, i in nodes if not i]
    require([n.nodeName for n in tops] == [w[0] for w in want], 'formulas %r, should be %r in\n%s', [(n.nodeName, n.source) for n in tops], [w[0] for w in want], src)
    for n, (name, toks) in zip(tops, want):
        for mj, s in ((False, n.source), (True, n.mathjax_source)):
            got = strip(mg.tokens(s), name, mj)
            require(got is not None, 'the %s of a %s is delimited wrongly: %r in\n%s', 'MathJax source' if mj else 'source', name, s, src)
            if got != toks:
                i = 0
                while got[i:i + 1] == toks[i:i + 1]:
                    i += 1
                raise Violation('the %s of a formula is\n%s\nwhich differs from what was written at token %d: %r, should be %r in\n%s' % ('MathJax source' if mj else 'source', s, i, got[i:i + 6], toks[i:i + 6], src))
    for n, i in nodes:
        if not i or n.nodeName == 'ensuremath' or n.nodeName not in ('math', 'displaymath'):
            continue
        got = strip(mg.tokens(n.source), n.nodeName, False)
        require(got in inner, 'a formula in a text box has the source %r, tokens %r, none of %r, in\n%s', n.source, got, inner, src)
    kinds = {k for _, _, ms in case[1] for m in ms for k in m[3]}
    return {'labels': sorted({k for k, _, _ in case[1]}) + ['ams'] * case[0] + ['in ' + k for k in kinds] + ['inner'] * bool(inner), 'nontrivial': len(kinds) >= 3, 'sample': src[len(MPRE):]}


SUBS = [
    Sub('delimiters', verbatim, cases=verb_cases,
        rule='every \\verb delimiter with every printable character and pairs of special ones; every prefix of the end marker followed by everything critical; every character in verbatim; non-trivial: special characters occur'),
    Sub('verbatim', verbatim, gen=verb_gen, quick=2500, thorough=200000,
        rule='documents of verb and verbatim pieces and ordinary text in 14 surroundings, also with changed category codes; non-trivial: special characters occur'),
    Sub('mathematics', maths, gen=math_gen, quick=3500, thorough=300000,
        rule='1-3 formulas of depth up to 4 in 14 kinds of mathematics in 30 places; non-trivial: 3 or more kinds of constructs'),
]
