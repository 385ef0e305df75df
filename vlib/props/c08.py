"""C08: counters and automatic numbers follow LaTeX's numbering rules."""
import re
from ..core import Sub, Violation, Skip, require
from .. import sut
from plasTeX.DOM import Node
from plasTeX.Config import defaultConfig
import plasTeX

TECHNIQUE = "generated documents of numbered constructs and counter commands against a reference model of LaTeX's counters (reset hierarchy, formats, step points); exhaustive enumeration of the representations"
LEVEL = "random + exhaustive (representations)"
NOTE = "The number of \\part and of labelled lists other than enumerate is not compared; enumerate items are compared by position and counter value."

ASSUMPTIONS = [
    'numbers are compared as text; the format of \\part and of enumerate labels (a), i. is presentation and not compared',
    'the numbering depth is the document option sec-num-depth (0..6); sections deeper than it neither print nor step, as in LaTeX',
    'counters within equation only together with numbered equations (LaTeX resets them at unnumbered ones too)',
    'equation arrays do not end with an empty row; at most 4 nested enumerate environments',
    '\\Alph, \\alph and \\Roman of values outside their range are not judged',
    '\\nonumber in equation suppresses its number (amsmath)',
]

LEVELS = {'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}
SECS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'],
        'book': ['chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']}
ENUM = ['enumi', 'enumii', 'enumiii', 'enumiv']
ROMAN = [(1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')]


def roman(n):
    s = ''
    for v, r in ROMAN:
        while n >= v:
            s += r
            n -= v
    return s


def represent(how, n):
    if how == 'arabic':
        return str(n)
    if how in ('Roman', 'roman'):
        if not 1 <= n <= 4999:
            raise Skip('roman of %d' % n)
        r = roman(n)
    else:
        if not 1 <= n <= 26:
            raise Skip('alph of %d' % n)
        r = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[n - 1]
    return r if how[0].isupper() else r.lower()


class Model:
    """LaTeX's counters"""

    def __init__(self, cls):
        self.v, self.within, self.the = {}, {}, {}
        chain = SECS[cls]
        top = None
        for s in chain:
            self.new(s, top, ([['the', top], '.'] if top else []) + [['arabic', s]])
            top = s
        for f in ('equation', 'figure', 'table'):
            if cls == 'book':
                self.new(f, 'chapter', [['thechapter?'], ['arabic', f]])
            else:
                self.new(f, None, [['arabic', f]])
        for e in ENUM:
            self.new(e, None, [['arabic', e]])

    def new(self, name, within=None, fmt=None):
        self.v[name], self.within[name] = 0, within
        self.the[name] = fmt or [['arabic', name]]

    def step(self, name):
        self.v[name] += 1
        self.reset(name)

    def reset(self, name):
        for c, w in self.within.items():
            if w == name:
                self.v[c] = 0
                self.reset(c)

    def format(self, name):
        out = ''
        for p in self.the[name]:
            if isinstance(p, str):
                out += p
            elif p[0] == 'the':
                out += self.format(p[1])
            elif p[0] == 'thechapter?':
                if self.v['chapter'] > 0:
                    out += self.format('chapter') + '.'
                elif self.v['chapter'] or self.the['chapter'] != [['arabic', 'chapter']]:
                    raise Skip('number before the first chapter')
            else:
                out += represent(p[0], self.v[p[1]])
        return out


class Doc:
    """emit the source of an abstract document, and what is numbered how"""

    def __init__(self, ast):
        self.cls, self.depth, self.ams, self.amsthm, counters, theorems, body = ast
        self.m = Model(self.cls)
        self.out, self.n = [], 0
        self.expect = []        # (marker, kind, number or None)
        self.prints = []        # (marker, text)
        self.enumdepth = 0
        self.labels = set()
        S = self.out.append
        S('\\documentclass{%s}\n' % self.cls)
        if self.ams:
            S('\\usepackage{amsmath}\n')
        if self.amsthm:
            S('\\usepackage{amsthm}\n')
        for name, within in counters:
            S('\\newcounter{%s}%s\n' % (name, '[%s]' % within if within else ''))
            self.m.new(name, within)
        self.thms = {}
        for name, how, arg in theorems:
            if how == 'own':
                S('\\newtheorem{%s}{Thm}\n' % name)
                self.m.new(name)
                self.thms[name] = name
            elif how == 'within':
                S('\\newtheorem{%s}{Thm}[%s]\n' % (name, arg))
                self.m.new(name, arg, [['the', arg], '.', ['arabic', name]])
                self.thms[name] = name
            elif how == 'shared':
                S('\\newtheorem{%s}[%s]{Thm}\n' % (name, arg))
                self.thms[name] = arg
            else:
                S('\\newtheorem*{%s}{Thm}\n' % name)
                self.thms[name] = None
            self.labels.add('theorem ' + how)
        S('\\begin{document}\n')
        self.blocks(body)
        S('\\end{document}\n')
        self.src = ''.join(self.out)

    def mark(self):
        i = self.n
        self.n += 1
        s = ''
        for _ in range(3):
            s = 'abcdefghijklmnopqrstuvwxy'[i % 25] + s
            i //= 25
        return 'Q' + s + 'Z'

    def blocks(self, bs):
        for b in bs:
            self.block(b)

    def text(self, b):
        """a printed number"""
        how, c = b
        try:
            self.m.format(c) if how == 'the' else represent(how, self.m.v[c])
        except Skip:
            how = 'arabic'
        self.labels.add('print ' + ('the' if how == 'the' else how))
        mk = self.mark()
        if how == 'the':
            self.out.append('%s(\\the%s)' % (mk, c))
            self.prints.append((mk, self.m.format(c)))
        else:
            self.out.append('%s(\\%s{%s})' % (mk, how, c))
            self.prints.append((mk, represent(how, self.m.v[c])))

    def block(self, b):
        S, m, k = self.out.append, self.m, b[0]
        self.labels.add(k if k not in ('eq', 'rows', 'float', 'enum', 'list') else '%s %s' % (k, b[1] if k != 'enum' else ''))
        if k == 'p':
            S('%s\n\n' % self.mark())
        elif k == 'print':
            self.text(b[1:])
            S('\n\n')
        elif k == 'sec':
            kind, star, pr = b[1:4]
            num = None
            if not star and LEVELS[kind] <= self.depth:
                m.step(kind)
                num = m.format(kind)
            if star:
                self.labels.add('starred')
            elif num is None:
                self.labels.add('deeper than the numbering depth')
            mk = self.mark()
            self.expect.append((mk, kind, num))
            S('\\%s%s{%s ' % (kind, '*' if star else '', mk))
            if pr:
                self.text(pr)
            S('}\n')
        elif k == 'part':
            S('\\part{%s}\n' % self.mark())
        elif k == 'eq':
            kind = b[1]
            mk = self.mark()
            if kind in ('equation', 'split', 'cases', 'aligned', 'array'):
                m.step('equation')
                self.expect.append((mk, 'equation', m.format('equation')))
                inner = {'equation': 'x', 'split': '\\begin{split}a&b\\\\c&d\\end{split}', 'cases': '\\begin{cases}a&b\\\\c&d\\end{cases}',
                         'aligned': '\\begin{aligned}a&b\\\\c&d\\end{aligned}', 'array': '\\begin{array}{l}a\\\\b\\end{array}'}[kind]
                S('\\begin{equation}%s %s\\end{equation}\n' % (mk, inner))
            elif kind == 'nonumber':
                self.expect.append((mk, 'equation', None))
                S('\\begin{equation}%s\\nonumber\\end{equation}\n' % mk)
            elif kind == 'equation*':
                S('\\begin{equation*}%s\\end{equation*}\n' % mk)
            else:
                S('\\[%s\\]\n' % mk)
        elif k == 'rows':
            env, rows = b[1:]
            S('\\begin{%s}' % env)
            for i, r in enumerate(rows):
                mk = self.mark()
                if r[0] or env.endswith('*'):
                    num = None
                else:
                    m.step('equation')
                    num = m.format('equation')
                self.expect.append((mk, 'ArrayRow', num))
                amp = '&' if 'gather' not in env else ''
                body = [mk, amp, '=', amp if 'eqn' in env else '', r[1]]
                no = {0: '', 1: '\\nonumber', 2: '\\nonumber\\nonumber', 3: '\\notag'}[r[0]]
                body.insert({0: 5, 1: 0, 2: 2}[r[2]], no + ' ' if no else '')
                S(('\\\\ ' if i else '') + ''.join(body))
                if r[0]:
                    self.labels.add('row without number')
            S('\\end{%s}\n' % env)
        elif k == 'float':
            kind, star, caps = b[1:]
            S('\\begin{%s%s}' % (kind, star))
            for cs, toc, pr in caps:
                mk = self.mark()
                num = None
                if not cs:
                    m.step(kind)
                    num = m.format(kind)
                self.expect.append((mk, 'caption', num))
                S('\\caption%s%s{%s ' % (cs, toc, mk))
                if pr:
                    self.text(pr)
                S('}')
            S('\\end{%s%s}\n' % (kind, star))
        elif k == 'thm':
            name, inner = b[1:]
            if name not in self.thms:
                return
            c = self.thms[name]
            num = None
            if c:
                m.step(c)
                num = m.format(c)
            mk = self.mark()
            self.expect.append((mk, 'thmenv', num))
            S('\\begin{%s}%s ' % (name, mk))
            self.blocks(inner)
            S('\\end{%s}\n' % name)
        elif k == 'enum':
            if self.enumdepth == 4:
                return
            c = ENUM[self.enumdepth]
            self.enumdepth += 1
            m.v[c] = 0
            S('\\begin{enumerate}')
            for lab, set_, inner in b[1]:
                if set_ is not None:
                    S('\\setcounter{%s}{%d}' % (c, set_))
                    m.v[c] = set_
                    self.labels.add('set in a list')
                mk = self.mark()
                if lab:
                    S('\\item[%s] %s ' % (['L', '', '{]}', '(a)'][lab % 4], mk))
                    self.labels.add('labelled item')
                else:
                    m.step(c)
                    self.expect.append((mk, 'item', m.v[c]))
                    S('\\item %s(\\arabic{%s}) ' % (mk, c))
                    self.prints.append((mk, str(m.v[c])))
                self.blocks(inner)
            S('\\end{enumerate}\n')
            self.enumdepth -= 1
        elif k == 'list':
            S('\\begin{%s}' % b[1])
            for inner in b[2]:
                S('\\item%s %s ' % ('[T]' if b[1] == 'description' else '', self.mark()))
                self.blocks(inner)
            S('\\end{%s}\n' % b[1])
        elif k == 'env':
            S('\\begin{%s}' % b[1])
            self.blocks(b[2])
            S('\\end{%s}\n' % b[1])
        elif k == 'group':
            S('{\\bfseries ')
            self.blocks(b[1])
            S('}\n\n')
        elif k in ('step', 'refstep'):
            S('\\%scounter{%s}\n' % (k, b[1]))
            m.step(b[1])
        elif k == 'set':
            S('\\setcounter{%s}{%s}\n' % (b[1], self.number(b[2])))
            m.v[b[1]] = self.number(b[2], True)
        elif k == 'add':
            S('\\addtocounter{%s}{%s}\n' % (b[1], self.number(b[2])))
            m.v[b[1]] += self.number(b[2], True)
        elif k == 'renew':
            c, pieces = b[1:]
            if pieces[-1][0] != 'arabic' and not 0 <= m.v[c] < 8:
                pieces = pieces[:-1] + [['arabic', c]]
            src = ''
            for p in pieces:
                src += p if isinstance(p, str) else '\\the%s{}' % p[1] if p[0] == 'the' else '\\%s{%s}' % tuple(p)
            S('\\renewcommand{\\the%s}{%s}\n' % (c, src))
            m.the[c] = pieces
        elif k == 'appendix':
            S('\\appendix\n')
            a, s = SECS[self.cls][:2]
            m.v[a] = m.v[s] = 0
            m.the[a] = [['Alph', a]]
        else:
            raise AssertionError(k)

    def number(self, x, val=False):
        if isinstance(x, list):
            return self.m.v[x[1]] if val else '\\value{%s}' % x[1]
        return x


def cfg(depth):
    c = defaultConfig()
    c['document']['sec-num-depth'] = depth
    return c


def first_marker(s):
    r = re.search('Q[a-y]{3}Z', s)
    return r and r.group(0)


def observe(doc):
    """marker -> (kind, node)"""
    out = {}

    def walk(n):
        if n.nodeType != Node.ELEMENT_NODE and n.nodeType not in (Node.DOCUMENT_NODE, Node.DOCUMENT_FRAGMENT_NODE):
            return
        nm = n.nodeName
        if nm in LEVELS:
            mk = first_marker(n.attributes['title'].textContent)
        elif nm in ('equation', 'ArrayRow', 'caption', 'thmenv'):
            mk = first_marker(n.textContent)
        elif nm == 'item':
            mk = first_marker(n.textContent)
        else:
            mk = None
        if mk:
            out.setdefault((mk, nm), n)
        for v in (n.attributes or {}).values():
            if isinstance(v, Node) and v is not n:
                if not isinstance(v, plasTeX.DOM.Text):
                    walk(v)
        for x in n.childNodes:
            if not isinstance(x, plasTeX.DOM.Text):
                walk(x)
    walk(doc)
    return out


def full_text(n):
    if isinstance(n, plasTeX.DOM.Text):
        return str.__str__(n)
    out = ''
    kids = n.childNodes
    for v in (n.attributes or {}).values() if n.nodeType == Node.ELEMENT_NODE else ():
        if isinstance(v, Node) and v is not kids:
            out += full_text(v)
    return out + ''.join(full_text(x) for x in kids)


def documents(ast):
    d = Doc(ast)
    doc, tex = sut.parse(d.src, cfg(d.depth))
    seen = observe(doc)
    for mk, kind, num in d.expect:
        require((mk, kind) in seen, 'no %s with %s in\n%s', kind, mk, d.src)
        n = seen[mk, kind]
        if kind == 'item':
            require(n.position == num, 'item %s has the position %r, should be %r in\n%s', mk, n.position, num, d.src)
            continue
        got = n.ref
        got = None if got is None else got if isinstance(got, str) else got.textContent
        require((got or None) == num, '%s %s has the number %r, should be %r in\n%s', kind, mk, got, num, d.src)
    text = full_text(doc)
    for mk, want in d.prints:
        r = re.search(mk + r'\((.*?)\)', text)
        require(r, '%s(...) is missing from\n%s', mk, d.src)
        require(r.group(1) == want, '%s(...) prints %r, should be %r in\n%s', mk, r.group(1), want, d.src)
    cs = doc.context.counters
    for c, v in d.m.v.items():
        if c not in ENUM:
            require(cs[c].value == v, 'at the end the counter %s is %r, should be %r in\n%s', c, cs[c].value, v, d.src)
    nums = [e for e in d.expect if e[2] is not None]
    return {'labels': sorted(d.labels) + [d.cls], 'nontrivial': len(nums) >= 4 and len({e[1] for e in nums}) >= 2, 'sample': d.src}


# ----------------------------------------------------------------- generator

REPS = ['arabic', 'arabic', 'Roman', 'roman', 'Alph', 'alph']


class Gen:
    def __init__(self, d):
        self.d = d

    def document(self):
        d = self.d
        self.cls = d.choice(['article', 'book'])
        self.ams = d.int(0, 2) == 2
        self.amsthm = d.int(0, 3) == 3
        secs = SECS[self.cls]
        # counters within equation: LaTeX also resets them at equations without a number, not tested
        self.eqparent = d.int(0, 4) == 4
        eq = ['equation'] if self.eqparent else []
        self.counters = secs[:3] + ['equation', 'figure', 'table']
        user = []
        for name in ['foo', 'bar', 'baz'][:d.int(0, 3)]:
            user.append([name, d.choice([None, secs[0], secs[1], secs[1]] + eq + [u[0] for u in user])])
            self.counters.append(name)
        thms = []
        own = []
        for name in ['thm', 'lem', 'defi', 'rem'][:d.int(0, 4)]:
            how = d.weighted([(2, 'own'), (3, 'within'), (3 if own else 0, 'shared'), (1, 'star')])
            arg = None
            if how == 'within':
                arg = d.choice([secs[0], secs[1], secs[1]] + eq + own + [u[0] for u in user])
            elif how == 'shared':
                arg = d.choice(own + ['equation'])
            if how in ('own', 'within'):
                own.append(name)
            thms.append([name, how, arg])
        self.counters += own
        self.thms = [t[0] for t in thms]
        self.budget = d.choice([6, 12, 30, 50])
        self.appendix = d.int(0, 3) == 3
        body = []
        if self.cls == 'book' and d.int(0, 4):
            body.append(self.sec(0, False))
        n = self.budget
        while self.budget > 0:
            body += self.top()
            self.budget -= 1
        return [self.cls, d.weighted([(4, 2), (2, 3), (1, 0), (1, 1), (1, 5)]), self.ams, self.amsthm, user, thms, body]

    def sec(self, i=None, star=None):
        d = self.d
        secs = SECS[self.cls]
        if i is None:
            i = d.weighted([(3, 0), (5, 1), (3, 2), (2, 3), (1, 4)])
        return ['sec', secs[i], d.int(0, 5) == 5 if star is None else star, self.pr() if d.int(0, 5) == 5 else None]

    def pr(self):
        d = self.d
        return [d.weighted([(4, 'the'), (2, 'arabic'), (1, 'Roman'), (1, 'roman'), (1, 'Alph'), (1, 'alph')]), d.choice(self.counters)]

    def top(self):
        d = self.d
        z = d.weighted([(8, 'sec'), (12, 'block'), (1, 'renew'), (1, 'part'), (1, 'appendix')])
        if z == 'sec':
            return [self.sec()]
        if z == 'renew':
            c = d.choice(self.counters)
            order = self.counters.index(c)
            pieces = []
            for _ in range(d.int(1, 2)):
                pieces.append(d.choice(['X', '+', ':', '.']))
                y = d.int(0, 2)
                if y == 0:
                    # no cycles: sections refer to higher ones only
                    o = d.choice(SECS[self.cls][:3])
                    if c not in SECS[self.cls] or SECS[self.cls].index(o) < SECS[self.cls].index(c):
                        pieces.append(['the', o])
            pieces.append([d.choice(REPS), c])
            out = [['renew', c, pieces]]
            if c in SECS[self.cls]:
                out.append(self.sec(SECS[self.cls].index(c), False))
            return out
        if z == 'part':
            return [['part']]
        if z == 'appendix':
            if not self.appendix:
                return []
            self.appendix = False
            return [['appendix'], self.sec(0, False)]
        return [self.block(3)]

    def blocks(self, k, a, b):
        out = []
        for _ in range(self.d.int(a, b)):
            if self.budget > 0:
                self.budget -= 1
                out.append(self.block(k))
        return out

    def block(self, k):
        d = self.d
        z = d.weighted([(5, 'eq'), (4, 'rows'), (4, 'float'), (6, 'thm'), (3, 'enum'), (1, 'list'), (4, 'count'), (4, 'print'), (1, 'env'), (1, 'group'), (1, 'p')])
        if z == 'eq':
            return ['eq', d.choice(['equation', 'equation', 'equation'] + ([] if self.eqparent else ['nonumber']) + ['displaymath', 'array'] + (['equation*', 'split', 'cases', 'aligned'] if self.ams else []))]
        if z == 'rows':
            env = d.choice(['eqnarray', 'eqnarray', 'eqnarray*'] + (['align', 'align*', 'gather', 'gather*', 'flalign'] if self.ams else []))
            if self.eqparent:
                env = env.rstrip('*')
            return ['rows', env, [[0 if self.eqparent else d.weighted([(4, 0), (2, 1), (1, 2)] + ([(1, 3)] if self.ams else [])),
                                   d.weighted([(6, 'x'), (1, '\\begin{array}{l}a\\\\b\\end{array}'), (1, '{x}')] + ([(1, '\\begin{cases}a\\\\b\\end{cases}')] if self.ams else [])),
                                   d.int(0, 2)] for _ in range(d.int(1, 4))]]
        if z == 'float':
            return ['float', d.choice(['figure', 'table']), d.choice(['', '', '*']),
                    [[d.weighted([(5, ''), (1, '*')]), d.weighted([(3, ''), (1, '[t]')]), self.pr() if d.int(0, 4) == 4 else None] for _ in range(d.weighted([(4, 1), (1, 0), (2, 2), (1, 3)]))]]
        if z == 'thm' and self.thms:
            return ['thm', d.choice(self.thms), self.blocks(k - 1, 0, 2) if k else []]
        if z == 'enum' and k:
            return ['enum', [[d.weighted([(16, 0), (1, 1), (1, 2), (1, 3), (1, 4)]), d.int(0, 9) if d.int(0, 7) == 7 else None, self.blocks(k - 1, 0, 2)] for _ in range(d.int(1, 4))]]
        if z == 'list' and k:
            return ['list', d.choice(['itemize', 'description', 'trivlist']), [self.blocks(k - 1, 0, 2) for _ in range(d.int(1, 3))]]
        if z == 'env' and k:
            return ['env', d.choice(['quote', 'center', 'small']), self.blocks(k - 1, 1, 2)]
        if z == 'group' and k:
            return ['group', self.blocks(k - 1, 1, 2)]
        if z == 'count':
            c = d.choice(self.counters)
            y = d.int(0, 4)
            if y <= 1:
                return [d.choice(['step', 'step', 'refstep']), c]
            v = ['value', d.choice(self.counters)] if d.int(0, 3) == 3 else d.int(0, 12)
            if y <= 3:
                return ['set', c, v]
            return ['add', c, v if isinstance(v, list) else v - 3]
        if z == 'print':
            return ['print'] + self.pr()
        return ['p']


def gen(d):
    return Gen(d).document()


# ---------------------------------------------------------------- nested lists

def list_cases(tier):
    """every nesting of lists to depth 4 (thorough 5), with an item before and after the inner list"""
    import itertools
    for depth in range(1, 5 if tier == 'quick' else 7):
        for ks in itertools.product(['enumerate', 'itemize', 'description'], repeat=depth):
            if sum(k == 'enumerate' for k in ks) <= 4 and sum(k == 'itemize' for k in ks) <= 4:
                yield list(ks)


def lists(ks):
    def build(i):
        if i == len(ks):
            return []
        if ks[i] == 'enumerate':
            return [['enum', [[False, None, []], [False, None, build(i + 1)], [1, None, []], [False, None, build(i + 1) if i else []], [2, None, []], [False, 7, []]]]]
        return [['list', ks[i], [build(i + 1), [], build(i + 1) if i else []]]]
    return dict(documents(['article', 2, False, False, [], [], build(0) + build(0)]), nontrivial='enumerate' in ks)


# ------------------------------------------------------------- representations

def rep_cases(tier):
    for lo in range(1, 5000, 100):
        yield ['roman', lo, min(lo + 99, 4999)]
    for v in range(1, 27):
        yield ['alph', v, v]


def reps(case):
    kind, lo, hi = case
    names = ['arabic', 'Roman', 'roman'] + (['Alph', 'alph'] if kind == 'alph' else [])
    src = ['\\documentclass{article}\\newcounter{foo}\\begin{document}']
    want = []
    for v in range(lo, hi + 1):
        src.append('\\setcounter{foo}{%d}' % v if v % 3 else '\\setcounter{foo}{%d}\\stepcounter{foo}' % (v - 1))
        for nm in names:
            src.append('\\%s{foo};' % nm)
            want.append(represent(nm, v))
            if nm != 'arabic' or v == lo:
                src.append('\\renewcommand{\\thefoo}{\\%s{foo}}\\thefoo;' % nm)
                want.append(represent(nm, v))
    doc, tex = sut.parse('\n'.join(src) + '\\end{document}')
    got = sut.squeeze(doc.textContent).split(';')[:-1]
    for g, w in zip(got, want):
        require(g == w, 'printed %r, should be %r (values %d to %d)', g, w, lo, hi)
    require(len(got) == len(want), 'printed %d numbers, should be %d', len(got), len(want))
    c = doc.context.counters['foo']
    for v in range(lo, hi + 1):
        c.setcounter(v)
        for nm in names:
            require(getattr(c, nm) == represent(nm, v), 'Counter(%d).%s is %r, should be %r', v, nm, getattr(c, nm), represent(nm, v))
    return {'labels': [kind], 'nontrivial': True}


SUBS = [
    Sub('representations', reps, cases=rep_cases,
        rule='all values 1..4999 as arabic, Roman and roman, 1..26 as Alph and alph, printed and through \\thefoo; 100 values a document'),
    Sub('lists', lists, cases=list_cases,
        rule='every nesting of enumerate, itemize and description to depth 4 (thorough 6)'),
    Sub('documents', documents, gen=gen, quick=2500, thorough=200000,
        rule='documents of numbered constructs; non-trivial: 4 or more numbers of 2 or more kinds of objects'),
]
