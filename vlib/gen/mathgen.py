r"""Random formulas: (what the author writes, the same with user macros expanded).

The two differ only in user macros, blanks and comments.
"""
import re

SYMS = ('alpha beta gamma delta epsilon varepsilon zeta eta theta iota kappa lambda mu nu xi pi rho sigma tau upsilon phi varphi chi psi omega '
        'Gamma Delta Theta Lambda Xi Pi Sigma Upsilon Phi Psi Omega imath jmath ell wp Re Im aleph hbar partial infty prime emptyset nabla surd top bot angle forall exists '
        'pm mp times div ast star circ bullet cdot cap cup uplus sqcap vee wedge setminus wr diamond oplus ominus otimes oslash odot dagger amalg '
        'leq le prec preceq ll subset subseteq in vdash geq ge succ succeq gg supset supseteq ni dashv equiv sim simeq asymp approx cong neq ne doteq notin models perp mid parallel propto '
        'leftarrow Leftarrow rightarrow Rightarrow mapsto to uparrow longrightarrow iff '
        'ldots cdots vdots ddots dots sum prod coprod int oint bigcap bigcup bigvee bigoplus '
        'arccos sin cos tan log ln lim limsup max min sup inf det dim exp gcd hom ker Pr bmod '
        'lbrace rbrace lceil rceil lfloor rfloor langle rangle vert Vert backslash lnot neg quad qquad').split()
CHARS = list('abcdefgxyznkABCNRXYZ0123456789') + list('+-=<>*/,;:.!?|()[]') + ["'", '"', '@', '`', '~']
CSYM = ['\\{', '\\}', '\\|', '\\,', '\\;', '\\:', '\\!', '\\>', '\\ ', '\\%', '\\&', '\\#', '\\$', '\\_']
LEFT = ['(', '[', '\\{', '\\langle', '|', '\\|', '\\lfloor', '.', '<', '\\lbrace', '/', '\\vert']
RIGHT = [')', ']', '\\}', '\\rangle', '|', '\\|', '\\rceil', '.', '>', '\\rbrace', '\\uparrow']
ACC = 'hat check breve acute grave tilde bar vec dot ddot widehat widetilde overline underline overbrace underbrace mathrm mathit mathbf mathsf mathtt mathcal mathbb mathop mathbin phantom operatorname boldsymbol mathring'.split()
BOX1 = ['mbox', 'hbox', 'text', 'textrm', 'textbf', 'fbox', 'textit', 'emph']
BOX2 = ['\\makebox[2cm]', '\\framebox[2cm][l]', '\\raisebox{2pt}', '\\parbox{3cm}', '\\makebox', '\\framebox', '\\parbox[t]{2em}']

MACROS = [
    # name, definition, arity, body
    ('R', '\\newcommand{\\R}{\\mathbb{R}}', 0, '\\mathbb{R}'),
    ('norm', '\\newcommand\\norm[1]{\\left\\|#1\\right\\|}', 1, '\\left\\|#1\\right\\|'),
    ('pair', '\\def\\pair#1#2{(#1,#2)}', 2, '(#1,#2)'),
    ('swp', '\\newcommand{\\swp}[2]{#2_{#1}^{#2}}', 2, '#2_{#1}^{#2}'),
    ('eps', '\\let\\eps\\varepsilon', 0, '\\varepsilon'),
    ('fr', '\\newcommand{\\fr}[2]{\\frac{#1}{1+#2}}', 2, '\\frac{#1}{1+#2}'),
    ('rest', '\\newcommand\\rest[1]{\\mbox{ for $#1$}}', 1, '\\mbox{ for $#1$}'),
    ('vv', '\\def\\vv#1{\\begin{array}{c}#1\\\\ 0\\end{array}}', 1, '\\begin{array}{c}#1\\\\ 0\\end{array}'),
    ('nrm', '\\newcommand{\\nrm}[1]{\\norm{#1 }_{\\R}}', 1, '\\left\\|#1\\right\\|_{\\mathbb{R}}'),
    ('Hom', '\\DeclareMathOperator{\\Hom}{Hom}', 0, '\\operatorname{Hom}'),
    ('amax', '\\DeclareMathOperator*{\\amax}{arg\\,max}', 0, '\\operatorname*{arg\\,max}'),
]
OPTMAC = ('opt', '\\newcommand\\opt[2][k]{#2_{#1}}')
PRE = '\n'.join(m[1] for m in MACROS) + '\n' + OPTMAC[1] + '\n'

CW = re.compile(r'\\[A-Za-z]+$')


def cat(*parts):
    """concatenate TeX text, keeping the tokens apart"""
    out = ''
    for p in parts:
        if p and p[0].isalpha() and CW.search(out):
            out += ' '
        out += p
    return out


class Math:
    def __init__(self, d, ams=True, bad=(), depth=4, display=False):
        self.d, self.ams, self.bad, self.labels = d, ams, set(bad), set()
        self.inner = []                  # formulas in text boxes (expanded)
        self.depth = depth
        self.kinds = set()

    def ws(self, cr=True):
        """something that may stand between two tokens"""
        d = self.d
        if not d.bool(1, 7):
            return ''
        return d.choice([' ', '  ', '\n', ' %c } $ \\\n', '%\n   ', '\t'])

    def atom(self):
        d = self.d
        k = d.weighted([(8, 'c'), (5, 's'), (2, 'x')])
        if k == 'c':
            c = d.choice(CHARS)
            if c in self.bad:
                c = 'u'
            return c, c
        if k == 's':
            c = '\\' + d.choice(SYMS)
        else:
            c = d.choice(CSYM)
        return c, c

    def simple(self):
        """one token usable as an unbraced argument"""
        d = self.d
        c = d.choice(list('abxyz0123') + ['\\alpha', '\\pi', '\\infty', '\\Gamma'])
        return c, c

    def group(self, n):
        s, e = self.formula(n)
        return '{' + s + '}', '{' + e + '}'

    def arg(self, n):
        d = self.d
        if d.bool(1, 4):
            s, e = self.simple()
            return d.choice(['', '', ' ']) + s, e
        s, e = self.group(n)
        return d.choice(['', '', '', ' ', '\n']) + s, e

    def formula(self, n, lo=0, hi=4):
        d = self.d
        S, E = '', ''
        for i in range(d.int(lo, hi)):
            s, e = self.item(n)
            S, E = cat(S, self.ws(), s), cat(E, e)
        return S, E

    def nucleus(self, n):
        d = self.d
        if n <= 0:
            return self.atom()
        k = d.weighted([(4, 'atom'), (2, 'group'), (2, 'acc'), (2, 'frac')])
        if k == 'atom':
            c = d.choice(list('abxyzMN1') + ['\\sum', '\\int', '\\lim', '\\Phi', '\\max', ')', ']', '\\}'])
            return c, c
        if k == 'group':
            return self.group(n - 1)
        return self.item(n, k)

    def item(self, n, k=None):
        d = self.d
        if n <= 0:
            return self.atom()
        if k is None:
            k = d.weighted([(8, 'atom'), (6, 'script'), (4, 'frac'), (3, 'sqrt'), (4, 'lr'), (4, 'array'), (5, 'box'), (3, 'acc'), (2, 'group'), (2, 'over'),
                            (1, 'stack'), (2, 'big'), (1, 'not'), (1, 'space'), (5, 'macro'), (1, 'unknown'), (1, 'ensure'), (1, 'decl'), (1, 'substack')])
        self.kinds.add(k)
        if k == 'atom':
            return self.atom()
        if k == 'group':
            return self.group(n - 1)
        if k == 'script':
            s, e = self.nucleus(n)
            lim = d.choice(['', '', '', '', '\\limits', '\\nolimits'])
            s, e = cat(s, lim), cat(e, lim)
            pr = d.choice(['', '', '', "'", "''", "'''"])
            if "'" in self.bad:
                pr = ''
            for c in d.choice(['^', '_', '^_', '_^', "'", "'_", "'^", "_'"]):
                if c == "'":
                    s, e = s + pr, e + pr
                    continue
                a, b = self.arg(n - 1)
                w = d.choice(['', '', '', ' '])
                s, e = s + w + c + a, e + c + b
            return s, e
        if k == 'frac':
            name = d.choice(['frac', 'frac', 'dfrac', 'tfrac', 'binom', 'stackrel', 'cfrac']) if self.ams else d.choice(['frac', 'frac', 'stackrel'])
            a, b = self.arg(n - 1)
            p, q = self.arg(n - 1)
            return cat('\\' + name, a, p), cat('\\' + name, b, q)
        if k == 'sqrt':
            a, b = self.arg(n - 1)
            if d.bool():
                o, p = self.formula(n - 2, 0, 3)
                if '[' in o or ']' in o:
                    o, p = '{' + o + '}', '{' + p + '}'
                return '\\sqrt' + d.choice(['', ' ']) + '[' + o + ']' + a, '\\sqrt[' + p + ']' + b
            if b[:1] == '[':
                a, b = '{' + a + '}', '{' + b + '}'
            return cat('\\sqrt', a), cat('\\sqrt', b)
        if k == 'lr':
            s, e = self.formula(n - 1)
            l, r = d.choice(LEFT), d.choice(RIGHT)
            w = d.choice(['', '', ' '])
            m = ''
            if d.bool(1, 6):
                m = '\\middle|'
            return cat('\\left', w + l if l[0] != '\\' else l, s, m, '\\right', w + r, self.ws()), cat('\\left', l, e, m, '\\right', r)
        if k == 'big':
            x = '\\' + d.choice(['big', 'Big', 'bigl', 'Bigl', 'biggl', 'Biggl', 'bigr', 'Bigr', 'biggr', 'Biggr', 'bigg', 'Bigg', 'bigm', 'Bigm', 'biggm', 'Biggm'])
            y = d.choice(LEFT[:-4] + RIGHT[:-3])
            return cat(x, y), cat(x, y)
        if k == 'not':
            x = d.choice(['=', '\\in', '\\subset', '\\leq', '{=}'])
            return cat('\\not', x), cat('\\not', x)
        if k == 'space':
            x = d.choice(['\\hspace{1em}', '\\hspace*{2pt}', '\\quad', '\\,', '\\mathstrut', '\\displaystyle', '\\nonumber'][:-1])
            return x, x
        if k == 'decl':
            s, e = self.formula(n - 1)
            x = '\\' + d.choice(['rm', 'bf', 'it', 'cal', 'displaystyle', 'scriptstyle', 'textstyle', 'sf'])
            return '{' + cat(x, s) + '}', '{' + cat(x, e) + '}'
        if k == 'over':
            s, e = self.formula(n - 1)
            p, q = self.formula(n - 1)
            x = '\\' + d.choice(['over', 'choose', 'atop'])
            return '{' + cat(s, x, p) + '}', '{' + cat(e, x, q) + '}'
        if k == 'stack':
            a, b = self.group(n - 1)
            p, q = self.group(n - 1)
            x = d.choice(['overset', 'underset', 'stackrel']) if self.ams else 'stackrel'
            return '\\' + x + a + p, '\\' + x + b + q
        if k == 'substack':
            if not self.ams or 'row' in self.bad:
                return self.atom()
            a, b = self.formula(n - 1)
            p, q = self.formula(n - 1)
            if q[:1] in ('[', '*'):
                p, q = 'x' + p, 'x' + q
            return '\\sum_{\\substack{%s\\\\ %s}}' % (a, p), '\\sum_{\\substack{%s\\\\%s}}' % (b, q)
        if k == 'acc':
            x = '\\' + d.choice(ACC)
            if x in ('\\operatorname', '\\mathop', '\\mathbb', '\\boldsymbol', '\\mathbin', '\\phantom'):
                a, b = self.group(n - 1)
            else:
                a, b = self.arg(n - 1)
            if x == '\\operatorname' and d.bool(1, 3):
                x += '*'
            return cat(x, a), cat(x, b)
        if k == 'unknown':
            x = '\\' + d.choice(['xyzzy', 'DeltaFoo', 'mcr'])
            a, b = self.group(n - 1)
            p, q = d.choice([('', ''), ('', ''), self.group(n - 1)])
            return x + a + p, x + b + q
        if k == 'ensure':
            a, b = self.formula(n - 1)
            return '\\ensuremath{' + a + '}', b
        if k == 'macro':
            if d.bool(1, 6):
                a, b = self.formula(n - 1)
                o, p = self.formula(n - 2, 0, 2)
                o = '{' + o + '}'                # TeX takes these braces off
                return d.choice([('\\opt{' + a + '}', b + '_{k}'), ('\\opt[' + o + ']{' + a + '}', b + '_{' + p + '}')])
            name, _, ar, body = d.choice(MACROS if self.ams else MACROS[:-2])
            s = '\\' + name
            args = []
            for i in range(ar):
                if d.bool(1, 5):
                    x, y = self.simple()
                    s = cat(s, x)
                else:
                    x, y = self.group(n - 1)
                    if name == 'rest' and not tokens(y[1:-1]):
                        x = y = '{u}'
                    s, y = s + x, y[1:-1]
                args.append(y)
            if '#1$' in body:
                self.inner.append(args[0])
            e = ''
            for piece in re.split(r'(#\d)', body):
                e = cat(e, args[int(piece[1]) - 1] if piece[:1] == '#' else piece)
            if name == 'vv' and args[0][:1] in ('[', '*'):
                pass
            return s, e
        if k == 'box':
            return self.box(n)
        if k == 'array':
            return self.array(n)
        raise AssertionError(k)

    def box(self, n):
        d = self.d
        b = d.choice(BOX1 + BOX2)
        if b[0] != '\\':
            b = '\\' + b
        S = E = ''
        for _ in range(d.int(0, 3)):
            k = d.weighted([(4, 'w'), (4, 'm'), (1, 'f'), (1, 'p')])
            if k == 'w':
                s = e = d.choice([' if ', 'for all', ' x ', 'or', '. ', "it's", ' -- ', "``q''", ' 1 ', ', ', '[x]', '(y)', 'a<b', 'a>b'])
            elif k == 'f':
                c = d.choice(['emph', 'textbf', 'textit'])
                s = e = '\\' + c + '{in}'
                if d.bool():
                    x, y = self.formula(n - 2)
                    s, e = '\\%s{in $%s$}' % (c, x + 'u'), '\\%s{in $%s$}' % (c, cat(y, 'u'))
                    if CW.search(x):
                        s = '\\%s{in $%s$}' % (c, x + ' u')
                    self.inner.append(cat(y, 'u'))
            elif k == 'p':
                s = e = d.choice(['\\ldots', '\\%', '\\&', '\\ ', '~', '\\dag', '\\S', "\\'e"])
            else:
                x, y = self.formula(n - 1, 1)
                self.inner.append(y)
                s = d.choice(['$%s$', '$%s$', '\\(%s\\)', '\\ensuremath{%s}', '\\begin{math}%s\\end{math}']) % x
                e = '$%s$' % y
                if s[:4] == '\\ens':
                    e = y
            S, E = cat(S, s), cat(E, e)
        w = d.choice(['', '', ' '])
        self.labels.add('box')
        return b + w + '{' + S + '}', b + '{' + E + '}'

    def array(self, n):
        d = self.d
        nc, nr = d.int(1, 3), d.int(1, 3)
        names = ['array', 'array', 'array']
        if self.ams:
            names += ['pmatrix', 'bmatrix', 'matrix', 'vmatrix', 'Vmatrix', 'Bmatrix', 'smallmatrix', 'cases', 'aligned', 'split']
        name = d.choice(names)
        head = ''
        if name == 'array':
            spec = ''.join(d.choice(['c', 'l', 'r', 'c|', '|l', '@{}c', 'r@{ : }', 'p{1cm}', ' c ']) for _ in range(nc))
            if d.bool(1, 8):
                spec = '*{%d}{c}' % nc
            head = d.choice(['', '', '[t]', '[b]']) + '{' + spec + '}'
        rows = []
        for r in range(nr):
            S = E = ''
            for c in range(d.int(1, nc)):
                s, e = self.formula(n - 1, 0, 3)
                if c == 0 and e[:1] in ('[', '*'):
                    s, e = 'u' + s, 'u' + e
                if name == 'array' and c == 0 and d.bool(1, 10):
                    s, e = '\\multicolumn{1}{r|}{' + s + '}', '\\multicolumn{1}{r|}{' + e + '}'
                if c:
                    S, E = S + self.ws() + '&' + self.ws(), E + '&'
                S, E = cat(S, s), cat(E, e)
            if name == 'array' and d.bool(1, 5):
                h = d.choice(['\\hline', '\\hline\\hline', '\\cline{1-1}', '\\hline '])
                S, E = cat(h, S), cat(h, E)
                self.labels.add('rules')
            rows.append((S, E))
        S, E = rows[0]
        for s, e in rows[1:]:
            sep = d.choice(['\\\\', '\\\\', '\\\\', '\\\\[2pt]', '\\\\*', '\\\\*[1ex]'])
            S, E = S + self.ws() + sep + self.ws() + s, E + sep + e
        tail = d.choice(['', '', '', '\\\\', '\\\\\n', '\\\\\\hline']) if name == 'array' else d.choice(['', '', '', '\\\\'])
        self.labels.add(name)
        return '\\begin{%s}%s%s\\end{%s}' % (name, head, S + self.ws() + tail, name), '\\begin{%s}%s%s\\end{%s}' % (name, head, E + tail, name)


TOKEN = re.compile(r'\\([A-Za-z]+|.)|\n[ \t]*\n\s*|\s+|.', re.S)
DELIMS = {'\\left', '\\right', '\\middle', '\\big', '\\Big', '\\bigl', '\\Bigl', '\\biggl', '\\Biggl', '\\bigr', '\\Bigr', '\\biggr', '\\Biggr', '\\bigg', '\\Bigg', '\\bigm', '\\Bigm', '\\biggm', '\\Biggm'}
SAME = {'\\lt': '<', '\\gt': '>'}


def tokens(s):
    """the tokens of TeX text without comments; blanks aside"""
    out = []
    for m in TOKEN.finditer(s):
        t = m.group()
        if t.isspace() and t[0] != '\\':
            if t.count('\n') > 1:
                out.append('\\par')
            continue
        t = SAME.get(t, t)
        if t in '<>' and out and out[-1] in DELIMS:
            t = {'<': '\\langle', '>': '\\rangle'}[t]
        out.append(t)
    return out
