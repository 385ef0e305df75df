"""C05: arguments are delimited, typed and bound as the signature declares; numbers denote TeX's values."""
import re
from fractions import Fraction as F
from ..core import Sub, Violation, Skip, require
from .. import sut
import plasTeX

TECHNIQUE = "property-based testing: random signatures x conforming calls x contexts, random numeric literals x following text, against values known by construction (exact rational arithmetic)"
LEVEL = "random + enumerated"
NOTE = "Values are compared with exact rational TeX arithmetic within TeX's own rounding; em and ex are font dependent and compared only as positive multiples."

ASSUMPTIONS = [
    'em and ex depend on fonts, which plasTeX does not have: only proportionality to the factor is demanded',
    'TeX rounds factors to 2^-16: dimensions agree within that rounding plus 2sp',
    'plasTeX reads "7\\register" as a product where TeX wants an integer (pinned by its unit tests): an integer constant is never directly followed by a register',
    'a conforming call: the delimiter of an optional argument occurs inside it only nested or within braces; unbraced mandatory arguments are single tokens',
    'spaces before an absent trailing optional argument may be skipped, as LaTeX does',
]

# ------------------------------------------------------------------------------------ numbers
UNITS = {'pt': F(65536), 'pc': F(12 * 65536), 'in': F(7227, 100) * 65536, 'bp': F(7227, 7200) * 65536, 'cm': F(7227, 254) * 65536,
         'mm': F(7227, 2540) * 65536, 'dd': F(1238, 1157) * 65536, 'cc': F(12 * 1238, 1157) * 65536, 'sp': F(1)}
FONT = ['em', 'ex']
PRE = r'''\newcount\qn \qn=37\relax\newcount\qm \qm=-5\relax\newdimen\qd \qd=12.5pt\relax\newdimen\qe \qe=-3pt\relax
\newskip\qs \qs=7pt plus 2fil minus 1pt\relax\newskip\qk \qk=-2.5pt plus 3pt\relax\newmuskip\qu \qu=3mu plus 1mu\relax
\newlength{\ql}\ql=4pt\relax \newcounter{qc}\setcounter{qc}{42}\newcounter{qb}\setcounter{qb}{-7}%
\def\mZ{Z}\def\mD{34}\def\mE{}\def\mM{-}\def\mP{pt}\def\mL{plus}\def\mF{1.5}\def\mI#1{#1}\def\mB{b\mZ b}\def\mS{ }%
'''
INTREG = [('\\qn', 37), ('\\qm', -5), ('\\tolerance', 200)]
DIMREG = [('\\qd', F(25, 2) * 65536), ('\\qe', F(-3) * 65536), ('\\ql', F(4) * 65536)]
PTF = F(65536)
# name: (natural, stretch, shrink); stretch = (order, value)
SKIPREG = [('\\qs', 7 * PTF, (1, F(2)), (0, PTF)), ('\\qk', F(-5, 2) * PTF, (0, 3 * PTF), None)]
VALUES = [('\\value{qc}', 42), ('\\value{qb}', -7)]


class Lit:
    """src text; after(): what may follow"""
    def __init__(self, d):
        self.d, self.s = d, ''
        self.labels = set()
        self.end = 'any'       # any | nodigit | octal | hex | cs (ends in a control word) | kw

    def sp(self):
        d = self.d
        if d.bool(1, 4):
            self.s += d.choice([' ', ' ', '\n', '  ', '\\mE '])
            return
        if d.bool(1, 12):
            self.s += '\\mE{}'.replace('{}', '') + ' '

    def signs(self):
        d = self.d
        sign = 1
        for _ in range(d.weighted([(5, 0), (3, 1), (1, 2), (1, 3)])):
            c = d.choice(['-', '+', '\\mM '])
            if c != '+':
                sign = -sign
            self.s += c
            if d.bool(1, 4):
                self.s += ' '
            self.labels.add('signs')
        return sign

    def digits(self, n):
        """append the digits n, possibly partly produced by macros"""
        d = self.d
        if d.bool(1, 10):
            k = d.int(0, len(n))
            self.s += n[:k] + '\\mI{' + n[k:] + '}'
            self.labels.add('digits from a macro')
        else:
            self.s += n

    def kw(self, w):
        d = self.d
        out = ''
        for c in w:
            out += c.upper() if d.bool(1, 8) else c
        if w == 'pt' and d.bool(1, 10):
            out = '\\mP '
            self.labels.add('keyword from a macro')
        if w == 'plus' and d.bool(1, 10):
            out = '\\mL '
            self.labels.add('keyword from a macro')
        if re.search(r'\\[a-zA-Z]+$', self.s) and out[:1].isalpha():
            self.s += ' '
        self.s += out

    def int(self):
        d = self.d
        sign = self.signs()
        f = d.weighted([(5, 'dec'), (2, 'oct'), (2, 'hex'), (3, 'char'), (2, 'reg'), (1, 'dim'), (1, 'value')])
        self.labels.add(f)
        if f == 'dec':
            n = str(d.weighted([(4, d.int(0, 9)), (4, d.int(0, 999)), (1, 2147483647), (1, d.int(0, 2 ** 31 - 1))]))
            if d.bool(1, 6):
                n = '0' * d.int(1, 3) + n
            self.digits(n)
            self.end = 'nodigit'
            return sign * int(n)
        if f == 'oct':
            n = '%o' % d.weighted([(3, d.int(0, 511)), (1, d.int(0, 2 ** 31 - 1))])
            self.s += "'"
            self.digits(n)
            self.end = 'octal'
            return sign * int(n, 8)
        if f == 'hex':
            n = '%X' % d.weighted([(3, d.int(0, 511)), (1, d.int(0, 2 ** 31 - 1))])
            self.s += '"'
            self.digits(n)
            self.end = 'hex'
            return sign * int(n, 16)
        if f == 'char':
            c = d.choice(['a', 'Z', '1', ',', '[', ']', '\u00e9', '\u4e2d', '~', '"', "'", '`', '-', '\\a', '\\%', '\\{', '\\}', '\\#', '\\$', '\\~', '\\\\', '\\ ', '\\^', '\\_', '=', '&', '#', '$'][:d.choice([30, 8])])
            self.s += '`' + c
            self.end = 'char' if c[0] == '\\' and c[1:].isalpha() else 'any'
            return sign * ord(c[-1])
        if f == 'reg':
            n, v = d.choice(INTREG)
        elif f == 'dim':
            n, v = d.choice(DIMREG + [(a, b) for a, b, _, _ in SKIPREG])
        else:
            n, v = d.choice(VALUES)
            self.s += n
            self.end = 'nodigit'
            return sign * v
        self.s += n
        self.end = 'cs'
        return sign * int(v)

    def factor(self):
        """an unsigned factor; returns (value, may a digit follow)"""
        d = self.d
        f = d.weighted([(4, 'int'), (6, 'dec'), (1, 'oct'), (1, 'hex'), (1, 'mF')])
        self.labels.add('factor ' + f)
        if f == 'int':
            n = str(d.int(0, 120))
            self.digits(n)
            return F(int(n))
        if f == 'dec':
            a = d.weighted([(2, ''), (5, str(d.int(0, 30)))])
            b = d.weighted([(1, ''), (6, str(d.int(0, 9))), (3, '%05d' % d.int(0, 99999)), (1, '%07d' % d.int(0, 9999999))])
            if not a and not b:
                b = '5'
            self.digits(a) if a else None
            self.s += d.choice(['.', '.', ','])
            self.digits(b) if b else None
            return F(int(a or '0')) + (F(int(b), 10 ** len(b)) if b else 0)
        if f == 'oct':
            n = '%o' % d.int(0, 100)
            self.s += "'" + n
            return F(int(n, 8))
        if f == 'hex':
            n = '%X' % d.int(0, 100)
            self.s += '"' + n + ' '
            return F(int(n, 16))
        self.s += '\\mF '
        return F(3, 2)

    def unit(self, fil, mu):
        """returns (order, sp per unit or None when font dependent)"""
        d = self.d
        if fil and d.bool(2, 5):
            w = d.choice(['fil', 'fill', 'filll'])
            self.kw(w)
            self.labels.add(w)
            return len(w) - 2, F(1)
        if mu:
            self.kw('mu')
            return 0, F(1)
        if d.bool(1, 6):
            n, v = d.choice(DIMREG + [(a, b) for a, b, _, _ in SKIPREG])
            self.s += n
            self.end = 'cs'
            self.labels.add('register multiple')
            return 0, v
        if d.bool(1, 8):
            w = d.choice(FONT)
            self.kw(w)
            self.labels.add('font unit')
            return 0, w
        if d.bool(1, 5):
            self.kw('true')
            self.sp()
            self.labels.add('true')
        w = d.choice(sorted(UNITS))
        self.kw(w)
        self.labels.add(w)
        return 0, UNITS[w]

    def dim(self, fil=False, mu=False, reg=True):
        """returns (order, value, tolerance) or (order, (unit, factor), 0)"""
        d = self.d
        sign = self.signs()
        self.end = 'any'
        if reg and not mu and d.bool(1, 7):
            n, v = d.choice(DIMREG + [(a, b) for a, b, _, _ in SKIPREG])
            self.s += n
            self.end = 'cs'
            self.labels.add('register')
            return [0, sign * v, 0]
        v = sign * self.factor()
        self.sp()
        order, u = self.unit(fil, mu)
        if isinstance(u, str):
            return [order, v, u]
        return [order, v * u, abs(u) / 131072 + 2]

    def glue(self, mu=False):
        d = self.d
        if d.bool(1, 6):
            sign = self.signs()
            self.end = 'cs'
            if mu:
                self.s += '\\qu'
                self.labels.add('glue register')
                return [[0, sign * F(3), 0], [0, sign * F(1), 0], None]
            if d.bool(1, 4):
                n, v = d.choice(DIMREG)
                self.s += n
                self.labels.add('glue from dimen')
                return [[0, sign * v, 0], None, None]
            n, v, s, k = d.choice(SKIPREG)
            self.s += n
            self.labels.add('glue register')
            return [[0, sign * v, 0], s and [s[0], sign * s[1], 0], k and [k[0], sign * k[1], 0]]
        nat = self.dim(mu=mu, reg=False)
        out = [nat, None, None]
        for i, w in ((1, 'plus'), (2, 'minus')):
            if d.bool():
                self.sp()
                self.kw(w)
                self.sp()
                out[i] = self.dim(fil=True, mu=mu, reg=not mu)
                self.labels.add(w)
        self.end = 'cs' if self.end == 'cs' else 'any'
        return out

    # ---------------- what follows
    def follow(self, kind):
        """(source, text that must remain)"""
        d = self.d
        words = ['zz', 'Zz', 'ptx', 'please', 'mint', 'minute', 'plu', 'trueish', 'fil', 'l', 'em', 'p', 'm', '']
        punct = ['.', ',', ';', '-3', '+', '=', '(x)', '[x]', "'", ':', '/', '!']
        cs = [('{zz}', 'zz'), ('\\mZ ', 'Z'), ('\\relax zz', 'zz'), ('\\textbf{1}', '1'), ('{1}', '1'), ('\\mB ', 'bZb'), ('\\relax 12', '12'), ('\\mE zz', 'zz'),
              ('\\mbox{pt}', 'pt'), ('{}plus', 'plus')]
        opts = []
        if self.end in ('any', 'cs', 'char'):
            opts = [(3, 'word'), (2, 'punct'), (3, 'cs'), (2, 'digit')]
        elif self.end == 'nodigit':
            opts = [(3, 'word'), (2, 'punct'), (3, 'cs')]
        elif self.end == 'octal':
            opts = [(3, 'word'), (2, 'punct'), (3, 'cs'), (2, '89')]
        elif self.end == 'hex':
            opts = [(3, 'lword'), (2, 'punct'), (3, 'cs')]
        k = d.weighted(opts)
        self.labels.add('follow ' + k)
        spaced = d.bool(1, 3)
        if k in ('word', 'lword'):
            t = d.choice(words)
            if k == 'lword':
                t = t.lower()
            txt = t
        elif k == 'punct':
            t = txt = d.choice(punct)
        elif k == 'digit':
            t = txt = d.choice(['3', '77', '.5', '0pt'])
        elif k == '89':
            t = txt = d.choice(['8', '9', '81'])
        else:
            t, txt = d.choice(cs)
        if kind in ('glue', 'muglue') and t.startswith('{}plus'):
            t, txt = '{zz}', 'zz'
        if t[:1] in ('l', 'L') and self.labels & {'fil', 'fill', 'filll'}:
            t = txt = 'zz'           # TeX would take it for filll
        if spaced or (self.end in ('cs', 'char') and t[:1].isalpha()):
            self.labels.add('optional space')
            # one blank is part of the number: (it ends a control word already)
            pre = d.choice([' ', '\n'])
            if d.bool(1, 3) and kind not in ('glue', 'muglue', 'mudimen'):
                # blank after the optional one
                if self.end == 'cs':
                    pass                    # the tokenizer skips them all
                elif self.end == 'char':
                    pre = ' {} '
                    txt = ' ' + txt
                else:
                    pre += d.choice(['{} ', '\\mS '])
                    txt = ' ' + txt
                    self.labels.add('second space')
            return pre + t, txt
        return t, txt


def ngen(d):
    items = []
    labels = set()
    for _ in range(d.int(1, 3)):
        kind = d.weighted([(4, 'int'), (4, 'dimen'), (3, 'glue'), (1, 'mudimen'), (1, 'muglue')])
        L = Lit(d)
        if d.bool(1, 6):
            L.s += d.choice([' ', '\n'])
        if kind == 'int':
            v = L.int()
        elif kind == 'dimen':
            v = L.dim()
        elif kind == 'mudimen':
            v = L.dim(mu=True)
        else:
            v = L.glue(mu=kind == 'muglue')
        typ = d.choice({'int': ['Number', 'Int', 'Integer'], 'dimen': ['Dimen', 'Length', 'Dimension'], 'glue': ['Glue', 'Skip'],
                        'mudimen': ['MuDimen', 'MuLength'], 'muglue': ['MuGlue', 'MuSkip']}[kind])
        how = d.weighted([(4, 'call'), (2, 'read'), (2, 'set')])
        if how == 'set' and kind == 'mudimen':
            how = 'call'
        f, ftxt = L.follow(kind)
        labels |= {kind + ' ' + x if x.startswith('follow') else x for x in L.labels} | {kind, how}
        items.append([kind, typ, how, L.s, enc(v), f, ftxt])
    return [items, sorted(labels)]


def enc(v):
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, F):
        return ['q', v.numerator, v.denominator]
    return v


def dec(v):
    if isinstance(v, list):
        if len(v) == 3 and v[0] == 'q':
            return F(v[1], v[2])
        return [dec(x) for x in v]
    return v


FILS = {0: 0, 1: 2 * 10 ** 9, 2: 4 * 10 ** 9, 3: 6 * 10 ** 9}


def approx(got, want, what):
    """dimension `got` against [order, value, tolerance]"""
    order, v, tol = want
    g = F(float(got))
    a = abs(g)
    go = 3 if a >= 6e9 else 2 if a >= 4e9 else 1 if a >= 2e9 else 0
    require(go == order, '%s: %s is of order %d, should be of order %d', what, got, go, order)
    if order:
        g = (a - FILS[order]) * (1 if g > 0 else -1)
        require(abs(g - v) < F(1, 10000), '%s: is %s (%s), should be %s fil^%d', what, got, float(g), float(v), order)
        if v:
            require(F(got.fil).limit_denominator(10 ** 6) == v.limit_denominator(10 ** 6) or abs(F(got.fil) - v) < F(1, 10000),
                    '%s: .fil is %s, should be %s', what, got.fil, float(v))
        return
    if isinstance(tol, str):       # em, ex
        if v == 0:
            require(g == 0, '%s: is %s, should be 0', what, got)
        else:
            u = F(float(sut.plasTeX.dimen('1' + tol)))
            require(u > 0 and abs(g - v * u) < 2 + abs(u) / 131072, '%s: is %s, should be %s%s', what, got, float(v), tol)
        return
    require(abs(g - v) <= tol + F(1, 1000), '%s: is %s sp, should be %s sp', what, float(g), float(v))


def compare(kind, got, want, what):
    if kind == 'int':
        require(isinstance(got, int) and got == want, '%s: is %r, should be %r', what, got, want)
        return
    if kind in ('dimen', 'mudimen'):
        require(isinstance(got, sut.plasTeX.dimen), '%s: is a %s', what, type(got).__name__)
        approx(got, want, what)
        return
    require(isinstance(got, sut.plasTeX.glue), '%s: is a %s', what, type(got).__name__)
    approx(sut.plasTeX.dimen(got), want[0], what)
    for n, w in (('stretch', want[1]), ('shrink', want[2])):
        g = getattr(got, n)
        if w is None:
            require(g is None or g == 0, '%s: has %s %s', what, n, g)
        else:
            require(g is not None, '%s: has no %s', what, n)
            approx(g, w, what + ' ' + n)


READ = {'int': 'readInteger', 'dimen': 'readDimen', 'glue': 'readGlue', 'mudimen': 'readMuDimen', 'muglue': 'readMuGlue'}
SETREG = {'int': 'qtn', 'dimen': 'qtd', 'glue': 'qts', 'muglue': 'qtu'}
SETPRE = r'\newcount\qtn\newdimen\qtd\newskip\qts\newmuskip\qtu '


def levels():
    p = sut.plasTeX.ParameterCommand
    return (p._enablelevel, p.enabled)


def newmacro(doc, name, args, log):
    cls = type(name, (plasTeX.Command,), {'args': args, '__module__': __name__})

    def invoke(self, tex):
        self.parse(tex)
        log.append((name, dict(self.attributes), levels()))
        return []
    cls.invoke = invoke
    doc.context.addGlobal(name, cls)
    return cls


def ncheck(case):
    items, labels = case
    doc = sut.TeXDocument()
    tex = sut.TeX(doc)
    tex.toplevel = True
    log = []
    want_text = []
    src = PRE + SETPRE
    for i, (kind, typ, how, s, v, f, ft) in enumerate(items):
        name = 'qq' + 'abc'[i]
        if how == 'call':
            newmacro(doc, name, 'v:' + typ, log)
            src += '(\\' + name + (' ' if s[:1].isalpha() else '') + s + f + ')'
        elif how == 'read':
            cls = type(name, (plasTeX.Command,), {'__module__': __name__})

            def invoke(self, tex, m=READ[kind], name=name):
                log.append((name, {'v': getattr(tex, m)()}, levels()))
                return []
            cls.invoke = invoke
            doc.context.addGlobal(name, cls)
            src += '(\\' + name + (' ' if s[:1].isalpha() else '') + s + f + ')'
        else:
            r = SETREG[kind]
            cls = type(name, (plasTeX.Command,), {'__module__': __name__})

            def invoke2(self, tex, r=r, name=name):
                log.append((name, {'v': doc.context[r].value}, levels()))
                return []
            cls.invoke = invoke2
            doc.context.addGlobal(name, cls)
            src += '(\\' + r + '=' + s + f + '\\' + name + ')'
        want_text.append('(' + ft + ')')
    lv = levels()
    depth = len(doc.context.contexts)
    tex.input(src)
    tex.parse()
    require(levels() == lv, 'parameter level is %r after, %r before:\n%s', levels(), lv, src)
    require(len(doc.context.contexts) == depth, 'context depth changed:\n%s', src)
    require(len(log) == len(items), '%d of %d numbers were read:\n%s', len(log), len(items), src)
    for (kind, typ, how, s, v, f, ft), (name, attrs, l) in zip(items, log):
        what = '%s %r %s followed by %r in\n%s\n' % (kind, s, how, f, src)
        compare(kind, attrs['v'], dec(v), what)
        require(l == lv, 'parameter level is %r after reading %s', l, what)
    got = str(doc.textContent).strip()
    want = ''.join(want_text)
    require(' '.join(got.split()) == ' '.join(want.split()), 'text after the numbers is %r, should be %r:\n%s', got, want, src)
    return {'labels': labels, 'nontrivial': len(labels) >= 5 or labels == ['enumerated'], 'sample': src[len(PRE) + len(SETPRE):]}


# enumerated literals: every unit x factor form x sign run x following text
def ncases(tier):
    n = 0
    out = []
    facs = [('1', F(1)), ('0', F(0)), ('2.5', F(5, 2)), ('.25', F(1, 4)), ('3,5', F(7, 2)), ("'12", F(10)), ('"1A ', F(26)), ('007', F(7)), ('1.', F(1))]
    signs = [('', 1), ('-', -1), ('+', 1), ('--', 1), ('-+ -', 1), ('- ', -1)]
    follows = [('zz', 'zz'), (' zz', 'zz'), ('{z}', 'z'), ('\\relax z', 'z'), ('\\mZ ', 'Z'), (' 5', '5'), ('.', '.'), ('plus', 'plus'), ('5', '5'), (' \\relax5', '5')]
    for u in sorted(UNITS) + FONT:
        for fs, fv in facs:
            for ss, sv in signs:
                for tr in ('', 'true', ' ', ' true ', 'TRUE'):
                    if tr.strip() and u in FONT:
                        continue
                    fo = follows[n % len(follows)]
                    n += 1
                    v = [0, sv * fv, u] if u in FONT else [0, sv * fv * UNITS[u], UNITS[u] / 131072 + 2]
                    out.append(['dimen', 'Dimen', ['call', 'read', 'set'][n % 3], ss + fs + tr + (u.upper() if n % 5 == 0 else u), enc(v), fo[0], fo[1]])
    ints = [('12', 12, 'd'), ('0', 0, 'd'), ("'17", 15, 'o'), ('"1F', 31, 'h'), ('`a', 97, ''), ('`\\a', 97, 'c'), ('`\\%', 37, ''), ('`~', 126, ''), ('`1', 49, ''),
            ('\\qn', 37, 'c'), ('\\qm', -5, 'c'), ('\\value{qc}', 42, 'd'), ('\\qd', 819200, 'c'), ('2147483647', 2147483647, 'd'), ('`\\{', 123, ''), ('`\\\\', 92, ''),
            ('`\\ ', 32, ''), ('1\\mD ', 134, 'm'), ('\\mD ', 34, 'm'), ('\\mD5', 345, 'd'), ('\\mM\\mD ', -34, 'm'), ('`$', 36, ''), ('`&', 38, ''), ('`"', 34, ''), ("`'", 39, '')]
    for s, v, e in ints:
        for ss, sv in signs:
            for fo in follows:
                f = fo[0]
                if e in ('d', 'o', 'h') and f[0] in '5' or e == 'm' and f.strip()[0] in '5':
                    continue
                if e == 'c' and f[0].isalpha():
                    continue
                n += 1
                out.append(['int', 'Number', ['call', 'read', 'set'][n % 3], ss + s, sv * v, f, fo[1]])
    for o in (1, 2, 3):
        w = 'fi' + 'l' * o
        for fs, fv in facs:
            for ss, sv in signs:
                for both in (0, 1, 2):
                    n += 1
                    fo = follows[n % (len(follows) - 3)]
                    src, val = '3pt', [[0, 3 * PTF, 3], None, None]
                    if fo[0].startswith('plus'):
                        fo = follows[0]
                    if both != 1:
                        src += ' plus ' + ss + fs + w
                        val[1] = [o, sv * fv, 0]
                    if both != 0:
                        src += ' minus' + ss + fs + (w.upper() if n % 4 == 0 else w)
                        val[2] = [o, sv * fv, 0]
                    if fo[0] and fo[0][0] in 'lL':
                        continue
                    out.append(['glue', 'Glue', ['call', 'read', 'set'][n % 3], src, enc(val), fo[0], fo[1]])
    group = []
    for it in out:
        group.append(it)
        if len(group) == 3:
            yield [group, ['enumerated']]
            group = []
    if group:
        yield [group, ['enumerated']]


# ------------------------------------------------------------------------------------ signatures
NAMES = ['a', 'bb', 'c_d', 'de', 'ef', 'fg', 'x1']
TYPES = [(8, ''), (3, 'str'), (3, 'int'), (2, 'float'), (3, 'dimen'), (2, 'nox'), (3, 'list'), (2, 'list(;)'), (2, 'list:int'), (1, 'list(|):str'), (1, 'list(;):dimen'),
         (3, 'dict'), (1, 'dict(;)'), (1, 'dict:int'),
         (1, 'cs'), (1, 'Tok'), (1, 'XTok'), (1, 'any'), (2, 'Number'), (2, 'Dimen'), (2, 'Glue'), (1, 'MuGlue'), (1, 'chr'), (1, 'label'), (1, 'idref'), (1, 'url'),
         (1, 'length'), (1, 'number'), (1, 'double'), (1, 'MuDimen')]
STREAM = {'Number', 'Dimen', 'Glue', 'MuGlue', 'MuDimen'}
OPEN = {'[': ']', '(': ')', '<': '>', '{': '}'}


class Text:
    """balanced argument text and the characters it must contribute"""
    def __init__(self, d, avoid='', cl=None):
        self.d, self.avoid, self.labels = d, avoid, set()
        self.close = cl            # the delimiters (open, close) of the argument this is in

    def run(self, depth=2, n=3):
        d = self.d
        s = t = ''
        for _ in range(d.int(1, n)):
            a, b = self.piece(depth)
            if s and s[-1] in ' \n' and a[:1] in (' ', '\n'):
                continue
            s += a
            t += b
        return s, t

    def piece(self, depth):
        d = self.d
        k = d.weighted([(6, 'word'), (2, 'space'), (2, 'macro'), (2, 'group'), (2, 'nest'), (1, 'cmd'), (1, 'math'), (1, 'punct'), (1, 'esc'), (1, 'call'), (1, 'comment'),
                        (1, 'braced'), (1, 'ctl')])
        if depth == 0 and k in ('group', 'nest', 'cmd', 'call', 'braced'):
            k = 'word'
        if k == 'word':
            w = d.choice(['x', 'ab', 'Word', '12', 'q1'])
            return w, w
        if k == 'space':
            return d.choice([' ', '\n', '  ']), ' '
        if k == 'macro':
            return d.choice([('\\mZ ', 'Z'), ('\\mZ{}', 'Z'), ('\\mE ', ''), ('\\mB ', 'bZb')])
        if k == 'comment':
            return '% ]})>{\n', ''
        if k == 'esc':
            return d.choice([('\\%', '%'), ('\\#', '#'), ('\\{', '{'), ('\\}', '}'), ('\\&', '&'), ('\\_', '_')])
        if k == 'ctl':
            return d.choice([('\\relax ', ''), ('{\\bfseries x}', 'x'), ('\\mI x', 'x'), ('\\mI\\mZ ', 'Z')])
        if k == 'punct':
            c = d.choice(['.', '*', '+', '/', '!', ':', '-', '=', ',', ';', '[', '<', '(', ')', '>', ']', '"'])
            if c in self.avoid or (self.close and c in self.close):
                return 'y', 'y'
            self.labels.add('punct')
            return c, c
        if k == 'group':
            a, b = self.run(depth - 1)
            self.labels.add('braces')
            return '{' + a + '}', b
        if k == 'braced':
            # the delimiters are harmless within braces
            self.labels.add('braced delimiters')
            c = d.choice(['[', ']', '(', ')', '<', '>', '][', '=', ',', ';', '|', '*'])
            return '{' + c + '}', c
        if k == 'nest':
            if not self.close:
                return 'n', 'n'
            a, b = Text(d, self.avoid, self.close).run(depth - 1)
            self.labels.add('nested delimiters')
            return self.close[0] + a + self.close[1], self.close[0] + b + self.close[1]
        if k == 'cmd':
            a, b = Text(d, '', None).run(depth - 1)
            self.labels.add('command')
            return d.choice(['\\textbf{%s}', '\\mbox{%s}', '\\emph{%s}', '\\mI{%s}']) % a, b
        if k == 'math':
            self.labels.add('math')
            return d.choice([('$y$', 'y'), ('$a+b$', 'a+b')])
        # a call of a macro that has optional arguments itself
        self.labels.add('inner call')
        if self.close:
            return '{\\qin{u}}', 'u'
        return d.choice([('\\qin[v]{u}', 'u'), ('\\qin{u}', 'u'), ('\\qin*{u}', 'u'), ('\\qin*[v{]}]{u}', 'u')])


def enc_int(d, delim=None):
    L = Lit(d)
    if d.bool(1, 8):
        L.s += ' '
    v = L.int()
    for c in (delim or ''):
        if c in L.s:
            return None
    return L, v


def value(d, typ, delims):
    """(source, expected, tag, labels); delims: delimiters of the argument or None"""
    av = ''
    base = typ.split(':')[0].split('(')[0]
    dl = typ[typ.index('(') + 1] if '(' in typ else ','
    sub = typ.split(':')[1] if ':' in typ else ''
    if base in ('int', 'number', 'float', 'double', 'dimen', 'length', 'Number', 'Dimen', 'Glue', 'MuGlue', 'MuDimen'):
        return num(d, base, (delims or '') + '{}[]()<>' + '\\%~#&$')
    if base in ('', 'url'):
        t = Text(d, '', delims)
        s, x = t.run()
        if base == 'url' and d.bool():
            s, x = d.choice([('http:/a/b#c', 'http:/a/b#c'), ('a%b', 'a%b'), ('~u', '~u'), ('a&b=1', 'a&b=1')])
        elif base == 'url':
            s, x = 'abc', 'abc'
        if d.bool(1, 15):
            return '', '', 'text', {'empty'}
        if base == '' and delims and s[:1] != '{' and d.bool(1, 10):
            s = '{' + s + '}'
            t.labels.add('all in braces')
        return s, x, 'text', t.labels
    if base in ('str', 'chr'):
        t = Text(d, '', delims)
        s, x = t.run(1)
        if 'math' in t.labels:
            s, x = 'st r', 'st r'
        return s, x, 'str', t.labels
    if base in ('label', 'idref'):
        s = d.choice(['sec:a', 'a_b', 'x y', 'k1', 'a-b', 'A.b/c', 'a:b:c'])
        return s, s, 'str', {base}
    if base == 'nox':
        s = d.choice(['ab', '\\foo x', 'a{b{c}}', '\\mZ{}', '\\undefinedx[y]', '{}', '\\mI{x}\\mI', '\\%', '\\if x', 'a=b, c', '$x$'])
        if delims and any(c in s for c in delims):
            s = 'ab\\mZ '
        return s, s, 'nox', {'unexpanded'}
    if base == 'cs':
        s = d.choice(['\\foo', '\\mZ', '\\%', '\\undefinedx'])
        return s, s[1:], 'cs', set()
    if base == 'list':
        items, exp, lab = [], [], set()
        for _ in range(d.int(1, 4)):
            if sub in ('int', 'dimen'):
                s, x, tag, l = num(d, sub, (delims or '') + dl + '{}[]()<>\\%~#&$')
            else:
                t = Text(d, dl, delims)
                s, x = t.run(1, 2)
                l = t.labels
                s, x = fixend(s, x)
                if 'math' in l or 'inner call' in l or 'command' in l:
                    s, x, l = 'it em', 'it em', set()
                tag = 'item'
            items.append(s)
            exp.append([tag, x])
            lab |= l
        lab.add('list of %d' % len(items))
        return dl.join(items), exp, 'list', lab
    if base == 'dict':
        items, exp, lab = [], {}, set()
        keys = d.sample(['k', 'key', 'two words', 'K2', 'a.b', 'x-y'], d.int(1, 4))
        for k in keys:
            s = k
            if d.bool(1, 6):
                s = d.choice([' ', '\n']) + s
            if d.bool(1, 6):
                s += ' '
            if d.bool(1, 5):
                exp[k] = ['true', None]
            else:
                if sub == 'int':
                    v, x, tag, l = num(d, sub, (delims or '') + dl + '{}[]()<>=\\%~#&$')
                else:
                    t = Text(d, dl + '=', delims)
                    v, x = t.run(1, 2)
                    v, x = fixend(v, x)
                    l = t.labels
                    if 'math' in l or 'inner call' in l or 'command' in l or '=' in x:
                        v, x, l = 'va lue', 'va lue', set()
                    tag = 'item'
                s += '=' + (' ' if d.bool(1, 6) else '') + v
                exp[k] = [tag, x]
                lab |= l
            items.append(s)
        lab.add('dict of %d' % len(items))
        tail = dl if d.bool(1, 6) else ''
        return dl.join(items) + tail, exp, 'dict', lab
    raise AssertionError(typ)


def fixend(s, x):
    return s, x


def num(d, base, avoid):
    for k in range(20):
        L = Lit(d)
        if base in ('int', 'number', 'Number'):
            v, tag = L.int(), 'int'
        elif base in ('float', 'double'):
            sign = L.signs()
            v, tag = sign * L.factor(), 'float'
            L.end = 'nodigit'
        elif base in ('dimen', 'length', 'Dimen'):
            v, tag = L.dim(), 'dimen'
        elif base == 'MuDimen':
            v, tag = L.dim(mu=True), 'mudimen'
        elif base == 'Glue':
            v, tag = L.glue(), 'glue'
        else:
            v, tag = L.glue(mu=True), 'muglue'
        bad = [c for c in avoid if ('`' + c) in L.s or ('`\\' + c) in L.s or (c not in '\\{}' and c in L.s)]
        if not bad and '`' not in L.s:
            return L.s, enc(v), tag, L.labels
    v = {'int': 3, 'number': 3, 'Number': 3, 'float': F(3), 'double': F(3)}.get(base)
    if v is not None:
        return '3', enc(v), 'int' if isinstance(v, int) else 'float', set()
    one = [0, 3 * PTF, 3]
    if base in ('dimen', 'length', 'Dimen'):
        return '3pt', enc(one), 'dimen', set()
    if base == 'MuDimen':
        return '3mu', enc([0, F(3), 0]), 'mudimen', set()
    if base == 'Glue':
        return '3pt', enc([one, None, None]), 'glue', set()
    return '3mu', enc([[0, F(3), 0], None, None]), 'muglue', set()


def sgen(d):
    calls = []
    labels = set()
    for ci in range(d.int(1, 2)):
        nargs = d.int(1, 6)
        sig, src = [], ''
        exp = []                # [name, tag, value]
        names = d.sample(NAMES, nargs)
        if d.bool(1, 6):
            names[-1] = 'self'
        mod = d.weighted([(3, ''), (2, '*'), (1, '+'), (1, '-')])
        prev_cs = False         # the source so far ends in a control word
        if mod:
            sig.append(mod)
            on = d.bool()
            exp.append(['*modifier*', 'mod', mod if on else None])
            src += (d.choice(['', ' ']) + mod) if on else ''
            labels.add('modifier ' + ('present' if on else 'absent'))
        forbidden = mod if mod and not src else ''      # what the next argument must not start with
        closed = bool(src)      # is the previous thing closed (so that blanks may follow)?
        for i, name in enumerate(names):
            last = i == nargs - 1
            typ = d.weighted(TYPES)
            form = d.weighted([(6, ''), (4, '['), (1, '('), (1, '<'), (1, '{')])
            if typ in STREAM or typ in ('Tok', 'XTok', 'any'):
                form = ''
            if typ == 'any' and (forbidden or not last):
                typ = ''
            if form and forbidden and form in forbidden and d.bool():
                form = ''
            t = name + (':' + typ if typ else '')
            if form:
                sig.append(d.choice(['%s %s %s', '%s%s%s']) % (form, t, OPEN[form]))
            else:
                sig.append(t)
            sp = d.weighted([(4, ''), (1, ' '), (1, '\n'), (1, '  ')])
            labels.add('arg %s%s' % (form or 'm', typ))
            if typ in STREAM:
                # '=' may be declared before
                if d.bool(1, 3):
                    sig[-1] = '= ' + sig[-1]
                    on = d.bool()
                    exp.append(['*equals*', 'mod', '=' if on else None])
                    if on:
                        sp += '=' + d.choice(['', ' '])
                        forbidden = ''
                s, x, tag, l = value(d, typ, None)
                if forbidden and any(c in s for c in '+-*'):
                    s, x, tag, l = num(d, typ, '+-*')
                    if any(c in s for c in '+-*') or 'M' in s:
                        s, x, tag = {'Number': ('3', 3, 'int'), 'Dimen': ('3pt', enc([0, 3 * PTF, 3]), 'dimen'), 'MuDimen': ('3mu', enc([0, F(3), 0]), 'mudimen'),
                                     'Glue': ('3pt', enc([[0, 3 * PTF, 3], None, None]), 'glue'),
                                     'MuGlue': ('3mu', enc([[0, F(3), 0], None, None]), 'muglue')}[typ]
                src += (sp or (' ' if s[:1].isalpha() or s[:1].isdigit() else '')) + s
                src += ' '
                labels |= l
                exp.append([name, tag, x])
                forbidden = ''
                forbidden += 'N' if tag == 'int' else 'D'    # must not continue the number
                continue
            if typ in ('Tok', 'XTok'):
                k = d.choice(['x', '\\mZ', '7'] if typ == 'XTok' else ['x', '\\mZ', '\\undefinedx', '7', '\\%'])
                if 'N' in forbidden and k == '7':
                    k = 'x'
                if 'N' in forbidden or 'D' in forbidden:
                    k = d.choice(['x', 'q']) if True else k
                src += (sp or ' ') + k
                if k[1:].isalpha():
                    src += ' '
                exp.append([name, 'tok', {'\\mZ': 'Z'}.get(k, k) if typ == 'XTok' else k.lstrip('\\') or '\\'])
                forbidden = ''
                continue
            if typ == 'any':
                t = Text(d, '', None)
                s, x = d.choice([('ab', 'ab'), ('a\\mZ{}b', 'aZb'), ('\\textbf{x}y', 'xy'), ('a[b]', 'a[b]')])
                src += ' ' + s + d.choice([' ', '\n'])
                exp.append([name, 'text', x])
                forbidden = ''
                continue
            if form and form != '{':
                present = d.bool(2, 3)
                if not present:
                    exp.append([name, 'none', None])
                    forbidden += form
                    labels.add('absent')
                    continue
                labels.add('present')
                s, x, tag, l = value(d, typ, form + OPEN[form])
                if form in forbidden:
                    # an absent optional argument with the same delimiter would take it: only mandatory may follow
                    sig[-1] = t
                    form = ''
                    s, x, tag, l = value(d, typ, None)
                    src += sp + '{' + s + '}'
                else:
                    src += sp + form + s + OPEN[form]
                labels |= l
                exp.append([name, tag, x])
                forbidden = ''
                continue
            if form == '{':
                s, x, tag, l = value(d, typ, None)
                src += sp + '{' + s + '}'
                labels |= l
                exp.append([name, tag, x])
                forbidden = ''
                continue
            # mandatory
            single = typ in ('', 'str', 'chr') and d.bool(1, 5) and not (set(forbidden) & set('ND'))
            if single:
                s, x = d.choice([('x', 'x'), ('\\mZ ', 'Z'), ('7', '7'), ('\\mB ', 'bZb'), ('\\%', '%'), ('.', '.')] + ([('$y$', 'y')] if typ == '' else []))
                src += sp or (' ' if s[:1].isalpha() else '')
                src += s
                labels.add('single token')
                exp.append([name, 'text' if typ == '' else 'str', x])
            elif typ == 'cs' and d.bool():
                src += (sp or ' ') + '\\foo '
                exp.append([name, 'cs', 'foo'])
                labels.add('single token')
            else:
                s, x, tag, l = value(d, typ, None)
                src += sp + '{' + s + '}'
                labels |= l
                exp.append([name, tag, x])
            forbidden = ''
        # what follows
        fo = [('zz', 'zz'), ('\\mZ ', 'Z'), ('{zz}', 'zz'), ('.zz', '.zz'), ('\\textbf{z}', 'z'), ('\\par zz', 'zz'), ('7', '7'), ('', ''), ('=', '='), (' (u)', '(u)'), ('[u]', '[u]'), ('<u>', '<u>'),
              ('\\relax', ''), ('% comment\nzz', 'zz'), ('$y$', 'y'), ('*', '*')]
        f = d.choice(fo)
        c = f[0].strip()[:1]
        if c and (c in forbidden or (c == '*' and mod and forbidden and mod in forbidden)):
            f = ('zz', 'zz')
        exact = not (forbidden and set(forbidden) & set('[(<*+-'))
        if set(forbidden) & set('ND') and f[0][:1] in ('z', '7', '.', '='):
            f = ('{zz}', 'zz')
        space = exact and not (set(forbidden) & set('ND')) and d.bool(1, 3) and f[0][:1] not in '% '
        ctx = d.weighted([(4, 'top'), (2, 'group'), (1, 'cmd'), (2, 'body'), (1, 'env'), (1, 'item')])
        if ctx == 'cmd' and ('#' in src):
            ctx = 'group'
        if ctx in ('body',) and ('#' in src or '%' in src):
            ctx = 'top'
        if '#' in src or '%b' in src or '~' in src or '&' in src:
            ctx = 'top'
        labels.add('in ' + ctx)
        calls.append([' '.join(sig), src, exp, f[0], f[1], exact, space, ctx])
        labels.add('%d args' % nargs)
    return [calls, sorted(labels)]


def txt(v):
    if hasattr(v, 'textContent'):
        return str(v.textContent)
    return str(v)


def sq(s):
    return ''.join(str(s).split())


def cmp_value(what, tag, want, got):
    if tag == 'none':
        require(got is None, '%s: bound to %r, should be absent', what, got)
    elif tag == 'mod':
        require((got is None) == (want is None) and (got is None or str(got) == want), '%s: is %r, should be %r', what, got, want)
    elif tag == 'text':
        require(got is not None and not isinstance(got, (int, float, list, dict)), '%s: is %r', what, got)
        require(' '.join(txt(got).split()) == ' '.join(want.split()), '%s: is %r, should be %r', what, txt(got), want)
    elif tag in ('str', 'item'):
        if tag == 'str':
            require(isinstance(got, str), '%s: is a %s', what, type(got).__name__)
        t = ''.join(txt(x) for x in got) if isinstance(got, list) else txt(got)
        require(' '.join(t.split()) == ' '.join(want.split()), '%s: is %r, should be %r', what, t, want)
    elif tag in ('int', 'dimen', 'glue', 'mudimen', 'muglue'):
        compare(tag, got, dec(want), what)
    elif tag == 'float':
        require(isinstance(got, (int, float)) and abs(F(float(got)) - dec(want)) < F(1, 10 ** 6), '%s: is %r, should be %s', what, got, float(dec(want)))
    elif tag == 'list':
        require(isinstance(got, list) and len(got) == len(want), '%s: is %r, should have %d items', what, got, len(want))
        for i, ((t, w), g) in enumerate(zip(want, got)):
            cmp_value('%s item %d' % (what, i), t, w, g)
    elif tag == 'dict':
        require(isinstance(got, dict) and {str(k): 1 for k in got} == {k: 1 for k in want}, '%s: keys are %r, should be %r', what, got, sorted(want))
        for k, (t, w) in want.items():
            g = got[k]
            if t == 'true':
                require(g is True, '%s: key %r is %r, should be True', what, k, g)
            else:
                cmp_value('%s key %r' % (what, k), t, w, g)
    elif tag == 'cs':
        require(getattr(got, 'macroName', None) == want, '%s: is %r, should be \\%s', what, got, want)
    elif tag == 'tok':
        g = getattr(got, 'macroName', None) or str(got)
        require(sq(txt(g)) == want, '%s: is %r, should be %r', what, got, want)
    elif tag == 'nox':
        s = ''.join(getattr(x, 'source', str(x)) for x in got)
        toks = [(t.catcode, str(t)) for t in got]
        ref = lex(want)
        require(toks == ref, '%s: tokens are %r, should be %r', what, toks, ref)
    else:
        raise AssertionError(tag)


def lex(s):
    """tokens of the small vocabulary used for unexpanded arguments"""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            j = i + 1
            while j < len(s) and s[j].isalpha():
                j += 1
            j = max(j, i + 2)
            out.append((0, s[i + 1:j]))
            i = j
            if s[j - 1].isalpha():
                while i < len(s) and s[i] == ' ':
                    i += 1
            continue
        if c == ' ':
            if not out or out[-1] != (10, ' '):
                out.append((10, ' '))
        else:
            out.append(({'{': 1, '}': 2, '$': 3}.get(c, 11 if c.isalpha() else 12), c))
        i += 1
    return out


CTX = {'top': ('%s', '%s'), 'group': ('{%s}', '%s'), 'cmd': ('\\textit{%s}', '%s'), 'env': ('\\begin{center}%s\\end{center}', '%s'),
       'item': ('\\begin{itemize}\\item %s\\end{itemize}', '%s')}


def scheck(case):
    calls, labels = case
    doc = sut.TeXDocument()
    tex = sut.TeX(doc)
    tex.toplevel = True
    ilog, log = [], []
    depths = []

    cls = type('qin', (plasTeX.Command,), {'args': '* [ o ] self', '__module__': __name__})
    doc.context.addGlobal('qin', cls)
    src = PRE
    want = []
    for i, (sig, call, exp, f, ft, exact, space, ctx) in enumerate(calls):
        name = 'qq' + 'ab'[i]
        newmacro(doc, name, sig, log)
        rest = call + (' ' if space else '') + f + ')'
        body = '(\\' + name + (' ' if rest[:1].isalpha() else '') + rest
        if ctx == 'body':
            src += '\\newcommand{\\qw%s}{%s}\\qw%s' % ('ab'[i], body, 'ab'[i] + ' ')
        else:
            src += CTX[ctx][0] % body
        want.append('(' + (' ' if space else '') + ft + ')')
    lv = levels()
    cats = {c: doc.context.whichCode(c) for c in '#~%&_^$\\{}@'}
    depth = len(doc.context.contexts)
    tex.input(src)
    tex.parse()
    require(levels() == lv, 'parameter level is %r after, %r before:\n%s', levels(), lv, src)
    require(len(doc.context.contexts) == depth, 'context depth changed from %d to %d:\n%s', depth, len(doc.context.contexts), src)
    require(len(log) == len(calls), '%d of %d calls:\n%s', len(log), len(calls), src)
    for c in cats:
        require(doc.context.whichCode(c) == cats[c], 'category of %s changed:\n%s', c, src)
    for (sig, call, exp, f, ft, exact, space, ctx), (name, attrs, l) in zip(calls, log):
        what = 'signature %r call %r followed by %r in\n%s\n' % (sig, call, f, src)
        require(l == lv or ctx == 'cmd' and l[0] == lv[0] - 1, 'parameter level is %r after the call: %s', l, what)
        names = [e[0] for e in exp]
        require(sorted(attrs) == sorted(set(names)), 'bound names are %r, declared are %r: %s', sorted(attrs), names, what)
        for n, tag, w in exp:
            if names.count(n) > 1:
                continue
            cmp_value(what + 'argument ' + n, tag, w, attrs[n])
    got = str(doc.textContent)
    w = ''.join(want)
    if all(c[5] for c in calls) and not any('\\par' in c[3] for c in calls):
        require(' '.join(got.split()).replace('( ', '(') == ' '.join(w.split()).replace('( ', '(') or sq(got) == sq(w) and any(c[7] in ('env', 'item') for c in calls),
                'text after the calls is %r, should be %r:\n%s', got, w, src)
        g2, w2 = got.split('('), w.split('(')
    require(sq(got) == sq(w), 'text after the calls is %r, should be %r:\n%s', got, w, src)
    return {'labels': labels, 'nontrivial': len(labels) >= 6, 'sample': '; '.join('%s | %s' % (c[0], c[1]) for c in calls)}


SUBS = [
    Sub('numbers', ncheck, gen=ngen, quick=4000, thorough=150000,
        rule='1-3 random integers, dimensions, glues read by macros, by the scanners directly and by register assignments, each followed by '
             'random text; value, remaining text and scanner state compared; non-trivial: 5 or more features'),
    Sub('literals', ncheck, cases=ncases,
        rule='enumerated: 11 units x 9 factor forms x 6 sign runs x true; 25 integers x signs x following text; fil orders'),
    Sub('signatures', scheck, gen=sgen, quick=4000, thorough=150000,
        rule='1-2 random signatures of 1-6 arguments with a conforming call in a random context; every bound value, the text that follows, '
             'catcodes and switch levels compared; non-trivial: 6 or more features'),
]
