"""C19: tests of ifthen are evaluated as the boolean expressions they spell.

Programs of text, assignments, \\ifthenelse and \\whiledo are drawn as trees,
written as LaTeX and run by a reference interpreter; the text of the document
shows every branch that was taken and the values of the counters.
"""
from fractions import Fraction

from ..core import Sub, Skip, require
from .. import sut

TECHNIQUE = 'property-based testing: generated programs over ifthen against a reference interpreter of the expressions; exhaustive short operator sequences'
LEVEL = 'random + exhaustive (operator sequences)'
NOTE = 'Lengths are compared only where the exact rational comparison and TeX\'s scaled-integer comparison agree.'
ASSUMPTIONS = ['\\equal compares strings of letters, digits and single inner blanks, after expansion of macros and counters', 'switches and macros are assigned outside of groups (grouping is C03/C04)',
               'lengths are assigned as TeX registers (\\ql=3pt), since \\setlength has no effect in plasTeX']

COUNTERS = ['qa', 'qb', 'qc']
LOOPS = ['lw', 'lx', 'ly']
BOOLS = ['ba', 'bb', 'index']
IFS = ['ia', 'ib']
MACROS = {'mI': '5', 'mII': '12', 'mN': '-3', 'mE': '', 'mS': 'foo', 'mT': 'a b', 'mX': '\\mI', 'mZ': '0', 'mL': '2cm', 'mK': '1.5'}
LENGTHS = {'ql': '3pt', 'qm': '-1.5cm', 'qn': '1in'}
UNITS = {'pt': (1, 1), 'in': (7227, 100), 'cm': (7227, 254), 'mm': (7227, 2540), 'pc': (12, 1), 'bp': (7227, 7200), 'dd': (1238, 1157), 'cc': (14856, 1157), 'sp': (1, 65536)}


# ---------------------------------------------------------------- reference

def expand(s):
    import re
    while True:
        t = re.sub(r'\\(mI|mII|mN|mE|mS|mT|mX|mZ|mL|mK)(?![A-Za-z]) ?', lambda m: MACROS[m.group(1)], s)
        if t == s:
            return s
        s = t


def ival(x, env):
    """value of an integer operand"""
    k = x[0]
    if k == 'lit':
        s = x[1].replace(' ', '')
        sign = -1 if s.count('-') % 2 else 1
        s = s.lstrip('+-')
        return sign * (int(s[1:], 16) if s[0] == '"' else int(s[1:], 8) if s[0] == "'" else ord(s[-1]) if s[0] == '`' else int(s))
    if k == 'mac':
        return int(expand(x[1]).replace('--', ''))
    if k == 'ctr':
        v = env['c'][x[2]]
        return -v if x[1] == '-' else v
    if k == 'reg':
        return env['c'][x[1]]
    raise AssertionError(x)


def iwrite(x):
    k = x[0]
    if k in ('lit', 'mac'):
        return x[1]
    if k == 'ctr':
        return x[1] + {0: '\\value{%s}', 1: '\\arabic{%s}', 2: '\\the%s', 3: '\\number\\value{%s}', 4: '\\value {%s}'}[x[3]] % x[2] + (' ' if x[3] == 2 else '')
    return ('\\number' if x[2] else '') + '\\' + x[1] + ' '


def lval(x):
    """(exact value in points, TeX's value in scaled points)"""
    sign, dec, unit = x
    if unit in LENGTHS:
        base = parse_dim(LENGTHS[unit])
        f = Fraction(dec or '1')
        s = abs(base[1])
        # xn_over_d on the integer and the fraction part
        v = int(f) * s + (s * int(frac16(dec or '1')) >> 16)
        exact, scaled = f * base[0], (v if base[1] >= 0 else -v)
    elif unit == '\\mL':
        exact, scaled = parse_dim('2cm')
    else:
        exact, scaled = parse_dim((expand(dec) if dec else '1') + unit)
    return (-exact, -scaled) if sign == '-' else (exact, scaled)


def frac16(dec):
    """TeX's round_decimals"""
    digits = dec.split('.')[1] if '.' in dec else ''
    a = 0
    for c in reversed(digits[:17]):
        a = (a + int(c) * 131072) // 10
    return (a + 1) // 2


def parse_dim(s):
    neg = s.startswith('-')
    s = s.lstrip('-')
    unit, dec = s[-2:], s[:-2]
    num, den = UNITS[unit]
    exact = Fraction(dec if not dec.startswith('.') else '0' + dec) * num / den
    i = int(dec.split('.')[0] or 0)
    f = frac16(dec)
    if unit == 'sp':
        v = i
    else:
        if unit != 'pt':
            rem = i * num % den
            i = i * num // den
            f = (num * f + 65536 * rem) // den
            i += f >> 16
            f &= 65535
        v = i * 65536 + f
    return (-exact, -v) if neg else (exact, v)


def lwrite(x):
    sign, dec, unit = x
    if unit in LENGTHS:
        return sign + (dec or '') + '\\' + unit + ' '
    if unit == '\\mL':
        return sign + '\\mL '
    return sign + dec + (' ' if dec.startswith('\\') else '') + unit


CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '=': lambda a, b: a == b}


def aval(a, env):
    k = a[0]
    if k == 'cmp':
        return CMP[a[1]](ival(a[2], env), ival(a[3], env))
    if k == 'odd':
        return ival(a[1], env) % 2 == 1
    if k == 'len':
        x, y = lval(a[2]), lval(a[3])
        r = CMP[a[1]](x[1], y[1])
        if r != CMP[a[1]](x[0], y[0]) or (x[0] != y[0] and abs(x[1] - y[1]) < 4):
            raise Skip('lengths that TeX rounds')
        return r
    if k == 'eq':
        return sval(a[1], env) == sval(a[2], env)
    if k == 'undef':
        return a[1] in ('undefA', 'undefB', 'grouped') and a[1] not in env['defs']
    if k == 'bool':
        return env['b'][a[1]]
    raise AssertionError(a)


def sval(s, env):
    import re
    s = re.sub(r'\\arabic\{(\w+)\}|\\the(q[abc])', lambda m: str(env['c'][m.group(1) or m.group(2)]), s)
    return expand(s)


def awrite(a, sp):
    k = a[0]
    if k == 'cmp':
        return iwrite(a[2]) + sp() + a[1] + sp() + iwrite(a[3])
    if k == 'odd':
        return '\\isodd{%s}' % iwrite(a[1])
    if k == 'len':
        return '\\lengthtest{%s%s%s%s%s}' % (lwrite(a[2]), sp(), a[1], sp(), lwrite(a[3]))
    if k == 'eq':
        return '\\equal{%s}{%s}' % (a[1], a[2])
    if k == 'undef':
        return '\\isundefined{\\%s}' % a[1]
    return '\\boolean{%s}' % a[1]


# an expression is [operand, [operator, operand], ...]; an operand [nots, atom or ['(', expression]]

def oval(o, env):
    nots, a = o
    v = eval_(a[1], env) if a[0] == '(' else aval(a, env)
    return v if len(nots) % 2 == 0 else not v


def eval_(e, env):
    v = oval(e[0], env)
    for op, o in e[1:]:
        w = oval(o, env)
        v = v and w if op.lower() == 'and' else v or w
    return v


def ewrite(e, sp):
    return sp() + owrite(e[0], sp) + ''.join('%s\\%s%s%s' % (sp(), op, ' ', owrite(o, sp)) for op, o in e[1:]) + sp()


def owrite(o, sp):
    nots, a = o
    s = ''.join('\\%s ' % n for n in nots)
    if a[0] == '(':
        return s + '\\(' + ewrite(a[1], sp) + '\\)'
    return s + awrite(a, sp)


class Prog:
    def __init__(self, spaces):
        self.k, self.spaces = 0, spaces

    def sp(self):
        self.k += 1
        return ' ' if self.spaces and (self.spaces >> (self.k % 8)) & 1 else ''

    def write(self, ss):
        return ''.join(self.stmt(s) for s in ss)

    def stmt(self, s):
        k = s[0]
        if k == 'text':
            return s[1]
        if k == 'show':
            return '(\\arabic{%s})' % s[1]
        if k == 'step':
            return '\\stepcounter{%s}' % s[1]
        if k == 'add':
            return '\\addtocounter{%s}{%d}' % (s[1], s[2])
        if k == 'set':
            return '\\setcounter{%s}{%d}' % (s[1], s[2])
        if k == 'setb':
            return '\\%s%s ' % (s[1], 'true' if s[2] else 'false') if s[1] in IFS or s[3] else '\\setboolean{%s}{%s}' % (s[1], 'true' if s[2] else 'false')
        if k == 'def':
            return '\\newcommand{\\%s}{x}' % s[1]
        if k == 'math':
            return '\\(m\\)'
        if k == 'if':
            return '\\ifthenelse{%s}{%s}{%s}' % (ewrite(s[1], self.sp), self.write(s[2]), self.write(s[3]))
        if k == 'macro':
            # the test as the argument of a macro
            return '\\mtest{%s}{%s}{%s}' % (ewrite(s[1], self.sp), self.write(s[2]), self.write(s[3]))
        if k == 'mif':
            return '\\mcmp{%s}{%s}' % (iwrite(s[1]), iwrite(s[2]))
        if k == 'while':
            return '\\setcounter{%s}{0}\\whiledo{\\value{%s}<%d%s}{%s\\stepcounter{%s}}' % (s[1], s[1], s[2], self.rest(s), self.write(s[4]), s[1])
        raise AssertionError(s)

    def rest(self, s):
        if s[3] is None:
            return ''
        return ' \\and \\(' + ewrite(s[3], self.sp) + '\\)'

    # ---- reference run
    def run(self, ss, env):
        for s in ss:
            k = s[0]
            if k == 'text':
                env['out'].append(s[1])
            elif k == 'math':
                env['out'].append('m')
            elif k == 'show':
                env['out'].append('(%d)' % env['c'][s[1]])
            elif k == 'step':
                env['c'][s[1]] += 1
            elif k == 'add':
                env['c'][s[1]] += s[2]
            elif k == 'set':
                env['c'][s[1]] = s[2]
            elif k == 'setb':
                env['b'][s[1]] = s[2]
            elif k == 'def':
                if s[1] in env['defs']:
                    raise Skip('defined twice')
                env['defs'].add(s[1])
            elif k in ('if', 'macro'):
                env['tests'] += 1
                self.run(s[2] if eval_(s[1], env) else s[3], env)
            elif k == 'mif':
                env['tests'] += 1
                env['out'].append('A' if ival(s[1], env) < ival(s[2], env) else 'B')
            elif k == 'while':
                env['c'][s[1]] = 0
                n = 0
                while env['c'][s[1]] < s[2] and (s[3] is None or eval_(s[3], env)):
                    self.run(s[4], env)
                    env['c'][s[1]] += 1
                    n += 1
                    if len(env['out']) > 400:
                        raise Skip('long')
                env['loops'].add(n)
                env['tests'] += 1


PRE = ('\\documentclass{article}\\usepackage{ifthen}\n' + ''.join('\\newcounter{%s}' % c for c in COUNTERS + LOOPS) + '\\setcounter{qa}{5}\\setcounter{qb}{-2}'
       + ''.join('\\newboolean{%s}' % b for b in BOOLS) + '\\setboolean{ba}{true}' + ''.join('\\newif\\if%s' % i for i in IFS) + '\\iatrue\n'
       + ''.join('\\def\\%s{%s}' % kv for kv in MACROS.items()) + ''.join('\\newlength{\\%s}\\%s=%s\\relax ' % (k, k, v) for k, v in LENGTHS.items())
       + '\\newcount\\kk\\kk=7\\relax \\newcommand{\\mtest}[3]{\\ifthenelse{#1}{#2}{#3}}\\newcommand{\\mcmp}[2]{\\ifthenelse{#1<#2}{A}{B}}{\\def\\grouped{x}}\n\\begin{document}\n')


def check(case):
    prog, spaces, wrap = case
    p = Prog(spaces)
    env = {'c': {'qa': 5, 'qb': -2, 'qc': 0, 'lw': 0, 'lx': 0, 'ly': 0, 'kk': 7}, 'b': {'ba': True, 'bb': False, 'index': False, 'ia': True, 'ib': False},
           'defs': set(), 'out': [], 'tests': 0, 'loops': set()}
    p.run(prog, env)
    body = p.write(prog) + ''.join(';\\arabic{%s}' % c for c in COUNTERS)
    want = ''.join(env['out']) + ''.join(';%d' % env['c'][c] for c in COUNTERS)
    doc, tex = sut.parse(PRE + wrap % body + '\n\\end{document}\n')
    got = sut.squeeze(doc.getElementsByTagName('document')[0].textContent)
    want = sut.squeeze(want)
    require(got == want, 'text %r, should be %r\n%s', got, want, body)
    return {'labels': ['tests %d' % min(env['tests'], 8)] + ['loop %d' % n for n in env['loops']], 'nontrivial': env['tests'] > 0, 'sample': body[:300]}


WRAPS = ['%s', '%s', '{%s}', '\\emph{%s}', '\\section{t}%s\\par x', '\\begin{itemize}\\item %s\\end{itemize}', '\\begin{tabular}{l}%s\\end{tabular}', '\\footnote{%s}', '\\newcommand{\\all}{%s}\\all']
WRAPS = [w if 'par x' not in w else '\\begin{quote}%s\\end{quote}' for w in WRAPS]


# ---------------------------------------------------------------- generators

def gint(d, term=True):
    k = d.weighted([(5, 'lit'), (3, 'mac'), (4, 'ctr'), (1, 'reg')])
    if k == 'lit':
        return ['lit', d.choice(['0', '1', '2', '3', '5', '12', '7', '-2', '-3', '10', '007', '+4', '--5', '- 2', '"1F', "'17", '100', '99', '`A', '`B'])]
    if k == 'mac':
        return ['mac', d.choice(['\\mI ', '\\mII ', '\\mN ', '\\mX ', '\\mZ ', '1\\mI ', '\\mI\\mZ ', '\\mI 0', '\\mE\\mI ', '-\\mI ', '\\mE 3'])]
    if k == 'ctr':
        return ['ctr', d.choice(['', '', '-']), d.choice(COUNTERS), d.int(0, 4)]
    return ['reg', 'kk', d.int(0, 1)]


def glen(d):
    sign = d.choice(['', '', '-'])
    k = d.int(0, 5)
    if k == 0:
        return [sign, d.choice(['', '', '2', '.5', '1.5']), d.choice(sorted(LENGTHS))]
    if k == 1:
        return [sign, '', '\\mL']
    if k == 2:
        return [sign, d.choice(['\\mI', '\\mII', '\\mK']), d.choice(['pt', 'cm', 'mm'])]
    return [sign, d.choice(['1', '2', '10', '0', '2.54', '72.27', '0.5', '.1', '3', '12', '28.35', '25.4', '100']), d.choice(sorted(UNITS))]


STRS = ['foo', 'a b', '5', '', 'fo', 'foo1', '\\mS ', '\\mT ', '\\mI ', '\\mE ', '-3', 'A', 'a', '\\arabic{qa}', '\\theqb ', 'x\\mS ', 'xfoo', '\\mE foo', '0', '<', '=', '1=1']


def gatom(d):
    k = d.weighted([(5, 'cmp'), (2, 'bool'), (2, 'odd'), (2, 'len'), (2, 'eq'), (1, 'undef')])
    if k == 'cmp':
        return ['cmp', d.choice('<>='), gint(d), gint(d)]
    if k == 'odd':
        return ['odd', gint(d)]
    if k == 'len':
        if d.bool(1, 4):
            x, y = d.choice([(['', '1', 'in'], ['', '2.54', 'cm']), (['', '1', 'cm'], ['', '10', 'mm']), (['', '1', 'pc'], ['', '12', 'pt']), (['', '1', 'in'], ['', '', 'qn']), (['', '2', 'cm'], ['', '', '\\mL']), (['-', '1.5', 'cm'], ['', '', 'qm'])])
            return ['len', d.choice('<>='), x, y] if d.bool() else ['len', d.choice('<>='), y, x]
        return ['len', d.choice('<>='), glen(d), glen(d)]
    if k == 'eq':
        s = d.choice(STRS)
        return ['eq', s, d.choice(STRS) if d.bool(2, 3) else s]
    if k == 'undef':
        return ['undef', d.choice(['undefA', 'undefB', 'grouped', 'mI', 'section', 'ifia', 'mtest', 'relax'])]
    return ['bool', d.choice(BOOLS + IFS)]


def goper(d, depth):
    nots = [d.choice(['not', 'NOT']) for _ in range(d.weighted([(5, 0), (3, 1), (1, 2)]))]
    if depth > 0 and d.bool(1, 3):
        return [nots, ['(', gexpr(d, depth - 1)]]
    return [nots, gatom(d)]


def gexpr(d, depth):
    return [goper(d, depth)] + [[d.choice(['and', 'or', 'AND', 'OR']), goper(d, depth)] for _ in range(d.weighted([(3, 0), (4, 1), (2, 2), (1, 4)]))]


def gstmts(d, depth, loop=0):
    return [gstmt(d, depth, loop) for _ in range(d.weighted([(5, 1), (3, 2), (1, 0), (2, 3)]))]


def gstmt(d, depth, loop):
    k = d.weighted([(4, 'if'), (2, 'while'), (1, 'macro'), (1, 'mif'), (3, 'text'), (1, 'show'), (1, 'step'), (1, 'add'), (1, 'set'), (2, 'setb'), (1, 'def'), (1, 'math')])
    if k in ('if', 'macro', 'while') and depth <= 0 or k == 'while' and loop > 2:
        k = 'text'
    if k == 'text':
        return [k, d.choice(['T', 'F', 'x y', 'U', 'V.', '1', 'w'])]
    if k in ('show', 'step'):
        return [k, d.choice(COUNTERS)]
    if k in ('add', 'set'):
        return [k, d.choice(COUNTERS), d.int(-3, 9)]
    if k == 'setb':
        return [k, d.choice(BOOLS + IFS), d.bool(), d.bool(1, 4)]
    if k == 'def':
        return [k, d.choice(['undefA', 'undefB'])]
    if k == 'math':
        return [k]
    if k == 'mif':
        return [k, gint(d), gint(d)]
    if k == 'while':
        return [k, LOOPS[loop], d.int(0, 6), gexpr(d, 1) if d.bool(1, 3) else None, gstmts(d, depth - 1, loop + 1)]
    return [k, gexpr(d, 3 if depth > 1 else 2), gstmts(d, depth - 1, loop), gstmts(d, depth - 1, loop)]


def gen(d):
    return [[['if', gexpr(d, 3), [['text', 'T']], [['text', 'F']]]] if d.bool(1, 3) else gstmts(d, 3), d.choice([0, 0, 255, 0x5a]) if d.bool() else d.int(0, 255), d.choice(WRAPS)]


def sequences(tier):
    """every sequence of up to three (thorough: four) operands with every placement of \\not and the operators, several tests to a document"""
    import itertools
    T, F = ['cmp', '<', ['lit', '1'], ['lit', '2']], ['cmp', '=', ['lit', '1'], ['lit', '2']]
    TT, FF = ['bool', 'ba'], ['bool', 'bb']
    ops = [[n, a] for n in ([], ['not'], ['not', 'not']) for a in (T, F)]
    exprs = []
    few = [[n, a] for n in ([], ['not']) for a in (T, FF)]
    for n in range(1, 5 if tier == 'thorough' else 4):
        for os in itertools.product(ops if n < 3 else few, repeat=n):
            for cs in itertools.product(['and', 'or'], repeat=n - 1):
                exprs.append([os[0]] + [[c, o] for c, o in zip(cs, os[1:])])
    # every placement of one group
    for os in itertools.product([[[], TT], [['not'], F]], repeat=3):
        for cs in itertools.product(['and', 'or'], repeat=2):
            for neg in ([], ['not']):
                def group(e):
                    return [neg, ['(', e]]
                a, b, c = os
                exprs.append([group([a, [cs[0], b]]), [cs[1], c]])
                exprs.append([a, [cs[0], group([b, [cs[1], c]])]])
                exprs.append([group([group([a, [cs[0], b]]), [cs[1], c]])])
                exprs.append([group([a, [cs[0], group([b, [cs[1], c]])]])])
    for i in range(0, len(exprs), 12):
        yield [[['if', e, [['text', 'T']], [['text', 'F']]] for e in exprs[i:i + 12]], [0, 255, 0x3c][i // 12 % 3], '%s']


SUBS = [Sub('sequences', check, cases=sequences, quick=1000, thorough=20000, rule='at least one test is evaluated'),
        Sub('programs', check, gen=gen, quick=3500, thorough=80000, rule='at least one test is evaluated')]
