"""C03: conditionals process exactly the branch TeX selects."""
from ..core import Sub, Violation, Skip, require
from .. import sut
from ..ref.condtex import CondTeX

ASSUMPTIONS = [
    'programs on which TeX reports an error are outside the domain (detected by the reference, counted as skipped)',
    'numbers in tests are terminated (blank, \\relax, or a register), as the TeXbook recommends',
    '\\newif switches are global (the statement of C04 says they survive groups); \\ifx is not applied to switches or to '
    'one \\def and one \\newcommand macro (\\long differs)',
    'dimension tests do not compare nearly equal values (TeX rounds to scaled points)',
    'an integer constant is not directly followed by a register (plasTeX then multiplies, which its unit tests require)',
    'registers (\\newcount, \\newdimen) are not assigned inside the arguments of LaTeX commands such as \\textbf, where plasTeX reads '
    'them as values',
    'conditionals are complete within a macro body or argument (no \\else or \\fi hidden in another macro)',
]

CTRS = ['qca', 'qcb']
SW = ['qqs', 'qqt', 'qqu']
REGS = ['qqn', 'qqo']
DIMS = ['qqd']
KONST = ['qqk', 'qql']          # \def'd integer constants
TXT = ['qqx', 'qqy', 'qqz']     # \def'd texts, compared by \ifx
MAC = ['qqma', 'qqmb', 'qqmc']


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.budget = 40
        self.macros = []            # (name, sig) sig: string of 'n' (numeric) / 't' (text)
        self.lets = []

    def word(self):
        self.n += 1
        n, s = self.n, ''
        while n:
            s = 'abcdefghij'[n % 10] + s
            n //= 10
        return 'w' + s + self.d.choice(['.', ';', ' ', '. '])

    def int(self, small=True):
        return self.d.weighted([(6, self.d.int(0, 4)), (1, self.d.int(5, 300))])

    def operand(self, cx, nospace=False):
        """a terminated number"""
        d = self.d
        sign = d.weighted([(8, ''), (2, '-'), (1, '--'), (1, '+'), (1, '- +')])
        k = d.weighted([(6, 'dec'), (3, 'value'), (2, 'reg'), (2, 'konst'), (1, 'hex'), (1, 'oct'), (1, 'chr'), (2, 'param'), (1, 'number'),
                        (1, 'cond')])
        end = d.choice([' ', '\\relax ', ' '])
        if k == 'param' and cx['num']:
            return sign + '#' + d.choice(cx['num']) + end
        if k == 'value':
            return sign + '\\value{%s}' % d.choice(CTRS) + end
        if k == 'reg':
            return sign + '\\' + d.choice(REGS) + d.choice([' ', '\\relax ', ' \\relax ', ' '])
        if k == 'konst':
            return sign + '\\' + d.choice(KONST) + '\\relax '
        if k == 'hex':
            return sign + '"%X' % self.int() + end
        if k == 'oct':
            return sign + "'%o" % self.int() + end
        if k == 'chr':
            c = d.choice('abAZ0?')
            esc = d.bool()
            return sign + '`' + ('\\' if esc else '') + c + ('\\relax ' if esc and c.isalpha() else end)
        if k == 'number':
            return sign + '\\number' + self.simple(cx) + '\\relax '
        if k == 'cond' and self.budget > 0:
            self.budget -= 1
            return sign + self.test(cx)[0] + str(self.int()) + ' \\else ' + str(self.int()) + ' \\fi\\relax '
        return sign + str(self.int()) + end

    def simple(self, cx):
        return str(self.int()) + ' ' if self.d.bool() else '\\' + self.d.choice(REGS) + ' '

    def dim(self, cx):
        d = self.d
        if d.bool(1, 5):
            return d.choice(['', '-']) + '\\' + d.choice(DIMS) + d.choice([' ', '\\relax '])
        x = d.choice(['1', '2', '0', '.5', '1.5', '12', '3', '0.25', '1,5'])
        return d.choice(['', '', '-', '+']) + x + d.choice(['', ' ']) + d.choice(['pt', 'pc', 'in', 'cm', 'mm', 'bp', 'dd', 'cc', 'sp', 'pt']) + \
            d.choice([' ', '\\relax '])

    def test(self, cx):
        """(head, allow else)"""
        d = self.d
        k = d.weighted([(2, 'const'), (6, 'ifnum'), (2, 'ifodd'), (2, 'ifdim'), (2, 'ifx'), (2, 'ifdefined'), (4, 'switch')])
        if k == 'const':
            return (d.choice(['\\iftrue ', '\\iffalse ']),)
        if k == 'ifnum':
            a = self.operand(cx)
            b = a if d.bool(1, 5) else self.operand(cx)
            if a.endswith('\\relax '):
                a = a[:-7] + ' '
            return ('\\ifnum' + d.choice(['', ' ']) + a + d.choice('<=>') + d.choice(['', ' ']) + b,)
        if k == 'ifodd':
            return ('\\ifodd ' + self.operand(cx),)
        if k == 'ifdim':
            a = self.dim(cx)
            b = a if d.bool(1, 4) else self.dim(cx)
            return ('\\ifdim ' + a.replace('\\relax ', ' ') + d.choice('<=>') + b,)
        if k == 'ifx':
            pool = ['\\' + x + ' ' for x in TXT + self.lets + KONST] + ['a', 'b', '\\qqundef ', '\\qqundefb ', '\\relax ', 'a', '.']
            if cx['txt'] and d.bool(1, 4):
                return ('\\ifx ' + d.choice(pool) + '#' + d.choice(cx['txt']) + '\\relax ', 'x')
            return ('\\ifx ' + d.choice(pool) + d.choice(pool),)
        if k == 'ifdefined':
            return ('\\ifdefined\\' + d.choice(TXT + ['qqundef', 'qqundefb', 'relax', 'qqs' + 'true'] + self.lets) + ' ',)
        return ('\\if' + d.choice(SW) + ' ',)

    def cond(self, depth, cx):
        d = self.d
        self.budget -= 1
        if d.bool(1, 5):
            n = d.int(1, 4)
            s = '\\ifcase ' + self.operand(cx)
            s += '\\or '.join(self.block(depth + 1, cx) for _ in range(n))
            if d.bool():
                s += '\\else ' + self.block(depth + 1, cx)
            return s + '\\fi '
        s = self.test(cx)[0] + self.block(depth + 1, cx)
        if d.bool(2, 3):
            s += '\\else ' + self.block(depth + 1, cx)
        return s + '\\fi' + d.choice([' ', '{}', ' '])

    def effect(self, cx):
        d = self.d
        k = d.weighted([(3, 'step'), (2, 'add'), (2, 'set'), (4, 'switch'), (2, 'reg'), (1, 'dim'), (2, 'konst'), (2, 'txt'), (1, 'let'), (1, 'newif')])
        if k == 'step':
            return '\\stepcounter{%s}' % d.choice(CTRS)
        if k in ('add', 'set'):
            v = d.choice([str(d.int(0, 5)), '-%d' % d.int(1, 3), '\\value{%s}' % d.choice(CTRS)])
            if cx['num'] and d.bool(1, 3):
                v = '#' + d.choice(cx['num'])
            return '\\%stocounter{%s}{%s}' % ('add', d.choice(CTRS), v) if k == 'add' else '\\setcounter{%s}{%s}' % (d.choice(CTRS), v)
        if k == 'switch':
            return '\\' + d.choice(SW) + d.choice(['true ', 'false '])
        if k == 'reg' and not cx['noreg']:
            return '\\' + d.choice(REGS) + '=' + self.operand(cx)
        if k == 'dim' and not cx['noreg']:
            return '\\' + d.choice(DIMS) + '=' + self.dim(cx)
        if k == 'konst':
            return '\\' + d.choice(['def', 'def', 'gdef']) + '\\' + d.choice(KONST) + '{%d}' % self.int()
        if k == 'txt':
            return '\\def\\' + d.choice(TXT) + d.weighted([(6, ''), (1, '#1'), (1, '#1#2'), (1, '#1.')]) + '{' + d.choice(['u', 'v', 'uv', 'v']) + '}'
        if k == 'newif':
            self.n += 1
            n = 'qqif' + ''.join('abcdefghij'[int(c)] for c in str(self.n))
            return '\\newif\\if%s ' % n + d.choice(['', '\\%strue ' % n, '\\%sfalse ' % n])
        self.lets = sorted(set(self.lets) | {'qqlet'})
        return '\\let\\qqlet' + d.choice(['=a', '=b', '\\' + d.choice(TXT) + ' ', '\\relax '])

    def block(self, depth, cx):
        return ''.join(self.stmt(depth, cx) for _ in range(self.d.int(0, 3)))

    def stmt(self, depth, cx):
        d = self.d
        if self.budget <= 0:
            return self.word()
        k = d.weighted([(6, 'cond'), (4, 'word'), (4, 'effect'), (1, 'group'), (1, 'arg'), (3, 'call'), (1, 'param'), (1, 'par'),
                        (1, 'show')])
        if k == 'cond' and depth < 5:
            return self.cond(depth, cx)
        if k == 'effect':
            return self.effect(cx)
        if k == 'group' and depth < 5:
            return '{' + self.block(depth + 1, cx) + '}'
        if k == 'arg' and depth < 5:
            return '\\' + d.choice(['textbf', 'mbox', 'emph']) + '{' + self.block(depth + 1, dict(cx, noreg=True)) + '}'
        if k == 'call' and cx['callable']:
            return self.call(depth, cx)
        if k == 'param' and cx['txt'] and (not cx['noreg'] or cx['pure']):
            return '#' + d.choice(cx['txt'])
        if k == 'show':
            return d.choice(['(\\arabic{%s})' % d.choice(CTRS), '(\\number\\%s )' % d.choice(REGS)])
        if k == 'par':
            return d.choice(['\\par ', '%c\n', '\\relax '])
        return self.word()

    def call(self, depth, cx):
        d = self.d
        self.budget -= 1
        name, sig, pure = d.choice(cx['callable'])
        if cx['noreg'] and not pure:
            return self.word()
        if pure:
            cx = dict(cx, noreg=True)
        s = '\\' + name
        for c in sig:
            if c == 'n':
                k = d.weighted([(4, 'int'), (1, 'neg'), (2, 'value'), (1, 'reg'), (2, 'param')])
                if k == 'param' and cx['num']:
                    s += '{#' + d.choice(cx['num']) + '}'
                elif k == 'value':
                    s += '{\\value{%s}}' % d.choice(CTRS)
                elif k == 'reg':
                    s += '{\\%s }' % d.choice(REGS)
                else:
                    s += '{%s%d}' % ('-' if k == 'neg' else '', self.int())
            else:
                s += '{' + self.block(depth + 1, cx) + '}'
        return s + ('' if sig else ' ')


def gen(d):
    g = Gen(d)
    out = ''.join('\\newcounter{%s}' % c for c in CTRS) + ''.join('\\newif\\if%s ' % s for s in SW) + \
        ''.join('\\newcount\\%s ' % r for r in REGS) + ''.join('\\newdimen\\%s ' % r for r in DIMS)
    out += ''.join('\\def\\%s{%d}' % (k, i + 1) for i, k in enumerate(KONST))
    out += '\\def\\qqx{u}\\def\\qqy{v}\\def\\qqz{u}\n'
    cx = dict(num='', txt='', callable=[], inmacro=False, noreg=False, pure=False)
    for i in range(d.int(0, 3)):
        sig = d.choice(['', 'n', 't', 'nt', 'nn', 'tt', 'tnt'])
        mcx = dict(num=[str(j + 1) for j, c in enumerate(sig) if c == 'n'], txt=[str(j + 1) for j, c in enumerate(sig) if c == 't'],
                   callable=list(g.macros), inmacro=True)
        mcx['noreg'] = mcx['pure'] = pure = d.bool()
        g.budget = 10
        body = g.block(1, mcx) + g.cond(1, mcx)
        if d.bool():
            out += '\\newcommand{\\%s}' % MAC[i] + ('[%d]' % len(sig) if sig else '') + '{' + body + '}\n'
        else:
            out += '\\def\\%s' % MAC[i] + ''.join('#%d' % (j + 1) for j in range(len(sig))) + '{' + body + '}\n'
        g.macros.append((MAC[i], sig, pure))
        cx['callable'] = list(g.macros)
    g.budget = 25
    body = ''.join(g.stmt(0, cx) for _ in range(d.int(1, 6)))
    body += g.cond(0, cx)
    return out + body + '\n:' + ':'.join('\\arabic{%s}' % c for c in CTRS) + ':' + ''.join('\\if%s T\\else F\\fi ' % s for s in SW)


COND = ('iftrue', 'iffalse', 'ifnum', 'ifdim', 'ifodd', 'ifcase', 'ifcase out of range', 'ifx', 'ifdefined', 'newif test')


def check(src):
    ref = CondTeX(src)
    want = ref.run()
    if ref.steps > 12000 or len(want) > 5000:
        raise Skip('too large')
    doc, tex = sut.parse(src)
    got = sut.squeeze(doc.textContent)
    require(got == want, 'visible text is %r, TeX rules give %r', got, want)
    for c, v in ref.counters.items():
        require(doc.context.counters[c].value == v, 'counter %s is %r, should be %r', c, doc.context.counters[c].value, v)
    require(len(doc.context.contexts) == 1, 'context stack depth %d after a balanced program', len(doc.context.contexts))
    ev = ref.events
    kinds = [c for c in COND if c in ev]
    return {'labels': sorted(ev), 'nontrivial': len(kinds) >= 3 and 'skipped nested conditional' in ev}


# ---------------------------------------------------------------- enumerated part
def small_cases(tier):
    """every relation/operand pair, every \\ifcase selector, every nesting of two conditionals in either branch"""
    vals = [-2, -1, 0, 1, 2, 3]
    for a in vals:
        for b in vals:
            for r in '<=>':
                yield '\\ifnum %d%s%d A\\else B\\fi ' % (a, r, b)
        yield '\\ifodd %d A\\else B\\fi ' % a
        yield '\\ifodd %d A\\fi ' % a
    for sel in range(-2, 7):
        for n in range(1, 6):
            for els in (False, True):
                for empty in (False, True):
                    br = '\\or '.join('' if empty and i == n - 1 else 'C%s.' % 'abcdefg'[i] for i in range(n))
                    yield 'x\\ifcase %d %s%s\\fi y' % (sel, br, '\\else E' if els else '')
    defs = ['', '\\def%s{u}', '\\def%s{v}', '\\def%s#1{u}', '\\def%s#1#2{u}', '\\def%s#1.{u}', '\\def%s#1{#1}', '\\def%s{}', '\\let%s=u', '\\let%s=v',
            '\\def%s{uu}', '\\def%s{{u}}']
    for a in defs:
        for b in defs:
            yield ((a % '\\x') if a else '') + ((b % '\\y') if b else '') + '\\ifx\\x\\y A\\else B\\fi \\ifx\\x u A\\else B\\fi \\ifdefined\\y C\\else D\\fi '
    conds = ['\\iftrue %s\\else %s\\fi ', '\\iffalse %s\\else %s\\fi ', '\\iftrue %s\\fi %.0s', '\\iffalse %s\\fi %.0s',
             '\\ifcase 1 %s\\or %s\\fi ', '\\ifcase 7 %s\\else %s\\fi ', '\\ifcase 0 %s\\or %s\\else e\\fi ']
    import itertools
    for o, i, j in itertools.product(conds, repeat=3):
        yield 'a' + o % ('b' + i % ('c', 'd') + 'f', 'g' + j % ('h', 'i') + 'j') + 'k'
    deep = conds if tier == 'thorough' else conds[:4]
    for o, i, j, k in itertools.product(deep, repeat=4):
        inner = i % ('b' + j % ('c', 'd'), 'e' + k % ('f', 'g'))
        yield 'z' + o % (inner, 'm' + inner) + 'y'
        yield '\\def\\m#1{' + o % ('u#1v', 'w') + '}\\m{' + inner + '}\\m{q}'


SUBS = [
    Sub('programs', check, gen=gen, quick=6000, thorough=200000,
        rule='random programs with nested conditionals of all listed kinds in text, groups, macro bodies and arguments, side effects in '
             'every branch; compared: visible text, final counters and switches, context depth; non-trivial: at least three kinds of '
             'conditionals executed and a nested conditional inside skipped text'),
    Sub('small', check, cases=small_cases,
        rule='all small integer tests, all \\ifcase selectors -2..6 x 1..5 branches x \\else, all nestings of 3 (partly 4) conditionals'),
]
