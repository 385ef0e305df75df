"""Reference evaluation of programs with conditionals, on top of minitex (TeXbook ch. 20, tex.web parts 28 and 26)."""
from fractions import Fraction
from ..core import Skip
from .minitex import Stomach, Gullet, TeXError, LET, OTH, RELAX

UNITS = {'pt': Fraction(1), 'pc': Fraction(12), 'in': Fraction(7227, 100), 'bp': Fraction(7227, 7200),
         'cm': Fraction(7227, 254), 'mm': Fraction(7227, 2540), 'dd': Fraction(1238, 1157), 'cc': Fraction(14856, 1157),
         'sp': Fraction(1, 65536)}
IFS = ('iftrue', 'iffalse', 'ifnum', 'ifdim', 'ifodd', 'ifcase', 'ifx', 'ifdefined')
MORE = IFS + ('else', 'fi', 'or', 'newif', 'newcounter', 'stepcounter', 'addtocounter', 'setcounter', 'value', 'arabic', 'number',
              'newcount', 'newdimen', 'textbf', 'mbox', 'emph')


def roman(n):
    out = ''
    for v, s in ((1000, 'm'), (900, 'cm'), (500, 'd'), (400, 'cd'), (100, 'c'), (90, 'xc'), (50, 'l'), (40, 'xl'),
                 (10, 'x'), (9, 'ix'), (5, 'v'), (4, 'iv'), (1, 'i')):
        while n >= v:
            out += s
            n -= v
    return out


class CondTeX(Stomach):
    def __init__(self, text, limit=20000):
        Stomach.__init__(self, text, limit)
        for p in MORE:
            self.scopes[0][p] = ('prim', p)
        self.counters = {}
        self.switch = {}
        self.conds = []          # open conditionals: 'if' (a true branch), 'else', 'or'
        self.regs = {}
        self.expanding_number = 0

    # ---- conditionals
    def expandable(self, m):
        return Gullet.expandable(m) or m[0] == 'switch' or (m[0] == 'prim' and (
            m[1] in IFS or m[1] in ('else', 'fi', 'or', 'arabic', 'number')))

    def expand_once(self, t, m):
        if m[0] == 'switch':
            self.events.add('newif test')
            return self.conditional(self.switch[m[1]])
        if m[0] == 'prim':
            k = m[1]
            if k in IFS:
                self.events.add(k)
                return self.run_if(k)
            if k in ('else', 'or'):
                if not self.conds or self.conds[-1] not in ('if', 'case') or (k == 'or' and self.conds[-1] != 'case'):
                    raise TeXError('extra ' + k)
                self.skip_rest()
                return
            if k == 'fi':
                if not self.conds:
                    raise TeXError('extra fi')
                self.conds.pop()
                return
            if k == 'arabic':
                self.push([(OTH, c) for c in str(self.counter(self.cname()))])
                return
            if k == 'number':
                n = self.number()
                self.push([(OTH, c) for c in str(n)])
                return
        return Gullet.expand_once(self, t, m)

    def run_if(self, k):
        if k == 'ifcase':
            self.conds.append('scan')
            n = self.number()
            self.endscan()
            return self.case(n)
        if k in ('iftrue', 'iffalse'):
            v = k == 'iftrue'
        elif k == 'ifnum':
            self.conds.append('scan')
            a = self.number()
            r = self.relation()
            b = self.number()
            self.endscan()
            v = {'<': a < b, '>': a > b, '=': a == b}[r]
        elif k == 'ifdim':
            self.conds.append('scan')
            a = self.dimen()
            r = self.relation()
            b = self.dimen()
            self.endscan()
            if a != b and abs(a - b) < Fraction(1, 1000):
                raise Skip('nearly equal dimensions')
            v = {'<': a < b, '>': a > b, '=': a == b}[r]
        elif k == 'ifodd':
            self.conds.append('scan')
            v = bool(self.number() % 2)
            self.endscan()
        elif k == 'ifx':
            a, b = self.need(), self.need()
            ma, mb = self.meaning(a), self.meaning(b)
            if ma is not None and mb is not None and ma[0] == mb[0] == 'macro':
                if ma is not mb and (ma[4] is not None or mb[4] is not None or ma[5:] != mb[5:]):
                    raise Skip('ifx of different kinds of macros')
            if (ma and ma[0] == 'switch') or (mb and mb[0] == 'switch'):
                raise Skip('ifx of switches')
            v = ma == mb
        elif k == 'ifdefined':
            t = self.need()
            v = self.meaning(t) is not None
        self.conditional(v)

    def endscan(self):
        if self.conds[-1] != 'scan':
            raise Skip('number ends inside a conditional')
        self.conds.pop()

    def case(self, n):
        self.events.add('ifcase out of range' if n < 0 else 'ifcase')
        while n != 0:
            k = self.skip()
            if k == 'fi':
                self.events.add('ifcase nothing')
                return
            if k == 'else':
                self.events.add('ifcase else')
                self.conds.append('else')
                return
            n -= 1
        self.conds.append('case')

    def conditional(self, v):
        if v:
            self.conds.append('if')
            return
        k = self.skip()
        if k == 'or':
            raise TeXError('extra or')
        if k == 'else':
            self.conds.append('else')

    def skip_rest(self):
        """\\else or \\or met while a branch is being processed: skip to the matching \\fi"""
        kind = self.conds.pop()
        while True:
            k = self.skip()
            if k == 'fi':
                return
            if k == 'else' and kind == 'done':
                raise TeXError('extra else')

    def skip(self):
        """skip to the \\or, \\else or \\fi of the current level; returns which"""
        level = 0
        while True:
            t = self.need()
            m = self.meaning(t)
            if m is None or t[0] != 0:
                continue
            if m[0] == 'switch' or (m[0] == 'prim' and m[1] in IFS):
                level += 1
                self.events.add('skipped nested conditional')
            elif m == ('prim', 'fi'):
                if not level:
                    return 'fi'
                level -= 1
            elif m in (('prim', 'else'), ('prim', 'or')) and not level:
                return m[1]

    # ---- numbers
    def get_nx(self):
        t = self.get_x()
        while t[0] == 10:
            t = self.get_x()
        return t

    def get_x(self):
        while True:
            t = self.need()
            m = self.meaning(t)
            if m is None:
                raise TeXError('undefined \\' + t[1])
            if self.expandable(m):
                if m[0] == 'prim' and m[1] in ('else', 'fi', 'or') and self.conds and self.conds[-1] == 'scan':
                    # TeX inserts \relax here; programs that rely on it are left out
                    raise Skip('number not terminated')
                self.expand_once(t, m)
                continue
            return t

    def signs(self):
        s = 1
        while True:
            t = self.get_nx()
            if t == (OTH, '-'):
                s = -s
            elif t != (OTH, '+'):
                return s, t

    def optspace(self):
        t = self.get_x()
        if t[0] != 10:
            self.push([t])

    def digits(self, t, base, chars):
        n = 0
        any_ = False
        while t[1] in chars and t[0] in ((OTH,) if base < 16 else (OTH, LET)) and len(t[1]) == 1:
            n = n * base + int(t[1], 16)
            any_ = True
            t = self.get_x()
        if not any_:
            raise TeXError('missing number')
        if t[0] != 10:
            m = self.meaning(t)
            if base == 10 and t[0] == 0 and m is not None and (m[0] in ('count', 'dimen') or m == ('prim', 'value')):
                raise Skip('number followed by a register')
            self.push([t])
        return n

    def internal(self, t):
        m = self.meaning(t)
        if t[0] == 0 and m is not None:
            if m[0] == 'count':
                self.events.add('register')
                return self.regs[m[1]]
            if m == ('prim', 'value'):
                self.events.add('value')
                return self.counter(self.cname())
        return None

    def number(self):
        s, t = self.signs()
        v = self.internal(t)
        if v is not None:
            return s * v
        if t == (OTH, "'"):
            return s * self.digits(self.get_x(), 8, '01234567')
        if t == (OTH, '"'):
            return s * self.digits(self.get_x(), 16, '0123456789ABCDEF')
        if t == (OTH, '`'):
            u = self.need()
            if len(u[1]) != 1:
                raise TeXError('improper alphabetic constant')
            v = ord(u[1])
            self.optspace()
            return s * v
        return s * self.digits(t, 10, '0123456789')

    def relation(self):
        t = self.get_nx()
        if t[0] == OTH and t[1] in '<>=':
            return t[1]
        raise TeXError('relation')

    def dimen(self):
        s, t = self.signs()
        m = self.meaning(t)
        if m is not None and m[0] == 'dimen':
            self.events.add('dimen register')
            return s * self.regs[m[1]]
        num = ''
        while t[0] == OTH and t[1] in '0123456789.,':
            num += t[1].replace(',', '.')
            t = self.get_x()
        if not num or num.count('.') > 1 or num == '.':
            raise TeXError('missing number')
        while t[0] == 10:
            t = self.get_x()
        m = self.meaning(t)
        if m is not None and m[0] == 'dimen':
            return s * Fraction(num) * self.regs[m[1]]
        u = self.get_x()
        unit = t[1] + u[1]
        if unit not in UNITS or t[0] not in (LET, OTH):
            raise TeXError('unit')
        self.optspace()
        return s * Fraction(num) * UNITS[unit]

    # ---- commands
    def cname(self):
        toks = self.undelimited()
        return ''.join(t[1] for t in toks if t[0] in (LET, OTH))

    def counter(self, n):
        if n not in self.counters:
            raise TeXError('no counter ' + n)
        return self.counters[n]

    def groupnumber(self):
        """{number} argument: expanded and read as a number"""
        toks = self.undelimited()
        self.push(toks + [(0, 'relax')])
        n = self.number()
        t = self.need()
        while t[0] == 10:
            t = self.need()
        if t != (0, 'relax'):
            raise TeXError('number argument')
        return n

    def equals(self):
        t = self.get_nx()
        if t != (OTH, '='):
            self.push([t])

    def prim(self, name):
        if name == 'newif':
            n = self.cs_name()
            if not n.startswith('if') or n in IFS:
                raise Skip('newif name')
            base = n[2:]
            if self.meaning((0, n)) is not None:
                raise Skip('newif twice')
            self.switch[n] = False
            self.set(n, ('switch', n), True)
            self.set(base + 'true', ('setter', n, True), True)
            self.set(base + 'false', ('setter', n, False), True)
        elif name == 'newcounter':
            self.counters[self.cname()] = 0
        elif name in ('stepcounter', 'addtocounter', 'setcounter'):
            c = self.cname()
            v = self.counter(c)
            self.events.add('counter effect')
            if name == 'stepcounter':
                self.counters[c] = v + 1
            else:
                n = self.groupnumber()
                self.counters[c] = n if name == 'setcounter' else v + n
        elif name in ('newcount', 'newdimen'):
            n = self.cs_name()
            self.set(n, (name[3:], n), True)
            self.regs[n] = 0
        elif name in ('textbf', 'mbox', 'emph'):
            self.push([(1, '{')] + self.undelimited() + [(2, '}')])
            self.events.add('command argument')
        else:
            Stomach.prim(self, name)

    def run(self):
        while True:
            t = self.next()
            if t is None:
                break
            m = self.meaning(t)
            if m is None:
                raise TeXError('undefined \\' + t[1])
            if self.expandable(m):
                self.expand_once(t, m)
            elif m[0] == 'char':
                self.char(m[1], m[2])
            elif m[0] == 'setter':
                self.switch[m[1]] = m[2]
                self.events.add('setter')
            elif m[0] == 'count':
                self.equals()
                self.regs[m[1]] = self.number()
            elif m[0] == 'dimen':
                self.equals()
                self.regs[m[1]] = self.dimen()
            else:
                self.prim(m[1])
        if self.kinds:
            raise TeXError('unclosed group')
        if self.conds:
            raise TeXError('incomplete conditional')
        return ''.join(self.out)
