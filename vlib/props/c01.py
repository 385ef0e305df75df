"""C01: tokenization agrees with an independent TeX lexer (TeXbook ch. 8 / tex.web get_next)."""
from ..core import Sub, Violation, Skip, require
from .. import sut
from ..sut import ContextMod, TeXDocument, TeX, Tok

ASSUMPTIONS = [
    "a line of input ends at the character '\\n' (plasTeX's stand-in for \\endlinechar); it keeps category 5, or the "
    "table has neither blanks nor other line ends, so that line state is unobservable",
    "a ^^ notation that would swallow the line end is outside the domain (its value depends on \\endlinechar)",
    "escape + line end may be reported as a control space (plasTeX's documented normalisation of \\<newline>)",
    "consecutive blank lines are collapsed into one paragraph token, as the statement says",
]

LETTERS = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DEFAULT = {'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, '\0': 9,
           ' ': 10, '\t': 10, '\r': 10, '\f': 10, '~': 13, '%': 14}


class Cats:
    """Reference category table."""

    def __init__(self, base):
        self.t = {}
        if base != 'verbatim':
            self.t.update(DEFAULT)
        if base == 'at':
            self.t['@'] = 11

    def set(self, ch, code):
        self.t[ch] = code

    def __call__(self, ch):
        if ch in self.t:
            return self.t[ch]
        return 11 if ch in LETTERS else 12


class Lexer:
    """tex.web get_next restricted to characters, on a buffer that ^^ reductions edit in place."""

    def __init__(self, text, cat):
        self.buf = list(text)
        self.loc = 0
        self.cat = cat
        self.ev = []

    def reduce(self, k):
        """buf[k-1] is a superscript character just looked at; buf[k] is next. True if a ^^ notation was reduced."""
        b = self.buf
        if not (k + 1 < len(b) and b[k] == b[k - 1]):
            return False
        c = b[k + 1]
        if c == '\n':
            raise Skip('^^ at line end')
        if ord(c) >= 128:
            self.ev.append('^^ before non-ASCII')
            return False
        if c in '0123456789abcdef' and k + 2 < len(b) and b[k + 2] in '0123456789abcdef':
            b[k - 1:k + 3] = [chr(int(c + b[k + 2], 16))]
            self.ev.append('^^hex')
        else:
            o = ord(c)
            b[k - 1:k + 2] = [chr(o - 64 if o >= 64 else o + 64)]
            self.ev.append('^^X')
        return True

    def finish_line(self):
        b = self.buf
        while self.loc < len(b) and b[self.loc] != '\n':
            self.loc += 1
        self.loc += 1

    def tokens(self):
        b, cat = self.buf, self.cat
        state = 'N'
        lastpar = False
        while self.loc < len(b):
            c = b[self.loc]
            self.loc += 1
            k = cat(c)
            while k == 7 and self.reduce(self.loc):
                c = b[self.loc - 1]
                k = cat(c)
            if c == '\n' and k != 5 and not self.lineless():
                raise Skip('line end recategorised while blanks exist')
            if k in (9, 15):
                self.ev.append('dropped')
                continue
            if k == 10:
                if state == 'M':
                    state = 'S'
                    lastpar = False
                    yield (10, ' ')
                else:
                    self.ev.append('blank skipped ' + state)
                continue
            if k == 5:
                if c != '\n':
                    self.ev.append('eol char mid-line')
                    self.finish_line()
                old, state = state, 'N'
                if old == 'M':
                    lastpar = False
                    self.ev.append('eol->space')
                    yield (10, ' ')
                elif old == 'N':
                    if lastpar:
                        self.ev.append('par collapsed')
                        continue
                    lastpar = True
                    self.ev.append('blank line')
                    yield (0, 'par')
                continue
            if k == 14:
                self.ev.append('comment')
                self.finish_line()
                state = 'N'
                continue
            if k == 0:
                name, state = self.control()
                if name is None:
                    lastpar = False
                    yield 'eolspace'
                else:
                    lastpar = name == 'par'
                    yield (0, name)
                continue
            state = 'M'
            lastpar = False
            if k == 13:
                self.ev.append('active')
                yield (0, 'active::' + c)
            else:
                yield (k, c)

    def lineless(self):
        return not any(v in (5, 10) for v in self.cat.t.values())

    def control(self):
        """Scan a control sequence name; returns (name, new state); name None: escape at line end."""
        b, cat = self.buf, self.cat
        while True:                                   # start_cs
            if self.loc >= len(b):
                self.ev.append('escape at end')
                return '', 'M'
            k = self.loc
            c, code = b[k], cat(b[k])
            k += 1
            if code == 7 and self.reduce(k):
                continue
            if code != 11:
                self.loc = k
                if c == '\n':
                    if code != 5:
                        raise Skip('escape before recategorised line end')
                    self.ev.append('escape+eol')
                    return None, 'N'
                self.ev.append('control symbol' + {10: ' (blank)', 9: ' (ignored)', 15: ' (ignored)',
                                                   5: ' (eol char)'}.get(code, ''))
                return c, 'S' if code == 10 else 'M'
            restart = False
            while k < len(b):
                cc = cat(b[k])
                if cc != 11:
                    restart = cc == 7 and self.reduce(k + 1)
                    break
                k += 1
            if restart:
                continue
            name = ''.join(b[self.loc:k])
            self.loc = k
            self.ev.append('control word')
            return name, 'S'


CLASS = {0: 'EscapeSequence', 1: 'BeginGroup', 2: 'EndGroup', 3: 'MathShift', 4: 'Alignment', 6: 'Parameter',
         7: 'Superscript', 8: 'Subscript', 10: 'Space', 11: 'Letter', 12: 'Other'}

_cfg = None


def make(base, assigns):
    global _cfg
    if _cfg is None:
        _cfg = sut.ConfigMod.defaultConfig()
    ctx = ContextMod.Context(load=False)
    cats = Cats(base)
    if base == 'at':
        ctx.catcode('@', 11)
    elif base == 'verbatim':
        ctx.setVerbatimCatcodes()
    for ch, code in assigns:
        ctx.catcode(ch, code)
        cats.set(ch, code)
    doc = TeXDocument(context=ctx, config=_cfg)
    return ctx, cats, doc


def check(case):
    base, assigns, text, mid = case
    ctx, cats, doc = make(base, assigns)
    probe = sorted(set(text) | set(DEFAULT) | {c for c, _ in assigns} | set('aZ@1.') | {c for _, c, _ in mid})
    for ch in probe:
        require(ctx.whichCode(ch) == cats(ch), 'category of %r is %r, assignments say %r', ch, ctx.whichCode(ch), cats(ch))
    mid = sorted(mid, key=lambda m: m[0])
    lx = Lexer(text, cats)
    ref = lx.tokens()
    it = iter(TeX(doc).input(text).itertokens())
    i = 0
    got, want = [], []
    pend = list(mid)
    while True:
        while pend and pend[0][0] <= i:
            _, ch, code = pend.pop(0)
            ctx.catcode(ch, code)
            cats.set(ch, code)
            require(ctx.whichCode(ch) == code, 'category of %r is %r after setting it to %r', ch, ctx.whichCode(ch), code)
            lx.ev.append('mid-stream change')
        try:
            w = next(ref)
        except StopIteration:
            w = None
        try:
            t = next(it)
        except StopIteration:
            t = None
        except Exception as e:
            raise Violation('tokenizer raised %s: %s after %r' % (type(e).__name__, e, got))
        g = None
        if t is not None:
            g = (t.catcode, str(t))
            name = type(t).__name__
            require(CLASS.get(t.catcode) == name, 'token %r has class %s but category %r', str(t), name, t.catcode)
        if w == 'eolspace':
            ok = g in ((10, ' '), (0, '\n'), (0, ' '), (0, '\r'))
        else:
            ok = g == w
        got.append(g)
        want.append(w)
        if not ok:
            raise Violation('token %d: got %r, TeX prescribes %r\n got  ...%r\n want ...%r' % (i, g, w, got[-6:], want[-6:]))
        if w is None:
            break
        i += 1
        require(i <= len(text) + 1, 'more tokens than characters')
    ev = set(lx.ev)
    return {'labels': sorted(ev) + ['base ' + base] + (['assigned'] if assigns else []),
            'nontrivial': len(ev) >= 2 and len(text) >= 3}


PIECES = ['a', 'b', 'Z', ' ', '\n', '\\', '{', '}', '$', '&', '#', '^', '_', '~', '%', '1', '9', '.', '@', '|', '\t', '\r',
          '\0', '\f', '\x7f', 'é', '漢', '  ', '\n\n', '\n \n', '\\foo', '\\par', '\\foo ', '\\ ', '\\%', '\\\\', '\\\n', '%c\n',
          '%', '^^M', '^^@', '^^?', '^^41', '^^5c', '^^7e', '^^', '^^^', '^^\x1e', '^^é', '^^J', '^^25', '^^0', '^^a', '^^4Z',
          'word', ' \n', '\t\t', '\\@x ', '\\a@ ', '\\^^41 ', '\\a^^62 c', '\x85', '\u2028', '\\fo\0o', '\\\0', '""', '`', "'",
          '\U0001F600', '\n%\n', '\n\n\n', '   ', '\\foo\n', '\\foo \n\n', 'a \n', '{ }', '\\|', '| x\ny']
CATCH = ['@', '|', 'a', 'b', '%', '~', '^', '\\', '{', '}', ' ', '\t', '#', '$', '&', '_', '1', '.', '\r', '\0', 'é', '\x7f', '"',
         '\f', 'Z', 'A']


def gen(d):
    base = d.weighted([(6, 'default'), (2, 'at'), (1, 'verbatim')])
    mode = d.weighted([(5, 'none'), (4, 'few'), (2, 'perm')])
    assigns = []
    if mode == 'few':
        for _ in range(d.int(1, 4)):
            assigns.append((d.choice(CATCH), d.int(0, 15)))
    elif mode == 'perm':
        chars = d.shuffle(['\\', '{', '}', '$', '&', '#', '^', '_', '~', '%', ' ', '@', '|', '"', 'b', '1', '\r'])
        codes = d.shuffle([0, 1, 2, 3, 4, 6, 7, 8, 13, 14, 10, 11, 12, 5, 9, 15, 11])
        assigns = list(zip(chars, codes))
    if d.bool(1, 40):
        assigns.append(('\n', d.choice([12, 13, 9, 11, 3])))
    text = ''.join(d.choice(PIECES) for _ in range(d.int(0, 14)))
    mid = []
    if d.bool(1, 3):
        for _ in range(d.int(1, 3)):
            mid.append((d.int(0, 8), d.choice(CATCH), d.int(0, 15)))
    return (base, assigns, text, mid)


# --- exhaustive short strings under the default and the @-letter table
EX = ['a', ' ', '\n', '\\', '{', '%', '^', '~', '\0', '1', '\r', '#']


def ex_cases(tier):
    import itertools
    maxlen = 4 if tier == 'quick' else 5
    for n in range(0, maxlen + 1):
        if n == 4 and tier == 'quick':
            alpha = EX[:9]
        else:
            alpha = EX
        for t in itertools.product(alpha, repeat=n):
            yield ('default', [], ''.join(t), [])


SUBS = [
    Sub('random', check, gen=gen, quick=100000, thorough=3000000, fork=False, cpu=20,
        rule='random strings of lexical fragments x (base table + random assignments/permutations) x category changes between '
             'tokens; non-trivial: >=3 characters and at least two distinct lexical events (reference-lexer events)'),
    Sub('short', check, cases=ex_cases, fork=False, cpu=20,
        rule='every string up to length 4 (quick; 9-letter alphabet at length 4) or 5 (thorough) over a 12-character alphabet under the '
             'default table; non-trivial: as above'),
]
