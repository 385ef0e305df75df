"""C02: macro expansion agrees with an independent token-level evaluation of TeX's rules."""
from ..core import Sub, Violation, Skip, require
from .. import sut
from ..ref.minitex import Stomach

ASSUMPTIONS = [
    'programs on which TeX reports an error (undefined commands, mismatched uses, runaway arguments, unbalanced groups) '
    'are outside the domain; the reference detects them and they are counted as skipped',
    'blanks are not part of the compared text (the property says "with whitespace removed")',
    'visible text avoids the ligature characters of plasTeX (`, \', ", --) and mathematics',
    '\\newcommand/\\renewcommand are only used on names the program itself created (plasTeX documents that built-in '
    'Python macros are not replaced)',
    'optional arguments contain no unbraced [ or ] (plasTeX matches nested brackets, LaTeX does not)',
    'a lone # left in running text (an error in TeX proper) is displayed as #, following "## denotes a literal #"',
]

WORDS = ['qqa', 'qqb', 'qqc', 'qqd', 'qqe', 'qqf', 'qqg', 'qqh', '1', '?', 'Qx', 'xyzz']
RANK = {w: i for i, w in enumerate(WORDS)}
DELIMS = ['.', ';', '/', 'ab', 'aab', 'X', '..;', '\\qqstop ', '!', ' ', 'a', '::', ':;:', '\\qqstop/', ', ']
CHUNK = ['m', 'n', 'u', 'v', 'w', '1', '2', '7', '*', '+', '=', 'mn', 'uvw', 'k ', ' l', '(', ')', '@', 'M', ',', '5 6', '.', ';', 'a', 'b']


def cs(name):
    return '\\' + name + (' ' if name[-1].isalpha() else '')


class Gen:
    def __init__(self, d):
        self.d = d
        self.scopes = [{}]
        self.budget = 60
        self.n = 0

    # sig: ('def', [delims...], tobrace) or ('opt', nmandatory, hasopt) or ('char',)
    def visible(self, below=None):
        seen, out = {}, []
        for s in reversed(self.scopes):
            for k, v in s.items():
                if k not in seen:
                    seen[k] = v
        return [(k, seen[k]) for k in WORDS if k in seen and (below is None or RANK[k] < below)]

    def set(self, name, sig, glob):
        if glob:
            for s in self.scopes:
                s.pop(name, None)
            self.scopes[0][name] = sig
        else:
            self.scopes[-1][name] = sig

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]

    def text(self):
        self.n += 1
        return ''.join(self.d.choice(CHUNK) for _ in range(self.d.int(1, 3)))

    # ------------------------------------------------ argument texts
    def argtext(self, depth, ctx, forbid=''):
        """text of an argument (no outer braces)"""
        d = self.d
        k = d.weighted([(5, 'text'), (2, 'call'), (2, 'group'), (1, 'empty'), (2, 'param'), (1, 'mix'), (1, 'groups'), (1, 'cs')])
        if k == 'groups' and depth < 3:
            return '{' + self.argtext(depth + 1, ctx) + '}' + d.choice(['', 'w', ' ']) + '{' + self.argtext(depth + 1, ctx) + '}'
        if k == 'empty':
            return ''
        if k == 'call' and depth < 3:
            return self.call(depth + 1, ctx)
        if k == 'group' and depth < 3:
            return '{' + self.argtext(depth + 1, ctx) + '}'
        if k == 'param' and ctx['nparams']:
            return '#' * ctx['h'] + str(d.int(1, ctx['nparams']))
        if k == 'mix' and depth < 3:
            return self.argtext(depth + 1, ctx) + self.argtext(depth + 1, ctx)
        if k == 'cs':
            v = self.visible(ctx['below'])
            if v:
                return '\\csname ' + d.choice(v)[0] + '\\endcsname ' if d.bool(1, 6) else self.text()
        return self.text()

    def group(self, depth, ctx):
        return '{' + self.argtext(depth, ctx) + '}'

    def args_for(self, sig, depth, ctx):
        d = self.d
        if sig[0] in ('char', 'const'):
            return ''
        if sig[0] == 'def':
            delims, tobrace = sig[1], sig[2]
            out = delims[0]
            for i, dl in enumerate(delims[1:]):
                last = tobrace and i == len(delims) - 2
                if dl or last:
                    a = self.argtext(depth, ctx)
                    if dl.strip() and dl.strip() in a or (dl == ' ' and ' ' in a):
                        a = '{' + a + '}'
                    elif d.bool(1, 4):
                        a = '{' + a + '}'
                    out += a + dl
                else:
                    out += d.weighted([(5, ''), (1, ' ')])
                    if d.bool(1, 4):
                        out += d.choice('rst89*')
                    elif ctx['nparams'] and d.bool(1, 6):
                        out += '#' * ctx['h'] + str(d.int(1, ctx['nparams']))
                    else:
                        out += self.group(depth, ctx)
            if tobrace:
                out += '{' + self.argtext(depth, ctx) + '}'
            return out
        _, n, opt = sig
        out = ''
        if opt and d.bool():
            a = self.argtext(depth, ctx)
            if ']' in a or '[' in a:
                a = '{' + a + '}'
            out += '[' + a + ']'
        for _ in range(n):
            out += d.weighted([(4, ''), (1, ' ')])
            out += d.choice('rst89') if d.bool(1, 4) else self.group(depth, ctx)
        return out

    def call(self, depth, ctx):
        d = self.d
        v = self.visible(ctx['below'])
        if not v or self.budget <= 0:
            return self.text()
        self.budget -= 1
        name, sig = d.choice(v)
        k = d.weighted([(6, 'plain'), (2, 'csname'), (1, 'expandafter')])
        args = self.args_for(sig, depth, ctx)
        end = '\\relax ' if sig[0] == 'opt' and not args and d.bool() else ''
        if k == 'csname':
            return '\\csname ' + self.csbody(name, ctx) + '\\endcsname' + (' ' if not args or args[0].isalpha() else '') + args
        if k == 'expandafter' and sig[0] in ('def', 'opt') and args[:1] not in ('', ' ', '{', '#', '[', '\\'):
            return '\\expandafter' + cs(name) + args
        return cs(name) + args + end

    def csbody(self, name, ctx):
        """text whose expansion is the characters of name"""
        d = self.d
        if len(name) > 2 and d.bool(1, 4):
            # part of the name from a parameterless text macro
            k = d.int(1, len(name) - 1)
            helpers = [w for w, s in self.visible(ctx['below']) if s == ('const', name[k:])]
            if helpers:
                return name[:k] + cs(helpers[0])
        return name

    # ------------------------------------------------ definitions
    def pattern(self):
        d = self.d
        n = d.weighted([(2, 0), (4, 1), (4, 2), (2, 3), (1, 5), (1, 9)])
        delims = [d.choice(DELIMS) if d.bool(1, 5) else '']
        if delims[0] == ' ':
            delims[0] = ''
        for i in range(n):
            delims.append(d.choice(DELIMS) if d.bool(2, 5) else '')
        tobrace = d.bool(1, 8)
        return ('def', delims, tobrace)

    def define(self, depth, ctx):
        d = self.d
        self.budget -= 1
        below = ctx['below'] if ctx['below'] is not None else len(WORDS)
        if below <= 0:
            return self.text()
        name = WORDS[d.int(0, below - 1)]
        old = self.lookup(name)
        h = max(1, ctx['h'] * 2)
        inner = dict(h=h, below=RANK[name])
        H = '#' * h
        how = d.weighted([(5, 'def'), (1, 'gdef'), (3, 'newcommand'), (2, 'let'), (1, 'letchar'), (1, 'const')])
        if how in ('def', 'gdef'):
            sig = old if old and old[0] == 'def' and d.bool(2, 3) else self.pattern()
            inner['nparams'] = len(sig[1]) - 1
            pat = sig[1][0]
            for i, dl in enumerate(sig[1][1:]):
                pat += H + str(i + 1) + dl
            if sig[2]:
                pat += H
            body = self.body(depth, inner)
            s = '{' + body + '}'
            if d.bool(1, 5):
                r = '\\expandafter\\' + how + '\\csname ' + name + '\\endcsname' + (' ' if pat[:1].isalpha() else '') + pat + s
            else:
                r = '\\' + how + cs(name).rstrip() + (pat if pat[:1].isalpha() is False else
                                                     (' ' + pat if name[-1].isalpha() else pat)) + s
            self.set(name, sig, how == 'gdef')
            return r
        if how == 'newcommand':
            n = d.weighted([(2, 0), (4, 1), (3, 2), (1, 4), (1, 9)])
            opt = n > 0 and d.bool()
            sig = ('opt', n - opt, opt)
            inner['nparams'] = n
            if old is None:
                cmd = '\\newcommand'
            else:
                cmd = '\\renewcommand'
            if d.bool(1, 6):
                cmd += '*'
            r = cmd + ('{' + '\\' + name + '}' if d.bool(2, 3) else cs(name))
            if n or d.bool(1, 5):
                r += '[%d]' % n
            if opt:
                dctx = dict(ctx, below=RANK[name], nparams=0)
                a = self.argtext(depth + 1, dctx)
                if '[' in a or ']' in a:
                    a = '{' + a + '}'
                r += '[' + a + ']'
            r += '{' + self.body(depth, inner) + '}'
            self.set(name, sig, False)
            return r
        if how == 'let':
            v = [(k, s) for k, s in self.visible(RANK[name])]
            if not v:
                return self.text()
            src, sig = d.choice(v)
            eq = d.choice(['', '=', ' = ', '= '])
            if d.bool(1, 5):
                r = '\\expandafter\\let\\csname ' + name + '\\endcsname' + eq + cs(src)
            elif d.bool(1, 6):
                r = '\\expandafter\\let\\expandafter' + cs(name) + '\\csname ' + src + '\\endcsname'
            else:
                r = '\\let' + cs(name) + eq + cs(src)
            self.set(name, sig, False)
            return r
        if how == 'letchar':
            r = '\\let' + cs(name) + d.choice(['=', ' = ', '= ', '']) + d.choice(['r', 's', '7', '*'])
            self.set(name, ('char',), False)
            return r
        # a constant: part of another name
        target = d.choice(WORDS[:8])
        k = d.int(1, 2)
        self.set(name, ('const', target[k:]), False)
        return '\\def' + cs(name).rstrip() + '{' + target[k:] + '}'

    def body(self, depth, ctx):
        d = self.d
        out = ''
        if ctx['nparams'] and d.bool(2, 3):
            order = d.shuffle(range(1, ctx['nparams'] + 1)) if d.bool() else list(range(1, ctx['nparams'] + 1))
            for i in order:
                out += d.choice(['(', '', '/', '+', 'x', ' ']) + '#' * ctx['h'] + str(i)
        for _ in range(d.int(0, 3)):
            k = d.weighted([(4, 'text'), (3, 'param'), (3, 'call'), (1, 'group'), (1, 'define'), (1, 'hash')])
            if k == 'param' and ctx['nparams']:
                out += '#' * ctx['h'] + str(d.int(1, ctx['nparams']))
            elif k == 'call':
                out += self.call(depth + 1, ctx)
            elif k == 'group' and depth < 3:
                out += '{' + self.body(depth + 1, ctx) + '}'
            elif k == 'define' and depth < 3 and ctx['h'] < 4:
                save = [dict(s) for s in self.scopes]
                out += self.define(depth + 1, ctx)
                if d.bool():
                    out += self.call(depth + 1, ctx)
                self.scopes = save
            elif k == 'hash':
                if d.bool(1, 3):
                    out += '#' * (2 * ctx['h']) + d.choice(['', ' '])
            else:
                out += self.text()
        return out

    # ------------------------------------------------ programs
    def stmts(self, depth, n):
        d = self.d
        out = ''
        ctx = dict(h=0, below=None, nparams=0)
        for _ in range(n):
            have = bool(self.visible())
            k = d.weighted([(5, 'define'), (9 if have else 0, 'call'), (1, 'text'), (2, 'group'), (2 if have else 0, 'chain')])
            if k == 'define':
                out += self.define(depth, ctx)
            elif k == 'call':
                out += self.call(0, ctx)
            elif k == 'group' and depth < 3:
                a, b = d.choice([('{', '}'), ('\\begingroup ', '\\endgroup '), ('\\bgroup ', '\\egroup ')])
                self.scopes.append({})
                out += a + self.stmts(depth + 1, d.int(1, 3)) + b
                self.scopes.pop()
            elif k == 'chain':
                out += self.chain(ctx)
            else:
                out += self.text()
            out += d.weighted([(4, ''), (1, ' '), (1, '%\n'), (1, '\n')])
        return out

    def chain(self, ctx):
        """\\expandafter orders: the second macro is expanded before the first reads its argument"""
        d = self.d
        v = self.visible(ctx['below'])
        one = [(k, s) for k, s in v if (s[0] == 'opt' and s[1] >= 1 and not s[2]) or (s[0] == 'def' and len(s[1]) > 1 and not any(s[1][:2]))]
        zero = [(k, s) for k, s in v if s[0] == 'const' or (s[0] == 'opt' and s[1] == 0 and not s[2])]
        if not one or not zero:
            return self.text()
        a, sig = d.choice(one)
        b = d.choice(zero)[0]
        rest = self.args_for(('opt', max(0, (sig[1] if sig[0] == 'opt' else len(sig[1]) - 1) - 1), False), 1, ctx)
        k = d.int(0, 3)
        if k == 0:
            return '\\expandafter' + cs(a) + cs(b) + rest
        if k == 1:
            return '\\expandafter' + cs(a) + '\\csname ' + b + '\\endcsname ' + rest
        if k == 2:
            return '\\expandafter\\expandafter\\expandafter' + cs(a) + '\\csname ' + b + '\\endcsname ' + rest
        return '\\expandafter' + cs(a) + '\\expandafter{' + cs(b) + '}' + rest


def gen(d):
    g = Gen(d)
    return g.stmts(0, d.int(2, 10))


def check(src):
    ref = Stomach(src)
    want = ref.run()
    if ref.steps > 6000 or len(want) > 4000:
        raise Skip('too large')
    ctx = None
    doc, tex = sut.parse(src)
    got = sut.squeeze(doc.textContent)
    require(got == want, 'visible text is %r, TeX rules give %r', got, want)
    ev = ref.events
    return {'labels': sorted(ev), 'nontrivial': 'call' in ev and ('group argument' in ev or 'token argument' in ev or
                                                                'delimited argument' in ev or 'expandafter' in ev or 'csname' in ev)}


def warm():
    c = sut.ContextMod.Context()
    for w in WORDS + ['qqstop']:
        assert w not in c, w


SUBS = [
    Sub('programs', check, gen=gen, quick=9000, thorough=400000,
        rule='random programs of definitions (parameter patterns with single- and multi-token delimiters, #{, up to 9 parameters, '
             'nested ##, optional arguments), redefinitions in groups, \\let, \\csname, \\expandafter; non-trivial: a macro with '
             'arguments or an \\expandafter/\\csname was expanded'),
]
