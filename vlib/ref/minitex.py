"""An independent reference for TeX's macro expansion, written from The TeXbook (ch. 20) and source2e.

It evaluates a program text and returns the text that would be typeset (blanks dropped).  Anything TeX reports as an
error, and anything outside the modelled subset, raises Skip: such programs are outside the property's domain.
"""
from ..core import Skip

LET, OTH = 11, 12
CATS = {'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, ' ': 10, '\t': 10, '~': 13, '%': 14}


def cat(c):
    k = CATS.get(c)
    if k is not None:
        return k
    return LET if c.isascii() and c.isalpha() else OTH


def lex(text, cat=cat):
    """Default-category lexer (no ^^ notation, no active characters)."""
    i, n, state = 0, len(text), 'N'
    while i < n:
        c = text[i]
        i += 1
        k = cat(c)
        if k == 0:
            j = i
            while j < n and cat(text[j]) == LET:
                j += 1
            if j > i:
                yield (0, text[i:j])
                i, state = j, 'S'
            elif i < n:
                if text[i] == '\n':
                    raise Skip('escape at line end')
                yield (0, text[i])
                state = 'S' if text[i] == ' ' else 'M'
                i += 1
            else:
                raise Skip('escape at end')
        elif k == 5:
            if state == 'N':
                yield (0, 'par')
            elif state == 'M':
                yield (10, ' ')
            state = 'N'
        elif k == 10:
            if state == 'M':
                yield (10, ' ')
                state = 'S'
        elif k == 14:
            while i < n and text[i] != '\n':
                i += 1
            i += 1
            state = 'N'
        elif k == 7 or k == 13:
            raise Skip('unsupported character')
        else:
            yield (k, c)
            state = 'M'


class TeXError(Skip):
    pass


PRIMS = ('def', 'gdef', 'let', 'newcommand', 'renewcommand', 'csname', 'endcsname', 'expandafter', 'relax',
         'begingroup', 'endgroup', 'par', 'bgroup', 'egroup')
RELAX = ('prim', 'relax')


class Gullet:
    """Token source with expansion of macros, \\csname and \\expandafter."""

    def __init__(self, text, limit=20000):
        self.src = lex(text)
        self.buf = []            # reversed push-back
        self.scopes = [{p: ('prim', p) for p in PRIMS}]
        self.steps = 0
        self.limit = limit
        self.events = set()

    # --- raw tokens
    def next(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Skip('step limit')
        if self.buf:
            return self.buf.pop()
        return next(self.src, None)

    def need(self):
        t = self.next()
        if t is None:
            raise TeXError('file ended')
        return t

    def push(self, toks):
        self.buf.extend(reversed(toks))

    # --- meanings
    def meaning(self, t):
        if t[0] != 0:
            return ('char',) + t
        for s in reversed(self.scopes):
            if t[1] in s:
                return s[t[1]]
        return None

    def set(self, name, m, glob=False):
        if glob:
            for s in self.scopes:
                s.pop(name, None)
            self.scopes[0][name] = m
        else:
            self.scopes[-1][name] = m

    # --- macro arguments
    def balanced(self):
        """After an opening brace: tokens up to its closing brace."""
        out, level = [], 1
        while True:
            t = self.need()
            if t[0] == 1:
                level += 1
            elif t[0] == 2:
                level -= 1
                if not level:
                    return out
            out.append(t)

    def undelimited(self):
        t = self.need()
        while t[0] == 10:
            t = self.need()
        if t[0] == 2:
            raise TeXError('argument has an extra }')
        if t == (0, 'par'):
            raise TeXError('runaway')
        if t[0] == 1:
            self.events.add('group argument')
            return self.balanced()
        self.events.add('token argument')
        return [t]

    def delimited(self, delim, tobrace=False):
        out, level = [], 0
        groups = 0              # number of complete top-level groups, to know when braces are stripped
        n = len(delim)
        while True:
            if not level and n and tobrace is False and len(out) >= n and out[-n:] == delim and self._top(out, n):
                out = out[:-n]
                break
            t = self.need()
            if tobrace and not level and t[0] == 1:
                if not n or (len(out) >= n and out[-n:] == delim and self._top(out, n)):
                    self.push([t])
                    out = out[:-n] if n else out
                    break
            if t == (0, 'par'):
                raise TeXError('runaway')
            if t[0] == 1:
                level += 1
            elif t[0] == 2:
                level -= 1
                if level < 0:
                    raise TeXError('extra }')
                if level == 0:
                    groups += 1
            out.append(t)
        if len(out) >= 2 and out[0][0] == 1 and out[-1][0] == 2:
            lv = 0
            for i, t in enumerate(out):
                lv += (t[0] == 1) - (t[0] == 2)
                if lv == 0:
                    break
            if i == len(out) - 1:
                self.events.add('braces stripped')
                out = out[1:-1]
        self.events.add('delimited argument')
        return out

    @staticmethod
    def _top(out, n):
        """are the last n tokens outside of groups (delimiters contain no braces)?"""
        return not any(t[0] in (1, 2) for t in out[-n:])

    @staticmethod
    def subst(body, args):
        out, i = [], 0
        while i < len(body):
            t = body[i]
            if t[0] == 6:
                u = body[i + 1]
                i += 2
                if u[0] == 6:
                    out.append(u)
                else:
                    out.extend(args[int(u[1]) - 1])
            else:
                out.append(t)
                i += 1
        return out

    def expand_macro(self, m):
        _, pattern, tobrace, body, opt = m[:5]
        args = []
        self.events.add('call')
        if opt is not None:                              # \newcommand with optional argument
            t = self.need_nonspace()
            if t == (OTH, '['):
                self.events.add('optional given')
                args.append(self.delimited([(OTH, ']')]))
            else:
                self.events.add('optional default')
                self.push([t])
                args.append(opt)
        for d in pattern[0]:
            if self.need() != d:
                raise TeXError('use does not match definition')
        for k, d in enumerate(pattern[1:]):
            last = tobrace and k == len(pattern) - 2
            if d or last:
                args.append(self.delimited(d, last))
            else:
                args.append(self.undelimited())
        if len(pattern) == 1 and tobrace:
            t = self.need()
            if t[0] != 1:
                raise TeXError('use does not match definition')
            self.push([t])
        out = self.subst(body, args)
        if tobrace:
            # TeX appends the { to body and pattern; the caller's { was matched by it
            t = self.need()
            assert t[0] == 1
            out = out + [t]
            self.events.add('#{')
        self.push(out)

    def need_nonspace(self):
        t = self.need()
        while t[0] == 10:
            t = self.need()
        return t

    # --- expansion
    def expand_once(self, t, m):
        if m[0] == 'macro':
            self.expand_macro(m)
        elif m == ('prim', 'expandafter'):
            self.events.add('expandafter')
            a = self.need()
            b = self.need()
            mb = self.meaning(b)
            if mb is None:
                raise TeXError('undefined')
            if self.expandable(mb):
                self.expand_once(b, mb)
            else:
                self.push([b])
            self.push([a])
        elif m == ('prim', 'csname'):
            self.events.add('csname')
            name = []
            while True:
                u = self.get_x()
                if u[0] == 0:
                    if self.meaning(u) == ('prim', 'endcsname'):
                        break
                    raise TeXError('missing endcsname')
                if u[0] not in (LET, OTH):
                    raise Skip('odd character in csname')
                name.append(u[1])
            name = ''.join(name)
            if self.meaning((0, name)) is None:
                self.set(name, RELAX)
                self.events.add('csname -> relax')
            self.push([(0, name)])
        else:
            raise AssertionError(m)

    @staticmethod
    def expandable(m):
        return m[0] == 'macro' or m in (('prim', 'expandafter'), ('prim', 'csname'))

    def get_x(self):
        """next token after expansion"""
        while True:
            t = self.need()
            m = self.meaning(t)
            if m is None:
                raise TeXError('undefined \\' + t[1])
            if self.expandable(m):
                self.expand_once(t, m)
                continue
            return t


class Stomach(Gullet):
    def __init__(self, text, limit=20000):
        Gullet.__init__(self, text, limit)
        self.out = []
        self.kinds = []

    def cs_name(self):
        t = self.need_nonspace()
        if t[0] != 0:
            raise TeXError('missing control sequence')
        return t[1]

    def do_def(self, glob):
        name = self.cs_name()
        pattern, tobrace = [[]], False
        while True:
            t = self.need()
            if t[0] == 6:
                u = self.need()
                if u[0] == 1:
                    tobrace = True
                    break
                if u[0] == OTH and u[1] in '123456789' and int(u[1]) == len(pattern):
                    pattern.append([])
                else:
                    raise TeXError('parameter number')
            elif t[0] == 1:
                break
            elif t[0] == 2:
                raise TeXError('missing {')
            else:
                pattern[-1].append(t)
        body = self.body(self.balanced(), len(pattern) - 1)
        self.set(name, ('macro', pattern, tobrace, body, None), glob)
        self.events.add('gdef' if glob else 'def')

    @staticmethod
    def body(toks, nargs):
        i = 0
        while i < len(toks):
            if toks[i][0] == 6:
                if i + 1 >= len(toks):
                    raise TeXError('illegal parameter')
                u = toks[i + 1]
                if u[0] != 6 and not (u[0] == OTH and u[1] in '123456789' and int(u[1]) <= nargs):
                    raise TeXError('illegal parameter')
                i += 2
            else:
                i += 1
        return toks

    def bracket(self):
        """optional [..] of \\newcommand, or None"""
        t = self.need_nonspace()
        if t == (OTH, '['):
            return self.delimited([(OTH, ']')])
        self.push([t])
        return None

    def do_newcommand(self, renew):
        t = self.need_nonspace()
        star = t == (OTH, '*')
        if not star:
            self.push([t])
        arg = [x for x in self.undelimited() if x[0] != 10]
        if len(arg) != 1 or arg[0][0] != 0:
            raise TeXError('newcommand name')
        name = arg[0][1]
        m = self.meaning(arg[0])
        if renew and m is None:
            raise TeXError('renewcommand of undefined')
        if not renew and m is not None and m != RELAX:
            raise TeXError('newcommand of defined')
        n, opt = 0, None
        a = self.bracket()
        if a is not None:
            if len(a) != 1 or a[0][1] not in '0123456789':
                raise TeXError('number of arguments')
            n = int(a[0][1])
            opt = self.bracket()
            if opt is not None and n == 0:
                raise TeXError('optional without arguments')
        body = self.body(self.undelimited(), n)
        pattern = [[] for _ in range(n + 1 - (opt is not None))]
        self.set(name, ('macro', pattern, False, body, opt, 'newcommand'))
        self.events.add('renewcommand' if renew else 'newcommand')

    def do_let(self):
        name = self.cs_name()
        t = self.need_nonspace()
        if t == (OTH, '='):
            t = self.need()
            if t[0] == 10:
                t = self.need()
        m = self.meaning(t)
        if m is None:
            raise Skip('let to undefined')
        self.set(name, m)
        self.events.add('let char' if m[0] == 'char' else 'let')

    def emit(self, ch):
        self.out.append(ch)

    def open(self, kind):
        self.kinds.append(kind)
        self.scopes.append({})
        self.events.add('group')

    def close(self, kind):
        if not self.kinds or self.kinds[-1] != kind:
            raise TeXError('unbalanced group')
        self.kinds.pop()
        self.scopes.pop()

    def char(self, k, c):
        if k in (LET, OTH):
            self.emit(c)
        elif k == 10:
            pass
        elif k == 1:
            self.open('{')
        elif k == 2:
            self.close('{')
        elif k == 6:
            self.events.add('literal #')
            self.emit('#')
        else:
            raise Skip('unsupported character category %d' % k)

    def prim(self, name):
        if name in ('def', 'gdef'):
            self.do_def(name == 'gdef')
        elif name in ('newcommand', 'renewcommand'):
            self.do_newcommand(name == 'renewcommand')
        elif name == 'let':
            self.do_let()
        elif name == 'begingroup':
            self.open('b')
        elif name == 'endgroup':
            self.close('b')
        elif name == 'bgroup':
            self.open('{')
        elif name == 'egroup':
            self.close('{')
        elif name in ('relax', 'par'):
            pass
        else:
            raise TeXError('stray \\' + name)

    def run(self):
        while True:
            t = self.next()
            if t is None:
                break
            m = self.meaning(t)
            if m is None:
                raise TeXError('undefined \\' + t[1])
            if self.expandable(m):
                self.expand_once(t, m)
            elif m[0] == 'char':
                self.char(m[1], m[2])
            else:
                self.prim(m[1])
        if self.kinds:
            raise TeXError('unclosed group')
        return ''.join(self.out)
