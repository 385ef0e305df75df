"""C04: grouping restores every local change and leaves the context stack balanced."""
import itertools
from ..core import Sub, Violation, Skip, require
from .. import sut

TECHNIQUE = "property-based testing: exhaustive and random histories of context operations, random balanced programs, against a stack-of-frames model"
LEVEL = "exhaustive-bounded + random"
NOTE = "API histories are exhaustive to 4 (thorough 5) operations over 15 operations; programs are random nestings of 25 kinds of groups."

ASSUMPTIONS = [
    'a \\newif switch and a counter are global (as the statement says)',
    'the argument of a user-defined macro is not a group (TeX); arguments of LaTeX commands such as \\textbf, \\mbox, \\footnote are',
    '\\newcommand follows LaTeX: local to the group; \\renewcommand is applied only to names the program defined',
    'names used: four user control sequences; characters | ! ? + < @ whose category the program changes (they are otherwise unused)',
]

# =========================================================== histories of operations on the API
NAMES = ['qa', 'qb']
CHARS = ['|', 'x']
PROBE_CHARS = ['|', 'x', '\\', '{', ' ', '%', '1']


class Model:
    def __init__(self, cats):
        self.frames = [{'m': {}, 'c': dict(cats), 'o': None}]

    def push(self, o=None):
        self.frames.append({'m': {}, 'c': dict(self.frames[-1]['c']), 'o': o})

    def pop(self):
        if len(self.frames) > 1:
            self.frames.pop()

    def meaning(self, n):
        for f in reversed(self.frames):
            if n in f['m']:
                return f['m'][n]
        return None


DEF_CATS = {'\\': 0, '{': 1, '}': 2, '$': 3, '&': 4, '\n': 5, '#': 6, '^': 7, '_': 8, ' ': 10, '\t': 10, '%': 14, '~': 13, '1': 12, '|': 12, 'x': 11,
            'a': 11, '@': 12, '!': 12, '?': 12, '+': 12, '<': 12}


def mean(ctx, n):
    a = ctx.get_let(n)
    if a is not None:
        return ('char', a.catcode, str(a))
    m = ctx.get(n)
    if m is None:
        if n in ctx:
            return 'inconsistent: %r in context but get() is None' % n
        return None
    if n not in ctx:
        return 'inconsistent: %r not in context but get() is %r' % (n, m)
    if ctx[n] is not m:
        return 'inconsistent: ctx[%r] is not ctx.get(%r)' % (n, n)
    d = getattr(m, 'definition', None)
    if d is not None:
        return ('def', ''.join(str(t) for t in d))
    return ('class', m.__name__)


def api(case):
    """case: list of operations"""
    ctx = sut.ContextMod.Context()
    mod = Model({c: DEF_CATS[c] for c in PROBE_CHARS})
    n = 0
    deep = 0
    objs = {}
    import plasTeX
    doc = plasTeX.Command()
    for step, op in enumerate(case):
        k = op[0]
        if k == 'push':
            ctx.push(); mod.push()
        elif k == 'pop':
            # the group at the top must be a plain one (balanced input)
            if len(mod.frames) > 1 and mod.frames[-1]['o'] is None:
                ctx.pop(); mod.pop()
        elif k == 'begin':
            o = plasTeX.Environment()
            o.macroMode = o.MODE_BEGIN
            o.ownerDocument = doc
            ctx.push(o); mod.push(o)
        elif k == 'end':
            # \end of the environment that was opened last
            o = mod.frames[-1]['o']
            if o is not None:
                e = plasTeX.Environment()
                e.macroMode = e.MODE_END
                e.ownerDocument = doc
                ctx.pop(e if op[1] else o); mod.pop()
        elif k in ('ldef', 'gdef', 'lnew', 'gnew', 'addl', 'addg'):
            n += 1
            body = 'w' + 'abcdefghijklmnopqrstuvwxyz'[n % 26] * (1 + n // 26)
            name = NAMES[op[1]]
            if k == 'ldef':
                ctx.newdef(name, None, body, local=True)
            elif k == 'gdef':
                ctx.newdef(name, None, body, local=False)
            elif k == 'lnew':
                ctx.newcommand(name, 0, body, local=True)
            elif k == 'gnew':
                ctx.newcommand(name, 0, body)
            else:
                cls = type(name, (plasTeX.Definition,), {'args': None, 'definition': list(sut.Tok.Tokenizer(body, ctx)) if ctx.whichCode('x') == 11 else
                                                         [sut.Tok.Letter(c) for c in body]})
                (ctx.addLocal if k == 'addl' else ctx.addGlobal)(name, cls)
            v = ('def', body)
            if k in ('ldef', 'lnew', 'addl'):
                mod.frames[-1]['m'][name] = v
            else:
                for f in mod.frames:
                    f['m'].pop(name, None)
                mod.frames[0]['m'][name] = v
        elif k == 'letc':
            ch = 'kmn'[op[2]]
            ctx.let(sut.Tok.EscapeSequence(NAMES[op[1]]), sut.Tok.Letter(ch))
            mod.frames[-1]['m'][NAMES[op[1]]] = ('char', 11, ch)
        elif k == 'letn':
            src = mod.meaning(NAMES[1 - op[1]])
            if src is None:
                continue
            ctx.let(sut.Tok.EscapeSequence(NAMES[op[1]]), sut.Tok.EscapeSequence(NAMES[1 - op[1]]))
            mod.frames[-1]['m'][NAMES[op[1]]] = src
        elif k == 'cat':
            ctx.catcode(CHARS[op[1]], op[2])
            mod.frames[-1]['c'][CHARS[op[1]]] = op[2]
        elif k == 'verb':
            ctx.setVerbatimCatcodes()
            for c in PROBE_CHARS:
                mod.frames[-1]['c'][c] = 11 if c.isalpha() else 12
        deep = max(deep, len(mod.frames))
        require(len(ctx.contexts) == len(mod.frames), 'step %d %r: %d frames, model has %d', step, op, len(ctx.contexts), len(mod.frames))
        require(ctx.depth == len(mod.frames), 'step %d %r: depth is %r, model has %d frames', step, op, ctx.depth, len(mod.frames))
        for nm in NAMES:
            got, want = mean(ctx, nm), mod.meaning(nm)
            require(got == want, 'step %d %r: \\%s means %r, innermost live definition is %r', step, op, nm, got, want)
        for c in PROBE_CHARS:
            got, want = ctx.whichCode(c), mod.frames[-1]['c'][c]
            require(got == want, 'step %d %r: category of %r is %r, should be %r', step, op, c, got, want)
    kinds = {o[0] for o in case}
    return {'labels': sorted(kinds) + ['depth %d' % min(deep, 6)],
            'nontrivial': deep > 1 and len(kinds) >= 3 and bool(kinds & {'pop', 'end'})}


def ops():
    return [('push',), ('pop',), ('begin',), ('end', 0), ('end', 1), ('ldef', 0), ('gdef', 0), ('lnew', 1), ('gnew', 0), ('addl', 0), ('addg', 0),
            ('letc', 0, 0), ('letn', 0), ('cat', 0, 11), ('cat', 0, 13), ('verb',)]


def api_cases(tier):
    yield from ([list(c) for n in range(1, 5 if tier == 'thorough' else 4) for c in itertools.product(ops(), repeat=n)])
    # deeper: every sequence that contains a push first
    few = [('push',), ('pop',), ('begin',), ('end', 1), ('ldef', 0), ('gdef', 0), ('letc', 0, 0), ('cat', 0, 11), ('verb',)]
    for c in itertools.product(few, repeat=5 if tier == 'thorough' else 4):
        yield [('ldef', 0), ('push',)] + list(c) + [('pop',), ('end', 1)]


def api_gen(d):
    def op():
        k = d.weighted([(5, 'push'), (5, 'pop'), (3, 'begin'), (4, 'end'), (3, 'ldef'), (2, 'gdef'), (2, 'lnew'), (1, 'gnew'), (1, 'addl'),
                        (1, 'addg'), (3, 'letc'), (2, 'letn'), (4, 'cat'), (1, 'verb')])
        if k in ('ldef', 'gdef', 'lnew', 'gnew', 'addl', 'addg', 'letn'):
            return (k, d.int(0, 1))
        if k == 'letc':
            return (k, d.int(0, 1), d.int(0, 2))
        if k == 'cat':
            return (k, d.int(0, 1), d.int(0, 15))
        if k == 'end':
            return (k, d.int(0, 1))
        return (k,)
    return d.list(op, 4, 40)


# =========================================================== programs
UN = ['qa', 'qb', 'qc', 'qd']
UC = ['|', '!', '?', '+', '<', '@']
SIMPLE_ENVS = ['center', 'quote', 'flushleft', 'quotation', 'minipage', 'verse', 'figure', 'table', 'abstract', 'sloppypar', 'small', 'em']
ENVARGS = {'minipage': '{2in}'}
CMDARGS = ['textbf', 'emph', 'mbox', 'textit', 'footnote', 'fbox', 'underline', 'textsf', 'uppercaseX']
MATHS = [('$', '$'), ('\\(', '\\)'), ('\\[', '\\]'), ('$$', '$$'), ('\\begin{equation}', '\\end{equation}'), ('\\begin{math}', '\\end{math}'),
         ('\\begin{displaymath}', '\\end{displaymath}'), ('\\begin{eqnarray}', '\\end{eqnarray}')]


def pgen(d):
    st = {'n': 0, 'budget': 22, 'probes': 0}

    def word():
        st['n'] += 1
        return 'w' + ''.join('abcdefghij'[int(c)] for c in str(st['n']))

    def stmt(depth, mode):
        st['budget'] -= 1
        grp = 8 if depth < 6 and st['budget'] > 0 else 0
        k = d.weighted([(2, 'word'), (grp, 'group'), (3, 'def'), (1, 'gdef'), (2, 'let'), (2, 'nc'), (4, 'cat'), (1, 'at'), (1, 'switch'), (1, 'ctr'),
                        (2, 'T'), (1, 'verb'), (1, 'newif'), (1, 'label')])
        if k == 'word':
            return ['word', word()]
        if k in ('def', 'gdef', 'nc'):
            return [k, d.int(0, 3), word()]
        if k == 'let':
            return [k, d.int(0, 3), d.choice(['k', 'm', '0', '1', '2', '3', 'textbf', 'relax'])]
        if k == 'cat':
            return [k, d.int(0, 4), d.choice([11, 12, 13, 14, 9, 0, 1, 2, 3, 4, 6, 7, 8, 10, 15]), d.int(0, 1)]
        if k == 'at':
            return [k, d.int(0, 1)]
        if k == 'switch':
            return [k, d.int(0, 1)]
        if k == 'ctr':
            return [k, d.choice(['step', 'set', 'add', 'new'])]
        if k == 'T':
            return ['T', d.choice(['names', 'chars'])]
        if k == 'verb':
            return ['verb', d.choice(['verb', 'verbatim', 'verb*', 'verbatim*', 'lstlisting', 'lstinline', 'comment', 'bibliography', 'thebibliography'])] \
                if mode == 'text' else ['word', word()]
        if k == 'newif':
            return ['newif']
        if k == 'label':
            return ['label'] if mode == 'text' else ['word', word()]
        if k == 'group':
            if mode == 'math':
                g = d.choice(['brace', 'bg', 'array', 'mbox'])
            elif mode == 'alltt':
                g = d.choice(['brace', 'bg', 'env'])
            elif mode == 'text':
                g = d.choice(['alltt', 'brace', 'bg', 'env', 'math', 'arg', 'tab', 'list', 'uenv', 'env', 'math', 'macro', 'tab'])
            else:           # argument or macro body
                g = d.choice(['brace', 'bg', 'math', 'arg', 'env', 'tab', 'list', 'uenv'])
            if g in ('tab', 'array'):
                m = 'math' if g == 'array' else mode
                def cell():
                    c = d.weighted([(5, 'cell'), (1, 'multi')])
                    return [c, block(depth + 1, 'arg' if c == 'multi' and m == 'text' else m, 2)]
                return [g, d.choice(['tabular', 'tabular', 'tabular*', 'tabularuser']) if g == 'tab' else 'array',
                        d.list(lambda: d.list(cell, 1, 3), 1, 3), d.bool()]
            if g == 'list':
                return [g, d.choice(['itemize', 'enumerate', 'description', 'trivlist']), d.list(lambda: block(depth + 1, mode, 2), 1, 3)]
            m = {'math': 'math', 'arg': 'arg', 'alltt': 'alltt', 'mbox': 'arg', 'macro': 'macro', 'uenv': 'macro'}.get(g, mode)
            if g == 'uenv' and mode == 'text':
                m = 'text'
            x = {'env': lambda: d.choice(SIMPLE_ENVS), 'math': lambda: d.int(0, len(MATHS) - 1), 'arg': lambda: d.choice(CMDARGS[:-1]),
                 'uenv': lambda: [d.int(0, 3), word(), d.int(0, 2), word()]}.get(g, lambda: 0)()
            return [g, x, block(depth + 1, m, 3)]
        raise AssertionError(k)

    def block(depth, mode, n=4):
        return [stmt(depth, mode) for _ in range(d.int(0, n))]
    return [d.weighted([(3, 'frag'), (2, 'doc'), (2, 'pkgs')]), [stmt(0, 'text') for _ in range(d.int(1, 6))] + [['brace', 0, block(1, 'text', 3)]]]


BUILTINS = ['\\', 'item', 'active::&', 'active::~', 'active::$', 'caption', 'hline', 'textbf', 'begin', 'par', 'bgroup', 'math', 'array', 'cr', 'footnote',
            'centering', 'multicolumn', '(', '[', 'nonumber', 'section', 'label', 'endtabular', 'tabular', 'qqprobe']


class Prog:
    def __init__(self):
        self.frames = [{'m': {}, 'c': {c: 12 for c in UC}}]
        self.sw = False
        self.ctr = 0
        self.newctrs = {}
        self.ifs = 0
        self.expect = []        # per probe: (kind, block id, expected)
        self.blk = 0
        self.events = set()
        self.maxdepth = 0
        self.labels = 0
        self.pkgs = False

    def push(self):
        self.frames.append({'m': {}, 'c': dict(self.frames[-1]['c'])})
        self.maxdepth = max(self.maxdepth, len(self.frames))

    def pop(self):
        self.frames.pop()

    def meaning(self, n):
        for f in reversed(self.frames):
            if n in f['m']:
                return f['m'][n]
        return None

    def probe(self, b):
        self.expect.append(('P', b, {n: self.meaning(n) for n in UN}, dict(self.frames[-1]['c']), self.sw, self.ctr, dict(self.newctrs), self.ifs))
        return '\\qqprobe '

    def block(self, nodes, mode, executed=True):
        self.blk += 1
        b = self.blk
        s = self.probe(b)
        for nd in nodes:
            s += self.node(nd, mode)
            s += self.probe(b)
        return s

    def define(self, n, v):
        self.frames[-1]['m'][n] = v

    def node(self, nd, mode):
        k = nd[0]
        self.events.add(k)
        if k == 'word':
            return nd[1] + ' '
        if k in ('def', 'nc', 'gdef'):
            n = UN[nd[1]]
            v = ('def', nd[2])
            if k == 'gdef':
                for f in self.frames:
                    f['m'].pop(n, None)
                self.frames[0]['m'][n] = v
                return '\\gdef\\%s{%s}' % (n, nd[2])
            old = self.meaning(n)
            self.define(n, v)
            if k == 'nc' and (old is None or old[0] == 'def'):
                return '\\%s{\\%s}{%s}' % ('newcommand' if old is None else 'renewcommand', n, nd[2])
            return '\\def\\%s{%s}' % (n, nd[2])
        if k == 'let':
            n, src = UN[nd[1]], nd[2]
            if src.isdigit():
                v = self.meaning(UN[int(src)])
                if v is None:
                    return ''
                self.define(n, v)
                return '\\let\\%s=\\%s ' % (n, UN[int(src)])
            if len(src) > 1:
                self.define(n, ('class', src))
                return '\\let\\%s\\%s ' % (n, src)
            self.define(n, ('char', 11, src))
            return '\\let\\%s=%s' % (n, src)
        if k == 'cat':
            c = UC[nd[1]]
            self.frames[-1]['c'][c] = nd[2]
            return '\\catcode`\\%s=%d ' % (c, nd[2])
        if k == 'at':
            self.frames[-1]['c']['@'] = 11 if nd[1] else 12
            return '\\makeatletter ' if nd[1] else '\\makeatother '
        if k == 'switch':
            self.sw = bool(nd[1])
            return '\\qqs%s ' % ('true' if nd[1] else 'false')
        if k == 'newif':
            self.ifs += 1
            return '\\newif\\ifqqf%s ' % ''.join('abcdefghij'[int(c)] for c in str(self.ifs))
        if k == 'ctr':
            if nd[1] == 'step':
                self.ctr += 1
                return '\\stepcounter{qqctr}'
            if nd[1] == 'set':
                self.ctr = 7
                return '\\setcounter{qqctr}{7}'
            if nd[1] == 'add':
                self.ctr -= 2
                return '\\addtocounter{qqctr}{-2}'
            nm = 'qqn' + ''.join('abcdefghij'[int(c)] for c in str(len(self.newctrs)))
            self.newctrs[nm] = 3
            return '\\newcounter{%s}\\setcounter{%s}{3}' % (nm, nm)
        if k == 'label':
            self.labels += 1
            return '\\label{qq_l%d}\\ref{qq_l%d}' % (self.labels, self.labels)
        if k == 'T':
            if mode in ('math', 'alltt'):
                return ''
            if nd[1] == 'names':
                s, w = '', ''
                for n in UN:
                    v = self.meaning(n)
                    if v is None or v[0] == 'class':
                        continue
                    s += '\\%s .' % n
                    w += (v[1] if v[0] == 'def' else v[2]) + '.'
                if not s:
                    return ''
                self.expect.append(('T', w))
                return '\\qqrec{%s}' % s
            if mode in ('macro', 'arg'):
                return ''       # the text was tokenized when the argument or the body was read
            out = ''
            for c in UC:
                code = self.frames[-1]['c'][c]
                w = {11: 'Q', 12: 'P' + c, 9: 'P', 14: 'P'}.get(code)
                if w is None:
                    continue
                self.expect.append(('T', w + '.'))
                out += '\\qqrec{\\qx%s\n.}' % c
            return out
        if k == 'verb':
            if nd[1] == 'verb':
                return '\\verb=a\\b{%$='
            if nd[1] == 'verb*':
                return '\\verb*"}{\\b~%$"'
            if nd[1] == 'verbatim*':
                return '\\begin{verbatim*}\n{{{ $\n\\end{verbatim*}\n'
            if nd[1] == 'comment':
                return '\\begin{comment}\n{{{ $ \\foo\n\\end{comment}\n' if self.pkgs else ''
            if nd[1] == 'lstlisting':
                return '\\begin{lstlisting}\n{{{ $ \\foo\n\\end{lstlisting}\n' if self.pkgs else ''
            if nd[1] == 'lstinline':
                return '\\lstinline=a\\b{%$=' if self.pkgs else ''
            if nd[1] == 'bibliography':
                return '\\bibliography{qqnofile}' if self.pkgs else ''
            if nd[1] == 'thebibliography':
                return '\\begin{thebibliography}{9}\\bibitem{qqk} \\def\\qa{zz}Text\\end{thebibliography}'
            return '\\begin{verbatim}\n\\end{center} } { $ %\n\\end{verbatim}\n'
        return self.group(k, nd, mode)

    def group(self, k, nd, mode):
        if k in ('tab', 'array'):
            env = nd[1]
            head = {'tabular': '\\begin{tabular}{l|c|r}', 'tabular*': '\\begin{tabular*}{3in}{lcr}', 'array': '\\begin{array}{lcr}',
                    'tabularuser': '\\begin{tabular}[t]{p{1in}@{x}cr}'}[env]
            if self.frames[-1]['c']['|'] != 12 or self.frames[-1]['c']['@'] != 12:
                head = head.replace('|', '').replace('@{x}', '')
            s = head
            self.push()
            rows = []
            for row in nd[2]:
                cells = []
                for kind, cell in row:
                    self.push()
                    if kind == 'multi':
                        self.push()
                        cells.append('\\multicolumn{1}{c}{' + self.block(cell, 'arg' if mode == 'text' else mode) + '}')
                        self.pop()
                    else:
                        cells.append(self.block(cell, mode))
                    self.pop()
                rows.append(' & '.join(cells))
            s += ' \\\\ '.join(rows) + (' \\\\ \\hline ' if nd[3] else '')
            self.pop()
            return s + '\\end{%s}' % ('tabular' if env == 'tabularuser' else env)
        if k == 'list':
            s = '\\begin{%s}' % nd[1]
            self.push()
            for it in nd[2]:
                s += '\\item ' + ('[x] ' if nd[1] == 'description' else '') + self.block(it, mode)
            self.pop()
            return s + '\\end{%s}' % nd[1]
        x, body = nd[1], nd[2]
        if k == 'macro':
            # a macro body is not a group
            n = 'qqm' + ''.join('abcdefghij'[int(c)] for c in str(self.blk))
            return '\\def\\%s{%s}\\%s ' % (n, self.block(body, 'macro'), n)
        if k == 'uenv':
            n = 'qqe' + ''.join('abcdefghij'[int(c)] for c in str(self.blk))
            head = '\\newenvironment{%s}{\\def\\%s{%s}%s}{%s\\def\\%s{%s}}' % (
                n, UN[x[0]], x[1], ['', '\\begin{quote}', '\\begingroup '][x[2]], ['', '\\end{quote}', '\\endgroup '][x[2]], UN[x[0]], x[3])
            s = head + '\\begin{%s}' % n
            self.push()
            self.define(UN[x[0]], ('def', x[1]))
            self.push()
            s += self.block(body, mode)
            self.pop()
            self.pop()
            return s + '\\end{%s}' % n
        self.push()
        if k == 'brace':
            a, z, m = '{', '}', mode
        elif k == 'bg':
            a, z, m = '\\begingroup ', '\\endgroup ', mode
        elif k == 'env':
            a, z, m = '\\begin{%s}%s' % (x, ENVARGS.get(x, '')), '\\end{%s}' % x, mode
        elif k == 'alltt':
            if not self.pkgs:
                a, z, m = '{', '}', mode
            else:
                a, z, m = '\\begin{alltt}', '\\end{alltt}', 'alltt'
                for c in UC:
                    self.frames[-1]['c'][c] = None       # not specified
        elif k == 'math':
            a, z = MATHS[x]
            m = 'math'
            self.events.add('math ' + a)
        elif k == 'arg':
            a, z, m = '\\%s{' % x, '}', 'arg' if mode != 'macro' else mode
        elif k == 'mbox':
            a, z, m = '\\mbox{', '}', 'arg'
        s = a + self.block(body, m) + z
        self.pop()
        return s


def program(case):
    p = Prog()
    p.pkgs = case[0] == 'pkgs'
    body = p.block(case[1], 'text')
    pre = '\\newif\\ifqqs \\newcounter{qqctr}'
    if case[0] in ('doc', 'pkgs'):
        pre = ('\\usepackage{alltt,listings,comment,natbib}' if p.pkgs else '') + pre
        return p, '\\documentclass{article}' + pre + '\n\\begin{document}\n' + body + '\n\\end{document}\n'
    return p, pre + '\n' + body + '\n'


def prog_check(case):
    import plasTeX
    p, src = program(case)
    log = []

    class qqprobe(plasTeX.Command):
        def invoke(self, tex):
            c = self.ownerDocument.context
            log.append(('P', {n: mean(c, n) for n in UN}, {ch: c.whichCode(ch) for ch in UC}, c['ifqqs'].state, c.counters['qqctr'].value,
                        {n: v.value for n, v in c.counters.items() if n.startswith('qqn')},
                        sum(1 for n in c.keys() if str(n).startswith('ifqqf')),
                        (len(c.contexts), {b: str(c.get(b)) for b in BUILTINS}, c.get_let('bgroup'), c.depth)))
            return []

    class qqrec(plasTeX.Command):
        args = 'self'

        def invoke(self, tex):
            self.parse(tex)
            log.append(('T', ''.join(self.attributes['self'].textContent.split())))
            return []
    doc = sut.TeXDocument()
    tex = sut.TeX(doc)
    tex.toplevel = True
    ctx = doc.context
    ctx.addGlobal('qqprobe', qqprobe)
    ctx.addGlobal('qqrec', qqrec)
    ctx.newdef('qx', None, 'P', local=False)
    for c in UC:
        ctx.newdef('qx' + c, None, 'Q', local=False)
    cats0 = [ctx.whichCode(chr(i)) for i in range(256)]
    depth0 = len(ctx.contexts)
    tex.input(src)
    tex.parse()
    require(len(log) == len(p.expect), '%d probes executed, %d expected in\n%s', len(log), len(p.expect), src)
    first = {}
    for i, (g, w) in enumerate(zip(log, p.expect)):
        require(g[0] == w[0], 'probe %d out of order in\n%s', i, src)
        if g[0] == 'T':
            require(g[1] == w[1], 'probe %d: text is %r, should be %r in\n%s', i, g[1], w[1], src)
            continue
        b = w[1]
        for n in UN:
            require(g[1][n] == w[2][n], 'probe %d: \\%s means %r, should be %r in\n%s', i, n, g[1][n], w[2][n], src)
        for c in UC:
            require(w[3][c] in (None, g[2][c]), 'probe %d: category of %s is %r, should be %r in\n%s', i, c, g[2][c], w[3][c], src)
        require(g[3] == w[4], 'probe %d: switch is %r, should be %r in\n%s', i, g[3], w[4], src)
        require(g[4] == w[5], 'probe %d: counter is %r, should be %r in\n%s', i, g[4], w[5], src)
        require(g[5] == w[6], 'probe %d: counters %r, should be %r in\n%s', i, g[5], w[6], src)
        require(g[6] == w[7], 'probe %d: %r switches created, should be %r in\n%s', i, g[6], w[7], src)
        e = g[7]
        require(e[0] == e[3], 'depth %r but %d frames', e[3], e[0])
        if b in first:
            require(first[b][0] == e[0], 'probe %d: context depth %d, was %d earlier in the same block of\n%s', i, e[0], first[b][0], src)
            for k in BUILTINS:
                require(first[b][1][k] == e[1][k], 'probe %d: \\%s is %s, was %s earlier in the same block of\n%s', i, k, e[1][k], first[b][1][k], src)
        else:
            first[b] = e
    require(len(ctx.contexts) == depth0, 'context depth %d after the document, %d before:\n%s', len(ctx.contexts), depth0, src)
    want = list(cats0)
    if case[0] == 'frag':
        for c in UC:
            want[ord(c)] = p.frames[0]['c'][c]
        for i in range(256):
            require(ctx.whichCode(chr(i)) == want[i], 'category of %r is %r after the program, should be %r:\n%s', chr(i), ctx.whichCode(chr(i)), want[i], src)
    for n in UN:
        # \begin{document}...\end{document} is a group of its own
        if case[0] == 'frag':
            require(mean(ctx, n) == p.meaning(n), '\\%s means %r after the program, should be %r:\n%s', n, mean(ctx, n), p.meaning(n), src)
    return {'labels': sorted(p.events) + ['depth %d' % p.maxdepth, case[0]], 'nontrivial': p.maxdepth >= 4 and len(p.expect) >= 8,
            'sample': src}


def warm():
    import plasTeX.Packages.article, plasTeX.Packages.alltt, plasTeX.Packages.listings, plasTeX.Packages.comment, plasTeX.Packages.natbib


SUBS = [
    Sub('api', api, gen=api_gen, quick=8000, thorough=400000, fork=False,
        rule='random histories of 4-40 context operations; after every step all meanings, categories, depth compared with a stack-of-frames '
             'model; non-trivial: nested frame, a pop, three kinds of operations'),
    Sub('api-exhaustive', api, cases=api_cases, fork=False,
        rule='all histories of up to 3 (thorough 4) of 16 operations, and define+push+all 4 (thorough 5) of 9 operations+pop'),
    Sub('programs', prog_check, gen=pgen, quick=5000, thorough=120000,
        rule='random balanced nestings of groups, environments, mathematics, tables, lists, command arguments, macros with definitions, '
             'aliases, category changes, switches and counters; probes between all statements; non-trivial: depth >= 4 and at least 8 probes'),
]
