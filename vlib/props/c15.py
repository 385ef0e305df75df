"""C15: the filename generator yields unique, clean names in template order.

A reference model works on the template as it was drawn (a list of static names
and one wildcard, each a list of literal and variable parts); the generator gets
the template as a string, in one of the spellings of the documentation.
"""

import os.path

from ..core import Sub, require

TECHNIQUE = 'property-based testing: model-based histories of requests (reference model of the generator on the structured template)'
LEVEL = 'exhaustive for small templates and short histories, randomised beyond'
NOTE = 'templates in several spellings; histories of up to 12 requests (200 in the sub "long"), with repeated, missing and empty values, reserved names, initial variables, errors and requests after errors'
ASSUMPTIONS = ['where the statement leaves open which alternative follows a name that is taken, the next alternative does (as documented: "Each of the alternatives specified is tried until a filename is successfully created")',
               'a bound value of zero words gives an empty string', 'a variable that is followed by a letter, digit or underscore is written with braces, as in string.Template']

NAMES = ['title', 'id', 'ref', 'name', 'jobname']


class Unbound(Exception):
    pass


class Model:
    def __init__(self, statics, wild, charsub, init, ext, reserved):
        self.statics, self.wild = list(statics), wild
        if self.wild is None and self.statics:
            self.wild = [self.statics.pop()]
        self.wild = self.wild or []
        self.charsub, self.init, self.ext = charsub, dict(init), ext
        self.taken = set(reserved)
        self.num = 1

    def expand(self, parts, ns):
        out, numbered = [], False
        for p in parts:
            if isinstance(p, str):
                out.append(p)
                continue
            var, width = p
            if var == 'num':
                numbered = True
                out.append(str(self.num).zfill(width or 0))
                continue
            if var not in ns:
                raise Unbound(var)
            v = ns[var]
            if width is not None:
                v = ' '.join(v.split()[:width])
            for c in self.charsub[0] if self.charsub else '':
                v = v.replace(c, self.charsub[1])
            out.append(v)
        name = ''.join(out)
        if not os.path.splitext(name)[1]:
            name += self.ext
        return name, numbered

    def candidate(self, parts, ns):
        """the name if it can be issued; and whether a numbered name was tried"""
        try:
            name, numbered = self.expand(parts, ns)
        except Unbound:
            return None, False
        if numbered:
            self.num += 1
        if name in self.taken:
            return None, numbered
        self.taken.add(name)
        return name, numbered

    def request(self, bindings):
        """the next name, None if none can be formed"""
        ns = dict(self.init)
        ns.update(bindings)
        while self.statics:
            name, _ = self.candidate(self.statics.pop(0), ns)
            if name is not None:
                return name
        while True:
            again = False
            for parts in self.wild:
                name, numbered = self.candidate(parts, ns)
                if name is not None:
                    return name
                again = again or numbered
            if not again:
                return None


def spell(parts, style):
    """the parts of a name as written in a template"""
    out = ''
    for i, p in enumerate(parts):
        if isinstance(p, str):
            out += p
            continue
        var, width = p
        nxt = parts[i + 1] if i + 1 < len(parts) else ''
        brace = style & 1 or (width is None and isinstance(nxt, str) and nxt and (nxt[0].isalnum() or nxt[0] in '_('))
        if brace:
            out += '${ %s }' % var if style & 2 and False else '${%s}' % var
        else:
            out += '$' + var
        if width is not None:
            out += '(%d)' % width
    return out


def template(statics, wild, style):
    names = [spell(s, style) for s in statics]
    if wild is not None:
        prefix, alts, suffix = wild
        comma = ', ' if style & 4 else ' ,  ' if style & 8 else ','
        names.append('%s[%s%s%s]%s' % (spell(prefix, style | 1), ' ' * bool(style & 8), comma.join(spell(a, style) for a in alts), '  ' * bool(style & 8), spell(suffix, style)))
    sep = '  ' if style & 16 else ' '
    return sep.join(names) if not style & 32 else ' ' + sep.join(names) + '\n'


def run(case):
    from plasTeX.Filenames import Filenames
    statics, wild, style, charsub, init, ext, reserved, history = case
    tup = lambda parts: [p if isinstance(p, str) else tuple(p) for p in parts]
    statics = [tup(s) for s in statics]
    if wild is not None:
        wild = [tup(wild[0]), [tup(a) for a in wild[1]], tup(wild[2])]
        alts = [wild[0] + a + wild[2] for a in wild[1]]
    else:
        alts = None
    src = template(statics, wild, style)
    model = Model(statics, alts, charsub, init, ext, reserved)
    variables = dict(init)
    gen = Filenames(src, tuple(charsub) if charsub else None, variables, ext, {r: None for r in reserved})
    issued = []
    labels = set()
    for i, bindings in enumerate(history):
        for k, v in bindings.items():
            gen.variables[k] = v
        want = model.request(bindings)
        try:
            got = gen()
        except ValueError:
            got = None
            # only an issued name resets the variables
            gen.variables.clear()
            gen.variables.update(init)
        else:
            require(isinstance(got, str), 'request %d %r returned %r and no error; template %r', i, bindings, got, src)
            require(got not in issued and got not in reserved, 'request %d %r returned %r again; template %r, names before %r, reserved %r', i, bindings, got, src, issued[-10:], reserved[:10])
            require(gen.variables == init, 'after request %d the variables are %r, should be the initial ones %r; template %r', i, gen.variables, init, src)
        require(got == want, 'request %d %r gives %r, should give %r; template %r, forbidden %r, initial %r, names before %r, reserved %r', i, bindings, got, want, src, charsub, init, issued[-10:], reserved[:10])
        labels.add('error' if got is None else 'name')
        if got is None and issued:
            labels.add('error after names')
        if got is not None and None in issued:
            labels.add('name after an error')
        issued.append(got)
    labels |= {'alternatives %d' % len(alts or []), 'statics %d' % len(statics)}
    n = len({x for x in issued if x is not None})
    return {'labels': sorted(labels), 'nontrivial': n > max(1, len(statics)), 'sample': '%r: %r' % (src, issued[:8])}


WORDS = ['Intro', 'the end', 'a b c d e f', 'x/y', 'Q: why?', '', ' ', 'v1.2', 'index', 'sect1', '  two  words ', 'A&B', 'é à', '$x', '%d', '\\1', '{a}', 'a' * 40, 'a\nb', '..', '1']
BAD = [None, [': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '-'], [' ', '_'], ['/ ', ''], ['abc', 'x'], [' -', '-'], ['', '-'], ['.', '..']]


def part(d, wildcard):
    k = d.weighted([(3, 'lit'), (4, 'var'), (3, 'num')])
    if k == 'lit':
        return d.choice(['sect', 'index', 'a', 'b', '-', '_', '.html', 'x.y', 'img/', 'é', '1', '+'])
    if k == 'num':
        return ['num', d.choice([None, None, 1, 2, 4, 0])]
    return [d.choice(NAMES), d.choice([None, None, None, 1, 2, 5, 0])]


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return out


def parts(d, sizes=((5, 1), (4, 2), (2, 3))):
    return merge([part(d, True) for _ in range(d.weighted(list(sizes)))])


def gen(d):
    statics = [parts(d) for _ in range(d.weighted([(3, 0), (4, 1), (2, 2), (1, 3)]))]
    wild = None
    if d.bool(4, 5) or not statics:
        alts = [parts(d) for _ in range(d.int(1, 4))]
        wild = [parts(d) if d.bool(1, 4) else [], alts, parts(d) if d.bool(1, 4) else []]
    init = {}
    if d.bool(2, 3):
        init['jobname'] = d.choice(['doc', 'my doc', ''])
    if d.bool(1, 6):
        init['title'] = d.choice(WORDS)
    values = [d.choice(WORDS) for _ in range(d.int(1, 3))]
    history = [{k: d.choice(values) for k in NAMES if d.bool(1, 2)} for _ in range(d.int(1, 12))]
    reserved = [d.choice(['index.html', 'sect1.html', 'a', 'a.html', '1.html', 'sect2.html', '01.html', 'Intro.html', 'the-end.html', 'index']) for _ in range(d.weighted([(3, 0), (1, 1), (1, 3)]))]
    return [statics, wild, d.int(0, 63), d.choice(BAD), init, d.choice(['.html', '.html', '.xml', '']), reserved, history]


def gen_long(d):
    """hundreds of requests, with the running number at the end of the alternatives"""
    first = [d.choice([['title', None], ['title', 2], ['id', None], ['ref', None]])]
    alts = [first][:d.int(0, 1)] + [merge([d.choice(['sect', 'a', '']), ['num', d.choice([None, 2, 4])]])]
    statics = [['index']] if d.bool() else []
    n = d.int(90, 200)
    pool = ['T%d' % i for i in range(d.int(1, 150))]
    step = d.int(1, 7)
    history = [{'title': pool[i * step % len(pool)]} if i % d.int(1, 3) == 0 else {} for i in range(n)]
    reserved = []
    if d.bool():
        a, b = d.int(1, 60), d.int(60, 220)
        reserved = ['%s%s.html' % (alts[-1][0] if isinstance(alts[-1][0], str) else '', str(i).zfill(alts[-1][-1][1] or 0)) for i in range(a, b)]
    return [statics, [[], alts, []], 0, BAD[1], {'jobname': 'doc'}, '.html', reserved, history]


def small(tier):
    """every template with at most one static name and up to two alternatives over a few parts, on short histories"""
    atoms = [[['title', None]], [['title', 1]], ['sect', ['num', None]], [['num', 2]], ['a'], [['id', None], '-', ['num', None]], [['id', None]]]
    wilds = [None] + [[[], [a], []] for a in atoms] + [[[], [a, b], []] for a in atoms for b in atoms]
    hists = []
    vals = [{}, {'title': 'x y'}, {'title': 'x z', 'id': 'a'}, {'id': 'a'}]
    for a in vals:
        for b in vals:
            for c in vals:
                hists.append([a, b, c, {}])
    for st in [[], [['index']], [[['title', None]]], [['sect', ['num', None]]], [['a'], ['a']]]:
        for w in wilds:
            if w is None and not st:
                continue
            for k, h in enumerate(hists):
                yield [st, w, (k * 7) % 64, BAD[1], {'jobname': 'j'}, '.html', ['sect2.html'] * (k % 2), h]


SUBS = [Sub('small', run, cases=small, fork=False, cpu=5, rule='more than the static names are issued'),
        Sub('histories', run, gen=gen, fork=False, cpu=5, quick=12000, thorough=200000, rule='at least two names beyond the static names are issued'),
        Sub('long', run, gen=gen_long, fork=False, cpu=10, quick=150, thorough=2000, rule='at least two names are issued')]
