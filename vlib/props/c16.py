"""C16: configuration values come from defaults, files and command line.

Up to three INI files and a command line are drawn, each setting a random
subset of all options; they go through plasTeX.client.main (with the compiler
run replaced by a recorder) and every option is compared with a layered model
that knows nothing of the code but the table of options below.
"""
import copy
import os
import re
import shlex
import shutil
import tempfile

from ..core import Sub, Skip, require
from .. import sut

TECHNIQUE = 'property-based testing: generated layers of configuration files and command lines against a layered model; enumeration of every option x source x value'
LEVEL = 'random + exhaustive (each option alone in each layer)'
NOTE = 'Interpolation is specified for strings and lists of strings (Doc/command.tex); values of dictionary options are drawn without percent signs.'
ASSUMPTIONS = ['strings in files have no outer whitespace and no line breaks (the INI format drops them)', 'references are to string, integer, float and boolean options and do not form cycles',
               'a name that occurs in two sections refers to the first of them (InterpolationWrapper)']

S, I, F, B, M = 'str', 'int', 'float', 'bool', 'list'
DS, DI, DF, DL = 'dict-str', 'dict-int', 'dict-float', 'links'

# section, key, kind, default, flags for the command line
TABLE = [
    ('general', 'renderer', S, 'HTML5', '--renderer'),
    ('general', 'theme', S, 'default', '--theme'),
    ('general', 'extra-templates', M, [], '--extra-templates'),
    ('general', 'copy-theme-extras', B, True, '--copy-theme-extras !--no-theme-extras'),
    ('general', 'kpsewhich', S, 'kpsewhich', '--kpsewhich'),
    ('general', 'xml', B, False, '--xml'),
    ('general', 'debug', B, False, '--debug'),
    ('general', 'paux-dirs', M, [], '--paux-dirs'),
    ('general', 'plugins', M, [], '--plugins'),
    ('general', 'load-tex-packages', B, True, '--load-tex-packages !--no-load-tex-packages'),
    ('general', 'tex-packages', M, [], '--tex-packages'),
    ('general', 'packages-dirs', M, [], '--packages-dirs'),
    ('links', 'links', DL, {}, '--link'),
    ('counters', 'counters', DI, {}, '--counter'),
    ('files', 'input-encoding', S, 'utf-8', '--input-encoding'),
    ('files', 'output-encoding', S, 'utf-8', '--output-encoding'),
    ('files', 'escape-high-chars', B, False, '--escape-high-chars'),
    ('files', 'split-level', I, 2, '--split-level'),
    ('files', 'log', B, False, '--log'),
    ('files', 'filename', S, 'index [$id, sect$num(4)]', '--filename'),
    ('files', 'bad-chars', S, ': #$%%^&*!~`"\'=?/{}[]()|<>;\\,.', '--bad-filename-chars'),
    ('files', 'bad-chars-sub', S, '-', '--bad-filename-chars-sub'),
    ('files', 'directory', S, '$jobname', '--dir -d'),
    ('images', 'scales', DF, {}, '--scales'),
    ('images', 'base-url', S, '', '--image-base-url'),
    ('images', 'enabled', B, True, '--enable-images !--disable-images'),
    ('images', 'imager', S, 'gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics', '--imager'),
    ('images', 'vector-imager', S, 'pdf2svg dvisvgm', '--vector-imager'),
    ('images', 'filenames', S, 'images/img-$num(4)', '--image-filenames'),
    ('images', 'baseline-padding', I, 0, '--image-baseline-padding'),
    ('images', 'scale-factor', F, 1.0, '--image-scale-factor'),
    ('images', 'vector-compiler', S, '', '--vector-image-compiler'),
    ('images', 'compiler', S, '', '--image-compiler'),
    ('images', 'cache', B, False, '--enable-image-cache !--disable-image-cache'),
    ('images', 'save-file', B, False, '--save-image-file !--delete-image-file'),
    ('images', 'transparent', B, False, '--transparent-images !--opaque-images'),
    ('images', 'resolution', I, 0, '--image-resolution'),
    ('document', 'base-url', S, '', '--base-url'),
    ('document', 'title', S, '', '--title'),
    ('document', 'toc-depth', I, 3, '--toc-depth'),
    ('document', 'toc-non-files', B, False, '--toc-non-files'),
    ('document', 'sec-num-depth', I, 2, '--sec-num-depth'),
    ('document', 'index-columns', I, 2, '--index-columns'),
    ('document', 'lang-terms', M, [], '--lang-terms'),
    ('document', 'disable-charsub', M, [], '--disable-charsub'),
    ('logging', 'logging', DS, {}, '--logging'),
    ('html5', 'extra-css', M, [], '--extra-css'),
    ('html5', 'extra-js', M, [], '--extra-js'),
    ('html5', 'theme-css', S, 'white', '--theme-css'),
    ('html5', 'use-theme-css', B, True, '--use-theme-css !--no-theme-css'),
    ('html5', 'use-theme-js', B, True, '--use-theme-js !--no-theme-js'),
    ('html5', 'display-toc', B, True, '--display-toc !--no-display-toc'),
    ('html5', 'localtoc-level', I, -9223372036854775808, '--localtoc-level'),
    ('html5', 'breadcrumbs-level', I, 10, '--breadcrumbs-level'),
    ('html5', 'use-mathjax', B, True, '--use-mathjax !--no-mathjax'),
    ('html5', 'mathjax-url', S, 'https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js', '--mathjax-url'),
    ('html5', 'mathjax-dollars', B, False, '--dollars !--no-dollars'),
    ('html5', 'filters', M, [], '--filters'),
    ('mathjax-macros', 'macros', DS, {}, '--mj-macros'),
]
OPTIONS = {(s, k): (kind, default, flags.split()) for s, k, kind, default, flags in TABLE}
SECTIONS = []
for _row in TABLE:
    if _row[0] not in SECTIONS:
        SECTIONS.append(_row[0])
TRUE, FALSE = ['yes', 'true', 'on'], ['no', 'false', 'off']
# ways to write a boolean in a file
SPELL = ['%s', '%s', '%s', 'upper', 'title']


# ------------------------------------------------------------------- model

class Model:
    """An independent account of what the options should be."""

    def __init__(self):
        self.v = {k: copy.deepcopy(o[1]) for k, o in OPTIONS.items()}

    def set(self, sec, key, value):
        """value: the value, a list of items to append or a list of pairs"""
        kind = OPTIONS[sec, key][0]
        if kind == M:
            self.v[sec, key] = self.v[sec, key] + list(value)
        elif kind in (DS, DI, DF, DL):
            d = dict(self.v[sec, key])
            for k, x in value:
                d[k] = x
            self.v[sec, key] = d
        else:
            self.v[sec, key] = value

    def interp(self, text, depth=0):
        if depth > 70:
            raise Skip('cycle')

        def one(m):
            if m.group(0) == '%%':
                return '%'
            if m.group(1) is None:
                raise Skip('stray percent sign')
            return str(self.named(m.group(1), depth + 1))
        return re.sub(r'%%|%\(([^()]*)\)s|%', one, text)

    def named(self, name, depth):
        for s in SECTIONS:
            if (s, name) in OPTIONS:
                return self.get(s, name, depth)
        raise Skip('no such option')

    def get(self, sec, key, depth=0):
        kind = OPTIONS[sec, key][0]
        v = self.v[sec, key]
        if kind == S:
            return self.interp(v, depth)
        if kind == M:
            return [self.interp(x, depth) for x in v]
        return v


# --------------------------------------------------------------- generation

ALPHA = 'abcxyzABCXYZ0189 _-.,:;/\\\'"#$&~^{}[]()<>|!?=+*@éλ'
TARGETS = [k for (s, k), o in OPTIONS.items() if o[0] in (S, I, F, B)]
RANK = {k: i for i, k in enumerate(dict.fromkeys(TARGETS))}


def gen_text(d, rank, file=True, item=False):
    parts = []
    for _ in range(d.weighted([(2, 1), (5, 2), (2, 3), (1, 4)])):
        kind = d.weighted([(10, 'plain'), (3, 'word'), (2, 'ref'), (2, 'percent'), (1, 'escref')])
        if kind == 'plain':
            parts.append(''.join(d.choice(ALPHA) for _ in range(d.int(1, 5))))
        elif kind == 'word':
            parts.append(d.choice(['yes', 'no', 'False', 'True', '0', '1', 'None', 'index', 'foo bar', '$jobname', 'é', 'a=b', 'key: value', '[x]', '# no comment', '; x', 'a,b=c']))
        elif kind == 'ref':
            low = [k for k in RANK if RANK[k] < rank]
            if low:
                parts.append('%%(%s)s' % d.choice(low))
        elif kind == 'percent':
            parts.append('%%')
        else:
            parts.append('%%%%(%s)s' % d.choice(['theme', 'nosuch', 'jobname']))
    s = ''.join(parts)
    return s if item else s.strip()


def gen_word(d):
    return ''.join(d.choice('abcdeABCDE') for _ in range(d.int(1, 4)))


def gen_value(d, sec, key, layer):
    kind = OPTIONS[sec, key][0]
    if kind == S:
        if d.bool(1, 10):
            return ''
        if d.bool(1, 10):
            return OPTIONS[sec, key][1]
        return gen_text(d, RANK[key] if sec != 'document' or key != 'base-url' else 0)
    if kind == I:
        return d.choice([0, 0, 1, 2, 3, -1, 7, 10, -10, 100, 600, 2**40, d.int(-50, 50)])
    if kind == F:
        return d.choice([0.0, 0.5, 1.0, 2.0, 1.5, -1.25, 3.0, 1e-3, 2e5, d.int(-50, 50) / 8])
    if kind == B:
        return d.bool()
    if kind == M:
        rank = 99
        return [gen_text(d, rank, item=True) if d.bool(2, 3) else gen_word(d) for _ in range(d.weighted([(1, 0), (4, 1), (4, 2), (2, 3)]))]
    n = d.weighted([(1, 0), (4, 1), (4, 2), (2, 3)]) if layer != 'set' else d.int(1, 3)
    pairs = []
    names = {DI: ['chapter', 'part', 'Chapter', 'myCounter', 'x', 'section'], DF: ['tikzpicture', 'displaymath', 'MyEnv', 'q', 'par'],
             DL: ['next', 'prev', 'Next', 'mylink', 'home'], DS: ['R', 'r', 'RR', 'root', 'Foo', 'parse.environments', 'bar']}[kind]
    for _ in range(n):
        k = d.choice(names)
        if kind == DI:
            v = d.choice([0, 1, 4, -2, 17])
        elif kind == DF:
            v = d.choice([0.5, 1.5, 2.0, 1e2, 0.0])
        elif kind == DS:
            v = d.choice(['\\mathbb{R}', '{\\bf #1}', 'DEBUG', 'warning', 'a b', 'x=y', 'a,b', "it's", 'é', '"q"', '\\operatorname{foo}(x)'])
        else:
            k = k + d.choice(['-title', '-url'])
            v = d.choice(['A Title', 'http://x.org/a?b=c&d', 'index.html#x', 'T', '../a b.html', 'é'])
        pairs.append([k, v])
    return pairs


def gen_file(d, wide):
    """-> list of [section, [[key, value, style]]]"""
    out = []
    for s in SECTIONS:
        keys = [k for (a, k) in OPTIONS if a == s]
        sets = []
        for k in keys:
            if d.bool(*wide):
                sets.append([k, gen_value(d, s, k, 'file'), d.int(0, 5)])
        if sets or d.bool(1, 20):
            if d.bool():
                sets.reverse()
            out.append([s, sets])
    if d.bool(1, 3):
        out.reverse()
    return out


def gen_layers(d):
    wide = d.weighted([(3, (1, 12)), (2, (1, 4)), (2, (2, 3)), (1, (1, 40))])
    files = [gen_file(d, wide) for _ in range(d.weighted([(2, 0), (3, 1), (3, 2), (3, 3)]))]
    cli = []
    for (s, k) in OPTIONS:
        if d.bool(*wide):
            kind = OPTIONS[s, k][0]
            if kind in (DI, DF, DS):
                cli.append([s, k, gen_value(d, s, k, 'cli'), d.int(0, 5)])
            elif kind == DL:
                links = []
                for _ in range(d.int(1, 3)):
                    links.append([d.choice(['next', 'Next', 'mylink']), d.choice(['index.html', 'http://x.org/a?b=c'])] + ([d.choice(['T', 'A b', 'é'])] if d.bool() else []))
                cli.append([s, k, links, 0])
            elif kind == M:
                # an option may be given several times
                cli.append([s, k, [gen_value(d, s, k, 'cli') for _ in range(d.weighted([(5, 1), (2, 2)]))], 0])
            else:
                cli.append([s, k, gen_value(d, s, k, 'cli'), d.int(0, 5)])
    if d.bool():
        cli.reverse()
    later = []
    if d.bool(1, 3):
        for _ in range(d.int(1, 4)):
            s, k = d.choice(list(OPTIONS))
            kind = OPTIONS[s, k][0]
            if kind in (S, I, F, B):
                later.append([s, k, gen_value(d, s, k, 'set')])
    return {'files': files, 'missing': [d.bool(1, 5) for _ in range(4)], 'cli': cli, 'set': later, 'order': d.int(0, 3), 'noise': d.int(0, 3)}


# ------------------------------------------------------------------ writing

def links_pairs(links):
    out = []
    for e in links:
        if len(e) == 3:
            out += [[e[0] + '-url', e[1]], [e[0] + '-title', e[2]]]
        else:
            out += [[e[0] + '-title', e[1]]]
    return out


def write_bool(v, style):
    w = (TRUE if v else FALSE)[style % 3]
    return w if style < 3 else (w.title() if style == 3 else w.upper())


def quote(x, style):
    """one item of a list as a file would have it"""
    if style % 2 and x and '"' not in x and '\\' not in x and '\n' not in x:
        return '"%s"' % x
    return shlex.quote(x)


def write_file(path, layer, noise):
    lines = []
    if noise & 1:
        lines += ['# a comment', '; another one = 1', '']
    for sec, sets in layer:
        lines.append('[%s]' % sec)
        for n, (key, value, style) in enumerate(sets):
            kind = OPTIONS[sec, key][0]
            eq = ['=', ' = ', ': ', '=', ' = ', ' ='][style]
            name = key.upper() if style == 5 and kind not in (DI, DF, DS, DL) else key
            if kind == S:
                # a string that starts like a comment is fine after the equals sign
                lines.append(name + eq + value)
            elif kind == I:
                lines.append('%s%s%d' % (name, eq, value))
            elif kind == F:
                lines.append('%s%s%r' % (name, eq, value))
            elif kind == B:
                lines.append(name + eq + write_bool(value, style))
            elif kind == M:
                items = [quote(x, style) for x in value]
                if style == 4 and not any(re.match(r'[#;]', x) for x in items):
                    lines.append(name + ' =')
                    lines += ['    ' + x for x in items]
                else:
                    lines.append(name + eq + ' '.join(items))
            else:
                final = list({k: None for k, v in value})
                pairs = [[k, [v for a, v in value if a == k][-1]] for k in final]
                plain = all(',' not in str(v) for k, v in pairs)
                if style == 3 and pairs and plain:
                    lines.append('%s = %s' % (key, ', '.join('%s=%s' % (k, v) for k, v in pairs)))
                else:
                    for k, v in pairs:
                        lines.append('%s%s%s' % (k, eq, v))
            if noise & 2 and n == 1:
                lines += ['', '# comment']
        lines.append('')
    if noise == 3:
        lines += ['[nosuchsection]', 'theme = never', '[files]' if not any(s == 'files' for s, _ in layer) else '[other]', 'nosuchoption = 1', '']
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')
    return '\n'.join(lines)


def argv_of(cli):
    out = []
    for s, k, value, style in cli:
        kind, default, flags = OPTIONS[s, k]
        on = [f for f in flags if f[0] != '!']
        off = [f[1:] for f in flags if f[0] == '!']
        if kind == B:
            if value:
                out.append(on[style % len(on)])
            elif off:
                out.append(off[0])
        elif kind in (S, I, F):
            text = value if kind == S else repr(value)
            if len(on) > 1 and style % 2:
                out += ['-d', text] if text and not text.startswith('-') else ['-d' + text] if text else ['--dir=']
            elif style % 3 == 0 and text and not text.startswith('-'):
                out += [on[0], text]
            else:
                out.append('%s=%s' % (on[0], text))
        elif kind == M:
            for items in value:
                if len(items) == 1 and style % 2:
                    out.append('%s=%s' % (on[0], items[0]))
                else:
                    out += [on[0]] + list(items)
        elif kind == DL:
            for e in value:
                out += [on[0]] + list(e)
        else:
            for a, b in value:
                out += [on[0], a, str(b)]
    return out


class Recorder:
    def __init__(self):
        self.calls = []

    def __call__(self, filename, config):
        self.calls.append((filename, config))


def compare(config, model, what):
    require([s for s in config.keys()] == SECTIONS, '%s: sections are %r', what, list(config.keys()))
    for s in SECTIONS:
        require(list(config[s].keys()) == [k for a, k in OPTIONS if a == s], '%s: options of section %s are %r', what, s, list(config[s].keys()))
    for (s, k), (kind, default, flags) in OPTIONS.items():
        want = model.get(s, k)
        got = config[s][k]
        ok = got == want and (type(got) is type(want) or (kind == F and isinstance(got, (int, float)) and not isinstance(got, bool)))
        require(ok, '%s: config[%r][%r] is %r, expected %r', what, s, k, got, want)
        require(config[s].get(k) == want and config[s].get(k, 'other') == want, '%s: config[%r].get(%r) is %r, expected %r', what, s, k, config[s].get(k), want)
        if kind in (DI, DF):
            require(all(type(x) is (int if kind == DI else float) for x in got.values()), '%s: values of config[%r][%r] are %r', what, s, k, got)
    require(config['files'].get('no-such-option') is None and config['files'].get('no-such-option', 7) == 7, '%s: get of an unknown option', what)


def fn_layers(case):
    import contextlib
    import io
    import plasTeX.client as client
    from plasTeX.Config import defaultConfig
    model = Model()
    base = tempfile.mkdtemp(prefix='c16-')
    labels = {}
    try:
        argv = ['doc.tex'] if case['order'] < 2 else []
        texts = []
        for i, layer in enumerate(case['files']):
            path = os.path.join(base, 'conf%d.ini' % i)
            if case['missing'][i]:
                argv += ['-c', os.path.join(base, 'missing%d.ini' % i)]
            texts.append(write_file(path, layer, case['noise'] if i == 0 else 0))
            argv += [['--config', path], ['-c', path], ['--config=' + path]][(case['order'] + i) % 3]
            for sec, sets in layer:
                for key, value, style in sets:
                    if OPTIONS[sec, key][0] in (DI, DF, DS, DL):
                        value = [[k, v if OPTIONS[sec, key][0] != DF else float(v)] for k, v in value]
                    model.set(sec, key, value)
        cli = case['cli']
        opts = argv_of([c for c in cli if ok_cli(c)])
        cli = [c for c in cli if ok_cli(c)]
        for s, k, value, style in cli:
            kind = OPTIONS[s, k][0]
            if kind == M:
                value = [x for items in value for x in items]
            elif kind == DL:
                value = links_pairs(value)
            elif kind == B and not value and not any(f[0] == '!' for f in OPTIONS[s, k][2]):
                continue
            model.set(s, k, value)
        argv = argv + opts
        if case['order'] >= 2:
            argv += ['--', 'doc.tex']
        for (s, k) in OPTIONS:      # skips inputs the model has no answer for
            model.get(s, k)
        rec = Recorder()
        saved = client.run
        client.run = rec
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    client.main(argv)
                except SystemExit as e:
                    require(False, 'the command line %r is rejected: %s', argv, err.getvalue()[-300:])
                except Exception as e:
                    require(False, 'plastex %r fails with %s: %s (files: %s)', argv, type(e).__name__, e, texts)
        finally:
            client.run = saved
        require(len(rec.calls) == 1 and rec.calls[0][0] == 'doc.tex', 'run was called with %r', [c[0] for c in rec.calls])
        config = rec.calls[0][1]
        what = 'plastex %r with files %r' % (argv, texts)
        compare(config, model, what)
        for s, k, value in case['set']:
            config[s][k] = value
            model.set(s, k, value)
        if case['set']:
            for (s, k) in OPTIONS:
                model.get(s, k)
            compare(config, model, what + ' after %r' % case['set'])
        # reading does not change anything, and another configuration is not affected
        compare(config, model, what + ' read again')
        fresh = defaultConfig()
        client.collect_renderer_config(fresh)
        compare(fresh, Model(), 'a new configuration after ' + what)
        nset = sum(len(sets) for layer in case['files'] for _, sets in layer) + len(cli)
        labels['files%d' % len(case['files'])] = 1
        labels['set'] = nset
        labels['cli'] = len(cli)
        return {'labels': labels, 'nontrivial': nset >= 2, 'sample': '%r %r' % (argv[:12], texts[:1])}
    finally:
        shutil.rmtree(base)


def ok_cli(c):
    """argparse takes a separate argument that begins with a dash as an option"""
    s, k, value, style = c
    kind = OPTIONS[s, k][0]
    if kind == M:
        return not any(x.startswith('-') for items in value for x in items)
    return True


# -------------------------------------------------------- every option alone

def single_cases(tier):
    """each option x {default, file, second file, command line, file + command line} x some values"""
    out = []
    values = {S: ['', 'x y', 'a%%b', '%(theme)s/%(split-level)s', 'no', '100%%', '%%(theme)s'], I: [0, 5, -3], F: [0.0, 2.5, -1.0], B: [True, False],
              M: [[], ['a'], ['a b', 'c'], ['50%%', '%(renderer)s']], DI: [[['chapter', 4]], [['Chapter', 0], ['part', -2]]], DF: [[['Env', 0.5]], [['a', 1.5], ['b', 2.0]]],
              DS: [[['R', '\\mathbb{R}']], [['Foo', 'x=y'], ['foo', 'a b']]], DL: [[['Next-url', 'u'], ['Next-title', 'T t']]]}
    for (s, k), (kind, default, flags) in OPTIONS.items():
        vals = values[kind]
        if kind == S and (s, k) in (('general', 'theme'),):
            vals = [v for v in vals if '%(theme)s' not in v or '%%(theme)s' in v]
        for i, v in enumerate(vals):
            w = vals[(i + 1) % len(vals)]
            if kind == DL:
                c = [['Next', 'u2', 'T2'], ['mylink', 'T3']]
            elif kind == M:
                c = [v, ['last']]
            else:
                c = v
            for style in range(6) if kind == B else (i % 6, (i + 3) % 6):
                for shape in ('file', 'file2', 'cli', 'filecli', 'all'):
                    files = {'file': [v], 'file2': [w, v], 'cli': [], 'filecli': [w], 'all': [v, w, v]}[shape]
                    cli = [[s, k, c, style]] if 'cli' in shape or shape == 'all' else []
                    out.append({'files': [[[s, [[k, x, style]]]] for x in files], 'missing': [shape == 'file2'] * 4, 'cli': cli, 'set': [], 'order': style % 4, 'noise': i % 4})
    out.append({'files': [], 'missing': [False] * 4, 'cli': [], 'set': [], 'order': 0, 'noise': 0})
    return out


SUBS = [
    Sub('single', fn_layers, cases=single_cases, rule='at least two settings of the option, else a single one (every option, source and value of a fixed list)', fork=False),
    Sub('layers', fn_layers, gen=gen_layers, quick=1500, thorough=20000, rule='at least two options are set', fork=False),
]
