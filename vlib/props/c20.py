"""C20: label data survives a round trip between documents, whatever happens to the file.

Label sets are saved with Context.persist, damaged and restored; and documents
are run one after the other with plasTeX.Compile.run, where the references in
one document must be shown exactly as in the document that has the labels.
"""
import os
import pickle
import random
import re
import shutil
import string
import tempfile

from ..core import Sub, Skip, require
from .. import sut

TECHNIQUE = 'property-based testing with fault injection: generated label sets, every truncation and single-bit flip of the saved file, random damages; model of save/damage/restore histories; differential runs of documents that refer to each other'
LEVEL = 'random + exhaustive (truncations and single-bit flips of each generated file)'
NOTE = 'A damaged file may give all labels or none of them, never different ones.'
ASSUMPTIONS = ['damages are truncations, bit flips, overwritten or deleted stretches, foreign contents; the file stays a readable and writable regular file',
               'a whole file that is replaced by a valid file of another document gives the labels of that document']

RENDERERS = ['HTML5', 'XHTML']
ATTRS = ['ref', 'title', 'captionName', 'id']


def warm():
    from .. import render
    render.warm('HTML5', 'XHTML')


# ------------------------------------------------------------- label sets

WORD = 'abcXYZ019'


def gen_text(d, rich=True):
    parts = []
    for _ in range(d.int(1, 4)):
        parts.append(d.choice(['Title', 'a', 'É', '1', '<b>x</b>', '&amp;', '"q"', "'", ' ', '.', '\\', '\n', '😀', 'of the', 'x' * 30]) if rich else ''.join(d.choice(WORD) for _ in range(d.int(1, 3))))
    return ''.join(parts)


def gen_labels(d, maxn=6):
    """key -> attributes"""
    out = []
    keys = set()
    for _ in range(d.weighted([(1, 0), (3, 1), (4, 2), (3, maxn - 2)]) + d.int(0, 2)):
        key = d.choice(['sec:', 'eq:', 'fig', '', 'thm-', 'É']) + gen_text(d, d.bool(1, 6)).strip()
        if not key or key in keys:
            continue
        keys.add(key)
        a = {'macroName': d.choice(['section', 'section', 'chapter', 'figure', 'equation', 'item', 'myownthm', 'table', 'footnote'])}
        if d.bool(9, 10):
            a['ref'] = d.choice(['1', '2.3', 'A', 'IV', '10', '(a)', '1.<i>2</i>', '0']) if d.bool(3, 4) else gen_text(d)
        if d.bool(2, 3):
            a['title'] = gen_text(d)
        if d.bool():
            a['captionName'] = d.choice(['Figure', 'Abbildung', 'Théorème', ''])
        # labelled objects have the label as identifier
        a['id'] = key
        a['url'] = d.choice(['index.html#', 'sect%04d.html#' % d.int(1, 9), 'http://x.org/%C3%A9/a.html#', '#']) + d.choice([key, 'a0000000001']) if d.bool(7, 8) else d.choice(['index.html', 'ü b.html'])
        out.append([key, a])
    return out


def new_context():
    from plasTeX import TeXDocument
    doc = TeXDocument()
    return doc


BASE = []


def document_with(labels):
    """a document whose labels have the given attributes"""
    doc = new_context()
    for key, a in labels:
        n = doc.context[a['macroName']]()
        n.ownerDocument = doc
        for k, v in a.items():
            if k != 'macroName':
                setattr(n, k, v)
        doc.context.label(key, n)
    return doc


def seen(node):
    out = {'macroName': str(node.nodeName)}
    for k in ATTRS:
        v = getattr(node, k, None)
        if k == 'captionName' and not isinstance(v, str):
            v = None
        if v is not None:
            out[k] = str(v)
    url = getattr(node, 'url', None)
    if url is None:
        url = getattr(node, 'urloverride', None)
    if url is not None:
        out['url'] = str(url)
    return out


def expected(a):
    return {k: v for k, v in a.items()}


def same(got, want):
    """the attributes given are those saved; others have not been invented"""
    if any(got.get(k) != v for k, v in want.items() if k != 'macroName' and (k != 'captionName' or v)):
        return False
    return all(k in want for k in got if k not in ('id', 'captionName', 'ref', 'title', 'macroName'))


def restore(path, rtype, doc=None):
    """labels after reading the file in a fresh context; never fails"""
    doc = doc or new_context()
    doc.context.labels.clear()
    try:
        doc.context.restore(path, rtype)
    except BaseException as e:
        require(False, 'restore fails with %s: %s', type(e).__name__, str(e)[:100])
    return {k: seen(n) for k, n in doc.context.labels.items()}


def save(path, rtype, labels):
    doc = document_with(labels)
    try:
        doc.context.persist(path, rtype)
    except BaseException as e:
        require(False, 'persist fails with %s: %s', type(e).__name__, str(e)[:100])


def matches(got, want):
    return set(got) == set(want) and all(same(got[k], want[k]) for k in want)


def check_restored(got, options, what):
    for want in options:
        if matches(got, want):
            return
    require(False, '%s: restored %r, expected %s', what, got, ' or '.join(repr(w) for w in options))


# ---------------------------------------------------------------- damages

FOREIGN = ['empty', 'text', 'json', 'list', 'int', 'none', 'emptydict', 'dictint', 'dictnone', 'dictlist', 'dictdictint', 'dictdictnone', 'missingmodule', 'png', 'random', 'zeros', 'newline', 'dot', 'newlines', 'deep', 'otherkey', 'intkeys']


def foreign(kind, rnd):
    import sys
    if kind == 'empty':
        return b''
    if kind == 'text':
        return b'\\newlabel{sec:a}{{1}{1}}\n'
    if kind == 'json':
        return b'{"HTML5": {"a": {"ref": "1"}}}'
    if kind == 'missingmodule':
        return b'cnosuchmodule\nnosuchclass\n.'
    if kind == 'png':
        return b'\x89PNG\r\n\x1a\n' + bytes(range(256))
    if kind == 'random':
        # no pickle opcodes with sizes
        return bytes(rnd.choice(b'abcdefghi\n.0123456789\x00\xff') for _ in range(rnd.randint(1, 200)))
    if kind == 'zeros':
        return b'\0' * rnd.randint(1, 2000)
    if kind in ('newline', 'dot', 'newlines'):
        return {'newline': b'\n', 'dot': b'.', 'newlines': b'\n' * 70}[kind]
    if kind == 'deep':
        return b'(' * 3000 + b'.'
    obj = {'list': [1, 2], 'int': 7, 'none': None, 'emptydict': {}, 'dictint': {'HTML5': 5, 'XHTML': 'x'}, 'dictnone': {'HTML5': None, 'XHTML': None}, 'dictlist': {'HTML5': ['a'], 'XHTML': ('b',)},
           'dictdictint': {'HTML5': {'zz': 5}, 'XHTML': {'zz': 'x'}}, 'dictdictnone': {'HTML5': {'zz': None}, 'XHTML': {'zz': None}}, 'otherkey': {'Text': {}, 'foo': 1}, 'intkeys': {1: 2, None: {}}}[kind]
    return pickle.dumps(obj, protocol=rnd.choice([0, 2, 4]))


def damage(data, spec):
    """spec: [kind, seed]; -> (bytes or None for deleted)"""
    kind, seed = spec
    rnd = random.Random(seed)
    n = len(data)
    if kind == 'delete':
        return None
    if kind in FOREIGN:
        return foreign(kind, rnd)
    if not n:
        return data
    if kind == 'truncate':
        return data[:rnd.randrange(n)]
    if kind == 'behead':
        return data[rnd.randrange(n):]
    b = bytearray(data)
    if kind == 'flip':
        b[rnd.randrange(n)] ^= 1 << rnd.randrange(8)
    elif kind == 'flips':
        for _ in range(rnd.randint(2, 12)):
            b[rnd.randrange(n)] ^= 1 << rnd.randrange(8)
    elif kind == 'overwrite':
        i = rnd.randrange(n)
        for j in range(i, min(n, i + rnd.randint(1, 30))):
            b[j] = rnd.choice(b'a0\0 1x')
    elif kind == 'cut':
        i = rnd.randrange(n)
        del b[i:i + rnd.randint(1, 20)]
    elif kind == 'zerotail':
        i = rnd.randrange(n)
        b[i:] = bytes(n - i)
    elif kind == 'double':
        return data + data
    elif kind == 'append':
        return data + rnd.choice([b'\n', b'x', b'.', b'\0' * 50])
    return bytes(b)


DAMAGES = ['truncate'] * 5 + ['flip'] * 4 + ['flips'] * 2 + ['behead', 'overwrite', 'cut', 'zerotail', 'delete', 'double', 'append']


def gen_damage(d):
    return [d.choice(DAMAGES) if d.bool(2, 3) else d.choice(FOREIGN), d.int(0, 10**6)]


# ------------------------------------------- every prefix, every bit of a file

def gen_prefixes(d):
    return {'labels': gen_labels(d), 'other': gen_labels(d) if d.bool() else None, 'r': d.int(0, 1), 'new': gen_labels(d), 'seed': d.int(0, 10**6)}


def as_dict(labels):
    return {k: expected(a) for k, a in labels}


def limit():
    """A damaged size must not take the memory of the machine: it fails as it would if there were no memory."""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = 3 << 30
    if soft == resource.RLIM_INFINITY or soft > want:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def fn_prefixes(case):
    limit()
    base = tempfile.mkdtemp(prefix='c20-')
    try:
        path = os.path.join(base, 'doc.paux')
        r, other = RENDERERS[case['r']], RENDERERS[1 - case['r']]
        if case['other'] is not None:
            save(path, other, case['other'])
        save(path, r, case['labels'])
        want = as_dict(case['labels'])
        check_restored(restore(path, r), [want], 'after saving')
        check_restored(restore(path, other), [as_dict(case['other'] or [])], 'after saving, other renderer')
        check_restored(restore(path, 'Text'), [{}], 'renderer that has never run')
        with open(path, 'rb') as f:
            data = f.read()
            f.seek(0)
            d = pickle.load(f)
        require(isinstance(d, dict) and set(d.get(r, ())) == set(want), 'the saved file holds %r', d)
        doc = new_context()
        rnd = random.Random(case['seed'])
        n = len(data)
        bits = list(range(8 * n))
        if len(bits) > 6000:
            bits = rnd.sample(bits, 6000)
        damaged = [('prefix of %d bytes' % i, data[:i]) for i in range(n)]
        for b in bits:
            x = bytearray(data)
            x[b >> 3] ^= 1 << (b & 7)
            damaged.append(('bit %d of byte %d flipped' % (b & 7, b >> 3), bytes(x)))
        for what, content in damaged:
            with open(path, 'wb') as f:
                f.write(content)
            got = restore(path, r, doc)
            if got:
                check_restored(got, [want], what)
        # saving again repairs the file
        new = as_dict(case['new'])
        ndoc = document_with(case['new'])
        for what, content in rnd.sample(damaged, min(60, len(damaged))) + [damaged[0], damaged[n // 2], damaged[n - 1]]:
            with open(path, 'wb') as f:
                f.write(content)
            try:
                ndoc.context.persist(path, r)
            except BaseException as e:
                require(False, 'persist fails after %s: %s: %s', what, type(e).__name__, str(e)[:100])
            check_restored(restore(path, r, doc), [new], 'saved after ' + what)
            got = restore(path, other, doc)
            if got:
                check_restored(got, [as_dict(case['other'] or [])], 'other renderer, saved after ' + what)
            try:
                with open(path, 'rb') as f:
                    d = pickle.load(f)
            except Exception as e:
                require(False, 'the file saved after %s cannot be loaded: %s', what, e)
            require(set(d[r]) == set(new), 'the file saved after %s has labels %r', what, sorted(d[r]))
        return {'labels': {'bytes': n, 'damaged': len(damaged)}, 'nontrivial': len(want) >= 1, 'sample': case['labels'][:2]}
    finally:
        shutil.rmtree(base)


# --------------------------------------------------------------- histories

def gen_history(d):
    ops = []
    for _ in range(d.int(2, 9)):
        k = d.weighted([(4, 'save'), (3, 'damage'), (3, 'restore')])
        if k == 'save':
            ops.append(['save', d.int(0, 1), gen_labels(d)])
        elif k == 'damage':
            ops.append(['damage', gen_damage(d)])
        else:
            ops.append(['restore', d.int(0, 1)])
    return ops


def fn_history(ops):
    limit()
    base = tempfile.mkdtemp(prefix='c20-')
    try:
        path = os.path.join(base, 'doc.paux')
        state = {r: [{}] for r in RENDERERS}        # possible labels of each renderer
        damages = 0
        for i, op in enumerate(ops + [['restore', 0], ['restore', 1]]):
            what = 'operation %d (%r) of %r' % (i, op[0], ops)
            if op[0] == 'save':
                r = RENDERERS[op[1]]
                save(path, r, op[2])
                state[r] = [as_dict(op[2])]
                with open(path, 'rb') as f:
                    d = pickle.load(f)
                require(isinstance(d, dict) and set(d[r]) == {k for k, a in op[2]}, '%s: the file holds %r', what, d)
            elif op[0] == 'damage':
                data = b''
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        data = f.read()
                new = damage(data, op[1])
                if new is None:
                    if os.path.exists(path):
                        os.remove(path)
                    state = {r: [{}] for r in RENDERERS}
                else:
                    with open(path, 'wb') as f:
                        f.write(new)
                    if op[1][0] in FOREIGN:
                        state = {r: [{}] for r in RENDERERS}
                    else:
                        state = {r: s if {} in s else s + [{}] for r, s in state.items()}
                damages += 1
            else:
                r = RENDERERS[op[1]]
                got = restore(path, r)
                if not got:
                    require({} in state[r], '%s: no labels restored, expected %r', what, state[r])
                elif got.keys() == {'zz'}:
                    # a foreign file may hold things that look like labels
                    continue
                else:
                    check_restored(got, state[r], what)
        return {'labels': {'damages': damages, 'saves': sum(1 for o in ops if o[0] == 'save')}, 'nontrivial': damages > 0 and any(o[0] == 'save' and o[2] for o in ops), 'sample': [o if o[0] != 'save' else o[:2] for o in ops]}
    finally:
        shutil.rmtree(base)


# --------------------------------------------------- documents run in turn

COMMANDS = ['ref', 'ref', 'pageref', 'eqref']
HYPER = ['autoref', 'nameref', 'ref*', 'hyperref']


def gen_runs(d):
    docs = []
    for n in range(d.weighted([(4, 2), (2, 3)])):
        objs = []
        for _ in range(d.int(1, 6)):
            objs.append([d.choice(['section', 'section', 'subsection', 'equation', 'figure', 'item', 'thm', 'table', 'nolabel', 'footnote', 'chapterish']), d.choice(['Title', 'A \\emph{b} é', 'Q \\& a', "``x'' \\textbf{y}", '$x^2$ a', 'Tom~Sawyer'])])
        docs.append({'objs': objs, 'cls': d.choice(['article', 'article', 'report']), 'split': d.int(0, 3), 'hyper': d.bool(1, 3), 'own': d.bool(1, 4)})
    steps = []
    for _ in range(d.int(2, 7)):
        k = d.weighted([(5, 'run'), (2, 'damage'), (1, 'edit')])
        if k == 'run':
            steps.append(['run', d.int(0, len(docs) - 1), d.weighted([(4, 0), (1, 1)])])
        elif k == 'edit':
            steps.append(['edit', d.int(0, len(docs) - 1), d.int(0, 5)])
        else:
            steps.append(['damage', d.int(0, len(docs) - 1), gen_damage(d)])
    return {'docs': docs, 'steps': steps, 'xr': d.weighted([(3, 0), (1, 1)])}


def write_doc(i, case, others, dropped):
    """-> (source, own labels)"""
    spec = case['docs'][i]
    out = ['\\documentclass{%s}' % spec['cls']]
    out.append('\\usepackage{amsmath}')
    hyper = any(s['hyper'] for s in case['docs'])
    if hyper:
        out.append('\\usepackage{hyperref}')
    if case['xr']:
        out.append('\\usepackage{xr}')
        for j in range(len(case['docs'])):
            if j != i:
                out.append('\\externaldocument[P%d-]{doc%d}' % (j, j))
    out.append('\\newtheorem{thm}{Theorem}')
    out.append('\\begin{document}')
    own = []
    for n, (kind, title) in enumerate(spec['objs']):
        if n in dropped:
            continue
        lab = 'd%d:%s%d' % (i, kind, n)
        l = '\\label{%s}' % lab
        if kind == 'section':
            out.append('\\section{%s}%s Text.' % (title, l))
        elif kind == 'subsection':
            out.append('\\subsection{%s}%s Text.' % (title, l))
        elif kind == 'chapterish':
            out.append('\\%s{%s}%s Text.' % ('chapter' if spec['cls'] == 'report' else 'section', title, l))
        elif kind == 'equation':
            out.append('\\begin{equation}a=b%s\\end{equation}' % l)
        elif kind == 'figure':
            out.append('\\begin{figure}x\\caption{%s}%s\\end{figure}' % (title, l))
        elif kind == 'table':
            out.append('\\begin{table}\\caption{%s}%s x\\end{table}' % (title, l))
        elif kind == 'item':
            out.append('\\begin{enumerate}\\item a\\item%s b\\end{enumerate}' % l)
        elif kind == 'thm':
            out.append('\\begin{thm}%s Claim.\\end{thm}' % l)
        elif kind == 'footnote':
            out.append('Text\\footnote{Note.}\n\n\\section{T}%s' % l)
        else:
            out.append('\\section{%s} Text.' % title)
            continue
        own.append(lab)
    refs = []
    for lab in own:
        refs.append((lab, lab))
    for j, labs in others.items():
        for lab in labs:
            refs.append(('P%d-%s' % (j, lab) if case['xr'] else lab, lab))
    refs.append(('nosuch', None))
    seen_refs = {}
    for n, (name, lab) in enumerate(refs):
        cmds = ['ref', 'pageref', 'eqref'] + (['autoref', 'nameref'] if hyper and not case['xr'] else [])
        for c in cmds:
            mark = 'Q%dx%sZ' % (n, c)
            out.append('\n%s \\%s{%s} end%s' % (mark, c, name, mark))
            seen_refs[mark] = (lab, c)
    out.append('\\end{document}\n')
    return '\n'.join(out), own, seen_refs


def links(files, marks):
    """mark -> (text, hrefs) of what stands between the mark and its end"""
    from .. import render
    out = {}
    for name, data in files.items():
        root, problems = render.tree(data)
        flat = []

        def go(e, href):
            for c in e.children:
                if isinstance(c, str):
                    flat.append((c, href))
                else:
                    go(c, c.attrs.get('href') if c.tag == 'a' and c.attrs.get('href') else href)
        go(root, None)
        text = ''.join(t for t, h in flat)
        pos = []
        at = 0
        for t, h in flat:
            pos.append((at, at + len(t), h))
            at += len(t)
        for m in marks:
            i = text.find(m + ' ')
            j = text.find('end' + m)
            if i >= 0 and j >= 0:
                i += len(m)
                hrefs = []
                for a, b, h in pos:
                    if a < j and b > i and h not in (None, '#') and h not in hrefs:
                        hrefs.append(h)
                require(m not in out, '%s stands twice in the output', m)
                out[m] = (sut.squeeze(text[i:j]), tuple(hrefs))
    return out


def fn_runs(case):
    import contextlib
    import io
    from plasTeX.Compile import run
    from .. import render
    limit()
    render.memoise()
    base = tempfile.mkdtemp(prefix='c20-', dir=render.BASE)
    old = os.getcwd()
    try:
        os.chdir(base)
        nd = len(case['docs'])
        dropped = {i: set() for i in range(nd)}
        own = {i: write_doc(i, case, {}, dropped[i])[1] for i in range(nd)}
        # saved[i][renderer]: possible {label: {command: shown}}
        saved = {i: {r: [{}] for r in RENDERERS} for i in range(nd)}
        damages = resolved = 0
        for si, step in enumerate(case['steps'] + [['run', 0, 0], ['run', 1, 0]]):
            i = step[1]
            paux = 'doc%d.paux' % i
            if step[0] == 'edit':
                n = step[2]
                if n < len(case['docs'][i]['objs']):
                    dropped[i].add(n)
            elif step[0] == 'damage':
                data = b''
                if os.path.exists(paux):
                    with open(paux, 'rb') as f:
                        data = f.read()
                new = damage(data, step[2])
                if new is None:
                    if os.path.exists(paux):
                        os.remove(paux)
                else:
                    with open(paux, 'wb') as f:
                        f.write(new)
                for r in RENDERERS:
                    if {} not in saved[i][r]:
                        saved[i][r].append({})
                damages += 1
            else:
                r = RENDERERS[step[2]]
                src, labs, marks = write_doc(i, case, {j: own[j] for j in range(nd) if j != i}, dropped[i])
                with open('doc%d.tex' % i, 'w', encoding='utf-8') as f:
                    f.write(src)
                cfg = render.config(r, files__split_level=case['docs'][i]['split'] - 1, files__directory='out-$jobname')
                shutil.rmtree('out-doc%d' % i, ignore_errors=True)
                what = 'step %d: document %d with %s' % (si, i, r)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        run('doc%d.tex' % i, cfg)
                except Exception as e:
                    import traceback
                    require(False, '%s fails with %s: %s\n%s', what, type(e).__name__, e, traceback.format_exc()[-600:])
                files = {}
                for root, ds, fs in os.walk('out-doc%d' % i):
                    for f in fs:
                        if f.endswith('.html'):
                            with open(os.path.join(root, f), encoding='utf-8') as g:
                                files[f] = g.read()
                shown = links(files, marks)
                require(set(shown) == set(marks), '%s: %r are not shown in\n%s', what, sorted(set(marks) - set(shown)), src)
                mine = {}
                for m, (lab, c) in marks.items():
                    if lab in labs:
                        mine.setdefault(lab, {})[c] = shown[m]
                nothing = {c: shown[m] for m, (lab, c) in marks.items() if lab is None}
                for lab, by in mine.items():
                    require(by['ref'] != nothing['ref'] and by['ref'][1], '%s: own label %s is shown as %r', what, lab, by)
                # labels of other documents: all or nothing
                for j in range(nd):
                    if j == i:
                        continue
                    got = {}
                    for m, (lab, c) in marks.items():
                        if lab in own[j] and lab is not None:
                            got.setdefault(lab, {})[c] = shown[m]
                    ok = False
                    for state in saved[j][r]:
                        if all(got[lab][c] == state[lab].get(c, got[lab][c]) if lab in state else not set(got[lab][c][1]) - {'#'} for lab in got for c in got[lab]):
                            ok = True
                            resolved += len(state)
                            break
                    require(ok, '%s: labels of document %d are shown as %r, expected one of %r; without label: %r', what, j, got, saved[j][r], nothing)
                saved[i][r] = [mine]
        return {'labels': {'damages': damages, 'resolved': resolved, 'xr': case['xr']}, 'nontrivial': resolved > 0, 'sample': case['steps']}
    finally:
        os.chdir(old)
        shutil.rmtree(base)


SUBS = [
    Sub('prefixes', fn_prefixes, gen=gen_prefixes, quick=16, thorough=400, rule='at least one label'),
    Sub('histories', fn_history, gen=gen_history, quick=500, thorough=10000, rule='at least one damage and one save with labels'),
    Sub('runs', fn_runs, gen=gen_runs, quick=140, thorough=2500, rule='labels of another document are resolved'),
]
