"""C06: the document tree stays a consistent tree under any sequence of DOM edits."""
import itertools
from ..core import Sub, Violation, Skip, require
from .. import sut
import plasTeX.DOM as DOM
from plasTeX.DOM import Node

TECHNIQUE = "stateful (model-based) property testing: exhaustive short and random long histories of DOM operations against a list-of-lists model"
LEVEL = "exhaustive-bounded + random"
NOTE = "Arguments are detached nodes or fragments (or children of the same parent for the move operations); every derived view is recomputed naively from the model."

ASSUMPTIONS = [
    'a fragment is spent once it has been inserted (its children belong to the new parent)',
    'children reached through the `self` attribute may name either the element or the fragment behind it as their parent',
    'order between attribute content and children is not defined; only containment is compared across that border',
    'shallow clones list the same children without taking them over; they are not edited further',
]

NAMES = ['a', 'b', 'c']
TEXNAMES = ['textbf', 'emph', 'textit']
STRS = ['x', 'yy', '', 'z z', 'x--', '`']
SUBS_ = [('--', '\u2013'), ('`', "'")]


class M:
    n = 0

    def __init__(self, kind, real, name=None, text=None):
        self.kind, self.real, self.name, self.text = kind, real, name, text
        self.ch, self.attrs = [], {}
        self.parent = None          # the node that lists it
        self.holder = None          # the element that holds it as an attribute
        self.spent = False
        self.alias = None           # the fragment that is the child list
        self.stale = False          # a clone that has not been inserted

    def up(self):
        return self.parent or self.holder

    def __repr__(self):
        return '%s%s' % (self.kind, self.name or repr(self.text or ''))


def kids_of_value(v):
    if isinstance(v, M):
        return [v]
    if isinstance(v, list):
        return [x for y in v for x in kids_of_value(y)]
    if isinstance(v, dict):
        return [x for y in v.values() for x in kids_of_value(y)]
    return []


class World:
    def __init__(self, mode):
        self.mode = mode
        if mode == 'dom':
            self.doc = DOM.Document()
            self.names = NAMES
        else:
            self.doc = sut.TeXDocument(context=CTX[0])
            self.names = TEXNAMES
        self.D = M('d', self.doc)
        self.pool = []

    def elem(self, k=0):
        n = self.names[k % 3]
        m = M('e', self.doc.createElement(n), name=n)
        self.pool.append(m)
        return m

    def text(self, s):
        m = M('t', self.doc.createTextNode(s), text=s)
        self.pool.append(m)
        return m

    def frag(self, items=()):
        m = M('f', self.doc.createDocumentFragment())
        for it in items:
            m.real.append(it.real)
            m.ch.append(it)
            it.parent = m
        self.pool.append(m)
        return m

    def alias(self, items):
        """an element whose `self' attribute is its child list"""
        m = self.elem(1)
        f = self.frag(items)
        m.real.attributes['self'] = f.real
        m.attrs['self'] = f
        f.holder = m
        m.alias = f
        m.ch = f.ch
        return m

    # ---- model helpers
    def owner(self, m):
        """whose child list is this"""
        return m

    def detached(self, m, target):
        if m.kind == 'd' or m.spent or m.parent is not None or m.holder is not None:
            return False
        t = target
        while t is not None:
            if t is m:
                return False
            t = t.up()
        return True

    def lister(self, t):
        """model node recorded as parent of children of t"""
        return t.holder if t.kind == 'f' and t.holder is not None and t.holder.alias is t else t

    def put(self, t, i, m):
        new = m.ch[:] if m.kind == 'f' else [m]
        t.ch[i:i] = new
        for x in new:
            x.parent = self.lister(t)
            x.stale = False
        if m.kind == 'f':
            m.spent = True
        m.stale = False

    def take(self, t, i):
        m = t.ch.pop(i)
        m.parent = None
        return m


CTX = []


def warm():
    CTX.append(sut.ContextMod.Context(load=True))


def text_of(m):
    if m.kind == 't':
        return m.text
    return ''.join(text_of(x) for x in m.ch)


def live(w):
    """every node reachable from nodes that are roots, and the roots"""
    seen, out = set(), []

    def walk(m):
        if id(m) in seen:
            return
        seen.add(id(m))
        out.append(m)
        for v in m.attrs.values():
            for x in kids_of_value(v):
                walk(x)
        for x in m.ch:
            walk(x)
    walk(w.D)
    for m in w.pool:
        if not m.spent and m.up() is None:
            walk(m)
    return out


def names_in(m, name, attrs_too=True):
    out = []
    if attrs_too:
        for k, v in m.attrs.items():
            if v is m.alias:
                continue
            for x in kids_of_value(v):
                if x.kind == 'e' and x.name == name:
                    out.append(x)
                out += names_in(x, name)
    for x in m.ch:
        if x.kind == 'e' and x.name == name:
            out.append(x)
        out += names_in(x, name)
    return out


def has_attr_content(m):
    return any(kids_of_value(v) for k, v in m.attrs.items() if v is not m.alias) or any(has_attr_content(x) for x in m.ch)


def preorder(m):
    out = []
    for x in m.ch:
        out.append(x)
        out += preorder(x)
    return out


def path(m):
    """path from the root, with how each step was taken"""
    p = []
    while m is not None:
        if not (m.kind == 'f' and m.holder is not None and m.holder.alias is m):
            p.insert(0, m)
        m = m.up()
    return p


def relation(a, b):
    pa, pb = path(a), path(b)
    if pa[0] is not pb[0]:
        return Node.DOCUMENT_POSITION_DISCONNECTED
    if b in [x for x in pa]:
        return Node.DOCUMENT_POSITION_CONTAINS
    if a in pb:
        return Node.DOCUMENT_POSITION_CONTAINED_BY
    i = 0
    while i < min(len(pa), len(pb)) and pa[i] is pb[i]:
        i += 1
    if i >= min(len(pa), len(pb)):
        return None         # the element and the fragment behind it
    x, y, c = pa[i], pb[i], pa[i - 1]
    ix = [k for k, z in enumerate(c.ch) if z is x]
    iy = [k for k, z in enumerate(c.ch) if z is y]
    if not ix or not iy:
        return None
    return Node.DOCUMENT_POSITION_FOLLOWING if ix[0] < iy[0] else Node.DOCUMENT_POSITION_PRECEDING


M.__eq__ = lambda self, other: self is other
M.__hash__ = lambda self: id(self)


def check_state(w, hist, full):
    nodes = live(w)
    what = 'after %s' % (hist,)
    for m in nodes:
        r = m.real
        if m.kind == 't':
            require(str.__str__(r) == m.text and r.textContent == m.text, '%s: text is %r, should be %r', what, r, m.text)
            continue
        got = list(r)
        require(len(got) == len(m.ch) and all(g is x.real for g, x in zip(got, m.ch)), '%s: children of %r are %r, should be %r', what, m, got, m.ch)
        require(len(r) == len(m.ch), '%s: len(%r)', what, m)
        if m.ch:
            require(r.firstChild is m.ch[0].real and r.lastChild is m.ch[-1].real, '%s: first/last child of %r', what, m)
            require(r.childNodes[0] is m.ch[0].real and r[-1] is m.ch[-1].real and r[len(m.ch) // 2] is m.ch[len(m.ch) // 2].real, '%s: items of %r', what, m)
        else:
            require(r.firstChild is None and r.lastChild is None, '%s: first/last child of the empty %r', what, m)
        for i, x in enumerate(m.ch):
            p = x.real.parentNode
            ok = p is r
            if m.alias is not None:
                ok = ok or p is m.alias.real
            if m.kind == 'f' and m.holder is not None and m.holder.alias is m:
                ok = ok or p is m.holder.real
            require(ok, '%s: parent of child %d of %r is %r', what, i, m, p)
            ps, ns = x.real.previousSibling, x.real.nextSibling
            wp = m.ch[i - 1].real if i else None
            wn = m.ch[i + 1].real if i + 1 < len(m.ch) else None
            require(ps is wp, '%s: previous sibling of child %d of %r is %r', what, i, m, ps)
            require(ns is wn, '%s: next sibling of child %d of %r is %r', what, i, m, ns)
        require(r.ownerDocument is w.doc, '%s: owner document of %r', what, m)
        if m.kind == 'e':
            for k, v in m.attrs.items():
                g = r.attributes[k]
                check_value(what, m, k, v, g)
            require(set(r.attributes) == set(m.attrs), '%s: attributes of %r are %r', what, m, list(r.attributes))
        t = r.textContent
        require(str.__str__(t) == text_of(m), '%s: textContent of %r is %r, should be %r', what, m, t, text_of(m))
    for m in w.pool:
        if not m.spent and m.up() is None and not m.stale and m.kind != 'd':
            require(m.real.previousSibling is None and m.real.nextSibling is None, '%s: the detached %r has siblings', what, m)
    if not full:
        return
    for m in nodes:
        if m.kind == 't':
            continue
        for n in w.names:
            got = m.real.getElementsByTagName(n)
            exp = [x.real for x in names_in(m, n)]
            if has_attr_content(m):
                require(sorted(map(id, got)) == sorted(map(id, exp)), '%s: elements named %s below %r: %r, should be %r', what, n, m, got, exp)
            else:
                require(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), '%s: elements named %s below %r: %r, should be %r', what, n, m, got, exp)
        got = m.real.getElementsByTagName([w.names[0], w.names[1]])
        exp = len(names_in(m, w.names[0])) + len(names_in(m, w.names[1]))
        require(len(got) == exp, '%s: elements with two names below %r: %r', what, m, got)
        got, exp = m.real.allChildNodes, preorder(m)
        require(len(got) == len(exp) and all(a is b.real for a, b in zip(got, exp)), '%s: allChildNodes of %r: %r, should be %r', what, m, got, exp)
    real = [m for m in nodes if not path(m)[0].stale][:14]
    for a in real:
        for b in real:
            if a is b:
                continue
            if a.alias is b or b.alias is a:
                continue
            e = relation(a, b)
            if e is not None:
                g = a.real.compareDocumentPosition(b.real)
                require(g == e, '%s: position of %r relative to %r is %#x, should be %#x', what, b, a, g, e)


def check_value(what, m, k, v, g, nested=False):
    if isinstance(v, M):
        require(g is v.real, '%s: attribute %s of %r is %r', what, k, m, g)
        if v.kind != 't' or True:
            require(g.parentNode is m.real, '%s: parent of attribute %s of %r is %r', what, k, m, g.parentNode)
            require(g.ownerDocument is m.real.ownerDocument, '%s: owner of attribute %s of %r', what, k, m)
    elif isinstance(v, list):
        for a, b in zip(v, g):
            check_value(what, m, k, a, b, True)
    elif isinstance(v, dict):
        for kk in v:
            check_value(what, m, k, v[kk], g[kk], True)
    else:
        require(g == v, '%s: attribute %s of %r is %r, should be %r', what, k, m, g, v)


def same(a, b):
    """is the real node b a faithful copy of the model node a?"""
    if a.kind == 't':
        return str.__str__(b) == a.text and b.nodeType == Node.TEXT_NODE
    if b.nodeType != a.real.nodeType or b.nodeName != a.real.nodeName or type(b) is not type(a.real):
        return False
    if len(b) != len(a.ch) or not all(same(x, y) for x, y in zip(a.ch, b)):
        return False
    if a.kind == 'e':
        if set(b.attributes) != set(a.attrs):
            return False
        return all(same_value(v, b.attributes[k]) for k, v in a.attrs.items())
    return True


def same_value(v, g):
    if isinstance(v, M):
        return same(v, g)
    if isinstance(v, list):
        return isinstance(g, list) and len(v) == len(g) and all(same_value(x, y) for x, y in zip(v, g))
    if isinstance(v, dict):
        return isinstance(g, dict) and set(v) == set(g) and all(same_value(v[k], g[k]) for k in v)
    return v == g


def reals(m):
    out = [m.real]
    for v in m.attrs.values():
        for x in kids_of_value(v):
            out += reals(x)
    for x in m.ch:
        out += reals(x)
    return out


def real_nodes(r):
    out = [r]
    if r.nodeType == Node.TEXT_NODE:
        return out
    for v in (r.attributes or {}).values():
        for x in (v if isinstance(v, list) else list(v.values()) if isinstance(v, dict) else [v]):
            if isinstance(x, Node):
                out += real_nodes(x)
    for x in r:
        out += real_nodes(x)
    return out


def adopt(w, r):
    """model of a real (cloned) subtree"""
    if r.nodeType == Node.TEXT_NODE:
        return M('t', r, text=str.__str__(r))
    m = M('f' if r.nodeType == Node.DOCUMENT_FRAGMENT_NODE else 'e', r, name=r.nodeName if r.nodeType == Node.ELEMENT_NODE else None)
    if m.kind == 'e':
        for k, v in r.attributes.items():
            m.attrs[k] = adopt_value(w, m, v)
        f = m.attrs.get('self')
        if isinstance(f, M) and f.kind == 'f':
            m.alias = f
            m.ch = f.ch
            for x in m.ch:
                x.parent = m
            return m
    for x in r:
        c = adopt(w, x)
        c.parent = m
        m.ch.append(c)
    return m


def adopt_value(w, m, v):
    if isinstance(v, Node):
        x = adopt(w, v)
        x.holder = m
        return x
    if isinstance(v, list):
        return [adopt_value(w, m, x) for x in v]
    if isinstance(v, dict):
        return {k: adopt_value(w, m, x) for k, x in v.items()}
    return v


def normalize(w, m, subs, what):
    """update the model from the real tree, checking that it is the normalization of the model"""
    if m.kind == 't':
        return
    for k, v in m.attrs.items():
        if isinstance(v, M) and v is not m.alias:
            normalize(w, v, subs, what)
    runs = []
    for x in m.ch:
        if x.kind == 't':
            if runs and isinstance(runs[-1], list):
                runs[-1].append(x)
            else:
                runs.append([x])
        else:
            runs.append(x)
    got = list(m.real)
    new = []
    for x in runs:
        if isinstance(x, list):
            t = ''.join(y.text for y in x)
            for a, b in subs:
                t = t.replace(a, b)
            for y in x:
                y.parent = None
                y.spent = True
            if t == '' and not (got and got[0].nodeType == Node.TEXT_NODE and str.__str__(got[0]) == ''):
                continue
            require(got and got[0].nodeType == Node.TEXT_NODE and str.__str__(got[0]) == t, '%s: normalized text of %r is %r, should be %r', what, m, got[:1], t)
            n = M('t', got.pop(0), text=t)
            n.parent = x[0].parent or self_parent(w, m)
            n.parent = self_parent(w, m)
            new.append(n)
            w.pool.append(n)
        else:
            require(got and got[0] is x.real, '%s: normalize lost %r of %r', what, x, m)
            got.pop(0)
            new.append(x)
    require(not got, '%s: normalize left %r in %r', what, got, m)
    m.ch[:] = new
    for x in new:
        if x.kind != 't':
            normalize(w, x, subs, what)


def self_parent(w, m):
    return w.lister(m)


def run(case):
    mode, ops = case[0], case[1]
    each = case[2]                   # check after every step?
    w = World(mode)
    # the pool
    R = w.elem(0)
    A, B = w.elem(1), w.elem(2)
    w.text('x'); w.text('yy')
    w.frag([w.elem(0), w.text('f')])
    if mode != 'small':
        w.alias([w.text('s'), w.elem(2)])
        w.frag([])
    labels = set()
    hist = []
    done = 0
    for op in ops:
        n = step(w, op, hist, labels)
        if n:
            done += 1
            if each:
                check_state(w, hist, each == 2 or len(w.pool) < 12)
    check_state(w, hist, True)
    # normalization is idempotent
    depth = max([len(path(m)) for m in live(w)])
    return {'labels': sorted(labels) + ['depth %d' % min(depth, 6), mode], 'nontrivial': done >= 3 and len(labels) >= 3, 'sample': repr(hist)[:400]}


def step(w, op, hist, labels):
    name, i, j, k = op
    targets = [m for m in live(w) if m.kind in 'efd']
    targets = [m for m in targets if not (m.kind == 'd' and w.mode == 'tex')]
    # a fragment that is the child list of an element is edited through the element
    targets = [m for m in targets if not (m.kind == 'f' and m.holder is not None and m.holder.alias is m)]
    pool = [m for m in w.pool if not m.spent]
    t = targets[i % len(targets)]
    r = t.real
    ch = t.ch
    idx = k % (len(ch) + 1)
    neg = k // 7 % 2

    def arg(extra=None):
        cand = [m for m in pool if w.detached(m, t)]
        if extra:
            cand = cand + [c for c in ch if not (extra is c)]
        if not cand:
            return None
        return cand[j % len(cand)]

    def log(*a):
        hist.append((name,) + tuple(repr(x) for x in a))
        labels.add(name)

    if name == 'new':
        labels.add(name)
        z = j % 4
        if z == 0:
            w.elem(k)
        elif z == 1:
            w.text(STRS[k % len(STRS)])
        elif z == 2:
            its = [w.text(STRS[k % len(STRS)]), w.elem(k), w.text('q')][:k % 4]
            w.frag(its)
            labels.add('new fragment')
        else:
            w.alias([w.text('v'), w.elem(k)][:k % 3])
        hist.append((name, z, k))
        return True
    if name == 'append':
        a = arg()
        if a is None:
            return False
        log(t, a)
        labels.add('fragment' if a.kind == 'f' else 'node')
        f = [r.append, r.appendChild][k % 2]
        require(f(a.real) is a.real, 'append returned something else')
        w.put(t, len(ch), a)
        return True
    if name == 'appendstr':
        s = STRS[j % len(STRS)]
        log(t, s)
        g = r.append(s)
        m = w.text('')
        w.pool.pop()
        m.real, m.text = g, s
        require(isinstance(g, DOM.Text) and g == s, 'append(%r) returned %r', s, g)
        w.pool.append(m)
        w.put(t, len(ch), m)
        return True
    if name in ('insert', 'setitem'):
        a = arg()
        if a is None:
            return False
        p = idx
        if name == 'setitem':
            if not ch:
                return False
            p = k % len(ch)
        if name == 'insert' and k % 11 == 10:
            p = len(ch) + 3
        q = p - len(ch) if neg and p < len(ch) else p
        if neg and name == 'insert' and k % 13 == 12:
            q = -len(ch) - 2
            p = 0
        log(t, q, a)
        labels.add('negative index' if q < 0 else 'index')
        labels.add('fragment' if a.kind == 'f' else 'node')
        if name == 'insert':
            require(r.insert(q, a.real) is a.real, 'insert returned something else')
            w.put(t, min(p, len(ch)), a)
        else:
            r[q] = a.real
            w.take(t, p)
            w.put(t, p, a)
        return True
    if name == 'setstr':
        if not ch:
            return False
        s = STRS[j % len(STRS)]
        p = k % len(ch)
        log(t, p, s)
        if neg:
            r[p] = s
            w.take(t, p)
        else:
            r.insert(p, s)
        g = r[p]
        require(isinstance(g, DOM.Text) and g == s, 'item %r is %r', s, g)
        m = M('t', g, text=s)
        w.pool.append(m)
        w.put(t, p, m)
        return True
    if name in ('insertBefore', 'insertAfter', 'replaceChild'):
        if not ch:
            return False
        ref = ch[k % len(ch)]
        a = arg(ref)
        if a is None:
            return False
        moved = a in ch
        log(t, a, ref)
        labels.add('move' if moved else 'fragment' if a.kind == 'f' else 'node')
        x = getattr(r, name)(a.real, ref.real)
        if moved:
            ch.remove(a)
        p = ch.index(ref)
        if name == 'replaceChild':
            require(x is ref.real, 'replaceChild returned %r', x)
            w.take(t, p)
            w.put(t, p, a)
        else:
            require(x is a.real, '%s returned %r', name, x)
            w.put(t, p + (name == 'insertAfter'), a)
        return True
    if name == 'badref':
        ref = [m for m in pool if m not in ch and m is not t]
        a = arg()
        if not ref or a is None:
            return False
        ref = ref[k % len(ref)]
        if a is ref:
            return False
        f = ['insertBefore', 'insertAfter', 'replaceChild', 'removeChild'][k % 4]
        log(t, f, a, ref)
        try:
            if f == 'removeChild':
                r.removeChild(ref.real)
            else:
                getattr(r, f)(a.real, ref.real)
        except DOM.NotFoundErr:
            return True
        raise Violation('%s with a node that is not a child was accepted: %s' % (f, hist))
    if name == 'remove':
        if not ch:
            return False
        p = k % len(ch)
        log(t, ch[p])
        f = r.removeChild if j % 2 else r.remove
        require(f(ch[p].real) is ch[p].real, 'removeChild returned something else')
        w.take(t, p)
        return True
    if name == 'pop':
        if not ch:
            log(t)
            try:
                r.pop()
            except IndexError:
                return True
            raise Violation('pop of an empty node: %s' % hist)
        p = k % len(ch)
        how = j % 3
        log(t, p, how)
        g = r.pop() if how == 0 else r.pop(p) if how == 1 else r.pop(p - len(ch))
        if how == 0:
            p = len(ch) - 1
        require(g is ch[p].real, 'pop returned %r, should be %r: %s', g, ch[p], hist)
        w.take(t, p)
        return True
    if name == 'extend':
        a = arg()
        if a is None:
            return False
        cand = [m for m in pool if w.detached(m, t) and m is not a]
        its = [a] + ([cand[k % len(cand)]] if cand and k % 2 else [])
        log(t, its)
        if a.kind == 'f' and k % 3 == 0:
            x = r.extend(a.real)
            its = [a]
        elif k % 5 == 0:
            r2 = r
            r2 += [y.real for y in its]
            x = r2
        else:
            x = r.extend([y.real for y in its])
        require(x is r, 'extend returned something else')
        for y in its:
            w.put(t, len(ch), y)
        return True
    if name == 'normalize':
        subs = SUBS_ if k % 3 == 0 else []
        log(t, subs)
        before = text_of(t)
        if subs:
            r.normalize(subs)
        else:
            r.normalize()
        if not subs:
            require(str.__str__(r.textContent) == before, 'normalize changed the text to %r: %s', r.textContent, hist)
        normalize(w, t, subs, str(hist))
        shape = dump(r)
        r.normalize(subs)
        require(dump(r) == shape, 'normalize is not idempotent: %s', hist)
        normalize(w, t, subs, str(hist))
        return True
    if name == 'clone':
        if t.kind == 'd':
            return False
        log(t)
        cand = [t] + ch
        c = cand[k % len(cand)]
        g = c.real.cloneNode(True)
        require(same(c, g), 'the deep clone of %r is %s: %s', c, dump(g), hist)
        require(g == c.real or c.kind == 't', 'the deep clone of %r is not equal to it: %s', c, hist)
        mine = set(map(id, reals(c)))
        shared = [x for x in real_nodes(g) if id(x) in mine]
        require(not shared, 'the deep clone of %r shares %r: %s', c, shared, hist)
        m = adopt(w, g)
        m.stale = True
        if len(w.pool) < 30:
            w.pool.append(m)
            for x in preorder(m):
                w.pool.append(x)
        return True
    if name == 'shallow':
        if t.kind != 'e':
            return False
        log(t)
        g = r.cloneNode()
        require(g is not r and g.nodeName == r.nodeName, 'shallow clone')
        return True
    if name == 'setattr':
        if t.kind != 'e':
            return False
        a = arg()
        key = ['x', 'y', 'z'][k % 3]
        if key in t.attrs or a is None:
            return False
        z = k // 3 % 5
        cand = [m for m in pool if w.detached(m, t) and m is not a]
        if z == 1:
            v = [a] + cand[:1]
        elif z == 2:
            v = {'p': a, 'n': 1}
        elif z == 3:
            v = k
        else:
            v = a
        log(t, key, v)
        labels.add('attr %s' % ('fragment' if isinstance(v, M) and v.kind == 'f' else type(v).__name__))
        for m in kids_of_value(v):
            m.holder = t
            m.stale = False

        def real(v):
            return v.real if isinstance(v, M) else [real(x) for x in v] if isinstance(v, list) else {q: real(x) for q, x in v.items()} if isinstance(v, dict) else v
        if j % 2:
            r.setAttribute(key, real(v))
        else:
            r.attributes[key] = real(v)
        t.attrs[key] = v
        return True
    raise AssertionError(name)


def dump(r):
    if r.nodeType == Node.TEXT_NODE:
        return repr(str.__str__(r))
    return '%s(%s)%s' % (r.nodeName, ', '.join(dump(x) for x in r),
                         ''.join(' %s=%s' % (k, dump(v) if isinstance(v, Node) else v if isinstance(v, int) else '') for k, v in (r.attributes or {}).items()))


OPS = [(5, 'append'), (2, 'appendstr'), (4, 'insert'), (3, 'setitem'), (1, 'setstr'), (3, 'insertBefore'), (3, 'insertAfter'), (3, 'replaceChild'), (1, 'badref'),
       (2, 'remove'), (2, 'pop'), (2, 'extend'), (1, 'normalize'), (1, 'clone'), (1, 'shallow'), (2, 'setattr'), (2, 'new')]


def gen(d):
    n = d.weighted([(3, 6), (4, 14), (3, 40)])
    ops = []
    for _ in range(d.int(1, n)):
        ops.append((d.weighted(OPS), d.int(0, 9), d.int(0, 9), d.int(0, 60)))
    return [d.weighted([(3, 'dom'), (1, 'tex')]), ops, 1]


# exhaustive: a root, two elements, two texts, a fragment of two; operations on the root and one element
XOPS = [('append', 1, 0, 0), ('append', 1, 1, 0), ('append', 2, 1, 0), ('append', 1, 3, 1), ('insert', 1, 1, 0), ('insert', 1, 2, 1), ('insert', 1, 3, 0), ('setitem', 1, 1, 0),
        ('setitem', 1, 3, 8), ('insertBefore', 1, 4, 0), ('insertAfter', 1, 2, 0), ('replaceChild', 1, 2, 1), ('pop', 1, 0, 0), ('pop', 1, 1, 0), ('remove', 1, 1, 1),
        ('extend', 1, 3, 0), ('normalize', 1, 0, 1), ('clone', 1, 0, 0), ('appendstr', 1, 0, 0), ('setattr', 1, 3, 0), ('append', 4, 0, 0), ('insertBefore', 1, 9, 1), ('setitem', 1, 0, 7)]


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for ops in itertools.product(XOPS, repeat=k):
            yield ['small', list(ops), 0]
    # deeper over fewer operations
    few = [XOPS[i] for i in (0, 6, 8, 9, 11, 13, 16)]
    for k in ([4, 5] if tier == 'quick' else [5, 6]):
        for ops in itertools.product(few, repeat=k):
            yield ['small', [XOPS[1]] + list(ops), 0]


# ---------------------------------------------------------------- trees that the parser built
def pgen(d):
    def inline(k):
        return ''.join(d.weighted([(4, d.choice(['ab ', 'c--d ', 'e'])), (2, '\\emph{%s}' % (inline(k - 1) if k else 'x')), (1, '\\textbf{y\\textit{z}}'),
                                   (1, '\\footnote{f \\emph{g}}'), (1, '$a+b$'), (1, '{\\bfseries h}')]) for _ in range(d.int(1, 3)))

    def block(k):
        z = d.int(0, 6)
        if z <= 1 or not k:
            return inline(2) + d.choice(['\n\n', ' '])
        if z == 2:
            return '\\begin{itemize}' + ''.join('\\item ' + block(k - 1) for _ in range(d.int(1, 2))) + '\\end{itemize}'
        if z == 3:
            return '\\begin{tabular}{ll}' + inline(1) + '&' + inline(1) + '\\\\ ' + inline(0) + '&z\\end{tabular}'
        if z == 4:
            return '\\section[%s]{%s}' % (inline(1), inline(1)) + block(k - 1)
        if z == 5:
            return '\\begin{quote}' + block(k - 1) + '\\end{quote}'
        return '\\begin{figure}' + inline(1) + '\\caption{' + inline(1) + '}\\end{figure}'
    src = ''.join(block(2) for _ in range(d.int(1, 3)))
    ops = [(d.weighted([(x, y) for x, y in OPS if y not in ('normalize', 'setattr', 'clone')]), d.int(0, 40), d.int(0, 9), d.int(0, 60)) for _ in range(d.int(0, 8))]
    return [d.choice(['frag', 'doc']), src, ops]


def parsed(case):
    mode, src, ops = case
    if mode == 'doc':
        src = '\\documentclass{article}\\begin{document}' + src + '\\end{document}'
    doc, tex = sut.parse(src)
    labels = set()
    # every listed node names a parent that lists it; views agree with a naive walk
    all_ = []

    def walk(n):
        for i, c in enumerate(n):
            p = c.parentNode
            require(p is n or (p is not None and p.childNodes is n) or (p is not None and p is n.childNodes), 'parent of %r, child of %r, is %r in\n%s', c, n, p, src)
            require(c.ownerDocument is doc, 'owner of %r is %r in\n%s', c, c.ownerDocument, src)
            require(c.nextSibling is (n[i + 1] if i + 1 < len(n) else None), 'next sibling of %r in\n%s', c, src)
            require(c.previousSibling is (n[i - 1] if i else None), 'previous sibling of %r in\n%s', c, src)
            all_.append(c)
            if c.nodeType != Node.TEXT_NODE:
                walk(c)
    walk(doc)
    require(len(set(map(id, all_))) == len(all_), 'a node is listed twice in\n%s', src)
    got = doc.allChildNodes
    require(len(got) == len(all_) and all(a is b for a, b in zip(got, all_)), 'allChildNodes in\n%s', src)
    for n in ('emph', 'textbf', 'item', 'par', 'section'):
        g = doc.getElementsByTagName(n)
        require(len(set(map(id, g))) == len(g), 'element %s found twice in\n%s', n, src)
        below = [x for x in all_ if x.nodeName == n]
        g2 = [x for x in g if any(x is y for y in below)]
        require(len(g2) == len(below) and all(a is b for a, b in zip(g2, below)) or sorted(map(id, g2)) == sorted(map(id, below)), 'elements named %s in\n%s', n, src)
    # clone of every element
    for x in all_[:20]:
        if x.nodeType != Node.ELEMENT_NODE:
            continue
        t0, d0 = str(x.textContent), dump(x)
        c = x.cloneNode(True)
        require(str(c.textContent) == t0, 'text of the clone of %r in\n%s', x, src)
        require(dump(c) == d0, 'the clone of %r differs: %s in\n%s', x, dump(c), src)
        mine = set(map(id, real_nodes(x)))
        require(not [y for y in real_nodes(c) if id(y) in mine], 'the clone of %r shares nodes in\n%s', x, src)
        require(dump(x) == d0 and all(k.parentNode is not c for k in x), 'cloning changed %r in\n%s', x, src)
    # positions
    els = [x for x in all_][:25]
    for i, a in enumerate(els):
        for j, b in enumerate(els):
            if i == j:
                continue
            g = a.compareDocumentPosition(b)
            anc, q = False, None
            if inside(a, b):
                e = Node.DOCUMENT_POSITION_CONTAINED_BY
            elif inside(b, a):
                e = Node.DOCUMENT_POSITION_CONTAINS
            else:
                e = Node.DOCUMENT_POSITION_FOLLOWING if i < j else Node.DOCUMENT_POSITION_PRECEDING
            require(g == e, 'position of %r relative to %r is %#x, should be %#x in\n%s', b, a, g, e, src)
    # edits with detached nodes keep all of that
    body = doc
    els = [x for x in all_ if x.nodeType == Node.ELEMENT_NODE and len(x)]
    for name, i, j, k in ops:
        if not els:
            break
        t = els[i % len(els)]
        if not len(t):
            continue
        new = doc.createElement('emph') if j % 2 else doc.createTextNode('new')
        lst = list(t)
        p = k % len(lst)
        ref = lst[p]
        if name == 'append':
            t.append(new); lst.append(new)
        elif name in ('insert', 'extend'):
            t.insert(p, new); lst.insert(p, new)
        elif name == 'insertBefore':
            t.insertBefore(new, ref); lst.insert(p, new)
        elif name == 'insertAfter':
            t.insertAfter(new, ref); lst.insert(p + 1, new)
        elif name in ('replaceChild',):
            t.replaceChild(new, ref); lst[p] = new
        elif name in ('setitem', 'setstr'):
            t[p] = new; lst[p] = new
        elif name == 'pop':
            require(t.pop(p) is ref, 'pop'); del lst[p]
        elif name == 'remove':
            t.removeChild(ref); del lst[p]
        else:
            continue
        labels.add(name)
        require(len(t) == len(lst) and all(a is b for a, b in zip(t, lst)), 'children after %s at %d of %r in\n%s', name, p, t, src)
        els = [x for x in els if attached(x, doc)]
        all_.clear()
        walk(doc)
    return {'labels': sorted(labels) + [mode], 'nontrivial': len(all_) >= 8, 'sample': src}


def inside(a, b):
    """is b below a?"""
    return any(x is b or (x.nodeType != Node.TEXT_NODE and inside(x, b)) for x in a) if a.nodeType != Node.TEXT_NODE else False


def attached(x, doc):
    n = 0
    while x is not None and n < 100:
        if x is doc:
            return True
        p = x.parentNode
        if p is not None and not any(y is x for y in p) and p.childNodes is not x:
            return False
        x = p
        n += 1
    return False


SUBS = [
    Sub('histories', run, gen=gen, quick=20000, thorough=400000, fork=False,
        rule='random histories of 1-40 operations over a growing pool of elements, texts, fragments, attribute-held content; children, parents, '
             'owners, siblings, text, lookup, positions compared with a model after every step; non-trivial: 3 effective operations'),
    Sub('exhaustive', run, cases=cases, fork=False,
        rule='all histories of up to 3 (thorough 4) of 23 concrete operations, and of 5-6 (thorough 6-7) of 7, over a pool of 8 nodes'),
    Sub('parsed', parsed, gen=pgen, quick=800, thorough=20000,
        rule='trees built by the parser: consistency, lookup, positions, clones, then up to 8 edits; non-trivial: 8 or more nodes'),
]
