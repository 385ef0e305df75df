"""Rendering a generated document with plasTeX's own renderers.

Everything happens in a scratch directory made for the one rendering: plasTeX
writes its files into the current directory.  The compiled templates are kept
(they are a function of the template text alone), which saves most of the time
of a small rendering.
"""
import functools
import html
import html.parser
import os
import shutil
import tempfile

from vlib import core  # noqa: F401  (sets sys.path)

BASE = os.environ.get('VERIF_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else None)


CACHE = {}


def memoise():
    import plasTeX.Renderers.PageTemplate as pt
    for name in ('jinja2template', 'htmltemplate', 'xmltemplate'):
        f = getattr(pt, name, None)
        if f is not None and not getattr(f, 'memo', False):
            g = functools.lru_cache(maxsize=None)(f)
            g.memo = True
            setattr(pt, name, g)
    try:
        import jinja2
    except ImportError:
        return
    real = jinja2.Environment.compile
    if getattr(real, 'memo', False):
        return
    cache = CACHE

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        if raw or not isinstance(source, str):
            return real(self, source, name, filename, raw, defer_init)
        key = (source, name, filename, defer_init, type(self).__name__,
               tuple(sorted((k, repr(v)) for k, v in vars(self).items() if isinstance(v, (str, bool, int, type(None))) or callable(v))),
               tuple(sorted(self.extensions)), tuple(sorted(self.filters)), tuple(sorted(self.tests)))
        if key not in cache:
            cache[key] = real(self, source, name, filename, raw, defer_init)
        return cache[key]
    compile.memo = True
    jinja2.Environment.compile = compile


WARM = r"""\documentclass{article}\title{A}\author{B}\begin{document}\maketitle\tableofcontents\begin{abstract}a\end{abstract}
\section{One}\label{a}Text $x$ ``q'' \footnote{foo} \verb|a| \begin{itemize}\item a\item[b] x\end{itemize}\begin{enumerate}\item a\end{enumerate}
\begin{description}\item[a] b\end{description}\begin{verbatim}x\end{verbatim}\begin{quote}a\end{quote}\[x\]\begin{equation}a\end{equation}
\begin{figure}a\caption{cap}\end{figure}\begin{table}a\caption{cap}\end{table}\begin{tabular}{c|c}a&b\\ c& \multicolumn{1}{c}{d}\end{tabular}
\section*{Two}\subsection{Three}\subsubsection{a}\paragraph{b}see \ref{a} \emph{a}\textbf{b}\texttt{c}\pageref{a}\cite{k} \textit a\mbox{x}\fbox{x}
\begin{thebibliography}{9}\bibitem{k} x\end{thebibliography}\end{document}"""


def warm(*renderers, **options):
    """fills the template caches, without letting a document touch this process"""
    import marshal
    import sys
    renderers = renderers or ('HTML5', 'XHTML')
    memoise()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for n in renderers:
                try:
                    render(WARM, config(n, **options))
                except Exception:
                    pass
            with os.fdopen(w, 'wb') as f:
                f.write(marshal.dumps(CACHE))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        CACHE.update(marshal.loads(data))
    except (ValueError, EOFError):
        pass
    import plasTeX.Renderers.PageTemplate as pt
    from plasTeX.Compile import load_renderer
    for n in renderers:
        try:
            rend = load_renderer(n, config(n))
            for cls in reversed(type(rend).__mro__):
                d = os.path.dirname(getattr(sys.modules[cls.__module__], '__file__', None) or '')
                if issubclass(cls, pt.PageTemplate):
                    rend.importDirectory(d)
                    rend.importDirectory(os.path.join(d, 'Themes', options.get('general__theme', 'default')))
        except Exception:
            pass


def config(renderer='HTML5', **options):
    """a configuration; options are given as section__name (with _ for -)"""
    from plasTeX.Config import defaultConfig
    from plasTeX.client import collect_renderer_config
    c = defaultConfig()
    collect_renderer_config(c)
    c['general']['renderer'] = renderer
    c['general']['copy-theme-extras'] = False
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    for k, v in options.items():
        sec, name = k.split('__')
        c[sec][name.replace('_', '-')] = v
    return c


class Out:
    def __init__(self):
        self.files = {}

    def text(self, name, encoding='utf-8'):
        return self.files[name].decode(encoding)


def render(src, cfg, jobname='doc', extra=None, dirs=False, paux=None):
    """renders the source text src in a fresh directory; returns the files written
    there (a dict name -> bytes) and the document"""
    from plasTeX.TeX import TeX
    from plasTeX import TeXDocument
    from plasTeX.Compile import load_renderer
    memoise()
    d = tempfile.mkdtemp(prefix='vrender', dir=BASE)
    old = os.getcwd()
    try:
        os.chdir(d)
        for name, data in (extra or {}).items():
            with open(name, 'wb') as f:
                f.write(data)
        document = TeXDocument(config=cfg)
        tex = TeX(document)
        tex.toplevel = True
        tex.jobname = jobname
        document.userdata['jobname'] = jobname
        document.userdata['working-dir'] = d
        for p in paux or []:
            document.context.restore(p, cfg['general']['renderer'])
        tex.input(src)
        tex.parse()
        r = load_renderer(cfg['general']['renderer'], cfg)
        r.render(document)
        out = Out()
        out.doc, out.renderer, out.tex = document, r, tex
        for root, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, 'rb') as g:
                    out.files[os.path.relpath(p, d)] = g.read()
        return out
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}


class Element:
    __slots__ = ('tag', 'attrs', 'children', 'parent')

    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.children, self.parent = tag, attrs, [], parent

    def text(self):
        return ''.join(c if isinstance(c, str) else c.text() for c in self.children)

    def walk(self):
        yield self
        for c in self.children:
            if not isinstance(c, str):
                yield from c.walk()

    def find(self, tag=None, cls=None, id=None):
        return [e for e in self.walk() if (tag is None or e.tag == tag) and (cls is None or cls in (e.attrs.get('class') or '').split()) and (id is None or e.attrs.get('id') == id)]


class Tree(html.parser.HTMLParser):
    """a plain tree of an HTML text; problems are recorded, not repaired"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = Element('#root', {}, None)
        self.problems = []

    def handle_starttag(self, tag, attrs):
        names = [a for a, _ in attrs]
        if len(set(names)) != len(names):
            self.problems.append('attribute given twice in <%s %s>' % (tag, ' '.join(names)))
        e = Element(tag, dict(attrs), self.cur)
        self.cur.children.append(e)
        if tag not in VOID:
            self.cur = e

    def handle_startendtag(self, tag, attrs):
        self.cur.children.append(Element(tag, dict(attrs), self.cur))

    def handle_endtag(self, tag):
        e = self.cur
        while e is not None and e.tag != tag:
            e = e.parent
        if e is None:
            if tag not in VOID:
                self.problems.append('</%s> closes nothing' % tag)
            return
        if e is not self.cur:
            self.problems.append('</%s> closes <%s>' % (tag, self.cur.tag))
        self.cur = e.parent

    def handle_data(self, data):
        self.cur.children.append(data)

    def handle_comment(self, data):
        self.cur.children.append(Element('#comment', {'data': data}, self.cur))

    def unknown_decl(self, data):
        self.problems.append('declaration <!%s' % data[:40])

    def handle_pi(self, data):
        if not data.startswith('xml '):
            self.problems.append('processing instruction <?%s' % data[:40])


def tree(text):
    t = Tree()
    t.feed(text)
    t.close()
    return t.root, t.problems
