"""Access to the code under test."""
from . import core
import os, sys
import plasTeX
assert os.path.realpath(plasTeX.__file__).startswith(os.path.realpath(core.REPO) + os.sep), plasTeX.__file__
from plasTeX.TeX import TeX
from plasTeX import TeXDocument
import plasTeX.Context as ContextMod
import plasTeX.Config as ConfigMod
import plasTeX.Tokenizer as Tok
import logging

TeX.disableLogging()
logging.disable(logging.CRITICAL)


def new_tex(load=True, config=None):
    kw = {}
    if config is not None:
        kw['config'] = config
    doc = TeXDocument(context=ContextMod.Context(load=load), **kw)
    tex = TeX(doc)
    tex.toplevel = True
    return doc, tex


def parse(src, config=None):
    """TeX().input(src).parse() -> (document, tex)"""
    doc = TeXDocument(config=config) if config is not None else TeXDocument()
    tex = TeX(doc)
    tex.toplevel = True
    tex.input(src)
    tex.parse()
    return doc, tex


def squeeze(s):
    return ''.join(str(s).split())
