"""The XML elements the readers of ndg.xacml.parsers.etree work on, as ghost
data: what the element tree library guarantees of them."""
from .common import *           # noqa
from ndg.xacml.parsers import etree as PE
from ndg.xacml.parsers import AbstractReader
from ndg.xacml.parsers.etree.policyreader import PolicyReader

ElementTree = PE.ElementTree


class Elem(object):
    """An element, or something else found among the children of one: a
    comment or processing instruction, whose tag is no string."""

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def __getitem__(self, i):
        return self.children[i]


# the tag of what is no element is something without the methods of a string
ELEM = {Elem: {'tag': Opt(STR), 'text': Opt(STR), 'tail': Opt(STR),
               'attrib': Inst(dict, **{'%key': STR, '%val': STR}),
               'children': SeqT(Inst(Elem), list)}}
ELEMENTS = ('an element is a sequence of nodes with a tag, a text, a tail and '
            'a dictionary of string attributes; the tag of a node is a string '
            'iff it is an element')


class Source(object):
    """A stream or a path to parse."""


def c_iselement(eng, st, args, kw):
    r = eng.isinst(st, args[0], Con(Elem))
    return [(st, Con(r) if isinstance(r, bool) else Sym(Val.vbool(r), BOOL))]


def local(tag):
    """the local part of a name"""
    return tag.rsplit('}', 1)[-1]


# ------------------------------------------------------------------- ghosts
def stated(cls, elem):
    """What an element states, read as a cls; may refuse it."""


def g_stated(eng, st, args, kw):
    return ghost_call(eng, st, 'STATED:' + args[0].o.__name__,
                      [args[1]], Inst(args[0].o))


def c_parse(eng, st, args, kw):
    """Reader.parse(elem, common): what the element states (the contract of
    each reader, decided for that reader)."""
    cls, obj = args[:2]
    return g_stated(eng, st, [Con(cls.o.TYPE), obj], {})


def text_of(elem):
    """The text of an element, comments left out; refuses child elements."""


def g_text(eng, st, args, kw):
    return ghost_call(eng, st, 'TEXT', [args[0]], Opt(STR))


PARSE = {AbstractReader.parse.__func__: c_parse,
         PolicyReader.parse.__func__: c_parse,
         ElementTree.iselement: c_iselement,
         stated: g_stated, text_of: g_text}
if hasattr(PE, 'getElementText'):
    PARSE[PE.getElementText] = g_text
