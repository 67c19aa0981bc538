"""What the contracts of the XACML functions share."""
import datetime as _dt
from .common import *           # noqa
from ndg.xacml.core.functions import functionMap, AbstractFunction
from pyvc.terms import *        # noqa
from pyvc.execu import Star
from pyvc.verify import Target as T

V1 = 'urn:oasis:names:tc:xacml:1.0:function:'
V2 = 'urn:oasis:names:tc:xacml:2.0:function:'
XS = 'http://www.w3.org/2001/XMLSchema#'

# data types by the name used in function identifiers: (URI, native type)
DATATYPES = {
    'string': (XS + 'string', str), 'anyURI': (XS + 'anyURI', str),
    'integer': (XS + 'integer', int), 'boolean': (XS + 'boolean', bool),
    'double': (XS + 'double', float),
    'date': (XS + 'date', _dt.datetime),
    'dateTime': (XS + 'dateTime', _dt.datetime),
    'time': (XS + 'time', _dt.datetime),
    'dayTimeDuration': ('http://www.w3.org/TR/2002/WD-xquery-operators-'
                        '20020816#dayTimeDuration', _dt.timedelta),
    'yearMonthDuration': ('http://www.w3.org/TR/2002/WD-xquery-operators-'
                          '20020816#yearMonthDuration', _dt.timedelta),
    'x500Name': ('urn:oasis:names:tc:xacml:1.0:data-type:x500Name', str),
    'rfc822Name': ('urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name', str),
    'hexBinary': (XS + 'hexBinary', int),
    'ipAddress': ('urn:oasis:names:tc:xacml:2.0:data-type:ipAddress', str),
    'dnsName': ('urn:oasis:names:tc:xacml:2.0:data-type:dnsName', str),
}
TYOF = {str: STR, int: INT, bool: BOOL, float: FLT,
        _dt.datetime: Inst(_dt.datetime), _dt.timedelta: Inst(_dt.timedelta)}

FACTORY = AttributeValueClassFactory()
CLASSES = {n: FACTORY(u) for n, (u, t) in DATATYPES.items()}
FTYPES = dict(TYPES)
for _n, (_u, _t) in DATATYPES.items():
    FTYPES[CLASSES[_n]] = {'value': Opt(TYOF[_t]), 'dataType': Opt(STR)}


def resolve(fid):
    return functionMap.get(fid)


IDS = {
    '-equal': [V1 + n + '-equal' for n in (
        'string', 'boolean', 'integer', 'double', 'date', 'time', 'dateTime',
        'dayTimeDuration', 'yearMonthDuration', 'anyURI', 'x500Name',
        'rfc822Name', 'hexBinary')],
    '-match': [V1 + n + '-match' for n in ('x500Name', 'rfc822Name')],
}
BAGTYPES = ('string', 'boolean', 'integer', 'double', 'time', 'date',
            'dateTime', 'anyURI', 'hexBinary', 'dayTimeDuration',
            'yearMonthDuration', 'x500Name', 'rfc822Name')
for _s in ('-bag', '-one-and-only', '-at-least-one-member-of'):
    IDS[_s] = [V1 + n + _s for n in BAGTYPES]


def typed(suffix):
    for fid in IDS[suffix]:
        n = fid.split(':')[-1][:-len(suffix)]
        yield fid, resolve(fid), CLASSES[n]


def type_of(f):
    """the attribute value class the function works on"""


class Refused(Exception):
    pass


def refuse(self):
    raise Refused()


def cmp_value(eng, st, code, spec):
    if isinstance(code, Raise) or isinstance(spec, Raise):
        return isinstance(code, Raise) and isinstance(spec, Raise)
    return eng.lift(code) == eng.lift(spec)


def own_or_other(eng, st, name, cls, kind):
    """a value of the class (its only instances are direct ones: closed
    world), or any value that is not one"""
    if kind == 'own':
        return eng.param(st, name, Inst(cls, True))
    v = eng.param(st, name, ANY)
    r = eng.isinst(st, v, Con(cls))
    st.add(z3.Not(r))
    return v
