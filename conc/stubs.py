"""Stand-ins with scripted outcomes used by the concrete harness."""
from ndg.xacml.core.target import Target
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.rule import Rule
from ndg.xacml.core.context.result import Decision
from ndg.xacml.core.context.exceptions import (XacmlContextError,
                                               XacmlContextTypeError)
from ndg.xacml.core.attributedesignator import *        # noqa


class Odd(Exception):
    pass


class OddChild(KeyError):
    pass




EXC = {'Exception': Exception, 'ValueError': ValueError, 'KeyError': KeyError,
       'TypeError': TypeError, 'AttributeError': AttributeError,
       'IndexError': IndexError, 'NotImplementedError': NotImplementedError,
       'OSError': OSError, 'ZeroDivisionError': ZeroDivisionError,
       'RuntimeError': RuntimeError, 'AssertionError': AssertionError,
       'StopIteration': StopIteration, 'UnicodeError': UnicodeError,
       'Odd': Odd, 'OddChild': OddChild,
       'XacmlContextError': XacmlContextError,
       'XacmlContextTypeError': XacmlContextTypeError}
EXCNAMES = sorted(EXC)


def outcome(o):
    """'!Name' raises, anything else is returned"""
    if isinstance(o, str) and o.startswith('!'):
        raise EXC[o[1:]]('scripted')
    return o


class StubTarget(Target):
    def match(self, request):
        self.seen.append(request)
        return outcome(self.out)


class StubCondition(Condition):
    def evaluate(self, context):
        self.seen.append(context)
        return outcome(self.out)


def mk_target(o):
    t = StubTarget()
    t.out, t.seen = o, []
    return t


def mk_condition(o):
    c = StubCondition()
    c.out, c.seen = o, []
    return c


DEC = {'Permit': Decision.PERMIT, 'Deny': Decision.DENY,
       'NotApplicable': Decision.NOT_APPLICABLE,
       'Indeterminate': Decision.INDETERMINATE}


def decision(d, fresh):
    return Decision(d) if fresh else DEC[d]


def constants_ok():
    for k, v in DEC.items():
        if v.value != k:
            return 'the shared constant for %s now says %s' % (k, v.value)


def pick_str(rng, hints):
    if hints.strs and rng.random() < .4:
        return rng.choice(hints.strs)
    if rng.random() < .2:
        return rng.choice([' a', 'a ', 'A', '\xe9', 'a,b', 'None', '0', 'a b',
                           '%s', 'false', 'e\u0301'])
    return rng.choice(['a', 'x1', '', 'urn:x', 'http://example.org/p'])
