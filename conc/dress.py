"""Fill the attributes of an object a property does not speak of: what it
says must not depend on them.  `code` is [seed, text...]; it is part of the
case, so that a replay dresses the objects the same way."""
import random
from ndg.xacml.core.attribute import Attribute
from ndg.xacml.core.attributedesignator import *        # noqa
from ndg.xacml.core.attributeselector import AttributeSelector
from ndg.xacml.core.attributevalue import (AttributeValue,
                                           AttributeValueClassFactory)
from ndg.xacml.core.action import Action as TAction
from ndg.xacml.core.apply import Apply
from ndg.xacml.core.condition import Condition
from ndg.xacml.core.context.action import Action
from ndg.xacml.core.context.environment import Environment
from ndg.xacml.core.context.request import Request
from ndg.xacml.core.context.resource import Resource
from ndg.xacml.core.context.subject import Subject
from ndg.xacml.core.environment import Environment as TEnvironment
from ndg.xacml.core.match import (MatchBase, SubjectMatch, ResourceMatch,
                                  ActionMatch, EnvironmentMatch)
from ndg.xacml.core.policy import Policy
from ndg.xacml.core.policyset import PolicySet
from ndg.xacml.core.resource import Resource as TResource
from ndg.xacml.core.rule import Rule, Effect
from ndg.xacml.core.subject import Subject as TSubject
from ndg.xacml.core.target import Target
from stubs import pick_str

STRING = 'http://www.w3.org/2001/XMLSchema#string'
INT = 'http://www.w3.org/2001/XMLSchema#integer'
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
RA = 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:'
PA = 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:'
ALG = ['deny-overrides', 'permit-overrides', 'first-applicable']
F = AttributeValueClassFactory()
SECT = [('subjects', TSubject, SubjectMatch, SubjectAttributeDesignator),
        ('resources', TResource, ResourceMatch, ResourceAttributeDesignator),
        ('actions', TAction, ActionMatch, ActionAttributeDesignator),
        ('environments', TEnvironment, EnvironmentMatch,
         EnvironmentAttributeDesignator)]


def code(rng, hints):
    """most objects bare, the rest dressed"""
    if rng.random() < .3:
        return None
    return [rng.randrange(10**6)] + [pick_str(rng, hints) for _ in range(3)]


class _D(object):
    def __init__(self, c):
        self.r = random.Random(c[0])
        self.s = c[1:] + ['a', 'urn:x', 'b']

    def yes(self, p=.5):
        return self.r.random() < p

    def text(self):
        return self.r.choice(self.s)

    def set(self, o, name, v, p=.5):
        """set what is not set yet; a value the class refuses is left out"""
        if self.yes(p) and getattr(o, name, None) is None:
            try:
                setattr(o, name, v)
            except Exception:
                pass

    def value(self):
        dt = self.r.choice([STRING, STRING, INT])
        return F(dt)(value=self.r.randint(0, 3) if dt == INT else self.text())

    def designator(self, cls):
        d = cls()
        d.attributeId, d.dataType = self.text(), STRING
        d.mustBePresent = self.yes()
        self.set(d, 'issuer', self.text())
        return d

    def selector(self):
        s = AttributeSelector()
        s.requestContextPath, s.dataType = '//x', STRING
        s.mustBePresent = self.yes()
        return s

    def match(self, m, dcls):
        self.set(m, 'matchId', F1 + self.r.choice(
            ['string-equal', 'anyURI-equal', 'string-regexp-match']), .7)
        self.set(m, 'attributeValue', self.value(), .7)
        if m.attributeDesignator is None and m.attributeSelector is None:
            if self.yes():
                self.set(m, 'attributeDesignator', self.designator(dcls))
            else:
                self.set(m, 'attributeSelector', self.selector())
        return m

    def target(self):
        t = Target()
        for n, ecls, mcls, dcls in SECT:
            if self.yes(.4):
                e = ecls()
                if self.yes(.8):
                    e.matches.append(self.match(mcls(), dcls))
                getattr(t, n).append(e)
        return t

    def condition(self):
        c = Condition()
        a = Apply()
        a.functionId = F1 + 'and'
        c.expression = a
        return c

    def attrs(self, o):
        for _ in range(self.r.choice([0, 1, 1, 2])):
            a = Attribute()
            a.attributeId, a.dataType = self.text(), STRING
            self.set(a, 'issuer', self.text())
            for _ in range(self.r.choice([0, 1, 2])):
                a.attributeValues.append(F(STRING)(value=self.text()))
            o.attributes.append(a)
        return o

    def rule(self, o):
        self.set(o, 'description', self.text())
        self.set(o, 'id', self.text())
        self.set(o, 'effect', Effect(self.r.choice(['Permit', 'Deny'])), .8)
        self.set(o, 'target', self.target())
        self.set(o, 'condition', self.condition())
        return o

    def policy(self, o):
        self.set(o, 'policyId', self.text())
        self.set(o, 'version', self.r.choice(['1.0', '2.0', self.text()]))
        self.set(o, 'description', self.text())
        self.set(o, 'target', self.target())
        if self.yes() and o.ruleCombiningAlgId is None and \
                o.ruleCombiningAlg is None:
            o.ruleCombiningAlgId = RA + self.r.choice(ALG)
        if not o.rules:
            for _ in range(self.r.choice([0, 0, 1, 2])):
                o.rules.append(self.rule(Rule()))
        return o

    def policyset(self, o):
        self.set(o, 'policySetId', self.text())
        self.set(o, 'version', self.r.choice(['1.0', '2.0', self.text()]))
        self.set(o, 'description', self.text())
        self.set(o, 'target', self.target())
        if self.yes() and o.policyCombiningAlgId is None and \
                o.policyCombiningAlg is None:
            o.policyCombiningAlgId = PA + self.r.choice(ALG)
        if not o.policies:
            for _ in range(self.r.choice([0, 0, 1])):
                o.policies.append(self.policy(Policy()))
        return o

    def request(self, o):
        for cls, l in ((Subject, o.subjects), (Resource, o.resources)):
            if not l:
                for _ in range(self.r.choice([0, 1, 2])):
                    l.append(self.attrs(cls()))
        self.set(o, 'action', self.attrs(Action()), .7)
        self.set(o, 'environment', self.attrs(Environment()), .7)
        return o


def dress(o, c):
    if c is None:
        return o
    d = _D(c)
    for cls, f in ((Rule, d.rule), (Policy, d.policy),
                   (PolicySet, d.policyset), (Request, d.request)):
        if isinstance(o, cls):
            return f(o)
    for _, _, mcls, dcls in SECT:
        if isinstance(o, mcls):
            return d.match(o, dcls)
    raise TypeError(o)
