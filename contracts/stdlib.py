"""What functions and classes of the standard library that are written in C
do, as Python the verifier can follow (assumed: as their documentation
says)."""
import collections
import contextlib
import functools
import itertools
import operator


class partial(object):
    def __init__(self, func, *args, **kw):
        self.func = func
        self.args = args
        self.keywords = kw

    def __call__(self, *args, **kw):
        d = dict(self.keywords)
        d.update(kw)
        return self.func(*(self.args + args), **d)


def reduce(function, iterable, *initial):
    it = iter(iterable)
    if len(initial) == 0:
        try:
            value = next(it)
        except StopIteration:
            raise TypeError()
    else:
        value = initial[0]
    for x in it:
        value = function(value, x)
    return value


class attrgetter(object):
    def __init__(self, name, *names):
        self.names = (name,) + names

    def __call__(self, o):
        if len(self.names) == 1:
            return attribute(o, self.names[0])
        return tuple([attribute(o, n) for n in self.names])


def attribute(o, name):
    for part in name.split('.'):
        o = getattr(o, part)
    return o


class itemgetter(object):
    def __init__(self, item, *items):
        self.items = (item,) + items

    def __call__(self, o):
        if len(self.items) == 1:
            return o[self.items[0]]
        return tuple([o[i] for i in self.items])


class methodcaller(object):
    def __init__(self, name, *args, **kw):
        self.name = name
        self.args = args
        self.keywords = kw

    def __call__(self, o):
        return getattr(o, self.name)(*self.args, **self.keywords)


def chain(*iterables):
    for it in iterables:
        for x in it:
            yield x


def from_iterable(iterables):
    for it in iterables:
        for x in it:
            yield x


def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            return
        yield x


def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x


def starmap(function, iterable):
    for args in iterable:
        yield function(*args)


class suppress(object):
    def __init__(self, *exceptions):
        self.exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, kind, value, trace):
        return kind is not None and issubclass(kind, self.exceptions)


class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, kind, value, trace):
        return None


class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kw):
        super().__init__(*args, **kw)
        self.default_factory = default_factory

    def __getitem__(self, key):
        if key not in self:
            if self.default_factory is None:
                raise KeyError(key)
            self[key] = self.default_factory()
        return super().__getitem__(key)


class OrderedDict(dict):
    pass


class deque(list):
    def appendleft(self, x):
        self.insert(0, x)

    def popleft(self):
        return self.pop(0)


def count(l, x):
    n = 0
    for i in l:
        if i is x or i == x:
            n += 1
    return n


def index(l, x):
    for n, i in enumerate(l):
        if i is x or i == x:
            return n
    raise ValueError()


SUBST = [(functools.partial, partial), (functools.reduce, reduce),
         (operator.attrgetter, attrgetter), (operator.itemgetter, itemgetter),
         (operator.methodcaller, methodcaller), (itertools.chain, chain),
         (itertools.takewhile, takewhile),
         (itertools.filterfalse, filterfalse), (itertools.starmap, starmap),
         (contextlib.suppress, suppress),
         (contextlib.nullcontext, nullcontext),
         (collections.defaultdict, defaultdict),
         (collections.OrderedDict, OrderedDict), (collections.deque, deque)]


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def not_(a):
    return not a


def truth(a):
    return bool(a)


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def and_(a, b):
    return a & b


def or_(a, b):
    return a | b


SUBST += [(getattr(operator, f.__name__), f) for f in (
    eq, ne, lt, le, gt, ge, not_, truth, is_, is_not, contains, getitem, add,
    sub, mul, and_, or_)]
