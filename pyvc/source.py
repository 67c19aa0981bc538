"""Mechanical extraction of the real function bodies from /repo."""
import ast
import functools
import inspect
import os

REPO = os.environ.get('PYVC_REPO', '/repo')


class FnInfo(object):
    __slots__ = ('node', 'kls', 'file')

    def __init__(self, node, kls, file):
        self.node, self.kls, self.file = node, kls, file


class Desugar(ast.NodeTransformer):
    """match statements as the if statements they mean (a sequence or mapping
    pattern, or one of a class with parts, is left as it is)"""
    n = 0

    def visit_Match(self, node):
        self.generic_visit(node)
        Desugar.n += 1
        tmp = 'match %d' % Desugar.n

        def it():
            return ast.Name(tmp, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(it(), [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(it(), [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(ast.Or(), [test(x) for x in p.patterns])
            if isinstance(p, ast.MatchClass) and not (p.patterns or
                                                      p.kwd_patterns):
                return ast.Call(ast.Name('isinstance', ast.Load()),
                                [it(), p.cls], [])
            if isinstance(p, ast.MatchClass) and isinstance(
                    p.cls, ast.Name) and p.cls.id in (
                        'str', 'int', 'bool', 'float') and len(
                            p.patterns) == 1 and not p.kwd_patterns:
                return ast.BoolOp(ast.And(), [
                    test(ast.MatchClass(p.cls, [], [], [])),
                    test(p.patterns[0])])
            if isinstance(p, ast.MatchAs):
                l = [] if p.pattern is None else [test(p.pattern)]
                if p.name is not None:
                    l.append(ast.List([ast.NamedExpr(ast.Name(
                        p.name, ast.Store()), it())], ast.Load()))
                return ast.BoolOp(ast.And(), l) if len(l) > 1 else \
                    l[0] if l else ast.Constant(True)
            raise LookupError()
        rest = []
        try:
            for c in reversed(node.cases):
                t = test(c.pattern)
                if c.guard is not None:
                    t = ast.BoolOp(ast.And(), [t, c.guard])
                rest = [ast.If(t, c.body, rest)]
        except LookupError:
            return node
        out = [ast.Assign([ast.Name(tmp, ast.Store())], node.subject)] + rest
        return [ast.copy_location(x, node) for x in out]


@functools.lru_cache(maxsize=None)
def module_index(path):
    """line -> [FnInfo] of every def and lambda in the file."""
    with open(path, encoding='utf-8') as f:
        tree = ast.fix_missing_locations(
            Desugar().visit(ast.parse(f.read(), path)))
    idx = {}

    def walk(node, kls):
        for ch in ast.iter_child_nodes(node):
            k = kls
            if isinstance(ch, ast.ClassDef):
                k = ch.name
            if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                line = ch.lineno
                if getattr(ch, 'decorator_list', None):
                    line = min([line] + [d.lineno for d in ch.decorator_list])
                idx.setdefault(line, []).append(FnInfo(ch, kls, path))
            walk(ch, k)
    walk(tree, None)
    return idx


def fn_info(f):
    """FnInfo of a live function object, or None when it has no source."""
    code = getattr(f, '__code__', None)
    if code is None:
        return None
    path = code.co_filename
    if path == '<frozen _collections_abc>':
        path = os.path.join(os.path.dirname(os.__file__),
                            '_collections_abc.py')
    if not os.path.exists(path):
        return None
    idx = module_index(path)
    names = code.co_varnames[:code.co_argcount]
    cands = []
    for i in idx.get(code.co_firstlineno, ()):
        n = i.node
        nm = '<lambda>' if isinstance(n, ast.Lambda) else n.name
        if nm != code.co_name:
            continue
        if tuple(a.arg for a in n.args.posonlyargs + n.args.args) != names:
            # mangled parameter names do not occur in this code base
            continue
        cands.append(i)
    return cands[0] if cands else None


def in_repo(f):
    code = getattr(f, '__code__', None)
    return code is not None and os.path.realpath(code.co_filename).startswith(
        os.path.realpath(REPO) + os.sep)


def mangle(kls, name):
    if kls and name.startswith('__') and not name.endswith('__'):
        return '_' + kls.lstrip('_') + name
    return name


def lookup(cls, name):
    for k in cls.__mro__:
        if name in k.__dict__:
            return k.__dict__[name], k
    return None, None


@functools.lru_cache(maxsize=None)
def field_alias(cls):
    """raw slot/attribute name -> public property name, derived from the
    property getters of cls (a getter returning exactly one own field)."""
    out = {}
    for k in cls.__mro__:
        for pname, prop in k.__dict__.items():
            if not isinstance(prop, property) or prop.fget is None:
                continue
            info = fn_info(prop.fget)
            if info is None:
                continue
            body = info.node.body
            rets = []
            nodes = ([ast.Return(value=body)]
                     if isinstance(info.node, ast.Lambda) else
                     [n for s in body for n in ast.walk(s)])
            for n in nodes:
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Attribute) and isinstance(
                            v.value, ast.Name):
                        rets.append(mangle(info.kls, v.attr))
                    else:
                        rets.append(None)
            rs = set(rets)
            if len(rs) == 1 and None not in rs:
                out.setdefault(rs.pop(), pname)
    return out


def live_subclasses(cls):
    out, todo = [], [cls]
    while todo:
        for s in type.__subclasses__(todo.pop()):
            if s not in out:
                out.append(s)
                todo.append(s)
    return out


def in_repo_class(cls):
    import sys
    m = sys.modules.get(cls.__module__)
    f = getattr(m, '__file__', None)
    return f is not None and os.path.realpath(f).startswith(
        os.path.realpath(REPO) + os.sep)
