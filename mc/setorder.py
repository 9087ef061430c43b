"""The iteration order of unordered collections under control of the explorer.

The modules of the code under test are compiled, from their current source,
so that every set they create or iterate over is a collection whose iteration
order the explorer decides.  The order is a legitimate one: Python promises
none.  Each iteration over a set of two or more members is a choice point; a
schedule maps choice points (by source line, or one by one) to permutations.
"""
import ast
import importlib.machinery
import itertools
import sys

PREFIX = "finat"


class Chooser:
    """Decides, and records, the order of every iteration."""

    def __init__(self):
        self.reset()

    def reset(self, site=None, point=None, k=0):
        """Permutation number ``k`` at one source line (all its iterations) or
        at one single iteration; insertion order everywhere else."""
        self.site, self.point, self.k = site, point, k
        self.trace = []
        self.everywhere = False

    def order(self, items):
        n = len(items)
        if n < 2:
            return items
        f = sys._getframe(1)
        while f is not None and not f.f_globals.get("__name__", "").startswith(PREFIX):
            f = f.f_back
        site = (f.f_globals["__name__"], f.f_code.co_name, f.f_lineno) if f is not None else ("?", "?", 0)
        here = len(self.trace)
        self.trace.append((site, n))
        if self.everywhere or site == self.site or here == self.point:
            p = permutations(n)
            return [items[j] for j in p[self.k % len(p)]]
        return items


chooser = Chooser()
_perms = {}


def permutations(n):
    """All non-trivial orders of up to four members; of more: the reversal,
    every adjacent transposition and every rotation."""
    if n not in _perms:
        if n <= 4:
            ps = list(itertools.permutations(range(n)))
            ps = ps[::-1][:-1]
        else:
            base = list(range(n))
            ps = [tuple(base[::-1])]
            for j in range(n - 1):
                q = list(base)
                q[j], q[j + 1] = q[j + 1], q[j]
                ps.append(tuple(q))
            ps += [tuple(base[j:] + base[:j]) for j in range(1, n)]
        _perms[n] = list(dict.fromkeys(ps))
    return _perms[n]


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.builtin)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.builtin)


def _source(it):
    """(sequence of an argument without making it a choice of the caller)"""
    if isinstance(it, (_set, _frozenset)):
        seq = getattr(it, "_seq", None)
        return list(seq) if seq is not None else sorted_if_possible(it)
    return list(it)


class _Ops:
    __slots__ = ()

    def __iter__(self):
        return iter(chooser.order(list(self._seq)))

    def _new(self, seq):
        out = type(self)()
        out._fill(seq)
        return out

    def _make(self, seq):
        # (called through the class, ``set.union(a, b)``, with a plain set)
        if not isinstance(type(self), _Meta):
            return (CtlFrozen if isinstance(self, _frozenset) else CtlSet)(seq)
        return self._new(seq)

    def union(self, *others):
        return _Ops._make(self, itertools.chain(_source(self), *map(_source, others)))

    def intersection(self, *others):
        o = [set(_source(x)) for x in others]
        return _Ops._make(self, [x for x in _source(self) if all(x in y for y in o)])

    def difference(self, *others):
        o = [set(_source(x)) for x in others]
        return _Ops._make(self, [x for x in _source(self) if not any(x in y for y in o)])

    def symmetric_difference(self, other):
        other = _source(other)
        mine = set(_source(self))
        return _Ops._make(self, [x for x in _source(self) if x not in set(other)] + [x for x in other if x not in mine])

    def copy(self):
        return self._new(self._seq)

    def _bin(name):
        def f(self, other):
            if not isinstance(other, (set, frozenset, type({}.keys()), type({}.items()))):
                return NotImplemented
            return getattr(self, name)(other)
        return f

    def _rbin(name):
        def f(self, other):
            if not isinstance(other, (set, frozenset, type({}.keys()), type({}.items()))):
                return NotImplemented
            return getattr(self._new(_source(other)), name)(self)
        return f

    __or__, __and__, __sub__, __xor__ = _bin("union"), _bin("intersection"), _bin("difference"), _bin("symmetric_difference")
    __ror__, __rand__, __rsub__, __rxor__ = _rbin("union"), _rbin("intersection"), _rbin("difference"), _rbin("symmetric_difference")
    del _bin, _rbin


_set, _frozenset = set, frozenset


class CtlSet(_Ops, set, metaclass=_Meta):
    builtin = _set
    __slots__ = ("_seq",)
    __hash__ = None

    def __init__(self, it=()):
        _set.__init__(self)
        self._seq = {}
        self._fill(_source(it))

    def _fill(self, seq):
        for x in seq:
            self.add(x)

    def add(self, x):
        _set.add(self, x)
        self._seq.setdefault(x)

    def discard(self, x):
        _set.discard(self, x)
        self._seq.pop(x, None)

    def remove(self, x):
        _set.remove(self, x)
        self._seq.pop(x, None)

    def clear(self):
        _set.clear(self)
        self._seq.clear()

    def pop(self):
        if not self._seq:
            raise KeyError("pop from an empty set")
        x = chooser.order(list(self._seq))[0]
        self.remove(x)
        return x

    def update(self, *others):
        for o in others:
            self._fill(_source(o))

    def difference_update(self, *others):
        for o in others:
            for x in _source(o):
                self.discard(x)

    def intersection_update(self, *others):
        keep = self.intersection(*others)
        for x in list(self._seq):
            if x not in keep._seq:
                self.discard(x)

    def symmetric_difference_update(self, other):
        for x in _source(other):
            self.discard(x) if x in self._seq else self.add(x)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __reduce__(self):
        return (_set, (list(self._seq),))


class CtlFrozen(_Ops, frozenset, metaclass=_Meta):
    builtin = _frozenset
    # (no __slots__: frozenset is immutable, the order is kept beside it)

    def __new__(cls, it=()):
        seq = dict.fromkeys(_source(it))
        self = _frozenset.__new__(cls, seq)
        self._seq = seq
        return self

    def _new(self, seq):
        return type(self)(seq)

    def __reduce__(self):
        return (_frozenset, (list(self._seq),))


def wrap(x):
    """Anything the code handles: sets come under control."""
    t = type(x)
    if t is _set:
        return CtlSet(sorted_if_possible(x))
    if t is _frozenset:
        return CtlFrozen(sorted_if_possible(x))
    return x


def sorted_if_possible(x):
    """A reproducible order of the members of an uncontrolled set."""
    try:
        return sorted(x)
    except Exception:
        try:
            return sorted(x, key=repr)
        except Exception:
            return list(x)


class Transform(ast.NodeTransformer):
    def _call(self, name, arg):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), arg), [arg], []), arg)

    def visit_Set(self, n):
        self.generic_visit(n)
        return self._call("__mc_set__", ast.copy_location(ast.List(n.elts, ast.Load()), n))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self._call("__mc_set__", ast.copy_location(ast.ListComp(n.elt, n.generators), n))

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self._call("__mc_wrap__", n)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self._call("__mc_wrap__", n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self._call("__mc_wrap__", n.iter)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        n.args = [ast.copy_location(ast.Starred(self._call("__mc_wrap__", a.value), a.ctx), a) if isinstance(a, ast.Starred)
                  else self._call("__mc_wrap__", a) for a in n.args]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in n.targets):
            n.value = self._call("__mc_wrap__", n.value)
        return n


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = Transform().visit(ast.parse(self.get_data(path), path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        g = module.__dict__
        g["set"], g["frozenset"] = CtlSet, CtlFrozen
        g["__mc_set__"], g["__mc_wrap__"] = CtlSet, wrap
        super().exec_module(module)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != PREFIX and not name.startswith(PREFIX + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if PREFIX in sys.modules:
        raise RuntimeError("%s was imported before its sets came under control" % PREFIX)
    sys.meta_path.insert(0, Finder)
