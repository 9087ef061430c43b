"""A vectorised numpy evaluator for GEM expressions.

Written independently of ``gem.interpreter`` (which is element-by-element
and does not evaluate logical nodes correctly).  A value is a pair
``(fids, arr)``: the first ``len(fids)`` axes of ``arr`` belong to the free
indices ``fids`` (in that order), the rest is the tensor shape.
"""
import itertools

import numpy
from gem import gem


class Unsupported(Exception):
    pass


class Unbound(Exception):
    pass


_FUNS = {
    "abs": numpy.abs, "log": numpy.log, "exp": numpy.exp, "sqrt": numpy.sqrt,
    "sin": numpy.sin, "cos": numpy.cos, "tan": numpy.tan,
    "real": numpy.real, "imag": numpy.imag, "conj": numpy.conj,
}

_CMP = {">": numpy.greater, ">=": numpy.greater_equal, "==": numpy.equal,
        "!=": numpy.not_equal, "<": numpy.less, "<=": numpy.less_equal}


def _merge(fidss):
    fids = []
    for fs in fidss:
        for f in fs:
            if not any(f is g for g in fids):
                fids.append(f)
    return tuple(fids)


def _pos(fids, f):
    for k, g in enumerate(fids):
        if g is f:
            return k
    return -1


def _bcast(val, fids):
    """Transpose/expand so that leading axes follow ``fids`` (size 1 if absent)."""
    vf, arr = val
    if len(vf) == len(fids) and all(a is b for a, b in zip(vf, fids)):
        return arr
    perm = [_pos(vf, f) for f in fids if _pos(vf, f) >= 0]
    assert len(perm) == len(vf)
    perm += list(range(len(vf), arr.ndim))
    arr = numpy.transpose(arr, perm)
    shape = list(arr.shape)
    out = []
    k = 0
    for f in fids:
        if _pos(vf, f) >= 0:
            out.append(shape[k])
            k += 1
        else:
            out.append(1)
    return arr.reshape(out + shape[k:])


class Evaluator:
    def __init__(self, bindings=None):
        self.bindings = dict(bindings or {})
        self.memo = {}
        self.keep = []

    def children(self, e):
        if isinstance(e, gem.ListTensor):
            ch = list(e.array.flat)
        else:
            ch = list(e.children)
        if isinstance(e, (gem.Indexed, gem.FlexiblyIndexed)):
            ch += list(e.indirect_children)
        return ch

    def __call__(self, expr):
        stack = [(expr, False)]
        memo = self.memo
        while stack:
            e, ready = stack.pop()
            if id(e) in memo:
                continue
            if isinstance(e, gem.IndexSum) and not ready:
                deps = self._factors(e)
                todo = [c for c in deps if id(c) not in memo]
                stack.append((e, True))
                stack.extend((c, False) for c in todo)
                continue
            ch = self.children(e) if not isinstance(e, gem.IndexSum) else []
            if not ready:
                todo = [c for c in ch if id(c) not in memo]
                if todo:
                    stack.append((e, True))
                    stack.extend((c, False) for c in todo)
                    continue
            memo[id(e)] = self._eval(e)
            self.keep.append(e)
        return memo[id(expr)]

    @staticmethod
    def _factors(e):
        """Leaves of the multiplicative tree below an IndexSum (no nested sums)."""
        out = []
        stack = [e.children[0]]
        while stack:
            n = stack.pop()
            if isinstance(n, gem.Product):
                stack.extend(n.children)
            else:
                out.append(n)
        return out

    def _v(self, e):
        return self.memo[id(e)]

    def _eval(self, e):
        t = type(e)
        if t is gem.Zero:
            return (), numpy.zeros(e.shape)
        if t is gem.Failure:
            return (), numpy.full(e.shape, numpy.nan)
        if t is gem.Delta:
            i, j = e.i, e.j
            arr = numpy.equal.outer(numpy.arange(i.extent), numpy.arange(j.extent)).astype(float)
            return (i, j), arr
        if isinstance(e, gem.Constant):
            return (), numpy.asarray(e.array)
        if t is gem.Variable:
            if e.name not in self.bindings:
                raise Unbound(e.name)
            value = self.bindings[e.name]
            if isinstance(value, tuple):
                # (batch index, array): one extra leading axis for the batch
                b, arr = value
                if tuple(arr.shape[1:]) != tuple(e.shape):
                    raise ValueError("binding for %s has shape %s, variable has %s"
                                     % (e.name, arr.shape[1:], e.shape))
                return (b,), numpy.asarray(arr)
            arr = numpy.asarray(value)
            if tuple(arr.shape) != tuple(e.shape):
                raise ValueError("binding for %s has shape %s, variable has %s"
                                 % (e.name, arr.shape, e.shape))
            return (), arr
        if t in (gem.Sum, gem.Product, gem.Division, gem.Power, gem.MinValue,
                 gem.MaxValue, gem.Comparison, gem.LogicalAnd, gem.LogicalOr,
                 gem.FloorDiv, gem.Remainder):
            a, b = (self._v(c) for c in e.children)
            fids = _merge([a[0], b[0]])
            x, y = _bcast(a, fids), _bcast(b, fids)
            if t is gem.Sum:
                return fids, x + y
            if t is gem.Product:
                return fids, x * y
            if t is gem.Division:
                with numpy.errstate(all="ignore"):
                    return fids, numpy.true_divide(x, y)
            if t is gem.Power:
                with numpy.errstate(all="ignore"):
                    x = numpy.asarray(x)
                    if not numpy.iscomplexobj(x):
                        x = x.astype(float)
                    return fids, numpy.power(x, y)
            if t is gem.MinValue:
                return fids, numpy.minimum(x, y)
            if t is gem.MaxValue:
                return fids, numpy.maximum(x, y)
            if t is gem.Comparison:
                return fids, _CMP[e.operator](x, y)
            if t is gem.LogicalAnd:
                return fids, numpy.logical_and(x, y)
            if t is gem.LogicalOr:
                return fids, numpy.logical_or(x, y)
            if t is gem.FloorDiv:
                return fids, numpy.floor_divide(x, y)
            return fids, numpy.remainder(x, y)
        if t is gem.LogicalNot:
            f, a = self._v(e.children[0])
            return f, numpy.logical_not(a)
        if t is gem.MathFunction:
            f, a = self._v(e.children[0])
            if e.name not in _FUNS:
                raise Unsupported("MathFunction " + e.name)
            with numpy.errstate(all="ignore"):
                return f, _FUNS[e.name](a)
        if t is gem.Conditional:
            c, a, b = (self._v(x) for x in e.children)
            fids = _merge([c[0], a[0], b[0]])
            return fids, numpy.where(_bcast(c, fids), _bcast(a, fids), _bcast(b, fids))
        if t is gem.Indexed:
            return self._indexed(e)
        if t is gem.FlexiblyIndexed:
            return self._flex(e)
        if t is gem.ComponentTensor:
            f, a = self._v(e.children[0])
            keep = tuple(g for g in f if _pos(e.multiindex, g) < 0)
            perm = [_pos(f, g) for g in keep]
            # indices bound here but absent from the value (constant along them)
            for i in e.multiindex:
                p = _pos(f, i)
                if p < 0:
                    raise ValueError("ComponentTensor binds an index that is not free")
                perm.append(p)
            perm += list(range(len(f), a.ndim))
            return keep, numpy.transpose(a, perm)
        if t is gem.IndexSum:
            return self._indexsum(e)
        if t is gem.ListTensor:
            vals = [self._v(c) for c in e.array.flat]
            fids = _merge([v[0] for v in vals])
            fshape = tuple(f.extent for f in fids)
            arrs = [numpy.broadcast_to(_bcast(v, fids), fshape) for v in vals]
            out = numpy.stack(arrs, axis=-1)
            return fids, out.reshape(fshape + e.array.shape)
        if t is gem.Concatenate:
            vals = [self._v(c) for c in e.children]
            fids = _merge([v[0] for v in vals])
            fshape = tuple(f.extent for f in fids)
            arrs = []
            for v, c in zip(vals, e.children):
                a = numpy.broadcast_to(_bcast(v, fids), fshape + c.shape)
                arrs.append(a.reshape(fshape + (-1,)))
            return fids, numpy.concatenate(arrs, axis=-1)
        if t is gem.Inverse:
            f, a = self._v(e.children[0])
            return f, numpy.linalg.inv(a)
        if t is gem.Solve:
            a, b = (self._v(c) for c in e.children)
            fids = _merge([a[0], b[0]])
            x, y = _bcast(a, fids), _bcast(b, fids)
            n = len(fids)
            vec = (y.ndim - n) == 1
            yy = y[..., None] if vec else y.reshape(y.shape[:n + 1] + (-1,))
            lead = numpy.broadcast_shapes(x.shape[:n], y.shape[:n])
            x = numpy.broadcast_to(x, lead + x.shape[n:])
            yy = numpy.broadcast_to(yy, lead + yy.shape[n:])
            s = numpy.linalg.solve(x, yy)
            return fids, s[..., 0] if vec else s.reshape(lead + y.shape[n:])
        raise Unsupported(str(t))

    def _indexed(self, e):
        f, a = self._v(e.children[0])
        n = len(f)
        if any(isinstance(i, gem.VariableIndex) for i in e.multiindex):
            # resolve every axis through advanced indexing
            idxvals = []
            for i in e.multiindex:
                if isinstance(i, gem.VariableIndex):
                    idxvals.append(self._v(i.expression))
                elif isinstance(i, gem.Index):
                    idxvals.append(((i,), numpy.arange(i.extent)))
                else:
                    idxvals.append(((), numpy.asarray(int(i))))
            fids = _merge([f] + [v[0] for v in idxvals])
            sel = []
            for k, g in enumerate(f):
                sel.append(_bcast(((g,), numpy.arange(a.shape[k])), fids))
            for v in idxvals:
                sel.append(_bcast((v[0], numpy.asarray(v[1]).astype(int)), fids))
            return fids, a[tuple(sel)]
        idx = [slice(None)] * n
        newf = list(f)
        for i in e.multiindex:
            if isinstance(i, gem.Index):
                idx.append(slice(None))
                newf.append(i)
            else:
                idx.append(int(i))
        a = a[tuple(idx)]
        # repeated indices (A[i, i]) -> diagonal
        while True:
            dup = None
            for p, q in itertools.combinations(range(len(newf)), 2):
                if newf[p] is newf[q]:
                    dup = (p, q)
                    break
            if dup is None:
                break
            p, q = dup
            if a.shape[p] == 1 and a.shape[q] != 1:
                a = numpy.repeat(a, a.shape[q], axis=p)
            elif a.shape[q] == 1 and a.shape[p] != 1:
                a = numpy.repeat(a, a.shape[p], axis=q)
            a = numpy.moveaxis(numpy.diagonal(a, axis1=p, axis2=q), -1, p)
            del newf[q]
        return tuple(newf), a

    def _flex(self, e):
        f, a = self._v(e.children[0])
        assert not f
        sel, fl = [], []
        for offset, idxs in e.dim2idxs:
            if isinstance(offset, gem.Node):
                off = self._v(offset)
            else:
                off = ((), numpy.asarray(int(offset)))
            terms = [off]
            for index, stride in idxs:
                if isinstance(index, gem.VariableIndex):
                    iv = self._v(index.expression)
                else:
                    iv = ((index,), numpy.arange(index.extent))
                st = self._v(stride) if isinstance(stride, gem.Node) else ((), numpy.asarray(stride))
                fi = _merge([iv[0], st[0]])
                terms.append((fi, _bcast(iv, fi) * _bcast(st, fi)))
            fi = _merge([t[0] for t in terms])
            tot = 0
            for t in terms:
                tot = tot + _bcast(t, fi)
            sel.append((fi, tot))
            fl.append(fi)
        fids = _merge(fl)
        return fids, a[tuple(_bcast(s, fids).astype(int) for s in sel)]

    def _indexsum(self, e):
        vals = [self._v(c) for c in self._factors(e)]
        fids = _merge([v[0] for v in vals])
        num = {id(f): k for k, f in enumerate(fids)}
        out = [f for f in fids if _pos(e.multiindex, f) < 0]
        ext = {}
        for f, a in vals:
            for g, n in zip(f, a.shape):
                ext[id(g)] = max(ext.get(id(g), 1), n)
        factor = 1
        for i in e.multiindex:
            if id(i) not in num:
                factor *= i.extent
            elif ext[id(i)] == 1 and i.extent != 1:
                factor *= i.extent
        ops = []
        for f, a in vals:
            # squeeze size-one broadcast axes
            keepax = [k for k in range(len(f)) if not (a.shape[k] == 1 and ext[id(f[k])] != 1)]
            a2 = a.reshape([a.shape[k] for k in keepax])
            ops += [numpy.asarray(a2, dtype=None if a2.dtype == object else None), [num[id(f[k])] for k in keepax]]
        res = numpy.einsum(*ops, [num[id(f)] for f in out], optimize=len(vals) > 2)
        return tuple(out), factor * res


def evaluate(expr, indices=(), bindings=None):
    """Evaluate ``expr``; returned axes: ``indices`` (broadcast to their
    extents) followed by the shape of ``expr``.

    Raises ``ValueError`` if ``expr`` has free indices outside ``indices``.
    """
    return evaluate_many([expr], indices, bindings)[0]


def evaluate_many(exprs, indices=(), bindings=None):
    ev = Evaluator(bindings)
    out = []
    indices = tuple(indices)
    for e in exprs:
        for f in e.free_indices:
            if _pos(indices, f) < 0:
                raise ValueError("unexpected free index %r in result" % (f,))
        v = ev(e)
        for f in v[0]:
            if _pos(indices, f) < 0:
                raise ValueError("unexpected free index %r in value" % (f,))
        a = _bcast(v, indices)
        shape = tuple(i.extent for i in indices) + tuple(e.shape)
        out.append(numpy.array(numpy.broadcast_to(a, shape)))
    return out
