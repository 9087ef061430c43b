"""Comparison of the tables returned by the code with a reference model."""
import numpy

from mc import ref
from mc.gemeval import evaluate
from mc.points import shaped, flat_points, index_extents


def check_tables(ctx, case, el, spec_shapes, result, expected, order, dim, ps,
                 rtol=1e-9, atol=1e-9, bindings=None):
    """``result``: {alpha: gem}; ``expected``: {alpha: array[idx + val + (P,)]}."""
    index_shape, value_shape = spec_shapes
    keys = {a for k in range(order + 1) for a in ref.mis(dim, k)}
    ctx.equal(set(map(tuple, result)) & keys, keys, case, "derivative multi-indices present")
    extra = [a for a in result if tuple(a) not in keys]
    ctx.equal(extra, [], case, "derivative multi-indices beyond the requested order")
    allowed = set(map(id, ps.indices))
    for alpha in sorted(keys):
        if alpha not in result:
            continue
        g = result[alpha]
        want = expected[alpha]
        ctx.step()
        if not ctx.equal(tuple(g.shape), tuple(index_shape) + tuple(value_shape), case, "shape of table %s" % (alpha,)):
            continue
        if not ctx.expect(all(id(f) in allowed for f in g.free_indices), case,
                          "table %s has free indices outside the point set" % (alpha,)):
            continue
        got = evaluate(g, ps.indices, bindings)
        w = shaped(want, len(index_shape), ps)
        if numpy.isnan(w).any():
            ctx.expect(bool(numpy.isnan(got).any() == numpy.isnan(w).any()), case, "undefined table %s" % (alpha,))
            continue
        ctx.close(got, w, case, "table %s" % (alpha,), rtol=rtol, atol=atol)
        ctx.outcome((got.shape, numpy.round(got, 6).tobytes()))
