"""setup_cmd: the framework is plain Python; check that its parts import and
that its GEM evaluator is faithful: against hand-computed values, and against
gem.interpreter (which shares no code with it) on every node type that one
evaluates and on tables generated by FInAT itself."""
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), ROOT]
import numpy  # noqa: E402
import gem  # noqa: E402
from gem import interpreter  # noqa: E402
from mc.gemeval import evaluate  # noqa: E402

A = numpy.arange(6.0).reshape(2, 3)
i, j = gem.Index(extent=2), gem.Index(extent=3)
L = gem.Literal(A)
assert numpy.allclose(evaluate(gem.Indexed(L, (i, j)), (j, i)), A.T)
assert numpy.allclose(evaluate(gem.IndexSum(gem.Indexed(L, (i, j)), (j,)), (i,)), A.sum(axis=1))
assert numpy.allclose(evaluate(gem.ComponentTensor(gem.Product(gem.Indexed(L, (i, j)), gem.Literal(2.0)), (j,)), (i,)), 2 * A)
assert numpy.allclose(evaluate(gem.Delta(i, 1), (i,)), [0, 1])
Wv = numpy.array([[2.0, 1, 0], [0, 3, 1], [1, 0, 2]])
Wg = gem.Variable("W", (3, 3))
assert numpy.allclose(evaluate(gem.Inverse(Wg), (), {"W": Wv}) @ Wv, numpy.eye(3))
assert numpy.allclose(evaluate(gem.FlexiblyIndexed(Wg, ((1, ((i, 1),)), (0, ((j, 1),)))), (i, j), {"W": Wv}), Wv[1:, :])
assert numpy.allclose(evaluate(gem.MathFunction("sin", gem.Indexed(L, (i, j))), (i, j)), numpy.sin(A))

compared = 0


def conform(e, bindings=None):
    global compared
    [r] = interpreter.evaluate([e], bindings=bindings or {})
    order = tuple(r.fids)
    mine = numpy.asarray(evaluate(e, order, {v.name: a for v, a in (bindings or {}).items()}))
    ref = numpy.asarray(r.arr)
    assert mine.shape == ref.shape, (e, mine.shape, ref.shape)
    assert numpy.allclose(mine, ref, rtol=1e-12, atol=1e-12), e
    compared += 1


V = gem.Variable("V", (2, 3))
W = gem.Variable("W", (3, 3))
bind = {V: A + 0.5, W: numpy.array([[2.0, 1, 0], [0, 3, 1], [1, 0, 2]])}
k = gem.Index(extent=3)
vij, wjk = gem.Indexed(V, (i, j)), gem.Indexed(W, (j, k))
two = gem.Literal(2.0)
terms = [
    vij, gem.Sum(vij, two), gem.Product(vij, wjk), gem.Division(vij, two), gem.Power(vij, two),
    gem.IndexSum(gem.Product(vij, wjk), (j,)), gem.IndexSum(gem.Product(vij, wjk), (j, k)),
    gem.ComponentTensor(gem.Product(vij, wjk), (k, i)),
    gem.Indexed(gem.ComponentTensor(gem.Product(vij, wjk), (k, i)), (1, 0)),
    gem.ListTensor([[vij, two], [two, vij]]),
    gem.Delta(j, k), gem.Delta(i, 1), gem.Zero((2, 2)), gem.Identity(3),
    gem.MathFunction("abs", gem.Product(vij, gem.Literal(-1.0))), gem.MathFunction("log", two),
    gem.MinValue(vij, two), gem.MaxValue(vij, two),
    gem.Conditional(gem.Comparison("<", gem.Literal(1.0), two), gem.Indexed(V, (0, 1)), two),

    gem.Concatenate(gem.Literal(numpy.arange(3.0)), gem.Literal(numpy.arange(2.0))),
]
for t in terms:
    conform(t, bind)

import finat  # noqa: E402
from FIAT.reference_element import ufc_simplex  # noqa: E402
from finat.point_set import PointSet, TensorPointSet  # noqa: E402

I1, T2 = ufc_simplex(1), ufc_simplex(2)
pts2 = PointSet(numpy.array([[0.2, 0.1], [0.3, 0.6], [0.5, 0.25]]))
line = TensorPointSet([PointSet(numpy.array([[0.1], [0.4]])), PointSet(numpy.array([[0.2], [0.9], [0.7]]))])
L1, L2, D0 = finat.Lagrange(I1, 1), finat.Lagrange(I1, 2), finat.DiscontinuousLagrange(I1, 1)
for f, ps in [(finat.Lagrange(T2, 2), pts2), (finat.RaviartThomas(T2, 2), pts2),
              (finat.TensorFiniteElement(finat.Lagrange(T2, 1), (2, 2)), pts2),
              (finat.FlattenedDimensions(finat.TensorProductElement([L2, L1])), line),
              (finat.EnrichedElement([finat.HDivElement(finat.TensorProductElement([L2, D0])),
                                      finat.HDivElement(finat.TensorProductElement([D0, L2]))]), line),
              (finat.MixedElement([finat.Lagrange(T2, 1), finat.DiscontinuousLagrange(T2, 0)]), pts2)]:
    for alpha, t in f.basis_evaluation(1, ps).items():
        beta = f.get_indices()
        conform(gem.Indexed(t, beta + f.get_value_indices()))

os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print(f"ok: evaluator agrees with gem.interpreter on {compared} expressions")
