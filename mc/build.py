"""Construct FInAT objects (the code under test) from specifications."""
import finat
from mc.ref import make_cell


def element(spec):
    op = spec[0]
    if op == "leaf":
        _, family, cname, degree, variant = spec
        kw = {} if variant is None else {"variant": variant}
        args = (make_cell(cname),) if degree is None else (make_cell(cname), degree)
        return getattr(finat, family)(*args, **kw)
    if op == "tp":
        return finat.TensorProductElement([element(s) for s in spec[1]])
    if op == "flat":
        return finat.FlattenedDimensions(element(spec[1]))
    if op == "enriched":
        return finat.EnrichedElement([element(s) for s in spec[1]])
    if op == "mixed":
        return finat.MixedElement([element(s) for s in spec[1]])
    if op == "tfe":
        return finat.TensorFiniteElement(element(spec[1]), tuple(spec[2]), transpose=spec[3])
    if op == "hdiv":
        return finat.HDivElement(element(spec[1]))
    if op == "hcurl":
        return finat.HCurlElement(element(spec[1]))
    if op == "disc":
        return finat.DiscontinuousElement(element(spec[1]))
    if op == "restricted":
        return finat.RestrictedElement(element(spec[1]), spec[2])
    if op == "nodalenriched":
        return finat.NodalEnrichedElement([element(s) for s in spec[1]])
    if op == "zany":
        _, cls, cname, degree, kw = spec
        args = (make_cell(cname),) if degree is None else (make_cell(cname), degree)
        return getattr(finat, cls)(*args, **dict(kw))
    if op == "dser":
        return finat.DirectSerendipity(make_cell("quadrilateral"), spec[1])
    if op == "quad":
        _, cname, degree, scheme = spec
        return finat.make_quadrature_element(make_cell(cname), degree, scheme)
    raise ValueError(op)
