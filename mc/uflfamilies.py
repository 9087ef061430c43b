"""The registered element families, written down independently of the code.

family: (other names, value rank, Sobolev space, pullback, (lowest, highest) degree,
         cells, FInAT class or None, degree of the smallest complete space
         containing the implemented one as a function of (degree, dimension))
"""
I, T, K, P4 = "interval", "triangle", "tetrahedron", "pentatope"
Q, H, T4 = "quadrilateral", "hexahedron", "tesseract"
SIMPLICES, CUBES = (I, T, K, P4), (I, Q, H, T4)
SOLID, SOLIDC = (T, K, P4), (Q, H)
ANY = ("vertex",) + SIMPLICES + CUBES[1:] + ("prism", "pyramid")
ID, CO, CONTRA = "identity", "covariant Piola", "contravariant Piola"
DCO, DCONTRA, MIXED = "double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"
L2P = "L2 Piola"


def same(k, d):
    return k


def kmv(k, d):
    return {2: (0, 1, 3, 4, 5, 7, 8), 3: (0, 1, 4, 5)}[d][k]


FAMILIES = {
    "Lagrange": (("CG", "P"), 0, "H1", ID, (1, None), ANY, "Lagrange", same),
    "Discontinuous Lagrange": (("DG", "DP"), 0, "L2", ID, (0, None), ANY, "DiscontinuousLagrange", same),
    "Discontinuous Lagrange L2": (("DG L2", "DP L2"), 0, "L2", L2P, (0, None), ANY, None, same),
    "Brezzi-Douglas-Marini": (("BDM", "BDMF", "N2F", "N2div", "Nedelec 2nd kind H(div)"), 1, "HDiv", CONTRA, (1, None), SOLID, "BrezziDouglasMarini", same),
    "Discontinuous Taylor": (("TDG",), 0, "L2", ID, (0, None), SIMPLICES, "DiscontinuousTaylor", same),
    "Nedelec 1st kind H(curl)": (("N1curl", "RTE", "N1E"), 1, "HCurl", CO, (1, None), SOLID, "Nedelec", same),
    "Nedelec 2nd kind H(curl)": (("N2curl", "BDME", "N2E"), 1, "HCurl", CO, (1, None), SOLID, "NedelecSecondKind", same),
    "Raviart-Thomas": (("RT", "RTF", "N1F", "N1div", "Nedelec 1st kind H(div)"), 1, "HDiv", CONTRA, (1, None), SOLID, "RaviartThomas", same),
    "Brezzi-Douglas-Fortin-Marini": (("BDFM",), 1, "HDiv", CONTRA, (1, None), SOLID, "BrezziDouglasFortinMarini", same),
    "Crouzeix-Raviart": (("CR",), 0, "L2", ID, (1, 1), SOLID, "CrouzeixRaviart", same),
    "Discontinuous Raviart-Thomas": (("DRT",), 1, "L2", CONTRA, (1, None), SOLID, None, same),
    "Kong-Mulder-Veldhuizen": (("KMV",), 0, "H1", ID, (1, None), SOLID, "KongMulderVeldhuizen", kmv),
    "Regge": ((), 2, "HEin", DCO, (0, None), SIMPLICES, "Regge", same),
    "Hellan-Herrmann-Johnson": (("HHJ",), 2, "HDivDiv", DCONTRA, (0, None), (T, K), "HellanHerrmannJohnson", same),
    "Gopalakrishnan-Lederer-Schoberl 1st kind": (("GLS",), 2, "HCurlDiv", MIXED, (1, None), SOLID, "GopalakrishnanLedererSchoberlFirstKind", same),
    "Gopalakrishnan-Lederer-Schoberl 2nd kind": (("GLS2",), 2, "HCurlDiv", MIXED, (0, None), SOLID, "GopalakrishnanLedererSchoberlSecondKind", same),
    "Nonconforming Arnold-Winther": (("AWnc",), 2, "HDiv", DCONTRA, (2, 2), (T,), "ArnoldWintherNC", same),
    "Conforming Arnold-Winther": (("AWc",), 2, "HDiv", DCONTRA, (3, None), (T,), "ArnoldWinther", same),
    "Hu-Zhang": (("HZ",), 2, "HDiv", DCONTRA, (3, None), (T,), "HuZhang", same),
    "Bernardi-Raugel": (("BR",), 1, "H1", CONTRA, (1, None), SOLID, "BernardiRaugel", lambda k, d: max(k, d)),
    "Bernardi-Raugel Bubble": (("BRB",), 1, "H1", CONTRA, (None, None), SOLID, "BernardiRaugelBubble", lambda k, d: max(k, d)),
    "Mardal-Tai-Winther": (("MTW",), 1, "H1", CONTRA, (3, 3), (T,), "MardalTaiWinther", same),
    "Hermite": (("HER",), 0, "H1", "custom", (3, 3), SIMPLICES, "Hermite", same),
    "Argyris": (("ARG",), 0, "H2", "custom", (5, None), (T,), "Argyris", same),
    "Bell": (("BELL",), 0, "H2", "custom", (5, 5), (T,), "Bell", same),
    "Morley": (("MOR",), 0, "H2", "custom", (2, 2), (T,), "Morley", same),
    "QuadraticPowellSabin6": (("PS6",), 0, "H2", "custom", (2, 2), (T,), "QuadraticPowellSabin6", same),
    "QuadraticPowellSabin12": (("PS12",), 0, "H2", "custom", (2, 2), (T,), "QuadraticPowellSabin12", same),
    "Hsieh-Clough-Tocher": (("HCT",), 0, "H2", "custom", (3, None), (T,), "HsiehCloughTocher", same),
    "Reduced-Hsieh-Clough-Tocher": (("HCT-red",), 0, "H2", "custom", (3, 3), (T,), "ReducedHsiehCloughTocher", same),
    "Johnson-Mercier": (("JM",), 2, "HDiv", DCONTRA, (1, 1), SOLID, "JohnsonMercier", same),
    "Arnold-Qin": (("AQ",), 1, "H1", ID, (2, 2), (T,), "ArnoldQin", same),
    "Reduced-Arnold-Qin": (("AQ-red",), 1, "H1", CONTRA, (2, 2), (T,), "ReducedArnoldQin", same),
    "Christiansen-Hu": (("CH",), 1, "H1", CONTRA, (1, 1), SOLID, "ChristiansenHu", same),
    "Alfeld-Sorokina": (("AS",), 1, "H1", CONTRA, (2, 2), SOLID, "AlfeldSorokina", same),
    "Guzman-Neilan 1st kind H1": (("GN",), 1, "H1", CONTRA, (1, None), SOLID, "GuzmanNeilanFirstKindH1", lambda k, d: max(k, d)),
    "Guzman-Neilan 2nd kind H1": (("GN2",), 1, "H1", CONTRA, (1, None), SOLID, "GuzmanNeilanSecondKindH1", lambda k, d: max(k, d)),
    "Guzman-Neilan H1(div)": (("GNH1div",), 1, "H1", CONTRA, (2, None), SOLID, "GuzmanNeilanH1div", lambda k, d: max(k, d)),
    "Guzman-Neilan Bubble": (("GNB",), 1, "H1", CONTRA, (None, None), SOLID, "GuzmanNeilanBubble", lambda k, d: max(k, d)),
    "Boundary Quadrature": (("BQ",), 0, "L2", ID, (0, None), ANY, None, same),
    "Bubble": (("B",), 0, "H1", ID, (2, None), SIMPLICES, "Bubble", same),
    "FacetBubble": (("FB",), 0, "H1", ID, (2, None), SIMPLICES, "FacetBubble", same),
    "Quadrature": ((), 0, "L2", ID, (0, None), ANY, None, same),
    "Real": (("R",), 0, "HInf", ID, (0, 0), ANY, "Real", same),
    "Undefined": (("U",), 0, "L2", ID, (0, None), ANY, None, same),
    "Radau": (("Rad",), 0, "L2", ID, (0, None), (I,), None, same),
    "HDiv Trace": (("HDivT", "DGT", "Discontinuous Lagrange Trace"), 0, "L2", ID, (0, None), ANY, None, same),
    "Gauss-Legendre": (("GL",), 0, "L2", ID, (0, None), (I,), "GaussLegendre", same),
    "Gauss-Lobatto-Legendre": (("GLL", "Lobatto", "Lob"), 0, "H1", ID, (1, None), (I,), "GaussLobattoLegendre", same),
    "Bernstein": ((), 0, "H1", ID, (1, None), SIMPLICES, "Bernstein", same),
    "Q": ((), 0, "H1", ID, (1, None), CUBES, None, same),
    "DQ": ((), 0, "L2", ID, (0, None), CUBES, None, same),
    "RTCE": ((), 1, "HCurl", CO, (1, None), (Q,), None, same),
    "RTCF": ((), 1, "HDiv", CONTRA, (1, None), (Q,), None, same),
    "NCE": ((), 1, "HCurl", CO, (1, None), (H,), None, same),
    "NCF": ((), 1, "HDiv", CONTRA, (1, None), (H,), None, same),
    "S": ((), 0, "H1", ID, (1, None), CUBES, "Serendipity", same),
    "DPC": ((), 0, "L2", ID, (0, None), CUBES, "DPC", same),
    "BDMCE": ((), 1, "HCurl", CO, (1, None), (Q,), "BrezziDouglasMariniCubeEdge", lambda k, d: k + 1),
    "BDMCF": ((), 1, "HDiv", CONTRA, (1, None), (Q,), "BrezziDouglasMariniCubeFace", lambda k, d: k + 1),
    "SminusE": ((), 1, "HCurl", CO, (1, None), SOLIDC, "TrimmedSerendipityEdge", same),
    "SminusF": ((), 1, "HDiv", CONTRA, (1, None), (Q,), "TrimmedSerendipityFace", same),
    "SminusDiv": ((), 1, "HDiv", CONTRA, (1, None), SOLIDC, "TrimmedSerendipityDiv", same),
    "SminusCurl": ((), 1, "HCurl", CO, (1, None), SOLIDC, "TrimmedSerendipityCurl", same),
    "AAE": ((), 1, "HCurl", CO, (1, None), (H,), None, same),
    "AAF": ((), 1, "HDiv", CONTRA, (1, None), (H,), None, same),
    "DPC L2": ((), 0, "L2", L2P, (1, None), CUBES, None, same),
    "DQ L2": ((), 0, "L2", L2P, (0, None), CUBES, None, same),
    "Gauss-Legendre L2": (("GL L2",), 0, "L2", L2P, (0, None), (I,), None, same),
    "Extended-Gauss-Legendre": (("EGL",), 0, "H1", ID, (2, None), (I,), None, same),
    "Extended-Gauss-Legendre Edge": (("EGL-Edge",), 0, "L2", ID, (1, None), (I,), None, same),
    "Extended-Gauss-Legendre Edge L2": (("EGL-Edge L2",), 0, "L2", L2P, (1, None), (I,), None, same),
    "Gauss-Lobatto-Legendre Edge": (("GLL-Edge",), 0, "L2", ID, (0, None), (I,), None, same),
    "Gauss-Lobatto-Legendre Edge L2": (("GLL-Edge L2",), 0, "L2", L2P, (0, None), (I,), None, same),
    "Direct Serendipity": (("Sdirect",), 0, "H1", "physical", (1, None), (Q,), "DirectSerendipity", same),
    "Direct Serendipity Full H(div)": (("Sdirect H(div)",), 1, "HDiv", "physical", (1, None), (Q,), None, same),
    "Direct Serendipity Reduced H(div)": (("Sdirect H(div) red",), 1, "HDiv", "physical", (1, None), (Q,), None, same),
}
ON_CUBES = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}

# (name, dimension) -> element of each form degree, as (family, change of degree)
FEEC = {}
for _l2 in ("", " L2"):
    _dp, _dq, _dpc = "DP" + _l2, "DQ" + _l2, "DPC" + _l2
    for _name, _t in {
        "P-": ([("P", 0), (_dp, -1)],
               [("P", 0), ("Nedelec 1st kind H(curl)", 0), (_dp, -1)],
               [("P", 0), ("Nedelec 1st kind H(curl)", 0), ("Raviart-Thomas", 0), (_dp, -1)]),
        "P": ([("P", 0), (_dp, 0)],
              [("P", 0), ("Nedelec 2nd kind H(curl)", 0), (_dp, 0)],
              [("P", 0), ("Nedelec 2nd kind H(curl)", 0), ("Brezzi-Douglas-Marini", 0), (_dp, 0)]),
        "Q-": ([("Q", 0), (_dq, -1)],
               [("Q", 0), ("RTCE", 0), (_dq, -1)],
               [("Q", 0), ("NCE", 0), ("NCF", 0), (_dq, -1)]),
        "S": ([("S", 0), (_dpc, 0)],
              [("S", 0), ("BDMCE", 0), (_dpc, 0)],
              [("S", 0), ("AAE", 0), ("AAF", 0), (_dpc, 0)]),
    }.items():
        FEEC[_name + _l2] = _t
        FEEC[_name + " Lambda" + _l2] = _t


def canonical_name(name):
    if name in FAMILIES:
        return name
    for f, data in FAMILIES.items():
        if name in data[0]:
            return f
    raise KeyError(name)


def describe(name, cellname, degree):
    """Canonical family or None if the combination does not exist."""
    f = canonical_name(name)
    lo, hi = FAMILIES[f][4]
    cells = FAMILIES[f][5]
    if f in ON_CUBES and (cellname is None or cellname in CUBES[1:]):
        f = ON_CUBES[f]        # (None: a product cell)
    if cellname is not None and cellname not in cells:
        return None
    if degree is not None and ((lo is not None and degree < lo) or (hi is not None and degree > hi)):
        return None
    return f
