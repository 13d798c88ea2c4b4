from common import *
ID = "C01"
RULE = ("Every (subblocks across, subblocks up, subblock side) of the four lattice builders up to a site bound, plus larger ones; "
        "each adjacency matrix is rebuilt from unit-distance coordinates and compared element by element, then a lattice is "
        "rebuilt after its matrix was overwritten. Non-trivial: more than one site.")
REQUIRED = {"matrices": 300, "lattices one site wide": 20, "non-square lattices": 60}
BUILD = ('periodic', 'peripheral', 'ring', 'clusters')


def cases(tier, rng):
    top = 48 if tier == "quick" else 110
    out = []
    for s in m.shapes(top):
        out.append(dict(shape=s, kinds=BUILD, _w=(s[0] * s[1] * s[2] ** 2) ** 2 / 1000 + 1))
    big = [(1, 100, 1), (100, 1, 1), (13, 17, 1), (17, 13, 1), (6, 4, 3), (4, 6, 3), (2, 3, 5), (3, 2, 5), (1, 1, 16), (3, 5, 4)]
    if tier != "quick": big += [(20, 20, 1), (31, 12, 1), (12, 31, 1), (5, 5, 4), (1, 300, 1), (300, 1, 1)]
    out += [dict(shape=s, kinds=BUILD, _w=60) for s in big]
    rng.shuffle(out)
    return out


def run(case, M):
    for kind in case["kinds"]:
        L = lattice(kind, case["shape"])
        ref = L.adjacency()
        for attempt in range(2):
            A = L.matrix_from(lF)
            M.ev("matrices")
            M.check(getattr(A, "shape", None) == ref.shape, "adjacency matrix of the wrong shape", kind, case["shape"], getattr(A, "shape", None))
            B = np.asarray(A, dtype=float)
            if not np.array_equal(B, ref):
                bad = [(int(i), int(j), float(B[i, j])) for i, j in np.argwhere(B != ref)[:10]]
                M.check(False, "adjacency matrix differs from the lattice geometry", kind, "W=%d H=%d" % (L.W, L.H), "(i, j, value): %s" % bad)
            M.check(True, "")
            try: A[:] = 7          # the caller may modify what it got
            except Exception: pass
        M.input((kind, L.W, L.H, case["shape"]) if L.n > 1 else None, dict(kind=kind, shape=case["shape"], sites=L.n, bonds=len(L.bonds)))
        if min(L.W, L.H) == 1: M.ev("lattices one site wide")
        if L.W != L.H: M.ev("non-square lattices")
        M.ev("bonds compared", len(L.bonds))
