"""Reference model of the t-J lattice, written from the documentation and independent of the repository's code.

A lattice is a list of integer coordinates; two sites are bonded when they are one unit apart. A state is a tuple giving
0 (hole), +1 (up) or -1 (down) for every site. Operators return {state: amplitude}."""
from itertools import combinations, product
from math import comb
import numpy as np


class Lattice:
    """kind: 'periodic' (W x H grid), 'peripheral' (grid + ring), 'clusters' (two grids side by side), 'ring' (ring alone)."""
    def __init__(self, kind, nbh, nbv, side):
        self.kind, self.nbh, self.nbv, self.side = kind, nbh, nbv, side
        W, H = nbh * side, nbv * side
        self.W, self.H = W, H
        grid = [(x, y) for y in range(H) for x in range(W)]
        ring = [(x, -1) for x in range(W)] + [(W, y) for y in range(H)] + [(x, H) for x in reversed(range(W))] \
            + [(-1, y) for y in reversed(range(H))]
        if kind == 'periodic':
            self.xy = grid
        elif kind == 'peripheral':
            self.xy = grid + ring
        elif kind == 'ring':
            self.xy = ring
        elif kind == 'clusters':
            self.xy = grid + [(x + W, y) for x, y in grid]
        self.n = len(self.xy)
        self.at = {p: s for s, p in enumerate(self.xy)}
        self.nb = []
        for x, y in self.xy:
            self.nb.append(sorted(self.at[q] for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)) if q in self.at))
        self.bonds = [(i, j) for i in range(self.n) for j in self.nb[i] if i < j]

    def adjacency(self):
        A = np.zeros((self.n, self.n))
        for i, j in self.bonds:
            A[i, j] = A[j, i] = 1
        return A

    def aligned(self, a, b, c):
        """Whether three sites (any order) lie on one straight line."""
        (ax, ay), (bx, by), (cx, cy) = self.xy[a], self.xy[b], self.xy[c]
        return (bx - ax) * (cy - ay) == (cx - ax) * (by - ay)

    def second(self, s, allowed=None):
        out = set()
        for n in self.nb[s]:
            out |= set(self.nb[n])
        out -= set(self.nb[s]) | {s}
        return out if allowed is None else out & set(allowed)

    def diagonal(self, s, allowed=None):
        x, y = self.xy[s]
        return {t for t in self.second(s, allowed) if self.xy[t][0] != x and self.xy[t][1] != y}

    # builders through the public API -------------------------------------------------------------------------------
    def matrix_from(self, lF):
        f = {'periodic': 'build_rectangular_bond_matrix', 'peripheral': 'build_bond_matrix_neel_embedding',
             'ring': 'build_bond_matrix_neel_outer_lattice', 'clusters': 'build_bond_matrix_block_embedding'}[self.kind]
        return getattr(lF, f)(self.nbh, self.nbv, self.side)

    def config(self, bC, lF, nholes, nbeta, restriction=None, matrix=None):
        m = self.matrix_from(lF) if matrix is None else matrix
        kw = dict(bond_matrix=m, nholes=nholes, nbeta=nbeta, lattice_type=self.kind if self.kind != 'ring' else 'periodic',
                  nbh=self.nbh * (2 if self.kind == 'clusters' else 1), nbv=self.nbv, nblocs_side=self.side)
        if restriction is not None:
            kw["sites_restriction"] = restriction
        return bC.Configuration(**kw)


# determinants <-> states ----------------------------------------------------------------------------------------------

def to_det(state):
    return [s for s, v in enumerate(state) if v == 0] + [s for s, v in enumerate(state) if v < 0] + [s for s, v in enumerate(state) if v > 0]


def to_state(det, nholes, nbeta):
    """State of a determinant; None if the determinant does not list every site once."""
    n = len(det)
    state = [None] * n
    for k, s in enumerate(det):
        if not (0 <= s < n) or state[s] is not None:
            return None
        state[s] = 0 if k < nholes else (-1 if k < nholes + nbeta else 1)
    return tuple(state)


def canonical(det, nholes, nbeta):
    return all(list(p) == sorted(p) for p in (det[:nholes], det[nholes:nholes + nbeta], det[nholes + nbeta:]))


def states(n, nholes, nbeta):
    """All states in the order documented for the basis: holes lexicographic, then down spins lexicographic."""
    out = []
    for h in combinations(range(n), nholes):
        rest = [s for s in range(n) if s not in h]
        for b in combinations(rest, nbeta):
            v = [1] * n
            for s in h: v[s] = 0
            for s in b: v[s] = -1
            out.append(tuple(v))
    return out


def rank(det, nholes, nbeta):
    """Exact position of a determinant in the basis, by counting the determinants before it."""
    n = len(det)
    h = sorted(det[:nholes])
    rest = [s for s in range(n) if s not in set(h)]
    b = sorted(rest.index(s) for s in det[nholes:nholes + nbeta])

    def before(subset, m):
        r, prev, k = 0, -1, len(subset)
        for i, s in enumerate(subset):
            for v in range(prev + 1, s):
                r += comb(m - v - 1, k - i - 1)
            prev = s
        return r
    return before(h, n) * comb(n - nholes, nbeta) + before(b, n - nholes)


def random_state(rng, n, nholes, nbeta):
    sites = list(range(n))
    rng.shuffle(sites)
    v = [1] * n
    for s in sites[:nholes]: v[s] = 0
    for s in sites[nholes:nholes + nbeta]: v[s] = -1
    return tuple(v)


# operators ------------------------------------------------------------------------------------------------------------

COUPLINGS = ("t", "J", "Jhpar", "Jhper", "hSDpar", "hSDper", "tNNN", "tnNNN", "VNN", "VNNNper")
TERMS = ("bt", "bz", "bij", "bSD", "btN", "bV")


def moved(state, changes):
    v = list(state)
    for s, x in changes: v[s] = x
    return tuple(v)


def _add(d, k, x):
    d[k] = d.get(k, 0) + x


def hop_images(L, state, R=None):
    """[(image)] of nearest-neighbour hops, one entry per hop."""
    R = set(range(L.n)) if R is None else set(R)
    return [moved(state, [(h, state[e]), (e, 0)]) for h in R if state[h] == 0 for e in L.nb[h] if e in R and state[e] != 0]


def next_hop_images(L, state, R=None):
    R = set(range(L.n)) if R is None else set(R)
    straight, ortho = [], []
    for h in R:
        if state[h] == 0:
            for e in L.second(h):
                if e in R and state[e] != 0:
                    im = moved(state, [(h, state[e]), (e, 0)])
                    d = L.diagonal(h)
                    (ortho if e in d else straight).append(im)
    return straight, ortho


def bond_coupling(L, state, bond, R=None):
    """'par', 'per' or 'und' according to the holes next to the ends of the bond."""
    i, j = bond
    kinds = set()
    for a, b in ((i, j), (j, i)):
        for h in L.nb[a]:
            if h != b and state[h] == 0 and (R is None or h in R):
                kinds.add('par' if L.aligned(h, a, b) else 'per')
    return 'par' if 'par' in kinds else ('per' if 'per' in kinds else 'und')


def electron_bonds(L, state, R=None):
    for i, j in L.bonds:
        if state[i] and state[j] and (R is None or (i in R and j in R)):
            yield i, j


def flip_images(L, state, R=None):
    R = None if R is None else set(R)
    out = {'par': [], 'per': [], 'und': []}
    for i, j in electron_bonds(L, state, R):
        if state[i] != state[j]:
            out[bond_coupling(L, state, (i, j), R)].append(moved(state, [(i, state[j]), (j, state[i])]))
    return out


def static_energy(L, state, c, R=None):
    R = None if R is None else set(R)
    cc = {'par': c["Jhpar"], 'per': c["Jhper"], 'und': c["J"]}
    return sum(-cc[bond_coupling(L, state, b, R)] / 2 for b in electron_bonds(L, state, R) if state[b[0]] != state[b[1]])


def displacement_images(L, state, R=None):
    """([(plus, minus)] aligned, [(plus, minus)] perpendicular)."""
    R = set(range(L.n)) if R is None else set(R)
    par, per = [], []
    for h in R:
        if state[h] != 0: continue
        for m in L.nb[h]:
            if m not in R or state[m] == 0: continue
            for f in L.nb[m]:
                if f in R and state[f] == -state[m]:
                    plus = moved(state, [(h, state[m]), (m, state[f]), (f, 0)])
                    minus = moved(state, [(h, state[f]), (m, state[m]), (f, 0)])
                    (par if L.aligned(h, m, f) else per).append((plus, minus))
    return par, per


def repulsion(L, state, c, R=None):
    holes = [s for s in range(L.n) if state[s] == 0 and (R is None or s in R)]
    v = 0
    for a, b in combinations(holes, 2):
        if b in L.nb[a]: v += c["VNN"]
        elif b in L.diagonal(a): v += c["VNNNper"]
    return v


def row(L, state, c, terms, R=None):
    """{state: amplitude} of the Hamiltonian with the given terms applied to a state."""
    d = {}
    if "bt" in terms:
        for s in hop_images(L, state, R): _add(d, s, c["t"])
    if "btN" in terms:
        st, o = next_hop_images(L, state, R)
        for s in st: _add(d, s, c["tnNNN"])
        for s in o: _add(d, s, c["tNNN"])
    if "bz" in terms: _add(d, state, static_energy(L, state, c, R))
    if "bij" in terms:
        f = flip_images(L, state, R)
        for k, x in (('par', c["Jhpar"]), ('per', c["Jhper"]), ('und', c["J"])):
            for s in f[k]: _add(d, s, x / 2)
    if "bSD" in terms:
        for pairs, x in zip(displacement_images(L, state, R), (c["hSDpar"], c["hSDper"])):
            for p, m in pairs:
                _add(d, p, x)
                _add(d, m, -x)
    if "bV" in terms: _add(d, state, repulsion(L, state, c, R))
    return d


def matrix(L, nholes, nbeta, c, terms, R=None):
    st = states(L.n, nholes, nbeta)
    idx = {s: k for k, s in enumerate(st)}
    H = np.zeros((len(st), len(st)))
    for k, s in enumerate(st):
        for s2, x in row(L, s, c, terms, R).items():
            H[k, idx[s2]] += x
    return H


# spin -----------------------------------------------------------------------------------------------------------------

def s2_row(state):
    """S^2 applied to a determinant: S^2 = sum_i 3/4 + sum_{i<j} 2 S_i.S_j on occupied sites."""
    occ = [s for s, v in enumerate(state) if v]
    d = {}
    _add(d, state, 0.75 * len(occ))
    for a, b in combinations(occ, 2):
        _add(d, state, 0.5 * state[a] * state[b])
        if state[a] != state[b]:
            _add(d, moved(state, [(a, state[b]), (b, state[a])]), 1.0)
    return d


def s2_matrix(n, nholes, nbeta):
    st = states(n, nholes, nbeta)
    idx = {s: k for k, s in enumerate(st)}
    S = np.zeros((len(st), len(st)))
    for k, s in enumerate(st):
        for s2, x in s2_row(s).items():
            S[k, idx[s2]] += x
    return S


def site_probabilities(st, vect):
    w = np.abs(np.asarray(vect).reshape(-1)) ** 2
    w = w / w.sum()
    occ = np.array(st)
    return {v: [float(w[occ[:, s] == v].sum()) for s in range(occ.shape[1])] for v in (0, 1, -1)}


def rotate_xy(L, k, s):
    """Image of a site of a grid under k clockwise quarter turns."""
    x, y = L.xy[s]
    W, H = L.W, L.H
    for _ in range(k % 4):
        x, y, W, H = y, W - 1 - x, H, W
    return y * W + x


# workload helpers -----------------------------------------------------------------------------------------------------

def random_couplings(rng, hard=True, numbers=None):
    """Couplings of the model. Some sets consist of one kind of number only: whole numbers (as int or as float), numpy numbers, all of one sign, all equal."""
    c = {}
    for k in COUPLINGS:
        r = rng.random()
        c[k] = 0.0 if (hard and r < 0.08) else round(rng.uniform(-2, 2), 6) if r < 0.9 else rng.choice([1, -1, 2, 3, 10, -50, 1e-6])
    kind = numbers or (rng.choice(['int', 'whole', 'numpy', 'negative', 'positive', 'equal', 'zero', 'single']) if rng.random() < .3 else None)
    if kind in ('int', 'whole'):
        c = {k: (int if kind == 'int' else float)(rng.choice([-3, -2, -1, 1, 2, 3, 7])) for k in c}
    elif kind == 'numpy':
        import numpy as np
        c = {k: np.float64(x) for k, x in c.items()}
    elif kind in ('negative', 'positive'):
        c = {k: (-1 if kind == 'negative' else 1) * (abs(x) or .5) for k, x in c.items()}
    elif kind == 'equal':
        x = rng.choice([1, -1, 1.0, .25, round(rng.uniform(-2, 2), 4)])
        c = {k: x for k in c}
    elif kind == 'zero' and hard:
        c = {k: rng.choice([0, 0.0]) for k in c}
    elif kind == 'single' and hard:
        one = rng.choice(COUPLINGS)
        c = {k: c[k] if k == one else 0.0 for k in c}
    return c


def shapes(max_sites, factor=1, extra=0):
    """All (nbh, nbv, side) with nbh*nbv*side^2 <= max_sites."""
    out = []
    for side in range(1, 9):
        for nbh in range(1, max_sites + 1):
            for nbv in range(1, max_sites + 1):
                if nbh * nbv * side * side <= max_sites:
                    out.append((nbh, nbv, side))
    return out


def lattice_sites(kind, s):
    W, H = s[0] * s[2], s[1] * s[2]
    return {'periodic': W * H, 'clusters': 2 * W * H, 'peripheral': W * H + 2 * (W + H), 'ring': 2 * (W + H)}[kind]
