from common import *
from c16 import parse, grid, SYM
import random
ID = "C17"
RULE = ("The four displays and the basis listing of random determinants (all determinants of the smallest lattices) on all shapes up to a size, "
        "blocks one site wide or high and non-square ones included, parsed back and compared with the occupation of every site; symbols of "
        "one column of the lattice must be in one column of the text. Non-trivial: at least two different occupations present.")
REQUIRED = {"lattice displays": 1500, "ring displays": 1500, "neighbour displays": 400, "lists": 3000, "one-wide or one-high blocks": 1000, "non-square blocks": 1200,
            "displayed bases": 12}
CHARS = {0: '0', 1: '+', -1: '-'}


def cases(tier, rng):
    k = 40 if tier == "quick" else 60
    out = [dict(shape=s, n=k, seed=rng.randrange(10 ** 9)) for s in m.shapes(16 if tier == "quick" else 36)]
    out += [dict(pair=[rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4), rng.choice([1, 1, 2, 3])], n=k, seed=rng.randrange(10 ** 9)) for _ in range(90)]
    return out


def columns(text):
    return [[k for k, ch in enumerate(line) if ch in SYM] for line in text.split('\n') if any(ch in SYM for ch in line)]


def run(case, M):
    rng = random.Random(case["seed"])
    if "pair" in case:
        wa, wb, hh, side = case["pair"]
        A, B = lattice('periodic', (wa, hh, side)), lattice('periodic', (wb, hh, side))
        for _ in range(case["n"]):
            (ha, ba), (hb, bb) = random_filling(rng, A.n), random_filling(rng, B.n)
            sa, sb = m.random_state(rng, A.n, ha, ba), m.random_state(rng, B.n, hb, bb)
            text = bC.get_displayable_neighbor(A.config(bC, lF, ha, ba, restriction=some_restriction(rng, A.n)), B.config(bC, lF, hb, bb, restriction=some_restriction(rng, B.n)), m.to_det(sa), m.to_det(sb))
            exp = [x + y for x, y in zip(grid(A, sa), grid(B, sb))]
            M.check(parse(text) == exp, "display of neighbours %dx%d and %dx%d" % (A.W, A.H, B.W, B.H), text, exp)
            cols = columns(text)
            M.check(all(c == cols[0] for c in cols), "the columns of the neighbours are not aligned", text)
            M.ev("neighbour displays")
            M.input((tuple(case["pair"]), sa, sb) if len(set(sa + sb)) > 1 else None, dict(text=text))
        return
    L, P = lattice('periodic', case["shape"]), lattice('peripheral', case["shape"])
    for k in range(case["n"]):
        h, b = random_filling(rng, L.n)
        st = m.random_state(rng, L.n, h, b)
        cfg = L.config(bC, lF, h, b, restriction=some_restriction(rng, L.n))
        text = bC.get_displayable_rectangular_lattice(cfg, m.to_det(st))
        M.check(parse(text) == grid(L, st), "display of a %dx%d lattice" % (L.W, L.H), m.to_det(st), text)
        cols = columns(text)
        M.check(all(c == cols[0] for c in cols), "the columns of the lattice are not aligned", text)
        M.ev("lattice displays")
        M.input((case["shape"], st) if len(set(st)) > 1 else None, dict(det=m.to_det(st), text=text))
        for Q in (L, P, lattice('clusters', case["shape"])):
            h, b = random_filling(rng, Q.n)
            sq = m.random_state(rng, Q.n, h, b)
            got = bC.get_displayable_determinant(Q.config(bC, lF, h, b, restriction=some_restriction(rng, Q.n)), m.to_det(sq))
            M.check(list(got) == [CHARS[x] for x in sq], "list of symbols of a determinant", m.to_det(sq), got)
            M.ev("lists")
        h, b = random_filling(rng, P.n)
        sp = m.random_state(rng, P.n, h, b)
        text = bC.get_displayable_outer_embedding_lattice(P.config(bC, lF, h, b, restriction=some_restriction(rng, P.n)), m.to_det(sp))
        at = lambda x, y: sp[P.at[x, y]]
        exp = [[at(x, L.H) for x in range(L.W)]] + [[at(x, y) for x in range(-1, L.W + 1)] for y in reversed(range(L.H))] + [[at(x, -1) for x in range(L.W)]]
        M.check(parse(text) == exp, "display of a %dx%d lattice with its ring" % (L.W, L.H), m.to_det(sp), text, exp)
        cols = columns(text)
        M.check(all(c == cols[1] for c in cols[1:-1]) and cols[0] == cols[1][1:-1] == cols[-1], "the columns of the lattice and its ring are not aligned", text)
        M.ev("ring displays")
        M.input((case["shape"], 'ring', sp) if len(set(sp)) > 1 else None, dict(text=text))
        if L.W == 1 or L.H == 1: M.ev("one-wide or one-high blocks", 2)
        if L.W != L.H: M.ev("non-square blocks", 2)
    for Q in (L, P):
        fs = extreme_fillings(Q.n, 120)
        if not fs or Q.n > 9: continue
        h, b = rng.choice(fs)
        basis = bC.construct_basis(Q.config(bC, lF, h, b, restriction=some_restriction(rng, Q.n)))
        got = bC.get_displayable_basis(basis)
        M.check([list(x) for x in got] == [[CHARS[x] for x in m.to_state(list(d), h, b)] for d in basis.determinants], "displayed basis of a %s lattice" % Q.kind, got)
        M.ev("displayed bases")
