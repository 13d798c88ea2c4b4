from common import *
from itertools import permutations
import random
ID = "C03"
RULE = ("All two-bond paths of lattices of the three numbering schemes (all shapes up to a bound, larger ones sampled), in all six "
        "orders, lattices interleaved; invalid triples (repeated site, site bonded to neither other). Oracle: collinearity of "
        "coordinates. Non-trivial: a valid path (counted once per lattice and path).")
REQUIRED = {"aligned paths": 1500, "perpendicular paths": 1500, "invalid triples": 500, "ring paths": 500, "one-wide paths": 150}


def cases(tier, rng):
    out = []
    lim = dict(periodic=30, clusters=30, peripheral=46) if tier == "quick" else dict(periodic=64, clusters=72, peripheral=90)
    for kind in KINDS:
        for s in m.shapes(lim[kind]):
            n = m.lattice_sites(kind, s)
            if 3 <= n <= lim[kind]:
                out.append(dict(kind=kind, shape=s, full=n <= (20 if tier == "quick" else 90), seed=rng.randrange(10 ** 9), _w=n + 4))
    for s in [(3, 4, 2), (4, 3, 2), (2, 2, 4), (8, 7, 1), (1, 30, 1), (30, 1, 1)]:
        for kind in KINDS:
            out.append(dict(kind=kind, shape=s, full=False, seed=rng.randrange(10 ** 9), _w=60))
    rng.shuffle(out)
    return out


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice(case["kind"], case["shape"])
    cfgs = [L.config(bC, lF, *random_filling(rng, L.n), restriction=some_restriction(rng, L.n, .4)) for _ in range(4)]
    paths = sorted({(min(a, c), b, max(a, c)) for b in range(L.n) for a in L.nb[b] for c in L.nb[b] if a != c})
    if not case["full"]:
        grid = L.W * L.H
        edge = [p for p in paths if L.kind == 'peripheral' and any(x >= grid for x in p)
                or L.kind == 'clusters' and len({x >= grid for x in p}) == 2]
        paths = rng.sample(paths, min(len(paths), 40)) + rng.sample(edge, min(len(edge), 60))
    rng.shuffle(paths)
    for p in paths:
        exp = L.aligned(*p)
        cfg = rng.choice(cfgs)
        for a, b, c in permutations(p):
            got = bC.is_bond_linear(cfg, a, b, c)
            M.check(bool(got) == exp, "sites %s on %s W=%d H=%d reported %s" % ((a, b, c), L.kind, L.W, L.H, "aligned" if got else "perpendicular"),
                    "coordinates %s" % [L.xy[x] for x in (a, b, c)])
        M.ev("aligned paths" if exp else "perpendicular paths")
        if L.kind == 'peripheral' and any(x >= L.W * L.H for x in p): M.ev("ring paths")
        if min(L.W, L.H) == 1: M.ev("one-wide paths")
        M.input((L.kind, case["shape"], p), dict(kind=L.kind, W=L.W, H=L.H, sites=p, aligned=exp))
    for _ in range(6):
        a, b = rng.randrange(L.n), rng.randrange(L.n)
        t = [a, a, b]
        rng.shuffle(t)
        M.raises(ValueError, bC.is_bond_linear, cfg, *t)
        M.ev("invalid triples")
        M.input()
        t = rng.sample(range(L.n), 3)
        if any(all(y not in L.nb[x] for y in t if y != x) for x in t):
            M.raises(ValueError, bC.is_bond_linear, cfg, *t)
            M.ev("invalid triples")
            M.input(("invalid", L.kind, case["shape"], tuple(t)))
