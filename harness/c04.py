from common import *
from math import comb
import random
ID = "C04"
RULE = ("Fillings of lattices enumerated exhaustively up to a site bound (every determinant: list, rank, unrank), large bases sampled, extreme fillings of "
        "larger lattices, and sampled determinants of lattices up to 64 sites ranked against exact counting. Non-trivial: dimension "
        "above one, counted per (sites, holes, down spins, determinant).")
REQUIRED = {"bases": 160, "ranks": 8000, "unranked determinants": 8000, "ranks beyond 2**53": 60, "unranked beyond 2**53": 8, "large bases": 3}


def cases(tier, rng):
    out = []
    top = 8 if tier == "quick" else 10
    for n in range(1, top + 1):
        for h, b in fillings(n):
            out.append(dict(n=n, h=h, b=b, full=dim(n, h, b) <= (600 if tier == "quick" else 3000), _w=min(dim(n, h, b), 600) / 30 + 1, seed=rng.randrange(10 ** 9)))
    for n in range(top + 1, 17):
        fs = [f for f in extreme_fillings(n, 400 if tier == "quick" else 2500)]
        for h, b in (rng.sample(fs, min(len(fs), 9)) if tier == "quick" else fs):
            out.append(dict(n=n, h=h, b=b, full=True, _w=dim(n, h, b) / 15, seed=rng.randrange(10 ** 9)))
    for n in [12, 16, 20, 25, 32, 36, 49, 64]:
        out.append(dict(n=n, sampled=60 if tier == "quick" else 150, _w=n * 2, seed=rng.randrange(10 ** 9)))
    for low, high in ((3000, 9000), (33000, 60000), (66000, 90000)) if tier == "quick" else ((3000, 30000),) * 6 + ((33000, 200000),) * 6:
        n, h, b = rng.choice([(n, h, b) for n in range(9, 25) for h, b in fillings(n) if low < dim(n, h, b) <= high])
        out.append(dict(n=n, h=h, b=b, full=False, large=1, _w=dim(n, h, b) / 2000, seed=rng.randrange(10 ** 9)))
    rng.shuffle(out)
    return out


def cfg_of(n, h, b, rng):
    kinds = [k for k in KINDS if same_size_shapes(n, k)]
    kind = rng.choice(kinds + ['periodic'])
    return lattice(kind, rng.choice(same_size_shapes(n, kind))).config(bC, lF, h, b, restriction=some_restriction(rng, n))


def scrambled(det, h, b, rng):
    parts = [list(det[:h]), list(det[h:h + b]), list(det[h + b:])]
    for p in parts: rng.shuffle(p)
    return sum(parts, [])


def run(case, M):
    rng = random.Random(case["seed"])
    n = case["n"]
    if "sampled" in case:
        for _ in range(case["sampled"]):
            h = rng.choice([0, 1, 2, n // 4, n // 2, n - 2, n])
            b = rng.randint(0, n - h)
            D = dim(n, h, b)
            M.check(lF.compute_dimension(n, n - h - b, b) == D, "dimension announced for %d sites, %d holes, %d down" % (n, h, b), lF.compute_dimension(n, n - h - b, b), D)
            cfg = cfg_of(n, h, b, rng)
            M.check(cfg.nb_conf == D and cfg.nalpha == n - h - b and cfg.nsites == n, "configuration numbers", (n, h, b), (cfg.nb_conf, cfg.nalpha, cfg.nsites))
            for k in range(4):
                st = m.random_state(rng, n, h, b)
                if k == 0: st = (1,) * (n - h - b) + (-1,) * b + (0,) * h      # last determinant of all
                det = m.to_det(st)
                exp = m.rank(det, h, b)
                got = bC.get_index_in_basis(cfg, scrambled(det, h, b, rng))
                M.check(got == exp and int(got) == got, "index of a determinant (%d sites, %d holes, %d down)" % (n, h, b), det, "returned %r" % got, "position %d" % exp)
                M.ev("ranks")
                if exp > 2 ** 53: M.ev("ranks beyond 2**53")
                M.input((n, h, b, tuple(det)) if D > 1 else None, dict(sites=n, holes=h, down=b, index=str(exp)))
                # ranks that are far up the list but near the first determinant of a set of hole positions
                per = comb(n - h, b)
                k2, j2 = rng.randrange(min(comb(n, h), 40)), rng.randrange(min(per, 40))
                big = k2 * per + j2
                got = list(bC.get_hash_basis(h, n - h - b, b, big))
                sites = len(set(got)) == n and all(list(p) == sorted(p) for p in (got[:h], got[h:h + b], got[h + b:]))
                M.check(sites and m.rank(got, h, b) == big, "determinant of index %d (%d sites, %d holes, %d down)" % (big, n, h, b), got)
                M.check(bC.get_index_in_basis(cfg, got) == big, "index of the determinant of index %d (%d sites, %d holes, %d down)" % (big, n, h, b), got)
                M.ev("unranked determinants")
                if big > 2 ** 53: M.ev("unranked beyond 2**53")
                if exp < 4000:
                    M.check(list(bC.get_hash_basis(h, n - h - b, b, exp)) == det, "determinant of index %d" % exp, det)
                    M.ev("unranked determinants")
        return
    h, b = case["h"], case["b"]
    D = dim(n, h, b)
    cfg = cfg_of(n, h, b, rng)
    M.check(cfg.nb_conf == D and lF.compute_dimension(n, n - h - b, b) == D, "announced dimension", (n, h, b), cfg.nb_conf, D)
    basis = bC.construct_basis(cfg)
    dets = [list(map(int, d)) for d in basis.determinants]
    exp = [m.to_det(s) for s in m.states(n, h, b)]
    M.check(len(dets) == D, "basis length", (n, h, b), len(dets), D)
    if dets != exp:
        k = [i for i in range(D) if dets[i] != exp[i]][0]
        M.check(False, "determinant %d of the basis of (%d sites, %d holes, %d down)" % (k, n, h, b), dets[k], exp[k])
    M.ev("large bases" if "large" in case else "bases")
    idx = list(range(D)) if case["full"] else sorted(rng.sample(range(D), 300))
    for k in idx:
        got = bC.get_index_in_basis(cfg, scrambled(dets[k], h, b, rng))
        M.check(got == k, "index of determinant %s (%d sites, %d holes, %d down)" % (dets[k], n, h, b), "returned %r" % got, "position %d" % k)
        M.check(bC.compute_hash_table(cfg, list(dets[k])) == k, "rank of the ordered determinant %s" % dets[k])
        d = list(bC.get_hash_basis(h, n - h - b, b, k))
        M.check(d == dets[k], "determinant of index %d (%d sites, %d holes, %d down)" % (k, n, h, b), d, dets[k])
        M.ev("ranks"); M.ev("unranked determinants")
        M.input((n, h, b, k) if D > 1 else None, dict(sites=n, holes=h, down=b, index=k, det=dets[k]))
