from common import *
import random
ID = "C02"
RULE = ("Groups of different lattices with equal or close site counts, their queries interleaved in one process and repeated after "
        "the returned lists were overwritten; every site unrestricted, then random restrictions given as list, pair, or range. "
        "Oracle: coordinates. Non-trivial: a query with a non-empty expected answer.")
REQUIRED = {"neighbour queries": 3000, "second-neighbour queries": 1500, "diagonal queries": 1500, "bond lists": 150,
            "restricted queries": 2000, "sites beyond 32": 100}


def cases(tier, rng):
    out = []
    ns = list(range(1, 17)) + [18, 20, 24, 25, 30, 36, 40]
    if tier != "quick": ns += [42, 48, 49, 56, 60, 64, 72, 81, 100]
    for n in ns:
        group = [('periodic', s) for s in same_size_shapes(n)]
        for kind in ('clusters', 'peripheral'):
            group += [(kind, s) for s in same_size_shapes(n, kind)]
        rng.shuffle(group)
        for k in range(0, len(group), 6):
            out.append(dict(group=group[k:k + 6], seed=rng.randrange(10 ** 9), rounds=2 if tier == "quick" else 6, _w=n * n))
    for s in [(2, 2, 2), (3, 2, 2), (3, 5, 1), (1, 5, 1), (5, 1, 1), (1, 1, 5), (2, 3, 2), (7, 6, 1)]:
        out.append(dict(group=[('peripheral', s), ('clusters', s), ('peripheral', (s[1], s[0], s[2])), ('clusters', (s[1], s[0], s[2]))],
                        seed=rng.randrange(10 ** 9), rounds=2 if tier == "quick" else 6, _w=1500))
    return out


def lst(M, got, expected, what, *ctx):
    got = list(got)
    if sorted(got) != sorted(expected):
        M.check(False, what, *ctx, "returned %s" % got, "expected %s" % sorted(expected))
    M.check(True, what)
    return got


def run(case, M):
    rng = random.Random(case["seed"])
    Ls = [lattice(k, s) for k, s in case["group"]]
    mats = [L.matrix_from(lF) for L in Ls]
    for rnd in range(case["rounds"]):
        plans = []
        for L, A in zip(Ls, mats):
            n = L.n
            restr = [None]
            for _ in range(2):
                R0 = rng.sample(range(n), rng.randint(1, n))
                R1 = rng.sample(range(n), rng.randint(1, n))
                restr += [R0, (R0, R1), (R1, R1), (sorted(R0), list(range(rng.randint(0, n - 1), n)))]
            for R in restr:
                plans.append((L, A, R))
        rng.shuffle(plans)
        for L, A, R in plans:
            n = L.n
            targets = set(range(n)) if R is None else set(R[1]) if isinstance(R, tuple) else set(R)
            arg = [] if R is None else R
            sites = rng.sample(range(n), min(n, 12)) if rnd or R is not None else list(range(n))
            tag = "%s W=%d H=%d restriction=%s" % (L.kind, L.W, L.H, R)
            for s in sites:
                exp = set(L.nb[s]) & targets
                for rep in range(2):
                    if isinstance(R, tuple) and R[1] == list(range(R[1][0], n)) and rep: got = lF.get_neighbors(s, A, range(R[1][0], n))
                    elif R is None and rep: got = lF.get_neighbors(s, A)
                    else: got = lF.get_neighbors(s, A, arg)
                    got = lst(M, got, exp, "neighbours of site %d" % s, tag)
                    M.ev("neighbour queries")
                    if s >= 32: M.ev("sites beyond 32")
                    got += [-1]
                M.input(("n", tag, s) if exp else None, dict(query="neighbours", lattice=tag, site=s, answer=sorted(exp)))
                exp2 = L.second(s, targets)
                lst(M, lF.get_second_neighbors(s, A, arg), exp2, "second neighbours of site %d" % s, tag)
                M.ev("second-neighbour queries")
                M.input(("s", tag, s) if exp2 else None)
                if R is not None: M.ev("restricted queries", 2)
            cfg = L.config(bC, lF, *random_filling(rng, n), restriction=(R if R is None or isinstance(R, tuple) else list(R)), matrix=A)
            for s in sites:
                exp3 = L.diagonal(s, targets)
                lst(M, lF.get_diagonal_second_neighbors(cfg, s), exp3, "diagonal second neighbours of site %d" % s, tag)
                M.ev("diagonal queries")
                if R is not None: M.ev("restricted queries")
                M.input(("d", tag, s) if exp3 else None)
            if R is None or isinstance(R, tuple):
                start = set(range(n)) if R is None else set(R[0])
                exp4 = [(i, j) for i, j in L.bonds if i in start and j in targets]
                got = [tuple(int(x) for x in b) for b in lF.build_bond_list(A, arg)]
                lst(M, got, exp4, "bond list", tag)
                M.ev("bond lists")
                M.input(("b", tag) if exp4 else None)
    for L, A in zip(Ls, mats):
        M.check(np.array_equal(np.asarray(A, float), L.adjacency()), "queries modified the adjacency matrix", L.kind, (L.W, L.H))
