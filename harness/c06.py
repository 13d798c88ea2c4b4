from common import *
import random
ID = "C06"
RULE = ("All determinants of small lattices and random ones of larger lattices rotated by every k in -9..13 (squares) or even k "
        "(rectangles), also with unordered species lists; composition, identity, conservation and bond preservation. Oracle: "
        "clockwise rotation of coordinates. Non-trivial: rotation that moves the occupation.")
REQUIRED = {"odd rotations": 1500, "half turns": 1500, "bond maps": 60}


def cases(tier, rng):
    out = []
    top = 36 if tier == "quick" else 100
    for s in m.shapes(top):
        W, H = s[0] * s[2], s[1] * s[2]
        if W == H or (W * H <= 24 or s in ((6, 5, 1), (5, 6, 1), (2, 3, 2), (3, 2, 2))):
            for r in range(3 if W == H else 1):
                out.append(dict(shape=s, k=16 if tier == "quick" else 120, seed=rng.randrange(10 ** 9), _w=W * H))
    for s in [(8, 8, 1), (2, 2, 4), (4, 4, 2), (1, 1, 9), (3, 3, 3), (10, 10, 1)]:
        out.append(dict(shape=s, k=6 if tier == "quick" else 60, seed=rng.randrange(10 ** 9), _w=50))
    rng.shuffle(out)
    return out


def run(case, M):
    rng = random.Random(case["seed"])
    L = lattice('periodic', case["shape"])
    square = L.W == L.H
    ks = list(range(-9, 14)) if square else list(range(-8, 14, 2))
    img = {k: [m.rotate_xy(L, k, s) for s in range(L.n)] for k in ks}
    # bonds: rotate one marked bond at a time
    cfg2 = L.config(bC, lF, min(2, L.n), 0)
    if L.n > 2:
        for k in ks:
            for i, j in L.bonds[:60]:
                st = tuple(0 if s in (i, j) else 1 for s in range(L.n))
                d = list(bC.rotate_determinant(k, cfg2, m.to_det(st)))
                a, b = sorted(d[:2])
                M.check(b in L.nb[a], "bonded sites %s are carried to %s by %d quarter turns" % ((i, j), (a, b), k), (L.W, L.H))
            M.ev("bond maps")
    for _ in range(case["k"]):
        h = rng.randint(0, L.n)
        b = rng.randint(0, L.n - h)
        cfg = L.config(bC, lF, h, b, restriction=some_restriction(rng, L.n))
        st = m.random_state(rng, L.n, h, b)
        det = m.to_det(st)
        for k in ks:
            exp = [None] * L.n
            for s in range(L.n): exp[img[k][s]] = st[s]
            exp = tuple(exp)
            src = det[:]
            if k % 4 and rng.random() < .4:
                src = []
                for p in (det[:h], det[h:h + b], det[h + b:]):
                    p = p[:]
                    rng.shuffle(p)
                    src += p
            d = list(bC.rotate_determinant(k, cfg, src))
            M.check(d == m.to_det(exp), "rotation by %d quarter turns of %s on %dx%d" % (k, src, L.W, L.H), "returned %s" % d, "expected %s" % m.to_det(exp))
            M.ev("odd rotations" if k % 2 else "half turns")
            M.input((case["shape"], k, st) if exp != st else None, dict(W=L.W, H=L.H, k=k, det=det))
        for _ in range(3):
            k1, k2 = rng.choice(ks), rng.choice(ks)
            d12 = list(bC.rotate_determinant(k2, cfg, bC.rotate_determinant(k1, cfg, det[:])))
            M.check(d12 == list(bC.rotate_determinant(k1 + k2, cfg, det[:])), "rotations by %d then %d do not compose" % (k1, k2), det)
