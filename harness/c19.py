from common import *
import random, sys, os
import scipy.sparse as sp
ID = "C19"
RULE = ("Every computation (electron numbers on up to 16 sites; all 64 selections; plain, ring-embedding and the 8 block-embedding variants) is saved for real while an "
        "audit hook records the file opened for writing; a registry checks that a file has one owner and that the file is in the folder of its kind. Every stage which reads "
        "results is then run with the same parameters and the file it opens must be the one its predecessor wrote. Non-trivial: every save or read.")
REQUIRED = {"saves": 9000, "files": 7000, "selections": 64, "stage reads ring embedding": 150, "stage reads block embedding": 300, "stage reads plots": 300,
            "stage reads with two-digit numbers": 200, "reloads": 150}
VARIANTS = [(d, e, g) for d in (False, True) for e in (False, True) for g in (False, True)]
KINDS19 = ["plain", "ring"] + ["blocks%d%d%d" % v for v in VARIANTS]
ALL = list(m.TERMS)
SHAPES = {1: (1, 1), 2: (1, 2), 3: (1, 3), 4: (2, 2), 6: (2, 3), 8: (2, 4), 9: (3, 3), 10: (2, 5), 12: (3, 4), 14: (2, 7), 15: (3, 5), 16: (4, 4)}

_log, _on, _abort = [], [False], [None]

class StageRead(BaseException):
    pass


def _hook(event, args):
    if not _on[0]: return
    if event == "open" and isinstance(args[0], str) and "initialComputations" in os.path.abspath(args[0]):
        mode = args[1] if isinstance(args[1], str) else ("w" if args[2] & (os.O_WRONLY | os.O_RDWR) else "r")
        write = any(ch in mode for ch in "wax+")
        _log.append(("w" if write else "r", os.path.relpath(os.path.abspath(args[0]), os.path.join(os.getcwd(), "initialComputations"))))
        if not write and _abort[0] is not None:
            _abort[0] -= 1
            if _abort[0] <= 0: raise StageRead()
    elif event == "os.rename":
        p = [os.path.relpath(os.path.abspath(os.fspath(x)), os.path.join(os.getcwd(), "initialComputations")) for x in args[:2]]
        for k, (md, f) in enumerate(_log):
            if md == "w" and f == p[0]: _log[k] = ("w", p[1])


_hooked = []
def watch(fn, *a, abort=None, **k):
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked.append(1)
    del _log[:]
    _abort[0], _on[0] = abort, True
    try:
        fn(*a, **k)
    except StageRead:
        pass
    finally:
        _on[0] = False
    return list(_log)


def cases(tier, rng):
    out = [dict(what="fillings", nmax=16, kinds=KINDS19, _w=40),
           dict(what="selections", fillings=[[4, 2, 1], [9, 4, 4], [12, 6, 5]], _w=20)]
    sels = [[t for k, t in enumerate(ALL) if i >> k & 1] for i in range(64)]
    fill = [(n, h, b) for n in SHAPES for h, b in fillings(n) if dim(n, h, b) <= 2000]
    for _ in range(6 if tier == "quick" else 60):
        out.append(dict(what="stages", items=[[*rng.choice(fill), rng.choice(sels + [ALL] * 20)] for _ in range(40)], seed=rng.randrange(10 ** 9), _w=10))
    if tier != "quick":
        out.append(dict(what="product", kind="plain", sels=sels, nmax=13, _w=100))
    return out


def matrix(n):
    if n in SHAPES: return lattice('periodic', (*SHAPES[n], 1)).adjacency()
    return np.zeros((n, n))


def computation(n, h, b, sel, mark=0.0, shape=None):
    kw = dict(nbh=shape[0], nbv=shape[1], nblocs_side=1) if shape else {}
    cfg = bC.Configuration(matrix(n), h, b, [0], 'periodic', **kw)
    data = iC.Data(cfg, itr.Interactions(**{k: mark for k in m.COUPLINGS}), dav.Diagonalization(1, 10, 1e-3, 0), switches(sel))
    return iC.DataComputations(data, [list(range(n))], sp.csr_matrix((cfg.nb_conf, cfg.nb_conf)) if shape else sp.csr_matrix(np.eye(1)), dav.Eigenstates([mark], [], np.eye(1)), iC.Times(0.0, 0.0, 0.0))


def save(d, kind):
    if kind == "plain": return watch(iC.save_data, d)
    if kind == "ring": return watch(emb.save_data_peripheral_embedding, d)
    return watch(emb.save_data_embedding_blocks, d, *[ch == "1" for ch in kind[6:]])


def saved_path(M, d, kind):
    w = [f for md, f in save(d, kind) if md == "w" and os.path.exists(os.path.join("initialComputations", f))]
    w = sorted(set(w))
    M.check(len(w) == 1, "saving results (%s) wrote %d files" % (kind, len(w)), w)
    M.ev("saves")
    top = os.path.dirname(w[0])
    return w[0], top


def digits_key(f, g):
    (a, b) = sorted((f, g))
    return "digits:%s|%s" % (",".join(map(str, a)), ",".join(map(str, b)))


def sel_key(s, t):
    a, b = sorted(("+".join(sorted(s)), "+".join(sorted(t))))
    return "selection:%s|%s" % (a, b)


def register(M, reg, path, owner, listed):
    """One owner per file. A collision is reported under the key of its cause when it is the documented loss of information of the names."""
    for other in reg.setdefault(path, []):
        (k1, f1, s1), (k2, f2, s2) = owner, other
        keys = []
        if k1 == k2:
            if f1 != f2: keys.append(digits_key(f1, f2))
            if s1 != s2: keys.append(sel_key(s1, s2))
        known = keys and all(k in listed for k in keys)
        for k in (keys if known or len(keys) == 1 else ["other:%s|%s" % (owner, other)]):
            M.known_finding(k, "two computations share the file %s: %s %s up, down on sites %s terms %s and %s %s terms %s"
                            % (path, k1, f1[1:], f1[0], "+".join(sorted(s1)), k2, f2, "+".join(sorted(s2))))
        M.ev("shared files seen")
    if owner not in reg[path]:
        reg[path].append(owner)


def run(case, M):
    import core
    listed = core.known_findings(ID)
    reg, tops = {}, {}
    with Scratch():
        if case["what"] in ("fillings", "product"):
            for n in range(1, case["nmax"] + 1):
                for h, b in fillings(n):
                    for sel in case.get("sels", [ALL]):
                        d = computation(n, h, b, sel)
                        for kind in case.get("kinds", [case.get("kind")]):
                            path, top = saved_path(M, d, kind)
                            owned(M, reg, tops, path, top, kind, (n, n - h - b, b), sel, listed)
        elif case["what"] == "selections":
            for n, a, b in case["fillings"]:
                for i in range(64):
                    sel = [t for k, t in enumerate(ALL) if i >> k & 1]
                    if n == 4: M.ev("selections")
                    for kind in KINDS19:
                        path, top = saved_path(M, computation(n, n - a - b, b, sel), kind)
                        owned(M, reg, tops, path, top, kind, (n, a, b), sel, listed)
        else:
            stages(case, M)
            return
        M.ev("files", len(reg))
        M.check(len({tops[k] for k in ("plain", "ring") if k in tops} | {tops[k] for k in tops if k[0] == "b"}) == min(3, len(tops)),
                "kinds of results share a folder", tops)


def owned(M, reg, tops, path, top, kind, f, sel, listed):
    M.check(tops.setdefault(kind, top) == top, "results of one kind (%s) are written to different folders" % kind, tops[kind], top)
    register(M, reg, path, (kind, f, tuple(sel)), listed)
    M.input((kind, f, tuple(sel)), dict(kind=kind, sites_up_down=f, terms=list(sel), file=path))


def stages(case, M):
    rng = random.Random(case["seed"])
    for n, h, b, sel in case["items"]:
        with Scratch():
            shape = SHAPES[n]
            mark = float(rng.randint(1, 10 ** 6))
            d = computation(n, h, b, sel, mark, shape)
            paths = {k: saved_path(M, d, k)[0] for k in KINDS19}
            for k, p in paths.items():
                r = iC.load_data(p)
                M.check(r.data.interactions.t == mark and r.data.configuration.nsites == n and r.data.configuration.nbeta == b, "a file does not hold the results saved in it", p)
                M.ev("reloads")
            info = "%d sites, %d up, %d down, terms %s" % (n, n - h - b, b, "+".join(sel))

            def expect(log, want, stage):
                got = [f for md, f in log if md == "r"]
                M.check(got == want, "the %s reads %s, the results of the same parameters are in %s: %s" % (stage, got, want, info))
                M.ev("stage reads " + stage)
                if max(n, n - h - b, b) > 9: M.ev("stage reads with two-digit numbers")
                M.input((stage, n, h, b, tuple(sel), tuple(want)), dict(stage=stage, computation=info, file=want[-1]))

            fresh = lambda: computation(n, h, b, sel, mark, shape).data
            expect(watch(emb.embedding_neel, fresh(), 1e-3, 1, abort=1), [paths["plain"]], "ring embedding")
            for neel in (False, True):
                dyn, neigh = rng.random() < .5, rng.random() < .5
                expect(watch(emb.embedding_blocks, fresh(), 1e-3, 1, dyn, neel, neigh, abort=1), [paths["ring" if neel else "plain"]], "block embedding")
            expect(watch(pP.generate_plots_configuration, fresh(), pP.InputPlotting(1, 1), abort=1), [paths["plain"]], "plots")
            for v in VARIANTS:
                dyn, neel, neigh = v
                if not dyn and neel: static = True          # ring embedding alone is not a block embedding
                else: static = not dyn or rng.random() < .5
                ip = pP.InputPlotting(1, 1, bool_neel_embedding=neel, bool_static_embedding=static, bool_dynamic_embedding=dyn, bool_neighbor_embedding=neigh)
                expect(watch(pP.generate_plots_configuration, fresh(), ip, abort=2), [paths["plain"], paths["blocks%d%d%d" % v]], "plots")
