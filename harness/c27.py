from common import *
import random, os, re
ID = "C27"
RULE = ("Figures drawn from generated stored results (degenerate and random spectra, random and structured states) of lattices from 2x2 to 4x2 and 3x3: every figure is inspected when it is saved - "
        "levels, meshes, curves, bars - and compared with the stored data; part of them are really written. Configuration and sweep plots are made in folders holding decoy files of other "
        "selections, fillings and embeddings, with all flags. Non-trivial: the figure shows data that is not constant.")
REQUIRED = {"figures": 200, "levels": 100, "exactly degenerate levels": 20, "nearly degenerate levels": 10, "hole maps": 60, "spin maps": 60, "amplitude curves": 60, "bar charts": 20, "configuration plots": 20, "sweeps": 5,
            "sites compared": 800, "decoy files": 300, "really written": 5, "asymmetric maps": 60, "missing folders": 5, "embedding results plotted": 15, "calls relying on defaults": 15, "all states of a sector": 3}
ASSUMPTIONS = ["density maps need lattices at least two sites wide and two high (interpolation)"]
SHAPES = [(2, 2, 1), (1, 1, 2), (2, 3, 1), (3, 2, 1), (4, 2, 1), (2, 4, 1), (3, 3, 1), (2, 1, 2), (1, 2, 2), (1, 1, 3), (5, 2, 1)]
log, real = [], [0.1]
MAPS = ("Spectrum", "HolePresenceProbability", "SpinDistribution", "DeterminantsAmplitude", "AmplitudesStaticEmbeddingNeel")


def cases(tier, rng):
    out = []
    q = tier == "quick"
    for k in range(128 if q else 1200):
        out.append(dict(what=("single", "configuration", "configuration", "sweep")[k % 4] if k % 8 != 7 else "single", shape=rng.choice(SHAPES), seed=rng.randrange(10 ** 9)))
    return out


def record():
    """Replaces Figure.savefig by an observer; real[0] is the share of figures that are really drawn."""
    import matplotlib.figure as F
    if getattr(F.Figure.savefig, "observer", False): return
    original = F.Figure.savefig

    def savefig(self, fname, *a, **k):
        path = str(fname)
        if not os.path.isdir(os.path.dirname(path) or "."): raise FileNotFoundError(2, "No such file or directory", path)
        if random.random() < real[0]:
            original(self, fname, *a, **k)
            with open(path, "rb") as f:
                log.append(("written", path, f.read(4)))
        else:
            open(path, "wb").close()
        axes = []
        for ax in self.axes:
            d = dict(title=ax.get_title() or "", lines=[(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float)) for l in ax.lines], meshes=[], bars=[], labels=[], marks=[])
            for c in ax.collections:
                if hasattr(c, "get_coordinates") and hasattr(c, "get_array"):
                    q = np.asarray(c.get_coordinates(), float)
                    z = np.asarray(c.get_array(), float).reshape(q.shape[0] - 1, q.shape[1] - 1)
                    d["meshes"].append(((q[:-1, :-1] + q[1:, 1:]) / 2, z))
                elif type(c).__name__ == "PathCollection": d["marks"] += [tuple(p) for p in np.asarray(c.get_offsets(), float).round(6).tolist()]
            for c in ax.containers:
                d["labels"].append(str(c.get_label()))
                d["bars"].append([(p.get_x() + p.get_width() / 2, p.get_height()) for p in c.patches])
            axes.append(d)
        if axes: axes[0]["suptitle"] = self._suptitle.get_text() if self._suptitle else ""
        log.append(("figure", os.path.normpath(path), axes))
    savefig.observer = True
    F.Figure.savefig = savefig


def fresh_folders(n, missing=()):
    for f in MAPS:
        if f not in missing: os.makedirs("tJ-HamCsr/tJ-H%d/%s" % (n, f), exist_ok=True)
    for k in ["GroundState"] + ["Excited%d" % j for j in range(1, 11)]:
        if k not in missing: os.makedirs("tJ-HamCsr/tJ-H%d/SpinDistribution/%s" % (n, k), exist_ok=True)


def figures(M, fn, *a):
    del log[:]
    fn(*a)
    import matplotlib.pyplot as plt
    plt.close("all")
    for x in log:
        if x[0] == "written":
            M.check(x[2][:4] in (b"\x89PNG", b"%PDF"), "the plot was not written as an image", x[1])
            M.ev("really written")
    out = [(x[1], x[2]) for x in log if x[0] == "figure"]
    M.ev("figures", len(out))
    return out


# oracles: what a figure must show ------------------------------------------------------------------------------------------

def shows_spectrum(M, axes, vals, where):
    segs = [(float(x[0]), float(x[-1]), y) for ax in axes for x, y in ax["lines"]]
    M.check(len(segs) == len(vals), "the spectrum has %d levels for %d eigenvalues: %s" % (len(segs), len(vals), where), vals)
    M.check(all(np.ptp(y) == 0 for _, _, y in segs) and sorted(float(y[0]) for _, _, y in segs) == sorted(vals), "the levels are not at the stored energies: " + where, vals, [float(y[0]) for _, _, y in segs])
    at = {}
    for a, b, y in segs: at.setdefault(float(y[0]), []).append((min(a, b), max(a, b)))
    left = min(x[0] for v in at.values() for x in v)
    for y, v in at.items():
        v.sort()
        M.check(all(b > a for a, b in v) and all(v[k][1] < v[k + 1][0] + 1e-12 for k in range(len(v) - 1)), "equal energies overlap in the spectrum: " + where, y, v)
        near = any(x != y and abs(x - y) < 1e-3 for x in at)
        if near: M.ev("nearly degenerate levels")
        M.check(near or abs(v[0][0] - left) < 1e-9, "a level does not start in the first column: " + where, y, v)
        if len(v) > 1: M.ev("exactly degenerate levels")
    M.ev("levels", len(segs))


def shows_map(M, ax, values, B, what):
    """values: expected value of every site."""
    M.check(len(ax["meshes"]) == 1, "no density map: " + what)
    q, z = ax["meshes"][0]
    for s in range(B.n):
        x, y = B.xy[s]
        dist = np.hypot(q[..., 0] - x, q[..., 1] - y)
        k = np.unravel_index(dist.argmin(), dist.shape)
        M.check(dist[k] < .1, "the density map does not reach site %d: %s" % (s, what), dist[k])
        M.check(abs(z[k] - values[s]) < 1e-6 + 2.5 * dist[k], "density at site %d (column %d, row %d from below): %s" % (s, x, y, what), z[k], values[s], list(values))
        M.ev("sites compared")
    if ax["marks"]:
        M.check(set(ax["marks"]) == {(float(x), float(y)) for x, y in B.xy[:B.n]}, "the marks of the sites are not at their places: " + what, ax["marks"])
        M.ev("maps with marked sites")
    if np.ptp(np.asarray(values)) > 1e-3: M.ev("asymmetric maps")


def names_state(M, text, k, what):
    """A title which starts with a number names the state by it."""
    x = re.match(r"\s*(\d+)", text or "")
    if x:
        M.check(int(x.group(1)) == k, "the title names another state than the one shown: " + what, text, k)
        M.ev("titles naming the state")


def shows_spins(M, axes, p, B, k, what):
    """The panels of one state: each shows what its title says, or up, down and difference in this order."""
    values = dict(up=p[1], down=p[-1], difference=[i - j for i, j in zip(p[1], p[-1])])
    shown = []
    for j, a in enumerate(axes[:3]):
        t = a["title"].lower()
        shown.append("up" if "alpha" in t else "down" if "beta" in t else "difference" if "charge" in t else ("up", "down", "difference")[j])
        shows_map(M, a, values[shown[-1]], B, "%s of state %d (panel %r), %s" % (shown[-1], k, a["title"], what))
        M.ev("spin maps")
    M.check(sorted(shown) == ["difference", "down", "up"], "maps of one state: " + what, shown)
    names_state(M, axes[0]["suptitle"], k, what)


def shows_curve(M, ax, v, what):
    M.check(len(ax["lines"]) == 1, "no amplitude curve: " + what)
    x, y = ax["lines"][0]
    a = np.abs(v)
    M.check(x.shape == y.shape and len(x) > 2 and (np.diff(x) > 0).all() and x[0] <= 0 and x[-1] >= a.max() - 1e-9 and np.diff(x).max() < 2e-3, "the amplitude curve does not span the amplitudes: " + what, x[0], x[-1], a.max())
    hi = np.array([(a >= t - 1e-11).sum() for t in x])
    lo = np.array([(a >= t + 1e-11).sum() for t in x])
    bad = np.nonzero((y > hi) | (y < lo))[0]
    M.check(not len(bad), "the amplitude curve is not the number of amplitudes above the abscissa: " + what, *([x[bad[0]], y[bad[0]], int(hi[bad[0]])] if len(bad) else []))


def shows_bars(M, axes, v1, v2, k, what):
    bars = axes[0]["bars"]
    M.check(len(bars) == 2, "the bar chart does not show two states: " + what, len(bars))
    names = [x.lower() for x in axes[0]["labels"]]
    if len(names) == 2 and ["embed" in x for x in names] == [True, False]: v1, v2 = v2, v1
    for b, v, name in zip(bars, (v1, v2), names if len(names) == 2 else ("cluster", "embedding")):
        w = np.sort(np.abs(v) ** 2)[::-1][:k]
        b = sorted(b)
        M.check(len(b) == k and np.allclose([h for _, h in b], w, atol=1e-12), "bars of the %s state: %s" % (name, what), b, w.tolist())
        M.check(np.allclose([x for x, _ in b], range(k)), "abscissas of the bars of the %s state: %s" % (name, what), b)
    M.ev("bar charts")


def extension(sw, holes):
    if all(getattr(sw, t) for t in m.TERMS) and (sw.bV_embedding or not holes): return "Full"
    names = [("bSD", "SD"), ("bV", "V")] + ([("bV_embedding", "emb")] if holes else []) + [("bij", "J"), ("bt", "t"), ("btN", "tN")]
    return "".join(e for k, e in names if getattr(sw, k))


# workload -----------------------------------------------------------------------------------------------------------------

def stored(rng, B, h, b, terms, emb_v=False, complete=False):
    st = m.states(B.n, h, b)
    d = len(st)
    nv = rng.randint(1, min(d, rng.choice([4, 5, 6, 12])))
    if complete or d <= 6 and rng.random() < .4: nv = d
    v = np.array([[rng.gauss(0, 1) for _ in range(nv)] for _ in range(d)])
    r = rng.random()
    if r < .3: v = np.rint(2 * v) + np.eye(d)[:, :nv] * 3
    elif r < .5 and d > 1: v[rng.sample(range(d), d // 2)] *= 1e-3
    v[0, np.abs(v).max(axis=0) == 0] = 1.
    v /= np.linalg.norm(v, axis=0)
    vals = sorted(rng.choice([-2.5, -1.25, 0.0, 1.5, rng.gauss(0, 3)]) for _ in range(nv))
    if rng.random() < .2: vals = sorted([vals[0]] * (nv - nv // 4) + vals[nv - nv // 4:])
    if nv > 1 and rng.random() < .3:
        k = rng.randrange(1, nv)
        vals[k] = vals[k - 1] + 10.0 ** -rng.randint(4, 13)
        vals.sort()
    c = {k: round(rng.uniform(-1, 1), 3) for k in m.COUPLINGS}
    return stored_computation(B.config(bC, lF, h, b, restriction=some_restriction(rng, B.n, .25)), np.diag([float(k) for k in range(d)]), c, terms, v, vals, dav.Diagonalization(nv, 50, 1e-6, 0), bV_embedding=emb_v)


def selection(rng):
    """All terms, all but one, or any."""
    r = rng.random()
    if r < .2: return list(m.TERMS)
    if r < .5:
        left_out = rng.choice(m.TERMS)
        return [t for t in m.TERMS if t != left_out]
    return [t for t in m.TERMS if rng.random() < .6]


def filling(rng, n, dmax):
    return rng.choice([f for f in fillings(n) if dim(n, *f) <= dmax])


def probs(B, comp, k):
    c = comp.data.configuration
    return m.site_probabilities(m.states(B.n, c.nholes, c.nbeta), comp.eigenstates.eigvects[:, k])


def expect(M, B, comp, comp2, flags, nb_excited, nb_plot, figs, where):
    """All the figures of a configuration, in any order, and nothing else."""
    c = comp.data.configuration
    n, h, na, nb = B.n, c.nholes, c.nalpha, c.nbeta
    root = "tJ-HamCsr/tJ-H%d/" % n
    name = "tJ-H%d%d%d" % (n, na, nb)
    v = comp.eigenstates.eigvects
    nv = v.shape[1]
    grid = int(np.floor(np.sqrt(nb_plot))) ** 2
    want = {}
    if flags["bool_spectrum"]: want[root + "Spectrum/" + name + ".png"] = lambda ax, w: shows_spectrum(M, ax, comp.eigenstates.eigvals, w)
    if flags["bool_holes"] and h:
        def holes(ax, w):
            M.check(len(ax) == grid, "number of hole maps: " + w, len(ax), grid)
            for k in range(min(grid, nv)):
                shows_map(M, ax[k], probs(B, comp, k)[0], B, "holes in state %d, %s" % (k, w))
                names_state(M, ax[k]["title"], k, w)
                M.ev("hole maps")
            M.check(not any(a["meshes"] for a in ax[nv:]), "a map of a state that does not exist: " + w)
        want[root + "HolePresenceProbability/" + name + extension(comp.data.bool_interactions, True) + ".png"] = holes
    if flags["bool_electrons"] and na * nb:
        for k in range(min(nb_excited, nv)):
            def spins(ax, w, k=k):
                shows_spins(M, ax, probs(B, comp, k), B, k, w)
            want[root + "SpinDistribution/" + ("Excited%d" % k if k else "GroundState") + "/" + name + ".png"] = spins
    if flags["bool_determinants"]:
        def curves(ax, w):
            M.check(len(ax) == grid, "number of amplitude curves: " + w, len(ax), grid)
            for k in range(min(grid, nv)):
                shows_curve(M, ax[k], v[:, k], "state %d, %s" % (k, w))
                names_state(M, ax[k]["title"], k, w)
                M.ev("amplitude curves")
        want[root + "DeterminantsAmplitude/" + name + ".png"] = curves
    if comp2 is not None:
        for e in (".png", ".pdf"):
            want[root + "AmplitudesStaticEmbeddingNeel/" + name + e] = lambda ax, w: shows_bars(M, ax, v[:, 0], comp2.eigenstates.eigvects[:, 0], min(len(v), 30), w)
        M.ev("embedding results plotted")
    got = {os.path.normpath(p) for p, _ in figs}
    M.check(got == {os.path.normpath(p) for p in want}, "files of the plots: " + where, sorted(got), sorted(want))
    by = {os.path.normpath(p): f for p, f in want.items()}
    for p, ax in figs:
        by[p](ax, "%s of %s" % (p, where))
    M.input((B.W, B.H, h, nb, tuple(sorted(flags.items())), round(float(np.abs(v).sum()), 9)) if len(v) > 1 else None, dict(plots=sorted(got), computation=where))


def describe(B, comp, extra=""):
    c = comp.data.configuration
    return "W=%d H=%d, %d holes, %d down, terms %s %s" % (B.W, B.H, c.nholes, c.nbeta, "+".join(t for t in m.TERMS if getattr(comp.data.bool_interactions, t)), extra)


def run(case, M):
    record()
    rng = random.Random(case["seed"])
    B = lattice('periodic', case["shape"])
    n = B.n
    real[0] = .1 if rng.random() < .4 else 0
    random.seed(case["seed"])
    dmax = {4: 40, 6: 60, 8: 40, 9: 40, 10: 45}[n]
    with Scratch("initialComputations/Embedding_blocks") as S:
        if case["what"] == "single":
            fresh_folders(n)
            for _ in range(5):
                h, b = filling(rng, n, dmax)
                comp = stored(rng, B, h, b, selection(rng), rng.random() < .7)
                comp2 = stored(rng, B, h, b, m.TERMS)
                where = describe(B, comp)
                k = rng.choice([0, 1, 2, 3, 5])
                nb_plot, q = rng.choice([1, 2, 3, 4, 6, 9]), dict.fromkeys(("bool_spectrum", "bool_holes", "bool_electrons", "bool_determinants"), False)
                e = rng.random()
                before = snap(comp)
                if e < .25:
                    figs, q["bool_spectrum"] = figures(M, pP.save_spectrum, comp), True
                elif e < .55 and h:
                    figs, q["bool_holes"] = figures(M, pP.save_hole_probability_lattice, comp, nb_plot), True
                elif e < .7 and b * (n - h - b):
                    figs = figures(M, pP.save_electron_probability_lattice, comp, k)
                    j = comp.eigenstates.eigvects.shape[1]
                    M.check(len(figs) == (k < j), "number of spin maps of state %d of %d: %s" % (k, j, where), len(figs))
                    p = probs(B, comp, k) if k < j else None
                    for path, ax in figs:
                        M.check(path == os.path.normpath("tJ-HamCsr/tJ-H%d/SpinDistribution/%s/tJ-H%d%d%d.png" % (n, "Excited%d" % k if k else "GroundState", n, n - h - b, b)), "file of the spin maps: " + where, path)
                        shows_spins(M, ax, p, B, k, where)
                    figs = None
                elif e < .85:
                    figs, q["bool_determinants"] = figures(M, pP.plot_determinants_amplitude_repartition, comp, nb_plot), True
                else:
                    figs = figures(M, pP.plot_embedding_effect_on_determinants, comp, comp2, min(dim(n, h, b), 30))
                    expect(M, B, comp, comp2, q, 0, 1, figs, where)
                    figs = None
                if figs is not None: expect(M, B, comp, None, q, 0, nb_plot, figs, where)
                same_snap(M, snap(comp), before, "plotting changed the stored result: " + where)
            return
        # results on disk: the wanted ones among decoys
        terms = selection(rng)
        emb_v = rng.random() < .5
        flags = {k: rng.random() < .6 for k in ("bool_spectrum", "bool_holes", "bool_electrons", "bool_determinants")}
        embed = {k: rng.random() < .4 for k in ("bool_neel_embedding", "bool_static_embedding", "bool_dynamic_embedding", "bool_neighbor_embedding")}
        nb_excited, nb_plot = rng.choice([0, 1, 2, 3, 3, 4, 6]), rng.choice([1, 3, 4, 5, 9])
        h, b = filling(rng, n, dmax)
        complete = case["what"] == "configuration" and rng.random() < .2
        if complete:                                               # every state of the sector
            h, b, nb_excited, flags["bool_electrons"] = 0, rng.choice([1, n - 1]), n + rng.randrange(2), True
            M.ev("all states of a sector")
        if case["what"] == "sweep":
            h = rng.choice([x for x in range(n + 1) if max(dim(n, x, y) for y in range(n - x + 1)) <= 30] or [n])
            if n <= 6 and rng.random() < .3: h = 0
            sectors = list(range(n - h + 1))
        else: sectors = [b]
        want = {}
        decoys = [terms] + [[t for t in m.TERMS if rng.random() < .6] for _ in range(3)]
        for b in sectors:
            for sel in reversed(decoys):
                comp = stored(rng, B, h, b, sel, emb_v, complete)
                iC.save_data(comp)
                M.ev("decoy files")
                for dyn, neel, neigh in ([(x, y, z) for x in (False, True) for y in (False, True) for z in (False, True)] if case["what"] == "configuration" or sel is terms else []):
                    comp2 = stored(rng, B, h, b, sel, emb_v)
                    emb.save_data_embedding_blocks(comp2, dyn, neel, neigh)
                    M.ev("decoy files")
                    if sel is terms and (dyn, neel, neigh) == (embed["bool_dynamic_embedding"], embed["bool_neel_embedding"], embed["bool_neighbor_embedding"]): mine = comp2
                if sel is terms: want[b] = (comp, mine)
        missing = rng.sample(("HolePresenceProbability", "GroundState", "Excited1", "Excited2", "AmplitudesStaticEmbeddingNeel"), rng.randint(1, 4)) if rng.random() < .5 else ()
        fresh_folders(n, missing)
        if missing: M.ev("missing folders")
        any_embedding = any(embed[k] for k in ("bool_neel_embedding", "bool_static_embedding", "bool_dynamic_embedding"))
        given = {**flags, **embed}
        if rng.random() < .6:
            given = {k: x for k, x in given.items() if x}
            M.ev("calls relying on defaults")
        plotting = pP.InputPlotting(nb_excited, nb_plot, **given)
        data = iC.Data(B.config(bC, lF, h, rng.choice(sectors) if case["what"] == "sweep" else b), itr.Interactions(**{k: 0. for k in m.COUPLINGS}), dav.Diagonalization(1, 5, 1e-3, 0), switches(terms, bV_embedding=emb_v))
        where = "flags %s %s, %d excited, %d plots" % (sorted(k for k in flags if flags[k]), sorted(k for k in embed if embed[k]), nb_excited, nb_plot)
        figs = figures(M, pP.generate_plots if case["what"] == "sweep" else pP.generate_plots_configuration, data, plotting)
        M.ev("sweeps" if case["what"] == "sweep" else "configuration plots")
        for b in sectors:
            comp, comp2 = want[b]
            mine = [(p, ax) for p, ax in figs if os.path.basename(p).startswith("tJ-H%d%d%d" % (n, n - h - b, b))]
            expect(M, B, comp, comp2 if any_embedding else None, flags, nb_excited, nb_plot, mine, describe(B, comp, where))
        M.check(len(figs) == sum(os.path.basename(p).startswith(tuple("tJ-H%d%d%d" % (n, n - h - b, b) for b in sectors)) for p, _ in figs), "figures of other sectors: " + where, [p for p, _ in figs])
