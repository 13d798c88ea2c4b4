"""Input-coverage probe: does a check notice a wrong result that appears only for a rare kind of input?

usage: probe.py OUT.jsonl [--jobs N] [--match REGEX] [--values]
Every public function gets a wrapper (in a scratch copy of /repo) that spoils its result slightly when a condition on the lattice,
the filling or the number of calls (with --values: on the numbers or vectors passed) holds; the quick check of the property it belongs to is run against the copy.
One JSON line per (function, condition): caught / SURVIVED, and whether the condition was ever met.
"""
import sys, os, json, subprocess, re, time, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TARGETS = [x.split() for x in """
latticeFunctions build_rectangular_bond_matrix C01
latticeFunctions build_bond_matrix_neel_outer_lattice C01
latticeFunctions build_bond_matrix_neel_embedding C01
latticeFunctions build_bond_matrix_block_embedding C01
latticeFunctions build_bond_list C02
latticeFunctions get_neighbors C02
latticeFunctions get_second_neighbors C02
latticeFunctions get_diagonal_second_neighbors C02
baseConstruction is_bond_linear C03
baseConstruction construct_basis C04
baseConstruction get_index_in_basis C04
baseConstruction get_indexes_of C05
baseConstruction get_spin_site C05
baseConstruction reverse_spins C05
baseConstruction reverse_spins_vect C05
baseConstruction extend_determinant C05
baseConstruction rotate_determinant C06
interactions compute_hopping_integral C07
interactions compute_next_hopping_integral C07
interactions compute_static_spin_interaction C08
interactions compute_spin_flip C08
interactions compute_singlet_displacement C09
interactions compute_hole_repulsion C09
hamiltonianConstruction build_hamiltonian C10
hamiltonianConstruction build_hamiltonian C11
hamiltonianConstruction build_hamiltonian C12
davidson modified_davidson_algorithm C13
davidson get_lowests_eig C13
interactions compute_spin_z C14
interactions compute_S_plus_S_minus C14
interactions compute_spins_z_two_bodies C14
interactions compute_S2 C14
interactions compute_S2_exp_val C14
interactions compute_spin_number C14
baseConstruction get_probability_spin_lattice C15
baseConstruction get_spins_probabilitites_lattice C15
baseConstruction get_probability_spin_rectangular_lattice C15
baseConstruction get_dominant_determinants C16
initialComputations get_most_dominant_determinants C16
baseConstruction get_displayable_determinant C17
baseConstruction get_displayable_rectangular_lattice C17
baseConstruction get_displayable_outer_embedding_lattice C17
baseConstruction get_displayable_neighbor C17
initialComputations load_data C18
initialComputations load_data C20
embedding embedding_neel C21
embedding embedding_blocks C22
embedding embedding_blocks C23
interactions compute_energy C24
interactions compute_dynamic_interactions C24
initialComputations perform_initial_computations C25
baseConstruction get_probability_spin_lattice C27
initialComputations load_data C27
""".split("\n") if x]
CONDS = dict(
    large="c.nsites >= 10", three_subblocks="c.nblocs_side == 3", two_subblocks="c.nblocs_side == 2", subblocks_not_square="c.nblocs_side > 1 and c.nbh != c.nbv",
    column="c.nbh * c.nblocs_side == 1 and c.nbv * c.nblocs_side >= 4", row="c.nbv * c.nblocs_side == 1 and c.nbh * c.nblocs_side >= 4",
    wide="c.nbh * c.nblocs_side > c.nbv * c.nblocs_side + 1 and c.nbv > 1", tall="c.nbv * c.nblocs_side > c.nbh * c.nblocs_side + 1 and c.nbh > 1",
    no_hole="c.nholes == 0 and c.nsites > 3", many_holes="c.nholes >= 4", no_down="c.nbeta == 0 and c.nalpha > 1", no_up="c.nalpha == 0 and c.nbeta > 1", more_down="c.nbeta > c.nalpha + 1",
    one_electron="c.nalpha + c.nbeta == 1", clusters_tall="c.lattice_type == 'clusters' and c.nbv * c.nblocs_side >= 3", ring_not_square="c.lattice_type == 'peripheral' and c.nbh != c.nbv",
    ring_subblocks="c.lattice_type == 'peripheral' and c.nblocs_side == 2", clusters_subblocks="c.lattice_type == 'clusters' and c.nblocs_side == 2",
    restricted="len(set(c.sites_restriction[0])) < c.nsites", restricted_pair="list(c.sites_restriction[0]) != list(c.sites_restriction[1])",
    one_site_allowed="len(c.sites_restriction[0]) == 1", balanced_large="c.nalpha == c.nbeta >= 3", odd_nine="c.nsites == 9", many_calls="n > 40",
    same_size_before="seen[-2:-1] and seen[-2][0] == seen[-1][0] and seen[-2] != seen[-1]", same_lattice_before="seen[-2:-1] and seen[-2][:5] == seen[-1][:5] and seen[-2][5:] != seen[-1][5:]")
VALUES = dict(
    negative_number="any(y < 0 for y in x)", all_negative="x and all(y < 0 for y in x)", zero_number="any(y == 0 for y in x)", large_number="any(abs(y) > 8 for y in x)", tiny_number="any(0 < abs(y) < .01 for y in x)",
    equal_numbers="len(x) > 1 and len(set(x)) < len(x)", whole_numbers="x and all(y == int(y) for y in x if abs(y) < 1e9)", numpy_number="any(isinstance(y, _n.generic) for y in x)",
    flat_vector="any(y.ndim == 1 for y in A)", column_vector="any(y.ndim == 2 and y.shape[1] == 1 and y.shape[0] > 1 for y in A)", many_columns="any(y.ndim == 2 and y.shape[1] > 2 for y in A)",
    vector_zero="any(_n.any(y == 0) for y in A)", vector_sparse="any(_n.count_nonzero(y) <= 2 for y in A)", vector_no_zero="any(y.size > 3 and _n.all(y != 0) for y in A)",
    vector_integer="any(y.dtype.kind == 'i' and y.ndim < 3 for y in A)", vector_negative="any(_n.all(y <= 0) and _n.any(y) for y in A)", vector_first_negative="any(y.flat[0] < 0 for y in A if y.size)",
    vector_uniform="any(y.size > 2 and _n.ptp(_n.abs(y)) < 1e-9 for y in A if y.dtype.kind in 'fi')", vector_long="any(y.shape[0] > 300 for y in A)", vector_unit="any(y.size < 2 for y in A)",
    vector_not_normalised="any(abs(_n.linalg.norm(y) - 1) > .1 for y in A if y.dtype.kind == 'f' and (y.ndim == 1 or y.shape[1] == 1))", vector_ties="any(y.size > 3 and len(set(_n.abs(y).ravel().round(9))) < y.size / 2 for y in A)")
GEOMETRY = ("large", "three_subblocks", "two_subblocks", "subblocks_not_square", "column", "row", "wide", "tall", "restricted", "one_site_allowed", "odd_nine", "many_calls", "same_size_before")
WRAP = '''

def _probe():
    import copy as _c, os as _o
    import numpy as _n
    import scipy.sparse as _s
    orig = %(fn)s
    state = dict(n=0)
    seen = []

    class Of:
        pass

    def find(a, k):
        for x in list(a) + list(k.values()):
            for path in ("", "configuration", "data", "data.configuration"):
                y = x
                for p in path.split("."):
                    if p: y = getattr(y, p, None)
                if hasattr(y, "nholes") and hasattr(y, "sites_restriction"): return y
        return None

    def pseudo(a, k):
        c = Of()
        c.lattice_type, c.nholes, c.nbeta, c.nalpha = "periodic", 1, 1, 1
        x = list(a) + [k[z] for z in ("nbh", "nbv", "nblocs_side", "bond_matrix") if z in k]
        ints = [z for z in x if isinstance(z, int)]
        mats = [z for z in x if isinstance(z, _n.ndarray) and z.ndim == 2]
        c.nbh, c.nbv, c.nblocs_side = (ints + [-5, -5, -5])[:3] if len(ints) == 3 else (-5, -5, -5)
        c.nsites = len(mats[0]) if mats else c.nbh * c.nbv * c.nblocs_side ** 2
        rs = [z for z in x if isinstance(z, (list, tuple)) and z and all(isinstance(i, (int, _n.integer)) for i in z)]
        c.sites_restriction = (rs[0], rs[0]) if rs else (list(range(c.nsites)),) * 2
        return c

    def values(a, k):
        x, A = [], []

        def walk(z, depth=0):
            if isinstance(z, (bool, _n.bool_, str)) or z is None or depth > 5: return
            if isinstance(z, (float, _n.floating)) or depth == 0 and isinstance(z, (int, _n.integer)): x.append(z)
            elif isinstance(z, _n.ndarray) and z.dtype != object: A.append(z)
            elif isinstance(z, (list, tuple)) and len(z) < 50:
                for y in z: walk(y, depth + 1)
            elif isinstance(z, dict):
                for y in z.values(): walk(y, depth + 1) if not isinstance(y, int) else x.append(y)
            elif hasattr(z, "nholes") or hasattr(z, "determinants"): pass
            elif hasattr(z, "__dict__"):
                for y in vars(z).values(): walk(y, depth + 1) if not isinstance(y, int) else x.append(y)
        for z in list(a) + list(k.values()): walk(z)
        return x, A

    def spoil(r):
        if isinstance(r, (bool, _n.bool_)): return not r
        if isinstance(r, (int, _n.integer)): return r + 1
        if isinstance(r, (float, _n.floating)): return r + (.5 if r * 2 == round(r * 2) else 1e-3)
        if isinstance(r, str): return r[:-1] + "?"
        if isinstance(r, tuple):
            for i, x in enumerate(r):
                if hasattr(x, "nholes") or hasattr(x, "__len__") and len(x) == 0: continue
                return r[:i] + (spoil(x),) + r[i + 1:]
            return r
        if isinstance(r, list):
            if not r: return r
            if isinstance(r[-1], list) and r[-1] and isinstance(r[-1][0], list): return r[:-1]
            if %(swap)s and len(r) > 1 and r[-1] != r[-2]: return r[:-2] + [r[-1], r[-2]]
            if isinstance(r[-1], float): return r[:-1] + [r[-1] + 1e-3]
            return r[:-1]
        if isinstance(r, _n.ndarray):
            r = r.copy()
            z = _n.argwhere(r != 0) if r.dtype != object else []
            if len(z) == 0: return r
            i = tuple(z[-1])
            if r.ndim == 2 and r.shape[0] == r.shape[1] and _n.array_equal(r, r.T): r[i[::-1]] = 0
            r[i] = 0 if r.ndim == 2 and r.shape[1] > 1 else -2 * r[i]
            return r
        if isinstance(r, dict):
            r = dict(r)
            if r:
                z = list(r)[-1]
                r[z] = spoil(r[z])
            return r
        if _s.issparse(r):
            f = r.format
            r = r.tolil(copy=True)
            i, j = r.nonzero()
            if len(i): r[int(i[-1]), int(j[-1])] *= 1.5
            return r.asformat(f)
        if type(r).__name__ == "DataComputations":
            r = _c.deepcopy(r)
            r.hamiltonian = spoil(r.hamiltonian)
            return r
        if type(r).__name__ == "Eigenstates":
            r.eigvals = list(r.eigvals)
            r.eigvals[-1] += 1e-3
            return r
        if type(r).__name__ == "Basis":
            r.determinants[-2:] = r.determinants[-2:][::-1]
            return r
        return r

    def wrapper(*a, **k):
        r = orig(*a, **k)
        state["n"] += 1
        c, n = find(a, k) or find((r,), {}) or pseudo(a, k), state["n"]
        key = (c.nsites, c.lattice_type, c.nbh, c.nbv, c.nblocs_side, c.nholes, c.nbeta)
        if key not in seen[-1:]: seen.append(key)
        del seen[:-3]
        try:
            x, A = values(a, k) if %(vals)s else ([], [])
            hit = %(cond)s
        except (TypeError, IndexError, AttributeError, ValueError, OverflowError): hit = False
        if hit:
            if not state.get("marked"):
                state["marked"] = True
                with open(%(mark)r, "a") as f: f.write("x")
            return spoil(r)
        return r
    wrapper.__name__ = orig.__name__
    wrapper.__doc__ = orig.__doc__
    return wrapper


%(fn)s = _probe()
'''


def probe(job):
    k, (module, fn, prop), name = job
    d = "/tmp/probe/%s%d" % ("v" if name in VALUES else "", k)
    subprocess.run(["rm", "-rf", d]); os.makedirs(os.path.dirname(d), exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    mark = d + ".mark"
    if os.path.exists(mark): os.remove(mark)
    path = os.path.join(d, module + ".py")
    crlf = "\r\n" in open(path, newline="").read()
    text = WRAP % dict(fn=fn, cond=dict(CONDS, **VALUES)[name], mark=mark, vals=name in VALUES, swap=repr(fn in ("rotate_determinant", "reverse_spins", "extend_determinant", "get_displayable_determinant")))
    with open(path, "a", newline="") as f: f.write(text.replace("\n", "\r\n") if crlf else text)
    t = time.time()
    try:
        r = subprocess.run(["bash", os.path.join(VERIF, "bin/check"), prop], env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS="2", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 124, "timeout"
    hit = os.path.exists(mark)
    if hit: os.remove(mark)
    subprocess.run(["rm", "-rf", d])
    return dict(fn=fn, prop=prop, cond=name, verdict="caught" if rc == 1 else "SURVIVED" if rc == 0 else "exit %d" % rc, met=hit, seconds=round(time.time() - t), out=out.strip().splitlines()[-1:][0][:200] if out.strip() else "")


def main():
    out = sys.argv[1]
    opt = lambda f, d: sys.argv[sys.argv.index(f) + 1] if f in sys.argv else d
    done = {(x["fn"], x["prop"], x["cond"]) for x in map(json.loads, open(out))} if os.path.exists(out) else set()
    number = {p for p in "C07 C08 C09 C10 C11 C12 C18 C20 C21 C22 C23 C24 C25".split()}
    vector = {p for p in "C05 C13 C14 C15 C16 C20 C27".split()}
    conds = lambda p: VALUES if p == "C13" else {c: v for c, v in VALUES.items() if (p in vector) == c.endswith(("vector", "columns")) | c.startswith("vector")} if p in number | vector else {}
    jobs = [(t, c) for t in TARGETS for c in (conds(t[2]) if "--values" in sys.argv else CONDS) if re.search(opt("--match", "."), "%s/%s/%s" % (t[1], t[2], c)) and (t[1], t[2], c) not in done and (t[0] != "latticeFunctions" or t[1].startswith("get_diag") or c in GEOMETRY)]
    print(len(jobs), "probes")
    with concurrent.futures.ThreadPoolExecutor(int(opt("--jobs", 4))) as ex, open(out, "a") as f:
        for r in ex.map(probe, [(k, t, c) for k, (t, c) in enumerate(jobs)]):
            f.write(json.dumps(r) + "\n"); f.flush()


if __name__ == "__main__":
    main()
