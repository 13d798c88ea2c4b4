from common import *
import os, pickle, random, struct, hashlib
import scipy.sparse as sp
ID = "C26"
RULE = ("Histories of calls to every lattice, basis, index, interaction, spin, probability, display, symmetry, assembly and linear-algebra function mostly over lattices with the same number of "
        "sites but other shapes, numberings, fillings and restrictions. Each call is evaluated once in a pristine process and then repeatedly in random interleavings, with results "
        "scribbled over in between; arguments are fingerprinted before the call, after it and after scribbling. Non-trivial: calls returning a container.")
ASSUMPTIONS = ["a returned basis refers to the configuration it was built from (the only sharing that is documented)"]
MOD = dict(lF=lF, bC=bC, itr=itr, hC=hC, dav=dav, iC=iC)
FUNCTIONS = {
 "lF": "compute_dimension compute_ms build_J_matrix build_K_matrix build_L_matrix build_U_matrix build_T_matrix build_rectangular_bond_matrix build_bond_matrix_neel_outer_lattice "
       "build_bond_matrix_neel_embedding build_bond_matrix_block_embedding build_bond_list get_neighbors get_second_neighbors get_diagonal_second_neighbors",
 "bC": "Configuration Configuration.__to_json__ Configuration.get_id construct_basis get_index_in_basis reverse_spins_basis reverse_spins_vect get_indexes_of reorder_basis_element "
       "extend_determinant reverse_spins get_spin_site is_bond_linear get_displayable_determinant get_displayable_basis get_displayable_rectangular_lattice "
       "get_displayable_outer_embedding_lattice get_displayable_neighbor get_probability_spin_lattice get_spins_probabilitites_lattice get_probability_spin_rectangular_lattice "
       "get_dominant_determinants get_displayable_dominant_determinants rotate_determinant project_hash get_distance_hash compute_hash_table get_target_hash fusion_hash get_hash_basis",
 "itr": "compute_hopping_integral compute_next_hopping_integral compute_static_spin_interaction compute_spin_flip compute_singlet_displacement compute_hole_repulsion compute_energy "
        "compute_dynamic_interactions compute_spin_z compute_spins_z_two_bodies_det compute_spins_z_two_bodies compute_S_plus_S_minus_det compute_S_plus_S_minus compute_S2 "
        "compute_S2_exp_val compute_spin_number compute_spin_multiplicity",
 "hC": "build_hamiltonian",
 "dav": "get_lowests_eig perform_modified_gram_schmidt gramSchmidt davidson_algorithm modified_davidson_algorithm compute_spin_and_multiplicity",
 "iC": "get_most_dominant_determinants"}
ALL = [(mod, f) for mod, fs in FUNCTIONS.items() for f in fs.split()]
HELPERS = ("build_J_matrix build_K_matrix build_L_matrix build_U_matrix build_T_matrix project_hash get_distance_hash get_target_hash fusion_hash perform_modified_gram_schmidt "
           "gramSchmidt").split()      # skipped if they are not there any more
REQUIRED = dict({"pristine results compared": 8000, "lattices of another size": 1500, "repeated calls": 16000, "variants": 3000, "reused arguments": 800, "scribbled results": 5000, "fresh arguments": 8000, "same arguments": 4000}, **{"call " + f: 25 for _, f in ALL if f not in HELPERS})


def cases(tier, rng):
    out = []
    for k in range(64 if tier == "quick" else 700):
        out.append(dict(n=[4, 6, 8, 5, 12, 8, 6, 9][k % 8], calls=150 if tier == "quick" else 250, seed=rng.randrange(10 ** 9)))
    return out


# fingerprints and scribbling ----------------------------------------------------------------------------------------------

def fp(o, depth=0):
    if isinstance(o, (bool, np.bool_)): return ("b", bool(o))
    if isinstance(o, (int, np.integer)): return ("n", float(o).hex() if abs(int(o)) < 2 ** 53 else str(int(o)))
    if isinstance(o, (float, np.floating)): return ("n", float(o).hex())
    if o is None or isinstance(o, str): return o
    if isinstance(o, (complex, np.complexfloating)): return ("c", complex(o).real.hex(), complex(o).imag.hex())
    if isinstance(o, np.ndarray): return ("a", o.shape, o.tobytes() if o.dtype != object else [fp(x) for x in o.flat])
    if sp.issparse(o): return ("s", o.shape, fp(np.asarray(o.todense())))
    if isinstance(o, (list, tuple)): return (type(o).__name__, [fp(x) for x in o])
    if isinstance(o, dict): return ("d", [(fp(k), fp(v)) for k, v in o.items()])
    if isinstance(o, (set, frozenset)): return ("set", sorted(map(repr, o)))
    if hasattr(o, "__dict__"): return (type(o).__name__, sorted((k, fp(v)) for k, v in vars(o).items()))
    return repr(o)


def digest(o):
    return hashlib.blake2b(pickle.dumps(fp(o)), digest_size=16).digest()


def scribble(o, own_config=True):
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size: o[...] = o.flat[0].__class__(7)
    elif sp.issparse(o): o.data[:] = 7
    elif isinstance(o, list):
        for x in o: scribble(x, own_config)
        o.reverse()
        o.append(-7)
    elif isinstance(o, tuple):
        for x in o: scribble(x, own_config)
    elif isinstance(o, dict):
        for x in o.values(): scribble(x, own_config)
        o.clear()
    elif type(o).__name__ == "Configuration":
        if own_config:
            o.nholes, o.nbeta, o.lattice_type, o.nbh = 99, 98, "scribbled", -3
    elif hasattr(o, "__dict__"):
        for k, x in vars(o).items():
            scribble(x, own_config and type(o).__name__ != "Basis")


# building the arguments from a description ---------------------------------------------------------------------------------

def group(n):
    return [(k, s) for k in KINDS for s in m.shapes(n) if m.lattice_sites(k, s) == n]


def describe(rng, n):
    while True:
        mod, f = rng.choice(ALL)
        if f not in HELPERS or hasattr(MOD[mod].mod, f): break
    kind, s = rng.choice(group(n))
    if f == "get_displayable_outer_embedding_lattice":
        g = [x for x in group(n) if x[0] == 'peripheral'] or [('peripheral', (1, 2, 1)), ('peripheral', (2, 1, 1))]
        kind, s = rng.choice(g)
    if f in ("get_displayable_neighbor", "extend_determinant", "get_displayable_rectangular_lattice", "get_displayable_dominant_determinants", "rotate_determinant",
             "get_probability_spin_rectangular_lattice"):
        kind, s = rng.choice([x for x in group(n) if x[0] == 'periodic'])
    N = m.lattice_sites(kind, s)
    heavy = f in ("construct_basis", "build_hamiltonian", "compute_S2", "compute_S2_exp_val", "compute_spin_number", "compute_S_plus_S_minus", "compute_spin_and_multiplicity", "reverse_spins_vect",
                  "reverse_spins_basis", "get_displayable_basis", "get_probability_spin_rectangular_lattice", "get_probability_spin_lattice", "get_spins_probabilitites_lattice",
                  "compute_spins_z_two_bodies", "get_dominant_determinants", "get_displayable_dominant_determinants", "get_most_dominant_determinants", "compute_spin_z")
    if heavy: h, b = rng.choice(extreme_fillings(N, 40))
    else: h, b = rng.choice(fillings(N))
    if rng.random() < .12: h, b = rng.choice([(0, 0), (0, 0), (0, N), (N, 0)])
    return dict(mod=mod, f=f, kind=kind, s=s, h=h, b=b, R=sorted(rng.sample(range(N), rng.randint(1, N))) if rng.random() < .25 else None, pair=rng.random() < .3, seed=rng.randrange(10 ** 6))




def build(d):
    """(function, args, kwargs) made afresh from a description; building calls constructors of the repository only."""
    rng = random.Random(d["seed"])
    L = lattice(d["kind"], d["s"])
    n, h, b, f, s = L.n, d["h"], d["b"], d["f"], d["s"]
    fn = getattr(MOD[d["mod"]], f) if "." not in f else None
    adj = L.adjacency()
    R = d["R"]
    rest = None if R is None else ((list(R), list(R)) if d["pair"] else list(R))
    cfg = lambda: L.config(bC, lF, h, b, restriction=None if rest is None else (tuple(list(x) for x in rest) if isinstance(rest, tuple) else list(rest)), matrix=adj.copy())
    det = m.to_det(m.random_state(rng, n, h, b))
    site = rng.randrange(n)
    other = rng.choice([x for x in range(n) if x != site] or [site])
    c = {k: round(rng.uniform(-2, 2), 3) for k in m.COUPLINGS}
    inter = lambda: interactions_of(c)
    terms = [t for t in m.TERMS if rng.random() < .6]
    D = dim(n, h, b)
    vec = lambda: np.array([[round(rng.gauss(0, 1), 3)] for _ in range(D)]) if rng.random() < .7 or "prob" in f else np.array([round(rng.gauss(0, 1), 3) for _ in range(D)])
    dets = lambda: [m.to_det(x) for x in m.states(n, h, b)]
    basis = lambda: bC.Basis(cfg(), dets())
    k = {}
    if f == "compute_dimension": a = (n, n - h - b, b)
    elif f == "compute_ms": a = (n - h - b, b)
    elif f in ("build_J_matrix", "build_K_matrix", "build_L_matrix"): a = (rng.randint(3, 8),)
    elif f.startswith("build_") and f not in ("build_bond_list", "build_hamiltonian"): a = tuple(s)
    elif f == "build_bond_list": a = (adj, ) if rng.random() < .5 else (adj, rest if isinstance(rest, tuple) else (list(R or range(n)), list(range(n))))
    elif f in ("get_neighbors", "get_second_neighbors"): a = (site, adj) if rest is None else (site, adj, rest)
    elif f == "get_diagonal_second_neighbors": a = (cfg(), site)
    elif f == "Configuration": a = (adj, h, b, rest if rest is not None else [], L.kind if L.kind in KINDS else 'periodic') + tuple(s)
    elif f == "Configuration.__to_json__": fn, a = (lambda x: call(x.__to_json__)), (cfg(),)
    elif f == "Configuration.get_id": fn, a = (lambda x: call(x.get_id)), (cfg(),)
    elif f == "construct_basis": a = (cfg(),)
    elif f in ("get_index_in_basis", "reorder_basis_element"):
        parts = [det[:h], det[h:h + b], det[h + b:]]
        for p in parts: rng.shuffle(p)
        a = (cfg(), sum(parts, []))
    elif f in ("reverse_spins", "get_displayable_determinant", "get_displayable_rectangular_lattice", "get_displayable_outer_embedding_lattice", "compute_hash_table"): a = (cfg(), det)
    elif f in ("reverse_spins_basis", "get_displayable_basis"): a = (basis(),)
    elif f == "reverse_spins_vect": a = (basis(), vec())
    elif f == "get_indexes_of": a = (cfg(), det, rng.choice([-1, 0, 1])) + ((rng.randint(0, 1),) if rng.random() < .5 else ())
    elif f in ("extend_determinant", "get_displayable_neighbor"):
        h2, b2 = rng.choice(fillings(n))
        a = (cfg(), L.config(bC, lF, h2, b2, matrix=adj.copy()), det, m.to_det(m.random_state(rng, n, h2, b2)))
    elif f == "get_spin_site": a = (cfg(), det, site)
    elif f == "is_bond_linear":
        trip = [(x, y, z) for y in range(n) for x in L.nb[y] for z in L.nb[y] if x != z]
        if not trip: return None
        t = list(rng.choice(trip))
        rng.shuffle(t)
        a = (cfg(),) + tuple(t)
    elif f == "get_probability_spin_lattice": a = (basis(), vec(), rng.choice([-1, 0, 1]), rng.random() < .5)
    elif f == "get_spins_probabilitites_lattice": a = (basis(), vec(), rng.random() < .5)
    elif f == "get_probability_spin_rectangular_lattice": a = (basis(), vec(), rng.choice([-1, 0, 1]))
    elif f in ("get_dominant_determinants", "get_displayable_dominant_determinants"): a = (basis(), vec(), rng.randint(1, D + 1))
    elif f == "rotate_determinant": a = (rng.randint(-5, 6) if L.W == L.H else 2 * rng.randint(-3, 3), cfg(), det)
    elif f in ("project_hash", "fusion_hash"):
        hs = det[:h]
        left = [x for x in range(n) if x not in hs]
        a = (hs, det[h:h + b]) if f == "project_hash" else (hs, sorted(rng.sample(range(n - h), b)))
    elif f == "get_distance_hash": a = (n, det[:h], sorted(rng.sample(range(n - h), b)))
    elif f == "get_target_hash": a = (n, h, rng.randrange(dim(n, h, 0)))
    elif f == "get_hash_basis": a = (h, n - h - b, b, rng.randrange(D))
    elif f in ("compute_hopping_integral", "compute_next_hopping_integral", "compute_static_spin_interaction", "compute_spin_flip", "compute_singlet_displacement", "compute_hole_repulsion",
               "compute_energy"): a = (cfg(), inter(), det)
    elif f == "compute_dynamic_interactions": a = (cfg(), inter(), switches(terms), det)
    elif f in ("compute_spin_z", "compute_S2", "compute_S2_exp_val", "compute_spin_number"): a = (cfg(), vec())
    elif f in ("compute_spins_z_two_bodies_det", "compute_S_plus_S_minus_det"): a = (cfg(), det, site, other)
    elif f in ("compute_spins_z_two_bodies", "compute_S_plus_S_minus"): a = (cfg(), vec(), site, other)
    elif f == "compute_spin_multiplicity": a = (rng.randint(0, 6) / 2,)
    elif f == "build_hamiltonian":
        a = (cfg(), inter(), basis(), switches(terms))
        if rng.random() < .4: k = dict(sites_restriction=sorted(rng.sample(range(n), rng.randint(1, n))))
        if rng.random() < .2: k["verbose"] = True
    elif f == "get_lowests_eig":
        q = rng.randint(1, 6)
        v = [rng.randint(-3, 3) / 2 for _ in range(q)]
        a = (np.array(v) if rng.random() < .5 else v, np.array([[rng.gauss(0, 1) for _ in range(q)] for _ in range(5)]), rng.randint(1, q))
    elif f in ("perform_modified_gram_schmidt", "gramSchmidt"):
        q = rng.randint(1, 5)
        a = (np.array([[rng.gauss(0, 1) for _ in range(rng.randint(q, q))] for _ in range(q + rng.randint(0, 4))]),)
    elif f in ("davidson_algorithm", "modified_davidson_algorithm"):
        q = rng.randint(2, 8)
        X = np.array([[rng.gauss(0, 1) for _ in range(q)] for _ in range(q)])
        A = X + X.T + np.diag(np.arange(q) * 2.0)
        nb = rng.randint(1, 2)
        a = (A, 20, 1e-4, 5) if f == "davidson_algorithm" else (sp.csr_matrix(A), nb, np.array([[rng.gauss(0, 1) for _ in range(nb)] for _ in range(q)]), rng.randint(1, 30), 1e-6, 0)
        if f == "davidson_algorithm": np.random.seed(5)
    elif f == "compute_spin_and_multiplicity": a = (basis(), np.array([[rng.gauss(0, 1) for _ in range(2)] for _ in range(D)]))
    elif f == "get_most_dominant_determinants": a = (dets(), np.array([round(rng.gauss(0, 1), 3) for _ in range(D)]), rng.randint(1, D))
    return fn, a, k


def variant(rng, d):
    """A description of nearly the same call: one other restriction, filling, shape or set of random contents."""
    d = dict(d)
    n = m.lattice_sites(d["kind"], d["s"])
    what = rng.choice("restriction restriction pair filling shape seed".split())
    if what == "restriction":
        d["R"] = None if d["R"] and rng.random() < .4 else sorted(rng.sample(range(n), rng.randint(1, n)))
    elif what == "pair":
        d["pair"] = not d["pair"]
    elif what == "filling":
        same = [f for f in fillings(n) if f != (d["h"], d["b"]) and dim(n, *f) == dim(n, d["h"], d["b"])]
        if not same: return None
        d["h"], d["b"] = rng.choice(same)
    elif what == "shape":
        same = [s for s in m.shapes(n) if m.lattice_sites(d["kind"], s) == n and tuple(s) != tuple(d["s"])]
        if not same or d["f"] == "rotate_determinant" and d["seed"] % 2: return None
        d["s"] = rng.choice(same)
    else:
        d["seed"] += 1
    if d["f"] == "rotate_determinant":
        return None
    return d


def overwrite(x, y):
    """Give the containers of x the contents of those of y, as a caller may do between two calls; None if x and y differ in more than that."""
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
        if x.shape != y.shape or x.dtype != y.dtype: return None
        x[...] = y
        return True
    if type(x) is not type(y): return None
    if isinstance(x, list):
        x[:] = y
        return True
    if type(x).__name__ in ("Interactions", "BoolInteractions"):
        vars(x).update(vars(y))
        return True
    if isinstance(x, tuple):
        return True if len(x) == len(y) and all(overwrite(p, q) for p, q in zip(x, y)) else None
    return True if digest(x) == digest(y) else None


# pristine results: every call evaluated in a process in which nothing was called before --------------------------------------

class Pristine:
    """A process forked before the first repository call; it forks again for every call it evaluates."""
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1), os.close(r2)
            try:
                self.serve(os.fdopen(r1, "rb"), os.fdopen(w2, "wb"))
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.out, self.inp = os.fdopen(w1, "wb"), os.fdopen(r2, "rb")

    def serve(self, inp, out):
        while True:
            try:
                d = pickle.load(inp)
            except EOFError:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    fn, a, k = build(d)
                    x = b"ok" + digest(fn(*a, **k))
                except BaseException as e:
                    x = b"no" + repr(e).encode()[:2000]
                os.write(w, x)
                os._exit(0)
            os.close(w)
            data = b""
            while True:
                part = os.read(r, 65536)
                if not part: break
                data += part
            os.close(r)
            os.waitpid(pid, 0)
            pickle.dump(data, out)
            out.flush()

    def __call__(self, d):
        pickle.dump(d, self.out)
        self.out.flush()
        return pickle.load(self.inp)


zygote = None


def run(case, M):
    global zygote
    if zygote is None: zygote = Pristine()
    rng = random.Random(case["seed"])
    todo = []
    while len(todo) < case["calls"]:
        d = describe(rng, case["n"] if rng.random() < .75 else rng.choice((case["n"] - 1, case["n"] + 1, 12, 4)))
        if d["f"] == "is_bond_linear" and not any(len(x) > 1 for x in lattice(d["kind"], d["s"]).nb): continue
        todo.append(d)
        while rng.random() < .5:
            v = variant(rng, rng.choice(todo[-3:]))
            if v is None or v["f"] == "is_bond_linear" and not any(len(x) > 1 for x in lattice(v["kind"], v["s"]).nb): break
            if v["f"] == "build_hamiltonian" and dim(m.lattice_sites(v["kind"], v["s"]), v["h"], v["b"]) > 90: break
            todo.append(v)
            M.ev("variants")
    items = []
    for d in todo:
        x = zygote(d)
        what = "%s.%s on %s %s, %d holes, %d down, restriction %s" % (d["mod"], d["f"], d["kind"], d["s"], d["h"], d["b"], d["R"])
        if x[:2] != b"ok":
            fn, a, k = build(d)
            fn(*a, **k)     # the error must show here too
            M.check(False, "a call fails in a new process only: " + what, x[2:].decode(errors="replace"))
        items.append(dict(d=d, what=what, want=x[2:], args=None))
        M.ev("pristine results compared")
        M.ev("call " + d["f"])
        if m.lattice_sites(d["kind"], d["s"]) != case["n"]: M.ev("lattices of another size")
    at = {}
    for i, it in enumerate(items): at.setdefault(it["d"]["f"], []).append(i)
    order = [i for i in range(len(items)) for _ in range(rng.randint(1, 3))] + list(range(len(items)))
    rng.shuffle(order)
    for i in order:
        it = items[i]
        if it["args"] is not None and rng.random() < .5:
            fn, a, k = it["args"]
            if it["d"]["f"] == "davidson_algorithm": np.random.seed(5)
            M.ev("same arguments")
        else:
            fn, a, k = build(it["d"])
            it["args"] = (fn, a, k)
            M.ev("fresh arguments")
            # the caller reuses its containers for another call
            j = rng.choice(at[it["d"]["f"]])
            if j != i and items[j]["args"] is not None and rng.random() < .5:
                fn2, a2, k2 = items[j]["args"]
                items[j]["args"] = None
                if sorted(k) == sorted(k2) and len(a) == len(a2):
                    ok = [type(p) is type(q) and overwrite(q, p) for p, q in zip(a, a2)]
                    a = tuple(q if good else p for p, q, good in zip(a, a2, ok))
                    it["args"] = (fn, a, k)
                    if any(ok): M.ev("reused arguments")
        before = digest((a, k))
        r = fn(*a, **k)
        M.check(digest((a, k)) == before, "a call modified its arguments: " + it["what"], repr(a)[:1000])
        M.check(digest(r) == it["want"], "a repeated call gives another result than in a new process: " + it["what"], "result %.1500s" % (fp(r),))
        M.ev("repeated calls")
        if rng.random() < .6 and isinstance(r, (list, tuple, dict, np.ndarray)) or hasattr(r, "__dict__") or sp.issparse(r):
            if it["d"]["f"] in ("Configuration", "Configuration.__to_json__", "get_most_dominant_determinants"):
                it["args"] = None           # these refer to what they were given
            else:
                scribble(r, it["d"]["f"] != "construct_basis")
                M.check(digest((a, k)) == before, "modifying a result modifies the arguments of the call: " + it["what"], repr(a)[:1000])
                M.ev("scribbled results")
            M.input((it["d"]["f"], it["d"]["kind"], tuple(it["d"]["s"]), it["d"]["h"], it["d"]["b"], tuple(it["d"]["R"] or ()), it["d"]["seed"]), dict(call=it["what"]))
        else:
            M.input(None)
