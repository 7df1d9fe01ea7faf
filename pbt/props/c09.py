"""C09: three-phonon interaction strength."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, ref3
from pbt.core import Reject, close, require, same

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="any", size=16, psc=True, wrap=True)))
    d["kind"] = draw(st.sampled_from(["mesh", "mesh", "iso", "grg"]))
    if d["kind"] == "mesh":
        d["mesh"] = [draw(ints(1, 4)) for _ in range(3)]
    elif d["kind"] == "iso":
        d["mesh"] = [draw(ints(1, 4))] * 3
    else:
        d["len"] = draw(ints(4, 22)) / 2.0
    d["sym"] = draw(ints(0, 3)) and 1
    d["msym"] = draw(ints(0, 2)) and 1
    d["gp"] = draw(ints(-1, 300))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 1))
    d["symq"] = draw(ints(0, 2)) == 0 and 1 or 0
    d["omp"] = draw(st.sampled_from([None, True, False]))
    d["lang"] = draw(st.sampled_from(["C", "C", "C", "Python"]))
    d["cut"] = draw(st.sampled_from([None, None, 0.0, 0.5, 3.0]))
    d["phonons"] = draw(st.sampled_from(["solver", "solver", "random"]))
    d["gz"] = draw(st.sampled_from([0, 0, 1, 2]))
    d["nac"] = draw(ints(0, 3)) == 3 and 1 or 0
    if d["nac"] and draw(st.booleans()):
        d["dir"] = draw(st.sampled_from([[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 2, 3]]))
    if draw(ints(0, 3)) == 3 and not d["nac"]:
        d["scale"] = draw(ints(5, 20)) / 10.0
    if draw(ints(0, 4)) == 4:
        d["const"] = draw(ints(1, 9)) * 1e-10
    if draw(ints(0, 2)) == 2:
        d["bands"] = draw(st.lists(ints(0, 14), min_size=1, max_size=4))
    if draw(ints(0, 3)) == 3:
        d["zero"] = draw(ints(8, 22)) / 10.0
    d["fc3"] = draw(st.sampled_from(["exact", "exact", "random"]))
    d["seed"] = draw(ints(0, 9999))
    if d["lang"] == "Python":  # implements the plain transform of full fc3 on regular grids
        d.update(compact=0, r0=0, symq=0)
        d.pop("const", None)
        if d["kind"] == "iso":
            d["mesh"] = [draw(ints(1, 3))] * 3
        if d["kind"] == "grg":
            d.update(kind="iso", mesh=[draw(ints(2, 3))] * 3)
            del d["len"]
    return d


def strategy(tier):
    return strategy_()


def check(case):
    from pbt.props.c08 import expand

    c = model.Crystal(case["crystal"])
    rng = np.random.RandomState(case["seed"])
    r0, symq = bool(case["r0"]), bool(case["symq"])
    ph = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), is_mesh_symmetry=bool(case["msym"]), fc=False,
                            nac=bool(case["nac"]), use_grg=case["kind"] == "grg", make_r0_average=r0,
                            cutoff_frequency=1e-4 if case["cut"] is None else case["cut"])
    if case["kind"] == "grg":
        if not case["sym"]:
            raise Reject("generalized grid needs symmetry")
        mesh = min(case["len"], (ph.primitive.volume * 80) ** (1.0 / 3))
    else:
        mesh = case["mesh"]
    prim = ph.primitive
    n, npr = len(ph.supercell), len(prim)
    if case["fc3"] == "exact":
        full = c.potential(ph.supercell).fc3()
    else:
        full = expand(rng.normal(size=(npr, n, n, 3, 3, 3)), prim)
        if r0:  # legs are only documented to be equivalent for index-permutation symmetric fc3
            from pbt.props.c08 import perm3
            full = perm3(full)
    f3 = np.array(full[prim.p2s_map], order="C") if case["compact"] else np.array(full, order="C")
    model.set_fc(ph, c, compact=bool(case["compact"]), fc3=False)
    ph.fc3 = f3
    if case.get("zero"):
        ph.cutoff_fc3_by_zero(case["zero"] * c.d0)
    used = np.array(ph.fc3)
    nb = 3 * npr
    bands = list(range(nb))
    model.set_mesh(ph, mesh)
    if case.get("bands"):
        bands = list(dict.fromkeys(b % nb for b in case["bands"]))
        ph.band_indices = [bands]
    qdir = case.get("dir")
    ph.init_phph_interaction(nac_q_direction=None if qdir is None else np.array(qdir, dtype=float),
                             constant_averaged_interaction=case.get("const"),
                             frequency_scale_factor=case.get("scale"), symmetrize_fc3q=symq,
                             openmp_per_triplets=case["omp"])
    pp = ph.phph_interaction
    bz = pp.bz_grid
    q = gridref.qpoints(bz)
    if len(q) > 300:
        raise Reject("too big")
    gp = int(bz.gp_Gamma) if case["gp"] < 0 else case["gp"] % len(q)
    if qdir is not None and gp != int(bz.gp_Gamma):
        ph.init_phph_interaction(constant_averaged_interaction=case.get("const"),
                                 frequency_scale_factor=case.get("scale"), symmetrize_fc3q=symq,
                                 openmp_per_triplets=case["omp"])
        pp = ph.phph_interaction
    if case["phonons"] == "random":
        fr = np.sort(rng.uniform(-0.5, 8, size=(len(q), nb)), axis=1)
        ev = np.linalg.qr(rng.normal(size=(len(q), nb, nb)) + 1j * rng.normal(size=(len(q), nb, nb)))[0]
        ph.set_phonon_data(fr.copy(), ev.copy(), np.array(bz.addresses))
        if gp == int(bz.gp_Gamma):
            qdir = 0
    else:
        pp.run_phonon_solver()
    pp.set_grid_point(gp)
    trip, w = pp.get_triplets_at_q()[:2]
    trip = np.array(trip)
    shape = (len(trip), len(bands), nb, nb)
    gz = None
    if case["gz"]:
        gz = np.array(rng.uniform(size=shape) < [0, 0.5, 0.97][case["gz"]], dtype="byte", order="C")
    if case["lang"] == "Python":
        if len(trip) * nb ** 3 > 6000:
            case = dict(case, lang="C")
    with contextlib.redirect_stdout(io.StringIO()):
        if gz is None and case["lang"] == "C":
            pp.run()
        else:
            pp.run(lang=case["lang"], g_zero=gz)
    freqs, vecs, done = pp.get_phonons()
    require(np.all(done), "phonons missing after run")
    if case["phonons"] == "random":
        sel = np.ones(len(q), dtype=bool)
        if qdir == 0:
            sel[gp] = False
        close(freqs[sel], fr[sel], "supplied frequencies were changed", rtol=0, atol=0)
        close(vecs[sel], ev[sel], "supplied eigenvectors were changed", rtol=0, atol=0)
    got = np.array(pp.interaction_strength)
    require(got.shape == shape, f"shape {got.shape} != {shape}")
    same(np.array(ph.fc3), used, "fc3 changed by the calculation")
    labels = [case["kind"], case["lang"], case["phonons"], "r0" if r0 else "first-atom", case["fc3"]]
    ngrid = len(bz.grg2bzg)
    if case.get("const"):
        close(got, np.full(shape, case["const"] / ngrid), "constant interaction", rtol=1e-12, atol=0)
        labels.append("const")
        nt = False
    else:
        sc = case.get("scale") or 1.0
        tr = ref3.FC3Transform(ph.supercell, prim, used * sc ** 2)
        # constants of older CODATA in phonopy: equal within 1e-5
        unit = float(pp.unit_conversion_factor)
        close(unit, ref3.strength_unit(ngrid), "unit conversion factor", rtol=1e-5)
        cut = 1e-4 if case["cut"] is None else case["cut"]
        pick = range(len(trip)) if len(trip) <= 5 else sorted(set(
            [0, len(trip) - 1] + list(rng.randint(0, len(trip), 4))))
        nt = False
        ref = {}
        for t in pick:
            ref[t] = tr.strength(q[trip[t]], freqs[trip[t]], vecs[trip[t]], cut, r0, symq)[bands] * unit
        big = max(np.abs(r).max() for r in ref.values())
        for t in pick:
            r = ref[t]
            if gz is not None and not symq and case["lang"] == "C":
                r = np.where(gz[t] != 0, 0, r)
            # values at frequencies within the solver's noise of the cutoff are not judged
            near = [np.abs(freqs[g] - cut) < 1e-6 for g in trip[t]]
            amb = near[0][bands][:, None, None] | near[1][None, :, None] | near[2][None, None, :]
            g = np.where(amb, 0, got[t])
            r = np.where(amb, 0, r)
            # acoustic modes at Gamma have noise divided by tiny frequencies: judge relative to 1/f
            low = min(np.abs(f[f > cut]).min() if (f > cut).any() else 1.0 for f in freqs[trip[t]])
            tol = 1e-7 if low > 1e-3 else 1e-3
            nat = unit * max(1.0, np.abs(full).max()) ** 2 / np.min(prim.masses) ** 3 / low ** 3
            close(g, r, f"interaction strength of triplet {list(map(int, trip[t]))}", rtol=tol, atol=1e-11 * big + 1e-24 * nat,
                  sig="interaction strength")
            nt = nt or np.count_nonzero(r) > 1
        av = np.array(pp.averaged_interaction)
        exp = np.einsum("t,tbxy->b", np.array(w, dtype=float), got) / nb ** 2
        close(av, exp, "averaged interaction", rtol=1e-10)
    labels += [k for k in ("bands", "zero", "scale", "dir") if case.get(k)]
    labels += ["g-zero"] if gz is not None else []
    labels += ["sym-q"] if symq else []
    labels += ["sym-q-subset"] if symq and len(bands) < nb else []
    return dict(nontrivial=bool(nt), labels=labels)
