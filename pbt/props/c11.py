"""C11: phonon linewidth (imaginary part of the bubble self-energy)."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, ref3
from pbt.core import Reject, close, require

ints = st.integers
TWOPI_THZ = 2e12 * np.pi
UNIT = 18 * np.pi / (ref3.HBAR ** 2) / TWOPI_THZ ** 2 * ref3.EV ** 2


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=10, max_atoms=4, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 5)))
    d["op"] = draw(st.sampled_from(["api", "api", "api", "rta", "rta", "rta", "object"]))
    d["msym"] = draw(ints(0, 3)) and 1
    d["gps"] = draw(st.lists(ints(-20, 200), min_size=1, max_size=3))
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 1, 5, 30, 100, 301.5, 1000, 3000]), min_size=1, max_size=3))
    d["sig"] = draw(st.lists(st.sampled_from([None, None, 0.05, 0.1, 0.3, 1.0]), min_size=1, max_size=2))
    d["scut"] = draw(st.sampled_from([None, None, 1.0, 2.5, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["r0"] = draw(ints(0, 1))
    d["symq"] = draw(ints(0, 3)) == 0 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    d["omp"] = draw(st.sampled_from([None, True, False]))
    d["nac"] = draw(ints(0, 3)) == 3 and 1 or 0
    if draw(ints(0, 4)) == 4:
        d["const"] = draw(ints(1, 9)) * 1e-10
    if draw(ints(0, 2)) == 2:
        d["bands"] = draw(st.lists(ints(0, 14), min_size=1, max_size=4))
    d["cls"] = draw(st.sampled_from([None, None, None, 1, 2]))
    d["detail"] = draw(ints(0, 1))
    if draw(ints(0, 1)):
        k = draw(ints(0, 2))
        if k == 0:
            d["fpts"] = draw(st.lists(ints(-20, 400).map(lambda x: x / 16.0 + 0.0101), min_size=1, max_size=6))
        elif k == 1:
            d["nfp"] = draw(ints(2, 9))
        else:
            d["fstep"] = draw(ints(20, 60)) / 10.0
        d["batch"] = draw(st.sampled_from([None, 1, 2, 3, 50]))
    d["rta"] = draw(st.sampled_from(["low", "low", "full"]))
    d["nu"] = draw(ints(0, 1))
    d["lang"] = draw(st.sampled_from(["C", "Python"]))
    d["twin"] = draw(ints(0, 2)) == 0 and 1 or 0
    return d


def strategy(tier):
    return strategy_()


def degenerate(f):
    """Degenerate sets of frequencies; cases near the tolerance are rejected."""
    order = np.argsort(f, kind="stable")
    d = np.diff(f[order])
    if np.any((d > 1e-5) & (d < 1e-3)):
        raise Reject("nearly degenerate bands")
    sets, cur = [], [int(order[0])]
    for x, i in zip(d, order[1:]):
        if x < 1e-4:
            cur.append(int(i))
        else:
            sets.append(cur)
            cur = [int(i)]
    return sets + [cur]


def average(g, bands, f):
    """Average over selected bands of each degenerate set (axis -1 is the band)."""
    out = np.array(g)
    for s in degenerate(f):
        x = [i for i, b in enumerate(bands) if b in s]
        if x:
            out[..., x] = np.mean(g[..., x], axis=-1, keepdims=True)
    return out


def gauss(x, s):
    return np.exp(-x ** 2 / 2 / s ** 2) / np.sqrt(2 * np.pi) / s


def weights(pp, ftrip, x, sigma, scut):
    """Energy weights of the two terms, shape (2, triplets, points, nb, nb)."""
    if sigma is not None and scut is None:
        a = ftrip[:, 1][:, None, :, None]
        b = ftrip[:, 2][:, None, None, :]
        x = np.array(x)[None, :, None, None]
        return np.array([gauss(x - a - b, sigma), gauss(x + a - b, sigma) - gauss(x - a + b, sigma)])
    from phono3py.phonon3.triplets import get_triplets_integration_weights
    g = get_triplets_integration_weights(pp, np.array(x, dtype="double"), sigma, scut)[0]
    return np.array(g[:2])


def golden(v2, ftrip, g, temp, cut, sign=-1):
    """Triplet contributions (without weights) in THz."""
    ok = (ftrip[:, 1] > cut)[:, None, :, None] & (ftrip[:, 2] > cut)[:, None, None, :]
    n2 = ref3.bose(ftrip[:, 1], temp)[:, None, :, None]
    n3 = ref3.bose(ftrip[:, 2], temp)[:, None, None, :]
    return UNIT * v2 * np.where(ok, (n2 + n3 + 1) * g[0] + (n2 + sign * n3) * g[1], 0)


def make(case, msym):
    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, is_mesh_symmetry=bool(msym), fc=True, compact=bool(case["compact"]),
                            nac=bool(case["nac"]), use_grg=case["kind"] == "grg",
                            make_r0_average=bool(case["r0"]),
                            cutoff_frequency=1e-4 if case["cut"] is None else case["cut"])
    model.apply_grid(ph, case)
    nb = 3 * len(ph.primitive)
    bands = list(range(nb))
    if case.get("bands"):
        bands = list(dict.fromkeys(b % nb for b in case["bands"]))
        ph.band_indices = [bands]
    ph.sigmas = case["sig"]
    if case["scut"] is not None and case["op"] == "rta":
        ph.sigma_cutoff = case["scut"]
    ph.init_phph_interaction(constant_averaged_interaction=case.get("const"), symmetrize_fc3q=bool(case["symq"]),
                             openmp_per_triplets=case["omp"])
    return c, ph, nb, bands


def check(case):
    c, ph, nb, bands = make(case, case["msym"])
    pp = ph.phph_interaction
    bz = pp.bz_grid
    q = gridref.qpoints(bz)
    ngrid = len(bz.grg2bzg)
    if ngrid > 130:
        raise Reject("too big")
    gps = [int(bz.gp_Gamma) if x < 0 else (7 * x + 5) % len(q) for x in case["gps"]]
    temps = [float(t) for t in case["temps"]]
    cut = 1e-4 if case["cut"] is None else case["cut"]
    op = case["op"]
    labels = [op, case["kind"], "r0" if case["r0"] else "first-atom"]
    tr = None if case.get("const") else ref3.FC3Transform(ph.supercell, ph.primitive, np.array(ph.fc3))
    pp.run_phonon_solver()
    ntrip = 0
    for gp in gps:
        pp.set_grid_point(gp)
        ntrip += len(pp.get_triplets_at_q()[0])
    if ntrip * (1 + 5 * case["symq"] + case["r0"]) > 250 or ntrip * nb ** 3 > 60000:
        raise Reject("too big")
    fpts = None
    kw = {}
    scut = None
    with contextlib.redirect_stdout(io.StringIO()):
        if op == "api":
            kw = dict(keep_gamma_detail=bool(case["detail"]), scattering_event_class=case["cls"])
            if "batch" in case:
                if "fpts" in case:
                    kw["frequency_points"] = case["fpts"]
                elif "nfp" in case:
                    kw["num_frequency_points"] = case["nfp"]
                else:
                    kw["frequency_step"] = case["fstep"]
                kw["num_points_in_batch"] = case["batch"]
            else:
                kw["frequency_points_at_bands"] = True
            out = ph.run_imag_self_energy(gps, temps, **kw)
            got = np.array(out[1])
            det = out[2] if case["detail"] else None
            fpts = out[0]
            if "batch" in case:
                f0 = pp.get_phonons()[0]
                if "fpts" in case:
                    exp = np.array(case["fpts"])
                else:
                    sg = [s for s in case["sig"] if s]
                    fmax = (f0.max() * 2 + (4 * max(sg) if sg else 0)) * 1.005
                    exp = np.linspace(0, fmax, case["nfp"]) if "nfp" in case else np.arange(0, fmax, case["fstep"])
                if not case["nac"]:
                    close(fpts, exp, "frequency points", rtol=1e-9)
                labels.append("points")
            else:
                require(fpts is None, "frequency points returned for run at bands")
                labels.append("at-bands")
            if case["cls"]:
                labels.append(f"class{case['cls']}")
        elif op == "rta":
            scut = case["scut"]
            gps = list(dict.fromkeys(gps))
            ph.run_thermal_conductivity(temperatures=temps, grid_points=gps, is_full_pp=case["rta"] == "full",
                                        is_N_U=bool(case["nu"]))
            tc = ph.thermal_conductivity
            got = np.array(tc.gamma)
            det = None
            labels += [case["rta"]] + ["N-U"] * case["nu"] + ["sigma-cutoff"] * (scut is not None)
            nu = [np.array(x) for x in tc.get_gamma_N_U()] if case["nu"] else None
            require(list(map(int, tc.grid_points)) == gps, "grid points of conductivity differ from request")
        else:
            from phono3py.phonon3.imag_self_energy import ImagSelfEnergy
            scut = case["scut"]
            lang = case["lang"]
            if lang == "Python":
                # the Python transform handles plain settings only
                if case["r0"] or case["symq"] or case["compact"] or case["kind"] == "grg" or ntrip * nb ** 3 > 3000 \
                        or case.get("const"):
                    lang = "C"
            wd = bool(case["detail"]) and lang == "C"
            ise = ImagSelfEnergy(pp, with_detail=wd, lang=lang)
            nf = len(case["fpts"]) if "fpts" in case else None
            shape = (len(case["sig"]), len(temps), len(gps)) + ((nf, len(bands)) if nf else (len(bands),))
            got = np.zeros(shape)
            det, nu = ([], (np.zeros(shape), np.zeros(shape))) if wd else (None, None)
            for i, gp in enumerate(gps):
                ise.set_grid_point(gp)
                dg = []
                for j, s in enumerate(case["sig"]):
                    ise.set_sigma(s, sigma_cutoff=scut)
                    ise.frequency_points = case["fpts"] if nf else None
                    ise.run_integration_weights()
                    dt = []
                    for k, t in enumerate(temps):
                        ise.temperature = t
                        ise.run()
                        got[j, k, i] = ise.imag_self_energy
                        if wd:
                            nu[0][j, k, i], nu[1][j, k, i] = ise.get_imag_self_energy_N_and_U()
                            dt.append(np.array(ise.detailed_imag_self_energy))
                    dg.append(dt)
                if wd:
                    det.append(np.array(dg))
            if nf:
                fpts = case["fpts"]
                got = np.moveaxis(got, -1, 3)
                nu = None if nu is None else [np.moveaxis(x, -1, 3) for x in nu]
            labels += [lang, "points" if nf else "at-bands"]
    shape = (len(case["sig"]), len(temps), len(gps), len(bands)) + (() if fpts is None else (len(fpts),))
    require(got.shape == shape, f"shape of gamma {got.shape} != {shape}")
    if det is not None:
        require(len(det) == len(gps), f"{len(det)} detailed arrays for {len(gps)} grid points")
        labels.append("detail")
    cls = case["cls"] if op == "api" else None
    nt = False
    f0 = np.array(pp.get_phonons()[0])
    for i, gp in enumerate(gps):
        pp.set_grid_point(gp)
        freqs, vecs, _ = pp.get_phonons()
        trip, w = [np.array(x) for x in pp.get_triplets_at_q()[:2]]
        ft = freqs[trip]
        if case["nac"] and gp != int(bz.gp_Gamma) and "batch" in case and "fpts" not in case:
            pass
        if np.any(np.abs(ft - cut) < 1e-6):
            raise Reject("a mode at the cutoff frequency")
        low = min(np.abs(f[f > cut]).min() if (f > cut).any() else 1.0 for f in ft)
        if low < 1e-3:
            raise Reject("a mode with almost zero frequency above the cutoff")
        if tr is None:
            v2 = np.full((len(trip), len(bands), nb, nb), case["const"] / ngrid)
        else:
            unit = float(pp.unit_conversion_factor)
            v2 = np.array([tr.strength(q[t], freqs[t], vecs[t], cut, bool(case["r0"]), bool(case["symq"]))[bands]
                           for t in trip]) * unit
        isn = ~np.any(np.array(bz.addresses)[trip].sum(axis=1), axis=1)
        for j, s in enumerate(case["sig"]):
            x = freqs[gp][bands] if fpts is None else fpts
            g = weights(pp, ft, x, s, scut)
            if cls:
                g[cls - 1] = 0
            for k, t in enumerate(temps):
                if fpts is None:
                    dd = golden(v2, ft, g, t, cut)
                    ref = np.einsum("t,tbxy->b", w, dd)
                    refn = np.einsum("t,tbxy->b", w * isn, dd)
                    scale = np.einsum("t,tbxy->b", w, golden(v2, ft, np.abs(g), t, cut, 1)).max()
                else:
                    dd = np.array([golden(v2, ft, g[:, :, [m]], t, cut) for m in range(len(x))])
                    ref = np.einsum("t,mtbxy->mb", w, dd)
                    refn = np.einsum("t,mtbxy->mb", w * isn, dd)
                    scale = max(np.einsum("t,tbxy->b", w, golden(v2, ft, np.abs(g[:, :, [m]]), t, cut, 1)).max()
                                for m in range(len(x)))
                rt = 2e-5 + (4e-6 * np.abs(ft).max() * ref3.THZEV / (ref3.KBEV * t) if t > 0 else 0)
                where = f"gamma at grid point {gp}, sigma {s}, T {t}"
                at = (1e-10 + 0.1 * rt) * scale + 1e-25

                def post(r):
                    r = average(r, bands, freqs[gp])
                    return r if fpts is None else r.T

                close(got[j, k, i], post(ref), where, rtol=rt, atol=at, sig="gamma")
                if op in ("rta", "object") and nu is not None:
                    close(nu[0][j, k, i], post(refn), "Normal part of " + where, rtol=rt, atol=at,
                          sig="Normal part")
                    close(nu[1][j, k, i], post(ref - refn), "Umklapp part of " + where, rtol=rt, atol=at + 1e-8 * scale,
                          sig="Umklapp part")
                if det is not None:
                    close(np.array(det[i])[j, k], dd, "triplet resolved " + where, rtol=rt,
                          atol=at, sig="triplet resolved gamma")
                nt = nt or np.count_nonzero(np.abs(ref) > 1e-12) > 0
    # the same without mesh symmetry: the sum over all triplets of the grid
    if case["twin"] and case["msym"] and not case.get("bands") and not case["nac"] and scut is None \
            and all(case["sig"]) and op == "api" and fpts is None:
        ph2 = make(case, 0)[1]
        g2 = ph2.run_imag_self_energy(gps, temps, frequency_points_at_bands=True,
                                      scattering_event_class=case["cls"])[1]
        if np.abs(ph2.phph_interaction.get_phonons()[0] - f0).max() < 1e-4:
            close(got, g2, "gamma with and without mesh symmetry", rtol=1e-4, sig="mesh symmetry")
            labels.append("nosym-twin")
    labels += ["bands"] if case.get("bands") else []
    labels += ["const"] if case.get("const") else []
    labels += ["sym-q"] if case["symq"] else []
    labels += ["tetra"] if None in case["sig"] else []
    labels += ["smear"] if any(case["sig"]) else []
    return dict(nontrivial=bool(nt), labels=labels)
