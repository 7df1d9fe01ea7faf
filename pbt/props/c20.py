"""C20: isotope and boundary scattering."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons
from pbt.core import Reject, close, require
from pbt.props import c11, c14

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=12, psc=True, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 1, 6)))
    d["route"] = draw(st.sampled_from(["api", "api", "api", "class", "run", "run", "data"]))
    d["sig"] = draw(st.lists(st.sampled_from([None, 0.1, 0.3, 1.0, 0.05, 0.01]), min_size=1, max_size=3))
    d["cut"] = draw(st.sampled_from([None, None, 0.0, 0.01, 0.5, 2.0]))
    d["gps"] = draw(st.lists(ints(0, 300), min_size=1, max_size=3))
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    d["mv"] = draw(st.lists(st.sampled_from([1, 3, 0, 10, 25]), min_size=1, max_size=4))
    d["alpha"] = draw(st.sampled_from([2.0, 0.5, 10.0, 0.0]))
    d["scale"] = None if d["nac"] else draw(st.sampled_from([None, None, 0.5, 1.7]))
    d["factor"] = draw(st.sampled_from([None, None, None, 10.0]))
    d["lang"] = draw(st.sampled_from(["C", "C", "C", "Py"]))
    if draw(ints(0, 2)) == 2:
        d["bands"] = draw(st.lists(ints(0, 20), min_size=1, max_size=4))
    d["fresh"] = draw(ints(0, 1))
    # conductivity route
    d["temps"] = [300]
    d["sym"] = d["kind"] == "grg" and 1 or (draw(ints(0, 3)) != 3 and 1 or 0)
    d["msym"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["star"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["r0"] = 0
    d["scut"] = None
    d["iso"] = 0
    d["mfp"] = None
    d["lbte"] = draw(ints(0, 1))
    d["red"] = draw(ints(0, 1))
    d["iso_table"] = draw(st.lists(st.tuples(ints(0, 40), ints(0, 20)), min_size=1, max_size=4))
    return d


def strategy(tier):
    return strategy_()


def reference(f, e, gp, bands, g, weights, gr, cut):
    """Half widths in THz: pi/4 f0^2 / N sum_{k,s} sum_atom g |e0* . e|^2 delta(f - f0)."""
    nat = f.shape[1] // 3
    out = np.zeros(len(bands))
    for i, b in enumerate(bands):
        f0 = f[gp, b]
        if f0 < cut:
            continue
        e0 = e[gp][:, b].reshape(nat, 3)
        x = e[gr].reshape(len(gr), nat, 3, -1)
        ov = np.abs(np.einsum("ax,kaxs->kas", e0.conj(), x)) ** 2
        o = np.einsum("a,kas->ks", g, ov)
        d = weights(b, i)
        out[i] = np.sum(np.where(f[gr] < cut, 0, o * d))
        out[i] *= np.pi / 4 * f0 ** 2 / len(gr)
    return out


def all_weights(f, gp, bands, sigma, bz, shift=0.0):
    from phono3py.other.tetrahedron_method import get_integration_weights
    gr = np.array(bz.grg2bzg)
    if sigma is not None:
        return lambda b, i: c11.gauss(f[gr] - f[gp, b], sigma)
    x = np.array(f[gp, bands] + shift, dtype="double", order="C")
    w = get_integration_weights(x, np.array(f, order="C"), bz, grid_points=gr)
    return lambda b, i: w[:, i]


def variances(case, n):
    return np.array([case["mv"][i % len(case["mv"])] * 1e-4 for i in range(n)])


def check(case):
    case = dict(case)
    if case["route"] == "data":
        return data(case)
    if case["route"] == "run":
        return in_run(case)
    from phono3py import Phono3pyIsotope
    from phono3py.other.isotope import Isotope

    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, fc=False, nac=bool(case["nac"]))
    if case["nac"]:
        nac = c.born(ph.primitive)
        nac["method"] = "wang"
        ph.nac_params = nac
    model.set_fc(ph, c, compact=bool(case["compact"]), fc3=False)
    prim, sc = ph.phonon_primitive, ph.phonon_supercell
    nb = 3 * len(prim)
    mesh = case["mesh"] if case["kind"] != "grg" else min(case["len"], (prim.volume * 60) ** (1.0 / 3))
    mv = variances(case, len(prim))
    bands = list(range(nb)) if "bands" not in case else list(dict.fromkeys(b % nb for b in case["bands"]))
    cut = 0.0 if case["cut"] is None else case["cut"]
    kw = dict(band_indices=None if "bands" not in case else bands, use_grg=case["kind"] == "grg", cutoff_frequency=case["cut"])
    if case["factor"]:
        kw["frequency_factor_to_THz"] = case["factor"]
    init = dict(nac_params=ph.nac_params, frequency_scale_factor=case["scale"])
    try:
        iso = Isotope(mesh, prim, mass_variances=mv, **kw)
    except RuntimeError as ex:
        if "Grid symmetry is broken" in str(ex):
            raise Reject("grid refused")
        raise
    iso.init_dynamical_matrix(ph.fc2, sc, prim, **init)
    bz = iso.bz_grid
    ng = len(bz.grg2bzg)
    if ng > 220 or ng * nb ** 2 > 40000:
        raise Reject("too big")
    q = gridref.qpoints(bz)
    gps = [(7 * x + 5) % len(q) for x in case["gps"]]
    gps = gps + [int(bz.gp_Gamma)] if case["gps"][0] % 5 == 4 else gps
    fac = (case["factor"] or phonons.THZ) * (case["scale"] or 1.0)
    dm = phonons.Harmonic(sc, prim, c.potential(sc).fc2(), nac=ph.nac_params)
    fr = dm.frequencies(q, factor=fac)[0]
    iso.set_grid_point(gps[0])
    iso.run()
    f, e, done = [np.array(x) for x in iso.get_phonons()]
    require(done.all(), "phonons of all grid points are there")
    close(f, fr, "frequencies", rtol=0, atol=2e-3 * fac / phonons.THZ)
    if np.any(np.abs(f - cut) < 1e-5) and cut > 0:
        raise Reject("a mode at the cutoff frequency")
    # eigenvectors belong to the independent dynamical matrix
    D = dm.dynmat(q)
    lam = np.sign(f) * (f / fac) ** 2
    res = np.einsum("kij,kjs->kis", D, e) - e * lam[:, None, :]
    close(res, np.zeros_like(res), "eigenvectors", rtol=0, atol=1e-6 * max(1, np.abs(lam).max()))
    gr = np.array(bz.grg2bzg)
    exp = np.zeros((len(case["sig"]), len(gps), len(bands)))
    jump = np.zeros_like(exp)
    for j, s in enumerate(case["sig"]):
        for i, gp in enumerate(gps):
            exp[j, i] = reference(f, e, gp, bands, mv, all_weights(f, gp, bands, s, bz), gr, cut)
            if s is None:
                # where faces of tetrahedra have the very frequency, their weight is a matter of rounding
                for x in (1e-7, -1e-7):
                    y = reference(f, e, gp, bands, mv, all_weights(f, gp, bands, s, bz, x), gr, cut)
                    jump[j, i] = np.maximum(jump[j, i], np.abs(y - exp[j, i]))
    tie = jump > 1e-4 * np.abs(exp) + 1e-9 * np.abs(exp).max()
    labels = [case["kind"], case["route"], case["lang"], "bands" if "bands" in case else "all-bands"]

    def calc(m, lang="C"):
        if case["route"] == "api":
            o = Phono3pyIsotope(mesh, prim, mass_variances=m, sigmas=case["sig"], **kw)
            o.init_dynamical_matrix(ph.fc2, sc, prim, **init)
            with contextlib.redirect_stdout(io.StringIO()):
                o.run(gps, lang=lang)
            close(o.grid.addresses, bz.addresses, "grid")
            close(o.frequencies, f[gps], "frequencies at grid points", rtol=0, atol=1e-6)
            return np.array(o.gamma)
        out = np.zeros_like(exp)
        o = Isotope(mesh, prim, mass_variances=m, **kw)
        o.init_dynamical_matrix(ph.fc2, sc, prim, **init)
        if not case["fresh"]:
            o.set_phonons(f.copy(), e.copy(), np.ones(len(f), dtype="byte"))
        for j, s in enumerate(case["sig"]):
            for i, gp in enumerate(gps):
                o.sigma = s
                o.set_grid_point(gp)
                o.run(lang=lang)
                out[j, i] = o.gamma
        return out

    got = calc(mv, case["lang"] if ng * nb ** 2 < 3000 or case["lang"] == "C" else "C")
    require(got.shape == exp.shape, f"shape of gamma {got.shape} != {exp.shape}")
    for j, s in enumerate(case["sig"]):
        sc_ = np.abs(exp[j]).max()
        noise = 1e-9 if case["route"] == "class" and not case["fresh"] else 1e-6
        tol = noise + (1e-6 / s if s else 1e-6)
        # modes of almost vanishing frequency carry rounding noise only
        tol = tol * sc_ + 1e-9 * mv.max() * np.abs(f).max() + 1e-30
        close(np.where(tie[j] | (np.abs(got[j] - exp[j]) < 2 * jump[j]), exp[j], got[j]), exp[j], f"isotope linewidths with sigma {s}", rtol=1e-7, atol=tol, sig="isotope linewidth")
        if s is not None:
            require(got[j].min() >= 0, "negative isotope linewidth")
    # linear in mass variances; zero without them
    a = calc(mv * case["alpha"])
    close(a, calc(mv) * case["alpha"], "scaled mass variances", rtol=1e-9, atol=1e-30)
    one = [calc(np.where(np.arange(len(mv)) == i, mv[i], 0)) for i in range(len(mv))]
    close(sum(one), calc(mv), "sum over atoms", rtol=1e-9, atol=1e-9 * np.abs(exp).max() + 1e-30)
    z = calc(np.zeros(len(mv)))
    require(not z.any(), "linewidth without mass variance")
    return dict(nontrivial=bool(np.abs(exp).max() > 0 and ng > 1), labels=labels)


def data(case):
    """Mass variances of isotope tables and their use."""
    from phono3py.other.isotope import Isotope, get_mass_variances

    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, fc=False)
    prim = ph.phonon_primitive
    table = {}
    for i, s in enumerate(dict.fromkeys(prim.symbols)):
        rows = [(20 + m, 1 + w) for m, w in case["iso_table"][i % len(case["iso_table"]):]]
        tot = sum(w for _, w in rows)
        table[s] = [[int(m), float(m) + 0.013 * k, w / tot] for k, (m, w) in enumerate(rows)]
    part = {k: v for i, (k, v) in enumerate(table.items()) if i % 2 == 0 or case["fresh"]}
    from phonopy.structure.atoms import isotope_data
    exp = []
    for s in prim.symbols:
        t = part[s] if s in part else isotope_data[s]
        m = np.array([x[1] for x in t])
        w = np.array([x[2] for x in t])
        av = (m * w).sum()
        exp.append((w * (1 - m / av) ** 2).sum())
    close(get_mass_variances(prim, isotope_data=part), exp, "mass variances of a table", rtol=1e-10, atol=1e-14)
    close(get_mass_variances(symbols=list(prim.symbols), isotope_data=part), exp, "mass variances of symbols", rtol=1e-10, atol=1e-14)
    close(get_mass_variances(prim), get_mass_variances(symbols=list(prim.symbols)), "default mass variances", rtol=1e-12)
    close(Isotope([1, 1, 1], prim, isotope_data=part).mass_variances, exp, "mass variances of the calculation", rtol=1e-10, atol=1e-14)
    single = {s: [[12, 12.0, 1.0]] for s in prim.symbols}
    require(np.abs(get_mass_variances(prim, isotope_data=single)).max() < 1e-14, "mass variance of a single isotope")
    return dict(nontrivial=max(exp) > 0, labels=["data"])


def in_run(case):
    """Linewidths in a conductivity run and their sum."""
    c, ph = c14.build(case)
    pp = ph.phph_interaction
    bz = pp.bz_grid
    ng = len(bz.grg2bzg)
    nb = 3 * len(ph.primitive)
    if ng * ng * nb ** 3 > (1e6 if case["msym"] and case["sym"] else 3e5):
        raise Reject("too big")
    mv = variances(case, len(ph.primitive))
    kw = dict(mass_variances=mv)
    case = dict(case, iso=0)
    case["mfp"] = [None, 1.0, 0.01][case["gps"][0] % 3]
    cut = 1e-4 if case["cut"] is None else case["cut"]
    lbte = case["lbte"] and ng * nb * 3 < 300 and (not case["red"] or ng * nb < 100)
    sub = "bands" in case and not lbte
    gsel = None
    if sub:
        bands = list(dict.fromkeys(b % nb for b in case["bands"]))
        ph.band_indices = [bands]
        ph.init_phph_interaction()
    else:
        bands = list(range(nb))
    if lbte:
        kw.update(is_LBTE=True, is_reducible_collision_matrix=bool(case["red"]))
    if case["fresh"] or sub:
        gsel = [int(np.array(bz.grg2bzg)[x % ng]) for x in case["gps"]]
        if not lbte:
            kw["grid_points"] = gsel
    br = c14.run(ph, case, **kw)
    f, e = [np.array(x) for x in ph.phph_interaction.get_phonons()[:2]]
    if np.any(np.abs(f - cut) < 1e-5):
        raise Reject("a mode at the cutoff frequency")
    gps = np.array(br.grid_points)
    got = np.array(br.gamma_isotope)
    rows = np.arange(len(gps)) if not (lbte and case["red"]) else np.array(bz.bzg2grg)[gps]
    for j, s in enumerate(case["sig"]):
        for i, gp in enumerate(gps):
            x = reference(f, e, int(gp), bands, mv, all_weights(f, int(gp), bands, s, bz), np.array(bz.grg2bzg), cut)
            x = x * 1.0
            close(got[j, rows[i]], x, f"isotope linewidth at grid point {gp}, sigma {s}", rtol=1e-6,
                  atol=1e-9 * max(np.abs(got[j]).max(), 1e-20) + 1e-30, sig="isotope linewidth in a run")
    labels = ["run", "direct" if lbte else "rta", case["kind"]]
    nt = np.abs(got).max() > 0
    if not lbte and not sub and not gsel:
        # the conductivity is that of the sum
        gs = c14.total_gamma(br, dict(case, iso=1), np.array(br.group_velocities), np.array(br.gamma))
        cv, vv = np.array(br.mode_heat_capacities), np.array(br.gv_by_gv)
        ok = (np.abs(gs) > 1e-100) & (np.array(br.frequencies) >= cut)
        mk = np.where(ok, cv / np.where(ok, gs * 2, 1), 0)[..., None] * vv * c14.KAPPA * 2 / ph.primitive.volume
        skip = (gs != 0) & ~(np.abs(gs) > 1e-100)
        g = np.where(skip[..., None], 0, np.array(br.mode_kappa))
        close(g, mk, "mode conductivities of the summed linewidths", rtol=2e-6, atol=1e-18)
        labels.append("sum")
    return dict(nontrivial=bool(nt and ng > 1), labels=labels)
