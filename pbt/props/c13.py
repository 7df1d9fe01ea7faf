"""C13: joint density of states."""
import contextlib
import glob
import io
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons, ref3
from pbt.core import Reject, close, require
from pbt.props import c11

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=16, psc=False, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 1, 6)))
    d["gps"] = draw(st.lists(ints(-40, 200), min_size=1, max_size=3))
    d["msym"] = draw(ints(0, 2)) and 1
    d["temps"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([300, 0, 1, 30, 100, 301.5, 1000]), min_size=1,
                                                    max_size=3)))
    d["sig"] = draw(st.lists(st.sampled_from([None, 0.1, 0.3, 1.0, 0.05]), min_size=1, max_size=2))
    d["cut"] = draw(st.sampled_from([None, None, 0.01, 0.5, 2.0]))
    d["nac"] = draw(ints(0, 2)) == 2 and 1 or 0
    if d["nac"] and draw(ints(0, 2)):
        d["dir"] = draw(st.sampled_from([[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 2, 3]]))
    d["nfp"] = draw(ints(2, 12))
    if draw(ints(0, 3)) == 3:
        d["fstep"] = draw(ints(10, 60)) / 10.0
    d["batch"] = draw(st.sampled_from([None, 1, 2, 3, 50]))
    d["write"] = draw(ints(0, 1))
    d["scale"] = None if d["nac"] else draw(st.sampled_from([None, None, 0.5, 1.7]))
    d["factor"] = draw(st.sampled_from([None, None, None, 10.0]))
    d["lang"] = draw(st.sampled_from(["api", "api", "api", "api", "Py"]))
    d["again"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    return d


def strategy(tier):
    return strategy_()


def check(case):
    from phono3py import Phono3pyJointDos
    from phono3py.phonon3.joint_dos import JointDos

    from phono3py.phonon3.triplets import get_nosym_triplets_at_q

    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, fc=False, nac=bool(case["nac"]))
    nac = None
    if case["nac"]:
        nac = c.born(ph.primitive)
        nac["method"] = "wang"
        ph.nac_params = nac
    model.set_fc(ph, c, compact=bool(case["compact"]), fc3=False)
    mesh = case["mesh"] if case["kind"] != "grg" else min(case["len"], (ph.primitive.volume * 60) ** (1.0 / 3))
    temps = case["temps"]
    kw = dict(frequency_step=case["fstep"]) if "fstep" in case else dict(num_frequency_points=case["nfp"])
    if case["factor"]:
        kw["frequency_factor_to_THz"] = case["factor"]
    for f in glob.glob("jdos*.dat"):
        os.remove(f)
    cut = 1e-4 if case["cut"] is None else case["cut"]
    try:
        jd = Phono3pyJointDos(ph.phonon_supercell, ph.phonon_primitive, ph.fc2, mesh=mesh, nac_params=ph.nac_params,
                              nac_q_direction=case.get("dir"), sigmas=case["sig"], cutoff_frequency=cut,
                              num_points_in_batch=case["batch"], temperatures=temps,
                              frequency_scale_factor=case["scale"], use_grg=case["kind"] == "grg",
                              is_mesh_symmetry=bool(case["msym"]), **kw)
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("mesh breaks the symmetry and was refused")
        raise
    bz = jd.grid
    q = gridref.qpoints(bz)
    n = len(bz.grg2bzg)
    if n > 220 or n * (3 * len(ph.primitive)) ** 2 > 20000:
        raise Reject("too big")
    gam = int(bz.gp_Gamma)
    gps = [gam if x < 0 else (7 * x + 5) % len(q) for x in case["gps"]]
    # phonons at every point of the grid, by an independent implementation
    dm = phonons.Harmonic(ph.phonon_supercell, ph.phonon_primitive, c.potential(ph.phonon_supercell).fc2(), nac=nac)
    fac = (case["factor"] or phonons.THZ) * (case["scale"] or 1.0)
    f0 = dm.frequencies(q, factor=fac)[0]
    if f0.max() < 0.5 or ("fstep" in case and f0.max() * 2 < case["fstep"]):
        raise Reject("no frequency range")
    if temps is not None and np.any(np.abs(f0 - cut) < 1e-5):
        raise Reject("a mode at the cutoff frequency")
    f0 = np.where(np.abs(f0) < 1e-5, 0, f0)
    labels = [case["kind"], case["lang"], "weighted" if temps else "unweighted"]
    sg = [s for s in case["sig"] if s]
    fmax = (f0.max() * 2 + (4 * max(sg) if sg else 0)) * 1.005
    exp = np.arange(0, fmax, case["fstep"]) if "fstep" in case else np.linspace(0, fmax, case["nfp"])
    nt = False
    jlow = JointDos(ph.phonon_primitive, ph.phonon_supercell, bz, ph.fc2, nac_params=ph.nac_params,
                   cutoff_frequency=cut, frequency_scale_factor=case["scale"], is_mesh_symmetry=bool(case["msym"]),
                   **({"frequency_factor_to_THz": case["factor"]} if case["factor"] else {}))
    order = [gps] if not case["again"] else [gps, gps[::-1]]
    for run_gps in order:
        with contextlib.redirect_stdout(io.StringIO()):
            jd.run(run_gps, write_jdos=bool(case["write"]))
        fpts, out = np.array(jd.frequency_points), np.array(jd.joint_dos)
        if len(fpts) == len(exp) + 1 or len(fpts) == len(exp) - 1 and "fstep" in case:
            raise Reject("step at the end of the range")
        close(fpts, exp, "frequency points", rtol=1e-6)
        shape = (len(case["sig"]), len(temps) if temps else 1, len(fpts), 2)
        require(out.shape == shape, f"shape of joint dos {out.shape} != {shape}")
        last = run_gps[-1]
        for gp in dict.fromkeys(run_gps):
            f = f0.copy()
            if gp == gam and case.get("dir"):
                f[gam] = dm.frequencies(q[gam:gam + 1], case["dir"], fac)[0][0]
                if temps is not None and np.any(np.abs(f[gam] - cut) < 1e-5):
                    continue
                labels.append("q-direction")
            trip, w = get_nosym_triplets_at_q(gp, bz)[:2]
            ft = f[np.array(trip)]
            a, b = ft[:, 1][:, :, None], ft[:, 2][:, None, :]
            for j, s in enumerate(case["sig"]):
                tetra = None
                if s is None:
                    if gp != last:
                        continue
                    tetra = tetra_weights(jlow, gp, fpts, case.get("dir") if gp == gam else None)
                    close(np.array(jlow.get_phonons()[0]), f, f"phonons for the joint dos at {gp}", rtol=0, atol=5e-4)
                for k, t in enumerate(temps or [None]):
                    ref = np.zeros((len(fpts), 2))
                    ok = np.ones(a.shape[:1] + (a.shape[1], b.shape[2]), dtype=bool)
                    if t is None:
                        w1 = w2 = 1.0
                    else:
                        n2, n3 = ref3.bose(a, t), ref3.bose(b, t)
                        ok = (a > cut) & (b > cut)
                        w2, w1 = n2 + n3 + 1, n2 - n3
                    for m, x in enumerate(fpts):
                        if s is None:
                            g2, gp_, gm_, wt, ff = tetra[0][:, m], tetra[1][:, m], tetra[2][:, m], tetra[3], tetra[4]
                            aa, bb = ff[:, 1][:, :, None], ff[:, 2][:, None, :]
                            okk, v1, v2 = np.ones(aa.shape[:1] + (aa.shape[1],) * 2, bool), 1.0, 1.0
                            if t is not None:
                                okk = (aa > cut) & (bb > cut)
                                m2, m3 = ref3.bose(aa, t), ref3.bose(bb, t)
                                v2, v1 = m2 + m3 + 1, m2 - m3
                                g1 = gp_ - gm_
                            else:
                                g1 = gp_ + gm_
                            ref[m] = [np.einsum("t,txy->", wt, np.where(okk, v1 * g1, 0)),
                                      np.einsum("t,txy->", wt, np.where(okk, v2 * g2, 0))]
                        else:
                            g2 = c11.gauss(x - a - b, s)
                            g1 = (c11.gauss(x + a - b, s) + c11.gauss(x - a + b, s)) if t is None else \
                                (c11.gauss(x + a - b, s) - c11.gauss(x - a + b, s))
                            ref[m] = [np.sum(np.where(ok, w1 * g1, 0)), np.sum(np.where(ok, w2 * g2, 0))]
                    ref /= n
                    where = f"joint dos at grid point {gp}, sigma {s}, T {t}"
                    rt = 1e-5 + (4e-6 * np.abs(f).max() * ref3.THZEV / (ref3.KBEV * t) if t else 0)
                    # noise of frequencies (~1e-6) on Gaussians and occupations
                    at = (rt + (3e-5 / s if s else 0)) * np.abs(ref).max() + 1e-12
                    low = f[(f > cut)].min() if (f > cut).any() else 1.0
                    if t:
                        at *= 1 + 1e-2 / low
                    if gp == last:
                        close(out[j, k], ref, where, rtol=0, atol=at, sig="joint dos")
                        nt = nt or np.count_nonzero(ref) > 0
                    if case["write"] and s is not None and n > 1:
                        read(bz, gp, s, t, case, ref, at, fpts)
                if t is None and s is not None and gp == last:
                    labels.append("smear")
                if s is None:
                    labels.append("tetra")
    # class 2 integrates to the number of band pairs (smearing, all modes with real frequencies)
    if temps is None and n <= 100 and len(ph.primitive) < 4:
        nb = f0.shape[1]
        for s in [x for x in case["sig"] if x]:
            x = np.linspace(2 * f0.min() - 8 * s - 1, 2 * f0.max() + 8 * s + 1, 400)
            jlow.nac_q_direction = case.get("dir") if last == gam else None
            jlow.set_grid_point(last)
            jlow.sigma, jlow.temperature, jlow.frequency_points = s, None, x
            jlow.run()
            tot = np.sum(np.array(jlow.joint_dos)[:, 1]) * (x[1] - x[0])
            if s > 5 * (x[1] - x[0]):
                close(tot, nb ** 2, "integral of class 2", rtol=1e-4)
    if case["lang"] == "Py":
        j = jlow
        j.nac_q_direction = case.get("dir") if last == gam else None
        j.set_grid_point(last)
        j.sigma, j.temperature, j.frequency_points = case["sig"][0], None if temps is None else temps[0], fpts
        res = []
        for lang in ("C", "Py"):
            j.run_phonon_solver()
            j.run_integration_weights(lang="C")
            j.run_jdos(lang=lang)
            res.append(np.array(j.joint_dos))
        close(res[1], res[0], "Python and C sums", rtol=1e-4, atol=1e-8)
    return dict(nontrivial=bool(nt), labels=sorted(set(labels)))


def tetra_weights(j, gp, fpts, qdir):
    """Weights of the three delta functions on the triplets that are used."""
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    j.nac_q_direction = qdir
    j.set_grid_point(gp)
    j.run_phonon_solver()
    trip, w = [np.array(x) for x in j.get_triplets_at_q()]
    g = get_triplets_integration_weights(j, np.array(fpts), None, None, is_collision_matrix=True)[0]
    # g[2] = g0 + (second + third); g[1] = second - third
    s = g[2] - g[0]
    return g[0], (s + g[1]) / 2, (s - g[1]) / 2, w, np.array(j.get_phonons()[0])[trip]


def read(bz, gp, s, t, case, ref, at, fpts):
    num = lambda v: ("%f" % v).rstrip("0").rstrip(".")  # noqa: E731
    name = "jdos-m%d%d%d-g%d-s%s" % (tuple(bz.D_diag) + (gp, num(s)))
    name += "" if t is None else "-t" + num(t)
    name += "" if case["msym"] else ".nosym"
    name += ".dat"
    require(os.path.exists(name), f"{name} was not written (files: {sorted(glob.glob('jdos*.dat'))})", sig="jdos file")
    d = np.loadtxt(name, ndmin=2)
    require(d.shape == (len(fpts), 3), f"shape {d.shape} in {name}", sig="jdos file")
    close(d[:, 0], fpts, f"frequency points in {name}", rtol=0, atol=1e-6, sig="jdos file")
    close(d[:, 1:], ref, f"values in {name}", rtol=0, atol=at, sig="jdos file")
