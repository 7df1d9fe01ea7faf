"""C12: real self-energy and spectral function."""
import contextlib
import glob
import io
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, ref3
from pbt.core import Reject, close, require, same
from pbt.props import c11

ints = st.integers


@st.composite
def strategy_(draw):
    op = draw(st.sampled_from(["rse", "rse", "rse", "spectral", "spectral", "kk"]))
    if op == "kk":
        return dict(op=op, n=draw(ints(20, 400)), fmax=draw(ints(5, 60)), amp=draw(ints(1, 20)),
                    peaks=draw(st.lists(st.tuples(ints(10, 90), ints(3, 30)).map(list), min_size=1, max_size=3)))
    d = dict(op=op, crystal=draw(model.crystals(neg=True, sc="sym", size=10, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 5)))
    if op == "rse" and draw(ints(0, 4)) == 4:  # the slow Python implementation: small, plain settings
        d["lang"] = "Python"
        if d["kind"] == "grg":
            d.update(kind="iso", mesh=[3, 3, 3])
    d["msym"] = draw(ints(0, 3)) and 1
    d["gps"] = draw(st.lists(ints(-20, 200), min_size=1, max_size=3))
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 1, 30, 100, 301.5, 1000]), min_size=1, max_size=3))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["r0"] = 0 if "lang" in d else draw(ints(0, 1))
    d["symq"] = 0
    d["compact"] = 0 if "lang" in d else draw(ints(0, 1))
    d["omp"] = None
    d["nac"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["scut"] = None
    if draw(ints(0, 2)) == 2:
        d["bands"] = draw(st.lists(ints(0, 14), min_size=1, max_size=4))
        d["split"] = draw(ints(0, 1))
    d["sig"] = draw(st.lists(st.sampled_from([None, 0.05, 0.1, 0.3, 1.0]), min_size=1, max_size=2))
    d["log"] = draw(ints(0, 1))
    d["write"] = draw(ints(0, 3))
    if op == "rse":
        d["eps"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.1, 0.01, 0.5, 0.05, None]), min_size=1,
                                                      max_size=3)))
        k = 3 if "lang" in d else draw(ints(0, 3))
        if k == 1:
            d["fpts"] = draw(st.lists(ints(-20, 400).map(lambda x: x / 16.0 + 0.0101), min_size=1, max_size=6))
        elif k == 2:
            d["nfp"] = draw(ints(2, 9))
        elif k == 3:
            d["lang"] = draw(st.sampled_from(["Python", "object"]))
            if draw(ints(0, 2)) == 2:
                d["fpts"] = [draw(ints(1, 200)) / 8.0 + 0.003 for _ in range(draw(ints(1, 3)))]
        d["atfreq"] = draw(ints(0, 1))
    else:
        k = draw(ints(0, 2))
        if k == 0:
            d["nfp"] = draw(ints(3, 14))
        elif k == 1:
            d["fstep"] = draw(ints(20, 60)) / 10.0
        else:
            d["uni"] = [draw(ints(3, 12)), draw(ints(5, 30)) / 10.0]
        d["batch"] = draw(st.sampled_from([None, 1, 3, 50]))
    return d


def strategy(tier):
    return strategy_()


def kk(case):
    from scipy.special import dawsn

    from phono3py.phonon3.real_self_energy import ImagToReal

    fmax, n = float(case["fmax"]), case["n"]
    f = np.linspace(0, fmax, n)
    df = f[1] - f[0]

    def im(x):
        return sum(g * case["amp"] for g in (g0(x, a, s) - g0(-x, a, s) for a, s in pk))

    def g0(x, a, s):
        return np.exp(-(x - a) ** 2 / 2 / s ** 2) / s / np.sqrt(2 * np.pi)

    pk = [(fmax * a / 120.0, max(fmax * s / 600.0, 2.2 * df)) for a, s in case["peaks"]]

    def re(x):
        # (1/pi) P int g(w)/(w - x) dw of a normalized Gaussian is -(sqrt2/(pi s)) D((x - a)/(sqrt2 s)) times ...
        t = 0
        for a, s in pk:
            h = lambda y: -np.sqrt(2) / s * dawsn(y / s / np.sqrt(2)) / np.pi  # noqa: E731
            t = t + case["amp"] * (h(x - a) - h(x + a))
        return t

    def dim(x):
        e = 1e-5 * df
        return (im(x + e) - im(x - e)) / (2 * e)

    inside = all(a + 6 * s < fmax for a, s in pk)
    i2r = ImagToReal(im(f), f)
    i2r.run(method="half_shift")
    fp, rp = np.array(i2r.frequency_points), np.array(i2r.re_part)
    close(fp, f + df / 2, "half-shifted frequency points", rtol=1e-9)
    big = np.abs(re(f)).max()
    if inside:
        close(rp, re(fp), "Kramers-Kronig transform (half shift)", rtol=0, atol=2e-3 * big)
    i2r.run()
    fp, rp = np.array(i2r.frequency_points), np.array(i2r.re_part)
    close(fp, f, "frequency points", rtol=1e-9)
    if inside:
        # leaving out the singular point misses f'(w) dw / pi
        close(rp + dim(f) * df / np.pi, re(f), "Kramers-Kronig transform (pick one)", rtol=0, atol=5e-3 * big)
    return dict(nontrivial=inside, labels=["kk"])


def principal(gam, f):
    """Discrete Kramers-Kronig sum of an odd function, leaving out the singular point."""
    x = np.concatenate([-f[::-1][:-1], f])
    y = np.concatenate([-gam[::-1][:-1], gam])
    out = []
    for w in f:
        m = np.abs(x - w) > 1e-9
        out.append(np.sum(y[m] / (x[m] - w)) * (f[1] - f[0]) / np.pi)
    return np.array(out)


def real_part(v2, w, ft, x, temp, eps, cut):
    """Principal-value sum; x: one frequency per band of v2 (b,) -> (b,)."""
    ok = (ft[:, 1] > cut)[:, None, :, None] & (ft[:, 2] > cut)[:, None, None, :]
    a = ft[:, 1][:, None, :, None]
    b = ft[:, 2][:, None, None, :]
    n2, n3 = ref3.bose(a, temp), ref3.bose(b, temp)
    x = np.array(x, dtype=float)[None, :, None, None]

    def p(z):
        return z / (z ** 2 + eps ** 2)

    s = (n2 + n3 + 1) * (p(x - a - b) - p(x + a + b)) + (n2 - n3) * (p(x + a - b) - p(x - a + b))
    r = np.einsum("t,tbxy->b", w, np.where(ok, s * v2, 0))
    return c11.UNIT / np.pi * np.where(x[0, :, 0, 0] < cut, 0, r)


def check(case):
    if case["op"] == "kk":
        return kk(case)
    c, ph, nb, bands = c11.make(case, case["msym"])
    if case.get("bands") and case.get("split") and len(bands) > 1:
        ph.band_indices = [bands[:1], bands[1:]]
        ph.init_phph_interaction()
    groups = [list(map(int, b)) for b in ph.band_indices]
    ph._log_level = 0
    pp = ph.phph_interaction
    bz = pp.bz_grid
    q = gridref.qpoints(bz)
    if len(bz.grg2bzg) > 130:
        raise Reject("too big")
    gps = list(dict.fromkeys(int(bz.gp_Gamma) if x < 0 else (7 * x + 5) % len(q) for x in case["gps"]))
    temps = [float(t) for t in case["temps"]]
    cut = 1e-4 if case["cut"] is None else case["cut"]
    tr = ref3.FC3Transform(ph.supercell, ph.primitive, np.array(ph.fc3))
    pp.run_phonon_solver()
    if np.max(pp.get_phonons()[0]) < case.get("fstep", 0.1):
        raise Reject("a single frequency point")
    ntrip = 0
    for gp in gps:
        pp.set_grid_point(gp)
        ntrip += len(pp.get_triplets_at_q()[0])
    if ntrip * (1 + case["r0"]) > 250 or ntrip * nb ** 3 > 60000:
        raise Reject("too big")
    op = case["op"]
    labels = [op, case["kind"]]
    for f in glob.glob("*.hdf5") + glob.glob("*.dat"):
        os.remove(f)
    fpts, eps = None, None
    spf = None
    lang = case.get("lang", "C")
    with contextlib.redirect_stdout(io.StringIO()):
        if op == "rse" and lang == "C":
            kw = {}
            if "fpts" in case:
                kw["frequency_points"] = case["fpts"]
            elif "nfp" in case:
                kw["num_frequency_points"] = case["nfp"]
            else:
                kw["frequency_points_at_bands"] = True
            out = ph.run_real_self_energy(gps, temps, epsilons=case["eps"], write_hdf5=bool(case["write"] & 1), **kw)
            fpts, got = out[0], np.array(out[1])
            raw = case["eps"]
            if raw is None:  # the smearing widths are used
                raw = case["sig"][1:] if case["sig"][0] is None else case["sig"]
            eps = [0.05 if e is None else e for e in (raw or [None])]
            labels += ["at-bands" if fpts is None else "points"]
        elif op == "rse":
            from phono3py.phonon3.real_self_energy import RealSelfEnergy
            if case["r0"] or case["compact"] or case["kind"] == "grg" or ntrip * nb ** 3 > 6000:
                lang = "C"
            if lang == "object":
                lang = "C"
            eps = [0.05 if e is None else e for e in (case["eps"] or [None])]
            rse = RealSelfEnergy(pp, lang=lang)
            fpts = case.get("fpts")
            if fpts:
                rse.frequency_points = fpts
            got = np.zeros((len(eps), len(temps), len(gps), len(bands)) + ((len(fpts),) if fpts else ()))
            for i, gp in enumerate(gps):
                rse.grid_point = gp
                for j, e in enumerate(case["eps"] or [None]):
                    rse.epsilon = e
                    for k, t in enumerate(temps):
                        rse.temperature = t
                        rse.run()
                        got[j, k, i] = rse.real_self_energy.T
            labels += [lang, "object"]
        else:
            kw = {}
            if "nfp" in case:
                kw["num_frequency_points"] = case["nfp"]
            elif "fstep" in case:
                kw["frequency_step"] = case["fstep"]
            else:
                kw["frequency_points"] = np.arange(case["uni"][0]) * case["uni"][1]
            if case["log"]:
                ph._log_level = 1
            ph.run_spectral_function(gps, temps, num_points_in_batch=case["batch"], write_txt=bool(case["write"] & 1),
                                     write_hdf5=bool(case["write"] & 2), **kw)
            ph._log_level = 0
            spf = ph.spectral_function if hasattr(ph, "spectral_function") else ph._spectral_function
            fpts = np.array(spf.frequency_points)
            if len(fpts) < 2:
                raise Reject("a single frequency point")
            require(fpts[0] == 0, "frequency points of the spectral function")
            labels += ["log"] * case["log"]
    f0 = np.array(pp.get_phonons()[0])
    if "nfp" in case or "fstep" in case:
        if not case["nac"]:
            sg = [s for s in (case["sig"] if op == "spectral" else raw) if s]
            fmax = (f0.max() * 2 + (4 * max(sg) if sg else 0)) * 1.005
            exp = np.linspace(0, fmax, case["nfp"]) if "nfp" in case else np.arange(0, fmax, case["fstep"])
            close(fpts, exp, "frequency points", rtol=1e-9)
    if op == "spectral":
        shape = (len(case["sig"]), len(temps), len(gps), len(bands), len(fpts))
        gam, dlt, spc = (np.array(x) for x in (spf.half_linewidths, spf.shifts, spf.spectral_functions))
        for nm, x in (("half linewidths", gam), ("shifts", dlt), ("spectral functions", spc)):
            require(x.shape == shape, f"shape of {nm} {x.shape} != {shape}")
    else:
        shape = (len(eps), len(temps), len(gps), len(bands)) + (() if fpts is None else (len(fpts),))
        require(got.shape == shape, f"shape {got.shape} != {shape}")
    nt = False
    for i, gp in enumerate(gps):
        pp.set_grid_point(gp)
        freqs, vecs, _ = pp.get_phonons()
        trip, w = [np.array(x) for x in pp.get_triplets_at_q()[:2]]
        ft = freqs[trip]
        if np.any(np.abs(ft - cut) < 1e-6):
            raise Reject("a mode at the cutoff frequency")
        low = min(np.abs(f[f > cut]).min() if (f > cut).any() else 1.0 for f in ft)
        if low < 1e-3:
            raise Reject("a mode with almost zero frequency above the cutoff")
        v2 = np.array([tr.strength(q[t], freqs[t], vecs[t], cut, bool(case["r0"]))[bands] for t in trip]) \
            * float(pp.unit_conversion_factor)
        if op == "rse":
            for j, e in enumerate(eps):
                for k, t in enumerate(temps):
                    rt = 2e-5 + (4e-6 * np.abs(ft).max() * ref3.THZEV / (ref3.KBEV * t) if t > 0 else 0)
                    if fpts is None:
                        ref = real_part(v2, w, ft, freqs[gp][bands], t, e, cut)
                    else:
                        ref = np.array([real_part(v2, w, ft, [x] * len(bands), t, e, cut) for x in fpts])
                    # terms of both signs add up: tolerance relative to the size of the terms
                    ok = (ft > cut)
                    big = c11.UNIT / np.pi * np.sum(w[:, None, None, None] * v2) * (
                        2 * ref3.bose(max(ft[ok].min() if ok.any() else 1, cut), t) + 1) / e
                    ref = c11.average(ref, bands, freqs[gp])
                    ref = ref if fpts is None else ref.T
                    if fpts is None and np.any(np.abs(freqs[gp][bands] - cut) < 1e-6):
                        continue
                    close(got[j, k, i], ref, f"real self-energy at grid point {gp}, epsilon {e}, T {t}", rtol=rt,
                          atol=1e-8 * big + 1e-25, sig="real self-energy")
                    nt = nt or np.abs(ref).max() > 1e-12
            continue
        isn = np.ones(len(w))
        for j, s in enumerate(case["sig"]):
            g = c11.weights(pp, ft, fpts, s, None)
            for k, t in enumerate(temps):
                rt = 2e-5 + (4e-6 * np.abs(ft).max() * ref3.THZEV / (ref3.KBEV * t) if t > 0 else 0)
                ref = np.array([np.einsum("t,tbxy->b", w * isn, c11.golden(v2, ft, g[:, :, [m]], t, cut))
                                for m in range(len(fpts))])
                big = max(np.einsum("t,tbxy->b", w, c11.golden(v2, ft, np.abs(g[:, :, [m]]), t, cut, 1)).max()
                          for m in range(len(fpts)))
                where = f"at grid point {gp}, sigma {s}, T {t}"
                close(gam[j, k, i], c11.average(ref, bands, freqs[gp]).T, "half linewidths " + where, rtol=rt,
                      atol=(1e-10 + 0.1 * rt) * big + 1e-25, sig="half linewidths")
                for b in range(len(bands)):
                    gb = gam[j, k, i, b]
                    d = -principal(gb, fpts)
                    close(dlt[j, k, i, b], d, "Kramers-Kronig shift " + where, rtol=1e-8, atol=1e-8 * np.abs(gb).max() + abs(gb[0]),
                          sig="Kramers-Kronig shift")
                    om = freqs[gp][bands[b]]
                    d = dlt[j, k, i, b]
                    den = (fpts ** 2 - om ** 2 - 2 * om * d) ** 2 + (2 * om * gb) ** 2
                    with np.errstate(all="ignore"):
                        a = np.where(den > 0, 4 * om ** 2 * gb / np.pi / den, 0)
                    # near the pole the quotient is ill conditioned
                    ok = den > 1e-8 * np.maximum(fpts, abs(om)) ** 4
                    if den.max() > 1e-30:
                        close(np.where(ok, spc[j, k, i, b], 0), np.where(ok, a, 0), "spectral function " + where,
                              rtol=1e-4, atol=1e-20, sig="spectral function")
                nt = nt or np.abs(gam[j, k, i]).max() > 1e-12
    if op == "spectral" and case["write"] & 2:
        import h5py
        files = sorted(glob.glob("spectral*.hdf5"))
        require(len(files) == len(gps) * len(set(case["sig"])), f"{len(files)} files of spectral functions for {len(gps)} "
                f"grid points and sigmas {case['sig']}", sig="spectral files")
        for f in files:
            with h5py.File(f, "r") as h:
                i = gps.index(int(h["grid_point"][()]))
                same(np.ravel(h["band_index"][:]), bands, f"band indices in {f}", sig="band indices in spectral file")
                s = [j for j, x in enumerate(case["sig"]) if (("-s%g." % x) in f or ("-s%g.hdf5" % x) in f if x is not None else "-s" not in f)]
                require(len(s) > 0, f"sigma of {f}")
                same(h["spectral_function"][:], spc[s[-1], :, i], f"spectral function in {f}", sig="spectral file")
                same(h["half_linewidth"][:], gam[s[-1], :, i], f"half linewidth in {f}", sig="spectral file")
                same(h["shift"][:], dlt[s[-1], :, i], f"shift in {f}", sig="spectral file")
                same(h["frequency_point"][:], fpts, f"frequency points in {f}", sig="spectral file")
                same(h["temperature"][:], temps, f"temperatures in {f}", sig="spectral file")
                same(h["frequency"][:], f0[gps[i]] if not case["nac"] else h["frequency"][:], f"frequencies in {f}")
        labels.append("hdf5")
    if op == "rse" and case["write"] & 1 and lang == "C" and "lang" not in case:
        import h5py
        for f in glob.glob("deltas*.hdf5"):
            with h5py.File(f, "r") as h:
                i = gps.index(int(h["grid_point"][()]))
                j = [a for a, e in enumerate(eps) if abs(e - h["epsilon"][()]) < 1e-9][-1]
                same(h["delta"][:], got[j, :, i], f"deltas in {f}", sig="deltas file")
        labels.append("hdf5")
    labels += ["bands"] if case.get("bands") else []
    labels += ["band-groups"] if len(groups) > 1 else []
    return dict(nontrivial=bool(nt), labels=labels)
