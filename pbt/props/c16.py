"""C16: distributed and resumed RTA runs give the result of one run."""
import contextlib
import glob
import io
import os

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require, same
from pbt.props import c11, c14

ints = st.integers
RESULTS = {None: ("kappa", "mode_kappa"), "wigner": ("kappa_TOT_RTA", "kappa_P_RTA", "kappa_C", "mode_kappa_P_RTA"),
           "kubo": ("kappa",)}


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=8, max_atoms=3, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 4)))
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 5, 30, 100, 301.5, 1000]), min_size=1, max_size=3))
    d["mode"] = draw(st.sampled_from(["gamma"] * 6 + ["file", "file", "pp", "detail", "detail", "avepp", "missing", "missing", "temps"]))
    d["sig"] = draw(st.lists(st.sampled_from([None, 0.1, 0.05, 0.3, 1.0, 0.123456]), min_size=1, max_size=3, unique=True))
    d["scut"] = draw(st.sampled_from([None, None, 2.5, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["msym"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["sym"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["star"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["iso"] = draw(st.sampled_from([0, 0, 1, 2]))
    d["mfp"] = draw(st.sampled_from([None, None, 1.0, 0.01]))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 1))
    d["ct"] = draw(st.sampled_from([None, None, None, "wigner", "kubo"]))
    d["extra"] = draw(st.sampled_from(["", "", "nu", "full", "const", "pp"]))
    d["jobs"] = draw(st.lists(ints(0, 3), min_size=1, max_size=12))
    d["order"] = draw(ints(0, 10 ** 6))
    d["bands"] = draw(st.lists(ints(0, 9), min_size=1, max_size=8))
    d["sigsep"] = draw(ints(0, 1))
    d["fresh"] = draw(ints(0, 1))
    d["rsig"] = draw(ints(0, 1))
    d["comp"] = draw(st.sampled_from(["gzip", "lzf", None, 9]))
    d["name"] = draw(st.sampled_from([None, None, "a"]))
    d["pick"] = draw(ints(0, 1000))
    d["again"] = draw(ints(0, 1))
    return d


def strategy(tier):
    return strategy_()


class Runner:
    def __init__(self, case):
        self.case = case
        self.keep = {}

    def obj(self, sig, bands=None, const=None):
        key = (tuple(sig), const)
        if key in self.keep and not self.case["fresh"]:
            ph = self.keep[key]
            ph.band_indices = None if bands is None else [bands]
            ph.init_phph_interaction(constant_averaged_interaction=const)
            return ph
        c = dict(self.case, sig=list(sig), const=const)
        _, ph = c14.build(c)
        if bands is not None:
            ph.band_indices = [bands]
            ph.init_phph_interaction(constant_averaged_interaction=const)
        self.keep[key] = ph
        return ph

    def run(self, sig, bands=None, const=None, **kw):
        ph = self.obj(sig, bands, const)
        kw.setdefault("conductivity_type", self.case["ct"])
        return c14.run(ph, self.case, **kw), ph


def no_files(pattern):
    for f in glob.glob(pattern):
        os.remove(f)


def suffix(bz, sig, scut, gp=None, band=None, name=None):
    t = "-m%d%d%d" % tuple(bz.D_diag)
    if gp is not None:
        t += "-g%d" % gp
    if band is not None:
        t += "-b%d" % (band + 1)
    if sig is not None:
        t += "-s" + ("%f" % sig).rstrip("0").rstrip(".")
        if scut is not None:
            t += "-sd" + ("%f" % scut).rstrip("0").rstrip(".")
    if name is not None:
        t += "." + name
    return t + ".hdf5"


def read(name):
    import h5py
    require(os.path.exists(name), f"{name} was not written: {sorted(glob.glob('*.hdf5'))[:9]}", sig="file name")
    with h5py.File(name) as h:
        return {k: h[k][()] for k in h}


def compare(got, ref, case, what, rtol=1e-7, order=None):
    """Every result of two runs."""
    require(got is not None and got is not False, f"{what}: no result", sig="no result")
    o = list(range(len(case["sig"]))) if order is None else order
    r = {n: np.array(getattr(ref, n)) for n in ("gamma",) + RESULTS[case["ct"]]}
    same(got.grid_points, ref.grid_points, f"{what}: grid points")
    for n, e in r.items():
        e = e[o]
        if np.iscomplexobj(e):
            e = e.real
        g = np.real(getattr(got, n))
        scale = np.abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() else 0
        close(g, e, f"{what}: {n}", rtol=rtol, atol=1e-9 * scale + 1e-25, sig=f"{what}: {n}")
    if case["iso"]:
        close(got.gamma_isotope, np.array(ref.gamma_isotope)[o], f"{what}: gamma_isotope", rtol=rtol, atol=1e-20)
    a, b = got.get_gamma_N_U(), ref.get_gamma_N_U()
    if b[0] is not None and case["extra"] == "nu":
        for x, y, n in zip(a, b, "NU"):
            require(x is not None, f"{what}: gamma_{n} is lost")
            close(x, np.array(y)[o], f"{what}: gamma_{n}", rtol=rtol, atol=1e-9 * np.abs(y).max() + 1e-25)
    if case["extra"] in ("full", "const"):
        close(got.averaged_pp_interaction, ref.averaged_pp_interaction, f"{what}: averaged interaction", rtol=rtol,
              atol=1e-9 * np.abs(ref.averaged_pp_interaction).max())


def check(case):
    case = dict(case)
    mode = case["mode"]
    if case["kind"] == "grg":
        case["sym"] = 1
    if case["ct"] == "kubo" and any(t == 0 for t in case["temps"]):
        case["temps"] = [t or 10 for t in case["temps"]]
    if mode in ("pp", "detail", "avepp") or case["extra"] in ("pp", "full", "const"):
        case["scut"] = None
    if mode == "avepp":
        case["extra"] = "full"
        case["ct"] = None
    if mode == "pp":
        case["sig"] = case["sig"][:1]
        case["extra"] = ""
    if mode == "detail":
        case["extra"] = "" if case["extra"] != "nu" else "nu"
        case["sigsep"] = 0
        if len(case["sig"]) == 1:
            case["sig"] = case["sig"] + [0.2]
    kw = {"": {}, "nu": dict(is_N_U=True), "full": dict(is_full_pp=True), "pp": dict(write_pp=True), "const": {}}[case["extra"]]
    const = 2.5e-10 if case["extra"] == "const" else None
    no_files("*.hdf5")
    rn = Runner(case)
    ref_ph = rn.obj(case["sig"], const=const)
    bz = ref_ph.phph_interaction.bz_grid
    nb = 3 * len(ref_ph.primitive)
    ng = len(bz.grg2bzg)
    if ng > 40 or ng * ng * nb ** 3 > 6e5:
        raise Reject("too big")
    ref, ref_ph = rn.run(case["sig"], const=const, write_kappa=True, compression=case["comp"], output_filename=case["name"], **kw)
    rn.keep.clear()
    f = np.array(ref.frequencies)
    sets = [c11.degenerate(x) for x in f]
    gps = [int(x) for x in ref.grid_points]
    labels = [mode, case["ct"] or "standard", case["extra"] or "plain", case["kind"]]
    scale = np.abs(ref.gamma).max()
    require(np.all(np.isfinite(ref.gamma)), "linewidths are finite")
    whole = {j: "kappa" + suffix(bz, s, case["scut"], name=case["name"]) for j, s in enumerate(case["sig"])}
    stored = {j: read(n) for j, n in whole.items()}
    nt = scale > 0 and len(gps) > 1
    done = dict(nontrivial=bool(nt), labels=labels)
    rd = dict(read_gamma=True, input_filename=case["name"])
    if mode == "avepp":
        rn.keep.clear()
        got, _ = rn.run(case["sig"], use_ave_pp=True, **rd)
        con, _ = rn.run(case["sig"], const=1e-10)
        P = np.array(ref.averaged_pp_interaction)
        e = np.array(con.gamma) * P / 1e-10
        for i, s in enumerate(sets):
            for k in s:
                e[:, :, i, k] = e[:, :, i, k].mean(axis=-1, keepdims=True)
        close(got.averaged_pp_interaction, P, "averaged interaction read from the file", rtol=1e-9)
        close(got.gamma, e, "linewidths of averaged interaction", rtol=1e-6, atol=1e-9 * np.abs(e).max() + 1e-25)
        return done
    if mode == "file":
        # the linewidths of a finished run are used with other scattering mechanisms
        other = dict(case, iso=case["pick"] % 3, mfp=[None, 0.5, 30.0][case["pick"] // 3 % 3])
        case.update(other)
        order = list(range(len(case["sig"])))
        if case["rsig"]:
            order = order[::-1]
        rn = Runner(case)
        got, _ = rn.run([case["sig"][j] for j in order], **rd)
        no_files("*.hdf5")
        exp, _ = rn.run(case["sig"], const=const, **kw)
        if case["extra"] == "const":
            case["extra"] = ""
        compare(got, exp, case, "read from the file of a finished run", order=order)
        return done
    if mode == "temps":
        wrong = [t + 1.5 for t in case["temps"]]
        if case["pick"] % 3 == 1:
            wrong = case["temps"] + [77.0]
        if case["pick"] % 3 == 2 and len(case["temps"]) > 1:
            wrong = case["temps"][:-1]
        refuse(rn, case, rd, "linewidths at other temperatures", temperatures=wrong)
        return done
    no_files("*.hdf5")
    if mode == "pp":
        return pp_mode(case, rn, ref, gps, bz, done)
    # distributed jobs
    rng = np.random.default_rng(case["order"])
    order = [gps[i] for i in rng.permutation(len(gps))]
    nj = max(case["jobs"]) + 1
    jobs = [[] for _ in range(nj)]
    for i, g in enumerate(order):
        jobs[case["jobs"][i % len(case["jobs"])]].append(g)
    tasks = []
    written = []
    for jb in jobs:
        plain = []
        for g in jb:
            k = case["bands"][g % len(case["bands"])]
            ss = sets[gps.index(g)]
            if k < 6 or len(ss) < 2:
                plain.append(g)
                continue
            # bands in groups that do not divide degenerate sets
            ng_ = 2 if k < 8 else len(ss)
            groups = [[] for _ in range(ng_)]
            for i, s in enumerate(ss):
                groups[i % ng_] += list(s)
            for gr in groups:
                gr = [int(x) for x in gr]
                tasks.append(([g], gr[::-1] if k % 2 else gr))
        if plain:
            tasks.append((plain, None))
    tasks = [tasks[i] for i in rng.permutation(len(tasks))]
    if any(t[1] for t in tasks):
        labels.append("bands")
    sigs = [[s] for s in case["sig"]] if case["sigsep"] else [case["sig"]]
    for g, b in tasks:
        for sg in sigs:
            r, _ = rn.run(sg, b, const, grid_points=g, write_gamma=True, compression=case["comp"],
                          output_filename=case["name"], write_gamma_detail=mode == "detail", **kw)
            same(r.grid_points, g, "grid points of a job")
            for s in sg:
                for x in g:
                    for bi in ([None] if b is None else b):
                        written.append(("kappa" + suffix(bz, s, case["scut"], x, bi, case["name"]), s, x, bi))
    files = sorted(glob.glob("kappa*.hdf5"))
    same(files, sorted({w[0] for w in written}), "names of written files", sig="file name")
    for name, s, g, bi in written:
        j, i = case["sig"].index(s), gps.index(g)
        check_file(read(name), stored[j], ref, case, j, i, g, bi, name)
        if mode == "detail":
            check_detail(name.replace("kappa", "gamma_detail"), ref, case, j, i, g, bi, bz, sets[i])
    if mode == "missing":
        victim = written[case["pick"] % len(written)][0]
        os.remove(victim)
        refuse(rn, case, rd, f"without {victim}")
        return done
    so = list(range(len(case["sig"])))[::-1 if case["rsig"] else 1]
    got, _ = rn.run([case["sig"][j] for j in so], write_kappa=True, compression=case["comp"], output_filename=case["name"], **rd)
    compare(got, ref, case, "distributed run", order=so)
    for j, n in whole.items():
        d = read(n)
        for k, e in stored[j].items():
            if k in ("version",):
                continue
            require(k in d, f"{k} is missing in {n} of the collected run: {sorted(d)}", sig=f"collected {k}")
            e = np.asarray(e, dtype=float) if np.asarray(e).dtype.kind != "c" else np.real(e)
            close(np.real(d[k]), e, f"{k} in {n} of the collected run", rtol=1e-7,
                  atol=1e-9 * (np.abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() and e.size else 0) + 1e-25,
                  sig=f"collected {k}")
    if case["again"]:
        no_files("kappa*-g*.hdf5")
        got, _ = rn.run(case["sig"], **rd)
        compare(got, ref, case, "second collection")
    return done


def refuse(rn, case, rd, what, **kw):
    """No thermal conductivity may come out."""
    rn.keep.clear()
    ph = rn.obj(case["sig"])
    a = dict(rd, conductivity_type=case["ct"], **kw)
    try:
        r = c14.run(ph, case, **a)
    except Exception as e:
        if isinstance(e, (AttributeError, NameError)):
            raise
        return
    require(r is None or r is False, f"a thermal conductivity is returned {what}", sig="incomplete data accepted")


def check_file(d, whole, ref, case, j, i, g, bi, name):
    sl = slice(None) if bi is None else bi
    exp = dict(temperature=np.array(case["temps"], dtype=float), gamma=np.array(ref.gamma)[j, :, i, sl], grid_point=g,
               frequency=np.array(ref.frequencies)[i, sl], mesh=whole["mesh"])
    if case["ct"] is None:
        exp.update(group_velocity=whole["group_velocity"][i, sl], gv_by_gv=whole["gv_by_gv"][i, sl])
    if case["ct"] != "kubo":
        exp.update(heat_capacity=whole["heat_capacity"][:, i, sl])
    if case["iso"]:
        exp["gamma_isotope"] = whole["gamma_isotope"][i, sl]
    if case["extra"] == "nu":
        exp.update(gamma_N=whole["gamma_N"][:, i, sl], gamma_U=whole["gamma_U"][:, i, sl])
    if case["extra"] in ("full", "const"):
        exp["ave_pp"] = whole["ave_pp"][i, sl]
    if case["sig"][j] is not None:
        exp["sigma"] = case["sig"][j]
        if case["scut"] is not None:
            exp["sigma_cutoff_width"] = case["scut"]
    if bi is not None:
        exp["band_index"] = bi + 1
    exp["kappa_unit_conversion"] = whole["kappa_unit_conversion"]
    for k, e in exp.items():
        require(k in d, f"{k} is not in {name}: {sorted(d)}", sig=f"file {k}")
        e = np.asarray(e, dtype=float)
        close(np.asarray(d[k], dtype=float), e, f"{k} of {name}", rtol=1e-7,
              atol=1e-9 * (np.abs(e).max() if e.size else 0) + 1e-25, sig=f"file {k}")


def check_detail(name, ref, case, j, i, g, bi, bz, sets):
    d = read(name)
    for k in ("gamma_detail", "triplet", "weight", "temperature", "grid_point"):
        require(k in d, f"{k} is not in {name}: {sorted(d)}", sig=f"detail {k}")
    gr = np.array(bz.bzg2grg)  # triplets may hold another surface image
    require(int(d["grid_point"]) == g and np.all(gr[d["triplet"][:, 0]] == gr[g]), f"grid point of {name}", sig="detail")
    require(d["weight"].sum() == len(bz.grg2bzg), f"weights of {name}", sig="detail")
    x = np.einsum("t,kt...bc->k...", d["weight"].astype(float), d["gamma_detail"])
    e = np.array(ref.gamma)[j, :, i]
    if bi is None:
        x = c11.average(x, list(range(x.shape[-1])), np.array(ref.frequencies)[i])
        del sets
    else:
        e = e[:, bi]
        s = [s for s in sets if bi in s][0]
        if len(s) > 1:
            return
    close(x, e, f"sum of {name}", rtol=1e-6, atol=1e-9 * np.abs(ref.gamma).max() + 1e-25, sig="detail sum")


def pp_mode(case, rn, ref, gps, bz, done):
    """Interaction strengths are written by some jobs and read by others."""
    full = bool(case["pick"] % 2)
    half = len(gps) // 2 if case["pick"] // 2 % 2 else 0
    for part in (gps[:half], gps[half:][::-1]):
        if part:
            rn.run(case["sig"], grid_points=part, write_pp=True, is_full_pp=full, compression=case["comp"],
                   output_filename=case["name"])
    files = sorted(glob.glob("pp*.hdf5"))
    same(files, sorted("pp" + suffix(bz, case["sig"][0], None, g, None, case["name"]) for g in gps), "names of files",
         sig="file name")
    if case["pick"] // 4 % 3 == 2:
        os.remove(files[case["order"] % len(files)])
        rn.keep.clear()
        ph = rn.obj(case["sig"])
        try:
            r = c14.run(ph, case, read_pp=True, input_filename=case["name"], conductivity_type=case["ct"])
        except Exception as e:
            if isinstance(e, (AttributeError, NameError)):
                raise
            return done
        require(r is None or r is False, "a thermal conductivity is returned without all strengths", sig="incomplete data accepted")
        return done
    got, _ = rn.run(case["sig"], read_pp=True, input_filename=case["name"])
    compare(got, ref, case, "read interaction strengths")
    temps = [t + 50.0 for t in case["temps"]]
    a, _ = rn.run(case["sig"], read_pp=True, input_filename=case["name"], temperatures=temps)
    b, _ = rn.run(case["sig"], temperatures=temps)
    compare(a, b, case, "read interaction strengths at other temperatures")
    return done


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
