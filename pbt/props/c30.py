"""C30: results depend on the current settings, not on the history of calls."""
import contextlib
import copy
import glob
import io
import os

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require
from pbt.props import c27

ints = st.integers
pick = st.sampled_from
MESHES = [[2, 2, 2], [3, 3, 3], [1, 1, 1], [2, 2, 1], [1, 1, 3], [1, 2, 2], [3, 1, 1]]
SIGMAS = [[0.1], [None], [0.05, 0.3], [None, 0.2], [1, 2]]
TEMPS = [[300.0], [0.0, 100.0], [1000.0, 50.0, 5.0]]
QDIRS = [None, [1, 0, 0], [0, 2, 1], [1.5, 1.5, 1.5]]


@st.composite
def op(draw):
    k = draw(pick(["mesh", "sigmas", "scut", "bands", "nac", "fc2", "fc3", "masses", "init", "init", "qdir",
                   "solve", "supply", "ise", "ise", "ise", "rse", "kappa", "kappa", "lbte", "spec", "pp", "bad", "freq"]))
    return [k, draw(ints(0, 11)), draw(ints(0, 11))]


@st.composite
def ops(draw):
    """Operations, some of them in groups that renew one thing while keeping another."""
    out = []
    for _ in range(draw(ints(1, 5))):
        g = draw(ints(0, 5))
        if g == 0:
            out += [["solve", draw(ints(0, 11)), draw(ints(0, 11))], ["qdir", draw(ints(0, 11)), 0],
                    [draw(pick(["freq", "pp", "kappa", "ise"])), draw(ints(0, 11)), draw(pick([0, 0, 1]))]]
        elif g == 1:
            out += [["fc2", draw(ints(0, 11)), 0], ["nac", draw(ints(0, 11)), 0],
                    [draw(pick(["ise", "kappa", "rse"])), draw(ints(0, 11)), draw(pick([0, 0, 1, 5]))]]
        else:
            out += draw(st.lists(op(), min_size=1, max_size=3))
    return out


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(sc="sym", size=12, max_atoms=2, uni=0)))
    d["msym"] = draw(ints(0, 2)) < 2 and 1 or 0
    d["sym"] = draw(ints(0, 3)) < 3 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    d["mesh"] = draw(ints(0, 3))
    d["sig"] = draw(ints(0, len(SIGMAS) - 1))
    d["nac"] = draw(ints(0, 2))
    d["ops"] = draw(ops())
    return d


def strategy(tier):
    return strategy_()


class State:
    """Settings of an object, as given to a new one."""

    def __init__(self, case):
        self.case = case
        self.crystal = model.Crystal(case["crystal"])
        self.base = model.phono3py_obj(self.crystal, is_symmetry=bool(case["sym"]), compact=bool(case["compact"]))
        p = self.base
        self.fc = {0: (p.fc2.copy(), p.fc3.copy())}
        self.now = dict(mesh=MESHES[case["mesh"]], sigmas=SIGMAS[case["sig"]], scut=None, bands=None,
                        nac=case["nac"], fc2=0, fc3=0, masses=0)
        self.init = None
        self.qdir = None
        self.supply = None
        self.turns = []  # Directions at and after the supply of phonons

    def fc2(self, i):
        return self.fc[0][0] * (1 + 0.2 * i)

    def fc3(self, i):
        return self.fc[0][1] * (1 + 0.5 * i)

    def nac(self, i):
        if i == 0:
            return None
        d = self.crystal.born(self.base.primitive)
        d["born"] = d["born"] * (0.5 + 0.5 * i)
        if i == 2:
            d["method"] = "wang"
        return d

    def masses(self, i):
        m = self.base.primitive.masses.copy()
        z = self.base.primitive.numbers
        return m * (1 + 0.3 * i * (1 + 0.1 * (z - z.min()) / (1 + np.ptp(z))))

    def bands(self, i):
        n = 3 * len(self.base.primitive)
        return [None, [[0, 1], [n - 1]], [list(range(n))], [[n - 1], [0]], [[1]]][i % 5]

    def create(self):
        from phono3py import Phono3py
        c = self.crystal
        ph = Phono3py(c.unitcell, supercell_matrix=c.supercell_matrix, primitive_matrix=c.primitive_matrix,
                      is_symmetry=bool(self.case["sym"]), is_mesh_symmetry=bool(self.case["msym"]), log_level=0)
        return ph

    def apply(self, ph, key, held):
        """One setting."""
        i = self.now[key]
        give = lambda x: held.append((key, x, copy.deepcopy(x))) or x
        if key == "mesh":
            ph.mesh_numbers = give(np.array(i))
        elif key == "sigmas":
            ph.sigmas = give(np.array(i) if i == [1, 2] else list(i))
        elif key == "scut":
            ph.sigma_cutoff = i
        elif key == "bands":
            ph.band_indices = give(self.bands(i) if i is not None else None)
        elif key == "nac":
            ph.nac_params = give(self.nac(i))
        elif key == "fc2":
            ph.fc2 = give(self.fc2(i))
        elif key == "fc3":
            ph.fc3 = give(self.fc3(i))
        elif key == "masses":
            ph.masses = give(self.masses(i))

    def fresh(self):
        """New object of the current settings."""
        held = []
        ph = self.create()
        live = dict(self.now)
        now = dict(self.init["settings"], sigmas=live["sigmas"], scut=live["scut"], nac=live["nac"])
        self.now = now
        for k in ("masses", "fc2", "fc3", "nac", "mesh", "sigmas", "scut", "bands"):
            self.apply(ph, k, held)
        self.now = live
        with quiet():
            ph.init_phph_interaction(**self.init["kw"])
            if self.supply is None:
                ph.phph_interaction.nac_q_direction = self.qdir
            else:  # A direction set after the supply renews phonons at Gamma
                ph.phph_interaction.nac_q_direction = self.turns[0]
                ph.set_phonon_data(*self.supply)
                for q in self.turns[1:]:
                    ph.phph_interaction.nac_q_direction = q
        return ph

    def turn(self, q):
        self.qdir = q
        self.turns.append(q)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def check(case):
    with c27.scratch():
        return _check(case)


def _check(case):
    s = State(case)
    if len(s.base.supercell) > 16:
        raise Reject("big")
    ph = s.create()
    held = []
    try:
        for k in ("fc2", "fc3", "nac", "mesh", "sigmas"):
            s.apply(ph, k, held)
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("mesh breaks symmetry")
        raise
    labels = set()
    ran = 0
    ok_since = 0
    for n, (k, a, b) in enumerate(case["ops"]):
        if k == "mesh":
            if a < 9:
                s.now["mesh"] = MESHES[a % len(MESHES)]
            try:
                s.apply(ph, "mesh", held)
            except RuntimeError as e:
                if "broken" in str(e):
                    raise Reject("mesh breaks symmetry")
                raise
            s.init = None
        elif k == "sigmas":
            s.now["sigmas"] = SIGMAS[a % 5]
            s.apply(ph, "sigmas", held)
        elif k == "scut":
            s.now["scut"] = [None, 3.0, 1.5][a % 3]
            s.apply(ph, "scut", held)
        elif k in ("bands", "nac", "fc2", "fc3", "masses"):
            s.now[k] = a % {"bands": 5, "nac": 3, "fc2": 3, "fc3": 3, "masses": 3}[k]
            # Everything of these but NAC parameters takes effect at the next initialization.
            s.apply(ph, k, held)
            if k == "nac" and s.init is not None:  # The dynamical matrix is renewed
                s.init["settings"]["fc2"] = s.now["fc2"]
            if k == "nac":
                s.supply = None
            elif k == "masses":
                s.init = None
        elif k == "init":
            kw = {}
            if a % 4 == 1:
                kw["nac_q_direction"] = np.array([1.0, 2.0, 0.0])
            if a % 5 == 2:
                kw["constant_averaged_interaction"] = 1e-9
            if a % 5 == 3:
                kw["symmetrize_fc3q"] = True
            if a % 5 == 4:
                kw["frequency_scale_factor"] = 1.1
            keep = copy.deepcopy(kw)
            init(s, ph, kw)
            held.append(("init", kw, keep))
        elif k == "bad":
            labels.add("bad " + bad(ph, a, s))
        else:
            if s.init is None:
                init(s, ph, {})
            if k == "qdir":
                s.turn(QDIRS[a % 4])
                q = None if s.qdir is None else np.array(s.qdir, dtype=float)
                keep = copy.deepcopy(q)
                ph.phph_interaction.nac_q_direction = q
                held.append(("direction", q, keep))
                continue
            ng = len(ph.grid.addresses)
            if k == "solve":
                gps = None if a < 4 else np.unique(np.array([a, b, a * b]) % ng)
                with quiet():
                    ph.run_phonon_solver(gps)
                continue
            if k == "supply":
                new = s.fresh()
                with quiet():
                    new.run_phonon_solver()
                fr, ev, ad = new.get_phonon_data()
                s.supply = (fr * (1 + 0.01 * (a % 3)), ev.copy(), ad.copy())
                s.turns = [s.qdir]
                ph.set_phonon_data(*s.supply)
                held.append(("phonons", s.supply, copy.deepcopy(s.supply)))
                continue
            new = s.fresh()
            got, want = [attempt(o, k, a, b, s, held) for o in (ph, new)]
            what = f"step {n} ({k}) after {[x[0] for x in case['ops'][:n]]}"
            refused = [isinstance(x, str) for x in (got, want)]
            if refused[0] and "NAC" in got:
                labels.add("refused with direction")  # Documented: not after Gamma with direction
            else:
                require(refused[0] == refused[1], f"{what}: {got if refused[0] else want}", sig="refusal")
            if not any(refused):
                compare(got, want, what, k)
                ran += 1
                labels.add(k)
                if n > ok_since:
                    labels.add(k + " with history")
            if k in ("kappa", "lbte"):
                s.turn(None)
                ph.phph_interaction.nac_q_direction = None
            if s.supply is not None:
                supplied(ph, s)
            if s.init is not None and any(s.now[x] != s.init["settings"][x] for x in ("bands", "fc2", "fc3", "masses")):
                labels.add("setting pending")
    for what, x, y in held:
        require(same(x, y), f"{what}: an object passed in was modified", sig="modified input " + what)
    return dict(nontrivial=ran > 0 and len(case["ops"]) > 2, labels=sorted(labels))


def init(s, ph, kw):
    with quiet():
        ph.init_phph_interaction(**kw)
    s.init = dict(settings=copy.deepcopy(s.now), kw={k: v for k, v in kw.items()})
    s.qdir = kw.get("nac_q_direction")
    s.supply = None


def same(x, y):
    if isinstance(x, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (tuple, list)):
        return type(x) is type(y) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return np.array_equal(x, y)


def supplied(ph, s):
    """Phonons supplied are those used (Gamma may be recalculated for a direction)."""
    fr, ev, ad = ph.get_phonon_data()
    keep = np.ones(len(fr), dtype=bool)
    if any(q is not None for q in s.turns):
        keep[ph.grid.gp_Gamma] = False
    require(np.array_equal(fr[keep], s.supply[0][keep]) and np.array_equal(ev[keep], s.supply[1][keep]),
            "supplied phonons were replaced", sig="supplied phonons replaced")


def bad(ph, a, s):
    """A call that is refused."""
    ng = len(ph.grid.addresses)
    a %= 6
    name, fun = [
        ("sigma", lambda: setattr(ph, "sigmas", ["x"])),
        ("masses", lambda: setattr(ph, "masses", np.ones(len(ph.primitive) + 1))),
        ("phonons", lambda: ph.set_phonon_data(np.zeros((2, 3)), np.zeros((2, 3, 3)), np.zeros((ng + 1, 3), dtype=int))),
        ("kappa", lambda: ph.run_thermal_conductivity(temperatures=["a"])),
        ("ise", lambda: ph.run_imag_self_energy([0], ["a"])),
        ("mesh", lambda: setattr(ph, "mesh_numbers", "x")),
    ][a]
    if name == "phonons" and ph.phph_interaction is None:
        return "none"
    if name in ("kappa", "ise") and s.init is None and ph.phph_interaction is not None:
        return "none"
    keep = copy.deepcopy(s.now["sigmas"])
    try:
        with quiet():
            fun()
    except Exception:
        pass
    else:
        require(False, f"{name}: not refused", sig="accepted " + name)
    if name == "sigma":  # Partly set list: set again
        ph.sigmas = list(keep)
    if name == "mesh" and ph.phph_interaction is None:
        s.init = None
    if name == "kappa" and ph.phph_interaction is not None:
        s.turn(ph.phph_interaction.nac_q_direction)
    return name


def attempt(ph, k, a, b, s, held):
    try:
        with quiet():
            return run(ph, k, a, b, s, held)
    except RuntimeError as e:
        return repr(e)


def run(ph, k, a, b, s, held):
    t = np.array(TEMPS[a % 3])
    ng = len(ph.grid.addresses)
    gps = np.array([ph.grid.grg2bzg[x % len(ph.grid.grg2bzg)] for x in ([0, b] if a % 2 else [b])])
    pts = np.array([0.1, 1.0, 3.0])
    for x in (t, gps, pts):
        held.append(("argument", x, x.copy()))
    if k == "ise":
        if a % 3 == 0:
            v = ph.run_imag_self_energy(gps, t, frequency_points_at_bands=True)
        elif a % 3 == 1:
            v = ph.run_imag_self_energy(gps, t, frequency_points=pts)
        else:
            v = ph.run_imag_self_energy(gps, t, num_frequency_points=4, scattering_event_class=1 + b % 2)
        out = []
        for x in v:
            if isinstance(x, (list, tuple)):
                out += [np.array(g) for y in x for g in (y if isinstance(y, (list, tuple)) else [y])]
            elif x is not None:
                out.append(np.array(x))
        return out
    if k == "rse":
        f, d = ph.run_real_self_energy(gps, t, frequency_points=pts, epsilons=[0.1, 0.3][:1 + b % 2])
        return [np.array(f), np.array(d)]
    if k == "spec":
        from phono3py.phonon3.spectral_function import run_spectral_function
        r = run_spectral_function(ph.phph_interaction, gps, temperatures=t, sigmas=ph.sigmas, frequency_points=pts)
        return [np.array(x) for x in (r.spectral_functions, r.half_linewidths, r.shifts)]
    if k == "kappa":
        kw = dict(temperatures=t, is_isotope=bool(a % 2), is_kappa_star=b % 3 > 0, boundary_mfp=[None, 1.0][b % 2])
        if b % 4 == 3:
            kw["is_N_U"] = True
        ph.run_thermal_conductivity(**kw)
        br = ph.thermal_conductivity
        return [br.kappa, br.gamma, br.frequencies, br.mode_kappa]
    if k == "lbte":
        ph.run_thermal_conductivity(temperatures=t[t > 0], is_LBTE=True, is_isotope=bool(a % 2))
        br = ph.thermal_conductivity
        return [br.kappa, br.gamma, br.frequencies]
    if k == "pp":
        pp = ph.phph_interaction
        pp.set_grid_point(gps[-1])
        pp.run(lang="C")
        return [np.array(pp.interaction_strength), pp.get_triplets_at_q()[0], pp.get_triplets_at_q()[1]]
    if k == "freq":
        ph.run_phonon_solver()
        fr = np.array(ph.get_phonon_data()[0])
        return [fr]
    raise AssertionError(k)


def compare(got, want, what, k):
    require(len(got) == len(want), what, sig=k)
    for x, y in zip(got, want):
        x, y = np.asarray(x), np.asarray(y)
        require(x.shape == y.shape, f"{what}: shape {x.shape} {y.shape}", sig=k + " shape")
        if not np.isfinite(y).all():
            require(np.array_equal(np.isfinite(x), np.isfinite(y)), what + ": not finite", sig=k)
            x, y = x[np.isfinite(x)], y[np.isfinite(y)]
        if y.size:
            close(x, y, what, rtol=1e-6 if k != "lbte" else 1e-4, atol=1e-10 * np.abs(y).max() + 1e-18, sig=k)
