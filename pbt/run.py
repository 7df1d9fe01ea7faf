"""Run the check of one property: build /repo, spread cases over workers, report."""
import argparse
import hashlib
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pbt import boot, build  # noqa: E402

PY = "/opt/venv/bin/python"
CASE_TIMEOUT = 240.0


def load_meta():
    spec = importlib.util.spec_from_file_location("pbt_meta", f"{ROOT}/pbt/meta.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.CHECKS


def known_findings(prop):
    out = []
    p = f"{ROOT}/known_findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "finding":
                    out.append(d)
    return out


class Job:
    """One worker process."""

    def __init__(self, cfg, tmp, name, env, variant):
        self.name = name
        self.cwd = f"{tmp}/{name}"
        os.makedirs(self.cwd)
        self.out = f"{tmp}/{name}.json"
        self.log = f"{tmp}/{name}.log"
        self.cfg = cfg
        cfg = dict(cfg, cwd=self.cwd, out=self.out, root=ROOT)
        e = dict(os.environ)
        e.update(boot.ENV)
        e.update(env)
        e["TMPDIR"] = self.cwd
        e["HOME"] = self.cwd
        if variant == "asan":
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                                 text=True).stdout.strip()
            cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True,
                                 text=True).stdout.strip()
            e["LD_PRELOAD"] = f"{lib}:{cxx}"
            e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                                 "handle_segv=1:symbolize=1:max_malloc_fill_size=67108864:"
                                 "malloc_fill_byte=203")
            e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
        self.p = subprocess.Popen(
            [PY, "-S", f"{ROOT}/pbt/worker.py", json.dumps(cfg)], env=e,
            stdout=open(self.log, "w"), stderr=subprocess.STDOUT, cwd=self.cwd,
            stdin=subprocess.DEVNULL, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def cur_age(self):
        try:
            return time.time() - os.stat(self.out + ".cur").st_mtime
        except OSError:
            return 0.0

    def cur(self):
        try:
            return json.load(open(self.out + ".cur"))
        except Exception:
            return None

    def result(self):
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def tail(self, n=3000):
        try:
            return open(self.log, errors="replace").read()[-n:]
        except OSError:
            return ""


def confirm(cfg, case, tmp, env, variant, tag, tries=2):
    """Replay case in fresh processes. Return description if it fails, else None."""
    last = None
    for t in range(tries):
        j = Job(dict(cfg, mode="replay", case=case), tmp, f"{tag}-{t}", env, variant)
        t0 = time.time()
        while j.p.poll() is None:
            if time.time() - t0 > CASE_TIMEOUT:
                j.kill()
                return "hang", f"no result within {CASE_TIMEOUT} s"
            time.sleep(0.05)
        r = j.result()
        if j.p.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS,
                              -signal.SIGILL):
            return "crash", f"signal {-j.p.returncode}\n{_san(j.tail(20000))}"
        if r and r["status"] == "violation":
            return r["sig"], r["what"]
        last = r
    return None


def _san(text):
    i = text.find("ERROR: AddressSanitizer")
    if i < 0:
        i = text.find("runtime error")
    if i >= 0:
        return text[max(0, i - 200):i + 1500]
    return text[-1500:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--time", type=float)
    args = ap.parse_args()
    prop = args.prop
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    meta = load_meta()[prop]
    env = dict(meta.get("env", {}))
    variant = meta.get("variant", "main")
    try:
        libdir = build.build(variant)
        for v in meta.get("also_build", []):
            env["PBT_LIB_" + v.upper()] = build.build(v)
        env["PBT_LIB"] = libdir
        if meta.get("prepare"):
            env.update(build.prepare(meta["prepare"]))
    except build.BuildError as e:
        print(f"ERROR: /repo does not build: {e}")
        return 2
    kf = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix=f"pbt-{prop}-")
    try:
        return drive(prop, tier, seed, meta, env, variant, libdir, kf, tmp, args, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def drive(prop, tier, seed, meta, env, variant, libdir, kf, tmp, args, t0):
    base = dict(prop=prop, tier=tier, libdir=libdir, known=[k["signature"] for k in kf])
    if args.replay:
        rep = json.load(open(args.replay))
        r = confirm(base, rep["case"], tmp, env, variant, "replay", 1)
        if r:
            print(r[1])
            print(f"VIOLATION property={prop} replay={os.path.abspath(args.replay)}")
            return 1
        print(f"replay passes: property={prop}")
        return 0
    nshard = args.workers or meta.get("workers", 8)
    total = args.examples or meta[tier]
    time_s = args.time or (meta.get("time_quick", 240) if tier == "quick" else meta.get("time_thorough", 3000))
    jobs = []
    for s in range(nshard):
        h = int(hashlib.sha256(f"{seed}/{prop}/{s}".encode()).hexdigest()[:12], 16)
        n = total // nshard + (1 if s < total % nshard else 0)
        jobs.append(Job(dict(base, mode="run", shard=s, nshard=nshard, seed=h, examples=n,
                             time_s=time_s, shrink_s=60 if tier == "quick" else 300),
                        tmp, f"w{s}", env, variant))
    suspects = []  # (case, kind, text)
    errors = []
    live = list(jobs)
    first_fail = None
    while live:
        time.sleep(0.05)
        for j in list(live):
            rc = j.p.poll()
            if rc is None:
                if j.cur_age() > CASE_TIMEOUT:
                    c = j.cur()
                    j.kill()
                    live.remove(j)
                    suspects.append((c, "hang", ""))
                    first_fail = first_fail or time.time()
                    continue
                r = j.result() if first_fail is None and os.path.exists(j.out) else None
                if r and r["status"] == "shrinking":
                    first_fail = time.time()
                continue
            live.remove(j)
            r = j.result()
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS,
                      -signal.SIGILL):
                c = j.cur()
                if c is None:
                    errors.append(f"{j.name}: signal {-rc} before first case\n{j.tail()}")
                else:
                    suspects.append((c, "crash", _san(j.tail(20000))))
                    first_fail = first_fail or time.time()
            elif rc != 0 or r is None or r["status"] == "error":
                errors.append(f"{j.name}: rc={rc} {(r or {}).get('error') or ''}\n{j.tail()}")
            elif r["status"] == "import_error":
                errors.append(f"{j.name}: {r['error']}")
            elif r["status"] in ("violation", "shrinking"):
                suspects.append((r["case"], r["sig"], r["what"]))
                first_fail = first_fail or time.time()
        # Once a failure is minimized (or its time is over), stop the others.
        if first_fail and (suspects or time.time() - first_fail > 100) and live:
            if suspects or time.time() - first_fail > 100:
                for j in live:
                    r = j.result() if os.path.exists(j.out) else None
                    if r and r["status"] == "shrinking":
                        suspects.append((r["case"], r["sig"], r["what"]))
                    j.kill()
                live = []
    crashes = [(j, c) for j, c in ((j, j.cur()) for j in jobs) if any(
        s[1] == "crash" and s[0] == c for s in suspects)]
    if crashes and os.environ.get("PBT_NO_CRASH_SHRINK") is None:
        # Minimize the crash: same shard, every case in a forked child.
        j, c = crashes[0]
        fj = Job(dict(j.cfg, fork=1, time_s=150, shrink_s=60), tmp, j.name + "f", env, variant)
        tcrash = time.time()
        while fj.p.poll() is None and time.time() - tcrash < 230:
            time.sleep(0.1)
        fj.kill()
        r = fj.result()
        if r and r.get("status") in ("violation", "shrinking") and r.get("sig") == "crash":
            suspects.append((r["case"], "crash", r["what"]))
    ev = dict(evaluations=0, rejected=0, skipped=0)
    distinct = set()
    labels = {}
    samples = []
    known_seen = {}
    for j in jobs:
        r = j.result()
        st = (r or {}).get("stats")
        if not st:
            continue
        for k in ev:
            ev[k] += st[k]
        distinct.update(st["nontrivial"])
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += st["samples"][:2]
        for k, v in st["known"].items():
            known_seen[k] = known_seen.get(k, 0) + v["n"]
    viol = 0
    rc = 0
    lines = []
    if suspects:
        suspects.sort(key=lambda s: (s[1] in ("hang",), len(json.dumps(s[0]))))
        seen = set()
        for n, (case, kind, text) in enumerate(suspects[:8]):
            if kind in seen:
                continue
            c = confirm(base, case, tmp, env, variant, f"c{n}")
            if c is None:
                errors.append(f"unconfirmed failure ({kind}): {text}\ncase={json.dumps(case)}")
                continue
            seen.add(kind)
            viol += 1
            os.makedirs(f"{ROOT}/build/replays", exist_ok=True)
            rp = f"{ROOT}/build/replays/{prop}-{hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]}.json"
            with open(rp, "w") as f:
                json.dump(dict(property=prop, case=case, kind=c[0], what=c[1]), f, indent=1)
            lines.append(c[1])
            lines.append(f"VIOLATION property={prop} replay={rp}")
            if viol >= 2 or time.time() - t0 > 500:
                break
    if viol:
        rc = 1
    elif errors:
        rc = 2
    for e in errors:
        print("ERROR:", e)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}"
              f" (seen {known_seen.get(k['signature'], 0)} times in this run)")
    cov = dict(evaluations=ev["evaluations"], distinct_nontrivial=len(distinct),
               rule=meta["rule"], samples=samples[:10], labels=dict(sorted(labels.items())),
               rejected=ev["rejected"], skipped_for_time=ev["skipped"], workers=nshard)
    if known_seen:
        cov["known_findings_seen"] = known_seen
    evid = dict(property=prop, tier=tier, seed=seed, level=meta.get("level", "exploration"),
                coverage=cov, wall_s=round(time.time() - t0, 2), violations=viol,
                assumptions=meta.get("assumptions", []))
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    with open(f"{ROOT}/evidence/{prop}.json", "w") as f:
        json.dump(evid, f, indent=1)
    print(f"{prop} {tier}: {ev['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{ev['rejected']} rejected, {ev['skipped']} skipped, {viol} violations, "
          f"{time.time() - t0:.1f} s; labels {json.dumps(dict(sorted(labels.items())))}")
    for ln in lines:
        print(ln)
    if rc == 0 and ev["evaluations"] == 0:
        print("ERROR: no case was evaluated")
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
