"""Worker: run one shard of a property's generated cases (or one replay)."""
import faulthandler
import json
import os
import signal
import sys
import time
import traceback


def main():
    cfg = json.loads(sys.argv[1])
    sys.path.insert(0, cfg["root"])
    from pbt import boot

    boot.setup(cfg["libdir"])
    os.chdir(cfg["cwd"])
    faulthandler.enable()
    out = cfg["out"]

    def dump(obj, path):
        with open(path + ".tmp", "w") as f:
            json.dump(obj, f)
        os.replace(path + ".tmp", path)

    try:
        import importlib

        import numpy as np

        from pbt.core import Reject, Violation, key

        try:
            import phono3py  # noqa: F401
            mod = importlib.import_module(f"pbt.props.{cfg['prop'].lower()}")
        except Exception as e:
            dump({"status": "import_error", "error": traceback.format_exc()}, out)
            return
    except Exception:
        dump({"status": "error", "error": traceback.format_exc()}, out)
        return

    known = set(cfg.get("known", []))
    np.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    cur = out + ".cur"
    stats = dict(evaluations=0, rejected=0, skipped=0, nontrivial={}, labels={}, samples=[],
                 known={})

    def one(case):
        """Run check on one case, in a forked child when minimizing a crash."""
        if not cfg.get("fork"):
            return one_here(case)
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    res = ["ok", one_here(case)]
                except Violation as v:
                    res = ["violation", v.what, v.sig]
                except Reject as r:
                    res = ["reject", str(r)]
                except BaseException as e:
                    res = ["error", repr(e)]
                os.write(wfd, json.dumps(res, default=str).encode()[:60000])
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                                      signal.SIGBUS, signal.SIGILL):
            raise Violation(f"signal {os.WTERMSIG(st)}", "crash")
        res = json.loads(data) if data else ["error", "no data"]
        if res[0] == "violation":
            raise Violation(res[1], res[2])
        if res[0] != "ok":
            raise Reject(res[1])
        return res[1]

    def one_here(case):
        """Run check on one case. Return info dict or raise Violation/Reject."""
        with open(cur, "w") as f:
            json.dump(case, f)
        os.utime(cur)
        try:
            info = mod.check(case)
        except (Violation, Reject):
            raise
        except (MemoryError, OSError) as e:
            if isinstance(e, MemoryError) or e.errno in (28, 12, 24):
                raise
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}",
                            _exsig(e))
        except SystemExit as e:
            raise Violation(f"unexpected SystemExit({e.code})\n{traceback.format_exc()[-1800:]}",
                            "SystemExit")
        except Exception as e:
            raise Violation(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}",
                            _exsig(e))
        info = info or {}
        for sig, what in info.get("deviations", []):
            if sig not in known:
                raise Violation(what, sig)
        return info

    def _exsig(e):
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if "/repo/" in f.filename]
        loc = f" in {fr[-1].name}" if fr else ""
        return f"{type(e).__name__}{loc}"

    if cfg["mode"] == "replay":
        try:
            info = one(cfg["case"])
            dump({"status": "ok", "info": {k: v for k, v in info.items() if k != "raw"}}, out)
        except Violation as v:
            dump({"status": "known" if v.sig in known else "violation",
                  "what": v.what, "sig": v.sig}, out)
        except Reject as r:
            dump({"status": "reject", "what": str(r)}, out)
        return

    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    start = time.time()
    best = {}
    cache = {}
    failing_since = [None]

    def record(case, info):
        stats["evaluations"] += 1
        k = key(case)
        if info.get("nontrivial", True):
            import hashlib
            h = hashlib.sha1(k.encode()).hexdigest()[:16]
            if h not in stats["nontrivial"]:
                stats["nontrivial"][h] = 1
                if len(stats["samples"]) < 3:
                    s = dict(case=case)
                    for kk in ("note", "measure"):
                        if kk in info:
                            s[kk] = info[kk]
                    stats["samples"].append(s)
        for lab in info.get("labels", []):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1

    def run_case(case):
        k = key(case)
        if k in cache:
            v = cache[k]
            if v is not None:
                raise Violation(*v)
            return
        now = time.time()
        if failing_since[0] is not None and now - failing_since[0] > cfg["shrink_s"]:
            return
        if now - start > cfg["time_s"] and failing_since[0] is None:
            stats["skipped"] += 1
            return
        try:
            info = one(case)
        except Reject:
            stats["rejected"] += 1
            cache[k] = None
            return
        except Violation as v:
            if v.sig in known:
                stats["known"].setdefault(v.sig, dict(n=0, case=case, what=v.what))["n"] += 1
                stats["evaluations"] += 1
                cache[k] = None
                return
            if failing_since[0] is None:
                failing_since[0] = now
                dump({"status": "shrinking", "case": case, "what": v.what, "sig": v.sig}, out)
            # keep shrinking on the same kind of failure only
            if best and best["sig"] != v.sig:
                cache[k] = None
                return
            cache[k] = (v.what, v.sig)
            if not best or len(k) <= len(key(best["case"])):
                best.update(case=case, what=v.what, sig=v.sig)
                dump({"status": "shrinking", **best}, out)
            raise
        cache[k] = None
        for sig, what in info.get("deviations", []):
            stats["known"].setdefault(sig, dict(n=0, case=case, what=what))["n"] += 1
        if failing_since[0] is None:
            record(case, info)

    status = "ok"
    err = None
    try:
        fixed = getattr(mod, "fixed_cases", lambda tier: [])(cfg["tier"])
        for n, case in enumerate(fixed):
            if n % cfg["nshard"] == cfg["shard"]:
                run_case(json.loads(key(case)))
        n = cfg["examples"]
        if n > 0:
            strat = mod.strategy(cfg["tier"])

            @hseed(cfg["seed"])
            @settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      phases=[Phase.generate, Phase.shrink],
                      suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
            @given(strat)
            def test(case):
                run_case(json.loads(key(case)))

            test()
    except Violation:
        status = "violation"
    except BaseException:
        if best:
            status = "violation"
        else:
            status = "error"
            err = traceback.format_exc()
    stats["nontrivial"] = list(stats["nontrivial"])
    res = dict(status=status, stats=stats, error=err)
    if status == "violation":
        res.update(best)
    dump(res, out)


if __name__ == "__main__":
    main()
