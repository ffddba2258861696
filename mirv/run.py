"""Runs one property's obligations and writes its evidence.

usage: run.py PROPERTY        (VERIF_TIER, VERIF_SEED from the environment)
exit 0: every obligation discharged; 1: VIOLATION line printed; 2: no verdict
"""
import fcntl
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "spec"))
sys.path.insert(0, os.path.join(ROOT, "checks"))

from terms import run_big_stack
from ex import Program, Unsupported


class Broken(Exception):
    """the check itself cannot run"""


def sh(cmd, env=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


class Lock:
    def __init__(self, name):
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        self.path = os.path.join(ROOT, "build", name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def forget(target, profile="debug"):
    """make cargo look at the crate's content again, whatever its timestamps"""
    d = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(d):
        for x in os.listdir(d):
            if x.startswith("sgp4-"):
                shutil.rmtree(os.path.join(d, x), ignore_errors=True)


def build_mirdump():
    with Lock("mirdump"):
        exe = os.path.join(ROOT, "build/mirdump/debug/mirdump")
        r = sh(["bash", os.path.join(ROOT, "tools/build_mirdump.sh")])
        if r.returncode or not os.path.exists(exe):
            raise Broken("building the MIR exporter failed\n" + r.stdout[-3000:])


def dump(cfg):
    """the MIR of the crate's current sources; rebuilt on every run"""
    build_mirdump()
    out = os.path.join(ROOT, "build", "mir-%s-%d.json" % (cfg, os.getpid()))
    with Lock("dump-" + cfg):
        forget(os.path.join(ROOT, "build/roots-" + cfg))
        r = sh(["bash", os.path.join(ROOT, "tools/dump.sh"), cfg, out])
        if r.returncode or not os.path.exists(out):
            raise Broken("compiling /repo for export failed\n" + r.stdout[-3000:])
    try:
        return Program(out)
    finally:
        os.unlink(out)


_replay = {}


def replay_exe(cfg="default"):
    if cfg not in _replay:
        t = os.path.join(ROOT, "build/replay" + ("" if cfg == "default" else "-" + cfg))
        with Lock(os.path.basename(t)):
            stamp = os.path.join(t, "verif-stamp")
            h = tree_hash()
            exe = os.path.join(t, "debug/replay")
            if not (os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(exe)):
                forget(t)
                r = sh(
                    ["cargo", "build", "--offline", "--no-default-features", "--features", "cfg_" + cfg, "--manifest-path", os.path.join(ROOT, "replay/Cargo.toml")],
                    {"CARGO_TARGET_DIR": t, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": "-Awarnings", "RUSTC_WRAPPER": ""},
                )
                if r.returncode:
                    raise Broken("building the replay program failed\n" + r.stdout[-3000:])
                open(stamp, "w").write(h)
        _replay[cfg] = exe
    return _replay[cfg]


def tree_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for d in (os.path.join(REPO, "src"), os.path.join(ROOT, "replay/src")):
        for b, ds, ns in os.walk(d):
            ds.sort()
            fs += [os.path.join(b, n) for n in sorted(ns)]
    for f in fs:
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def native(lines, timeout=60, cfg="default"):
    """run the real crate on replay commands; one answer per line"""
    exe = replay_exe(cfg)
    out = []
    todo = list(lines)
    while todo:
        try:
            r = subprocess.run([exe], input="\n".join(todo) + "\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
            got = r.stdout.splitlines()
            how = "abort"
        except subprocess.TimeoutExpired as e:
            got = (e.stdout or b"").decode().splitlines()
            how = "timeout"
        out += got
        todo = todo[len(got):]
        if todo:
            out.append(how)
            todo = todo[1:]
    return out[: len(lines)]


# ------------------------------------------------------------------ parallel
def limit_memory(more):
    """let this process grow by so many bytes"""
    import resource

    now = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = now + (1 << 30) + more
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def failed(v):
    """0 nothing failed, 1 a failed obligation, 2 one with its failing input"""
    return max([(2 if o.get("fail") else 1) for o in v if o.get("ok") is False], default=0)


def fork_map(jobs, width=8, budget=600, after_failure=None):
    """jobs: [(name, thunk)] -> {name: ('ok', value) | ('err', text)}; each in a forked process.
    after_failure: seconds left to the others once an obligation has failed
    (without input, with input)"""
    todo = list(jobs)
    running = {}
    res = {}
    t_start = time.time()
    t_end = t_start + budget
    while todo or running:
        while todo and len(running) < width:
            name, thunk = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    try:
                        limit_memory(3 << 30)
                        v = ("ok", run_big_stack(thunk))
                    except Unsupported as e:
                        v = ("unsupported", str(e))
                    except MemoryError:
                        v = ("timeout", "out of memory")
                    except BaseException:
                        v = ("err", traceback.format_exc())
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(v))
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (name, r, bytearray())
        import select

        fds = {v[1]: p for p, v in running.items()}
        rd, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in rd:
            p = fds[fd]
            d = os.read(fd, 1 << 16)
            if d:
                running[p][2].extend(d)
            else:
                os.close(fd)
                os.waitpid(p, 0)
                name, _, buf = running.pop(p)
                res[name] = pickle.loads(bytes(buf)) if buf else ("timeout", "worker died")
                if after_failure and res[name][0] == "ok" and failed(res[name][1]):
                    t_end = min(t_end, time.time() + after_failure[failed(res[name][1]) - 1])
        if time.time() > t_end:
            for p, (name, fd, _) in running.items():
                os.kill(p, 9)
                os.waitpid(p, 0)
                os.close(fd)
                res[name] = ("timeout", "no result within %d s" % (time.time() - t_start))
            for name, _ in todo:
                res[name] = ("timeout", "not started")
            return res
    return res


# ------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.obs = []
        self.assumptions = []
        self.functions = set()
        self.inlined = set()
        self.trusted = set()
        self.reach = []
        self.bounded = []
        self.samples = []
        self.known = []
        self.notes = []
        self.undecided = []
        self._progs = {}
        self.extra = {}

    def program(self, cfg="default"):
        if cfg not in self._progs:
            self._progs[cfg] = dump(cfg)
        return self._progs[cfg]

    def ob(self, name, ok, backend, secs=0.0, fail=None, detail=""):
        """record one obligation; fail = dict of a replayed input, or None"""
        self.obs.append({"name": name, "ok": bool(ok), "backend": backend, "s": round(secs, 3), "fail": fail, "detail": detail})
        return ok

    def reached(self, name, ok):
        self.reach.append((name, bool(ok)))

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def used(self, e):
        """account for what a symbolic execution went through"""
        for n in e.executed:
            (self.functions if n.startswith("roots::") else self.inlined).add(n.replace("roots::", "entry point "))
        for n in e.modelled:
            self.trusted.add(n)

    def jobs(self, jobs, budget=600):
        """run job thunks in parallel; each returns a list of obligation records"""
        res = fork_map(jobs, budget=budget, after_failure=(240, 5))
        unsupported = []
        for name, _ in jobs:
            k, v = res[name]
            if k == "ok":
                for o in v:
                    if o.get("reach") is not None:
                        self.reached(o["name"], o["reach"])
                    elif o.get("bounded") is not None:
                        self.bounded.append(o["bounded"])
                    elif o.get("used") is not None:
                        for n in o["used"][0]:
                            (self.functions if n.startswith("roots::") else self.inlined).add(n.replace("roots::", "entry point "))
                        self.trusted.update(o["used"][1])
                    else:
                        self.obs.append(o)
            elif k == "unsupported":
                unsupported.append(v)
            elif k == "timeout":
                self.undecided.append(name + ": " + v)
            else:
                raise Broken("job %s\n%s" % (name, v))
        # an input on which the real code fails stands, whatever else is out of reach
        if unsupported and not any(o.get("fail") for o in self.obs if not o["ok"]):
            raise Unsupported(unsupported[0])

    def finish(self):
        bad = [o for o in self.obs if not o["ok"]]
        seen = {n for n, ok in self.reach if ok}
        vac = sorted({n for n, ok in self.reach} - seen)
        code = 0
        if not self.obs:
            print("ERROR no obligations were generated")
            code = 2
        if bad:
            bad.sort(key=lambda o: 0 if o["fail"] else 1)
            d = os.path.join(ROOT, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (self.prop, int(time.time() * 1000)))
            json.dump(
                {
                    "property": self.prop,
                    "failed_obligations": [
                        {"obligation": o["name"], "input": o["fail"], "verifier_output": o["detail"], "back_end": o["backend"]} for o in bad
                    ],
                    "rerun": "printf '%s\\n' '<input.cmd>' | /verif/build/replay/debug/replay   (the real crate)",
                },
                open(path, "w"),
                indent=1,
                default=str,
            )
            for o in bad[:12]:
                print("failed obligation: %s [%s] %s" % (o["name"], o["backend"], str(o["detail"])[:400]))
            found = bad[0]["fail"]
            if found:
                print("input: " + json.dumps(found, default=str)[:1500])
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if found else " no-failing-input-found"))
            code = 1
        elif self.undecided:
            for u in self.undecided:
                print("UNDECIDED " + u)
            code = 2
        elif vac:
            print("ERROR vacuous precondition: " + ", ".join(vac))
            code = 2
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        self.evidence(len(bad))
        if code == 0:
            print("%s held: %d obligations discharged in %.1f s" % (self.prop, len(self.obs), time.time() - self.t0))
        return code

    def evidence(self, nbad):
        by = {}
        for o in self.obs:
            b = by.setdefault(o["backend"], {"obligations": 0, "discharged": 0, "solver_s": 0.0})
            b["obligations"] += 1
            b["discharged"] += 1 if o["ok"] else 0
            b["solver_s"] = round(b["solver_s"] + o["s"], 3)
        cov = {
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o["ok"]),
            "checker_cmd": "bash /verif/check.sh " + self.prop,
            "trusted_base": [
                "rustc (nightly) MIR of /repo at mir-opt-level 0 and the exporter /verif/mirdump",
                "the verification-condition generator and equality prover /verif/mirv, z3",
            ]
            + ["library contract: " + n for n in sorted(self.trusted)],
            "by_back_end": by,
            "functions_under_contract": sorted(self.functions),
            "bodies_verified_inline": sorted(self.inlined),
            "reachability_checks": len(self.reach),
            "reachable": sum(1 for _, ok in self.reach if ok),
            "bounded_stand_ins": self.bounded,
            "samples": [o["name"] for o in self.obs[:: max(1, len(self.obs) // 12)]][:14],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "proof",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": nbad,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)


def rec(name, ok, backend, secs=0.0, fail=None, detail=""):
    return {"name": name, "ok": bool(ok), "backend": backend, "s": round(secs, 3), "fail": fail, "detail": detail}


def main():
    prop = sys.argv[1]
    ctx = Ctx(prop)
    mod = importlib.import_module(prop.lower())
    try:
        run_big_stack(lambda: mod.check(ctx))
        if ctx.undecided and all(o["ok"] for o in ctx.obs):
            raise Unsupported("; ".join(ctx.undecided))
        code = ctx.finish()
    except Unsupported as e:
        print("ERROR outside the supported fragment: %s" % e)
        code = 2
        alt = getattr(mod, "native_search", None)
        if alt is not None:
            # no proof possible: the real code may still be shown to be wrong
            try:
                f = run_big_stack(lambda: alt(ctx))
            except Exception:
                traceback.print_exc()
                f = None
            if f:
                ctx.ob("the real code agrees with the specification", False, "replay of the real crate", 0, f, "construct outside the verifier's fragment: %s" % e)
                code = ctx.finish()
        if code == 2:
            ctx.evidence(0)
    except Broken as e:
        print("ERROR " + str(e))
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
