"""One shard of one property's check; also replays single cases.  Runs under the spl venv Python."""
import hashlib
import importlib
import json
import os
import resource
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
warnings.filterwarnings("ignore")


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def judge(sub, case):
    """-> (info, violation)"""
    from core import Skip, Violation
    try:
        info = sub.check(case)
        return (info or {}), None
    except Skip:
        return {"nontrivial": False, "labels": ["skipped"]}, None
    except Violation as v:
        return {}, v
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # includes pyo3 PanicException
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.format_exc(limit=-6)
        return {}, Violation(f"unexpected {type(e).__name__}: {str(e)[:300]}", traceback=tb[-2000:])


class Shard:
    def __init__(self, prop, shard, nshards, tier, seed, out, only=None):
        self.prop, self.shard, self.nshards, self.tier, self.seed, self.out = prop, shard, nshards, tier, seed, out
        self.cur = open(out + ".cur", "w+b", buffering=0)
        self.result = {"subs": {}, "failures": [], "errors": []}
        self.only = only
        self.t0 = time.time()
        self.deadline = self.t0 + (float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "36000")))
        self.known = set()
        import core
        self.core = core
        for k in json.load(open(os.path.join(HERE, "..", "known_findings.json")))["findings"]:
            if k["status"] == "open" and k["property"] == prop:
                self.known.add((k["sub"], core.canon(k["case"])))

    def mark(self, sub, case):
        data = json.dumps({"sub": sub, "case": case}, default=str).encode()
        self.cur.seek(0)
        self.cur.truncate()
        self.cur.write(data)

    def one(self, sub, st, case):
        st["evaluations"] += 1
        c = self.core.canon(case)
        if (sub.name, c) in self.known:
            st["known_hits"] += 1
            return None
        self.mark(sub.name, case)
        info, v = judge(sub, case)
        for lb in info.get("labels", ()):
            st["labels"][lb] = st["labels"].get(lb, 0) + 1
        if v is None and info.get("nontrivial", True):
            h = hashlib.sha256(c.encode()).hexdigest()[:16]
            if h not in st["_seen"]:
                st["_seen"].add(h)
                n = len(st["_seen"])
                if n & (n - 1) == 0 or len(st["samples"]) < 2:   # 1st, 2nd, 4th, 8th, ... distinct case
                    st["samples"].append(info.get("sample", case))
                    st["samples"] = st["samples"][-8:]
        return v

    def run_sub(self, sub):
        st = {"evaluations": 0, "labels": {}, "samples": [], "_seen": set(), "known_hits": 0, "rule": sub.rule}
        self.result["subs"][sub.name] = st
        t0 = time.time()
        nsh = min(self.nshards, sub.shards or self.nshards)
        if self.shard >= nsh:
            return
        if sub.setup:
            sub.setup()
        if sub.cases is not None:
            for i, case in enumerate(sub.cases()):
                if i % nsh != self.shard:
                    continue
                v = self.one(sub, st, case)
                if v is not None:
                    self.fail(sub, case, v)
                    break
                if time.time() > self.deadline:
                    st["labels"]["budget_exhausted"] = 1
                    break
        if sub.strategy is not None:
            self.search(sub, st, nsh)
        st["seconds"] = round(time.time() - t0, 2)

    def search(self, sub, st, nsh):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, seed, settings
        import hypothesis.internal.conjecture.engine as engine
        for attr in ("MAX_SHRINKING_SECONDS",):
            if hasattr(engine, attr):
                setattr(engine, attr, 25)
        total = sub.quick if self.tier == "quick" else sub.thorough
        total = int(total * float(os.environ.get("VERIF_SCALE", "1")))
        n = max(1, total // nsh)
        sd = int.from_bytes(hashlib.sha256(f"{self.seed}/{self.prop}/{sub.name}/{self.shard}".encode()).digest()[:8], "big")
        last = {}

        @seed(sd)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                  print_blob=False)
        @given(sub.strategy())
        def test(case):
            if time.time() > self.deadline and not last:
                st["labels"]["budget_exhausted"] = st["labels"].get("budget_exhausted", 0) + 1
                return
            v = self.one(sub, st, case)
            if v is not None:
                last["case"], last["v"] = case, v
                raise v

        try:
            test()
        except hypothesis.errors.HypothesisException as e:
            if last:
                self.fail(sub, last["case"], last["v"], note=f"{type(e).__name__}")
            else:
                raise
        except BaseException:
            if not last:
                raise
            self.fail(sub, last["case"], last["v"])

    def fail(self, sub, case, v, note=None):
        self.result["failures"].append({"sub": sub.name, "case": case, "message": v.message, "info": v.info, "note": note})

    def write(self):
        for st in self.result["subs"].values():
            st["_seen"] = sorted(st["_seen"])
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.result, f, default=str)
        os.rename(tmp, self.out)

    def run(self):
        mod = load(self.prop)
        for sub in mod.SUBS:
            if self.only and sub.name not in self.only:
                continue
            try:
                self.run_sub(sub)
            except Exception:
                self.result["errors"].append({"sub": sub.name, "traceback": traceback.format_exc()[-6000:]})
        self.write()


def main():
    sys.setrecursionlimit(6000)
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    mode = sys.argv[1]
    sys.path.insert(0, os.environ["VERIF_STAGE"])
    if mode == "shard":
        prop, shard, nshards, tier, seed, out = sys.argv[2:8]
        only = sys.argv[8].split(",") if len(sys.argv) > 8 and sys.argv[8] else None
        Shard(prop, int(shard), int(nshards), tier, int(seed), out, only).run()
    elif mode == "case":
        # stdin: {"property","sub","case"}; exit 0 pass, 1 violation (json on stdout)
        req = json.load(sys.stdin)
        mod = load(req["property"])
        sub = next(s for s in mod.SUBS if s.name == req["sub"])
        if sub.setup:
            sub.setup()
        _, v = judge(sub, req["case"])
        sys.stdout.flush()
        if v is None:
            print("\nRESULT " + json.dumps({"ok": True}))
        else:
            print("\nRESULT " + json.dumps({"ok": False, "message": v.message, "info": v.info}, default=str))
        sys.stdout.flush()
        os._exit(0)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
