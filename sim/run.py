"""Entry point:  python -m sim.run check ID | replay FILE | selftest [ID...] | seed ID N"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")
CPUS = min(8, os.cpu_count() or 1)


def worker_env(scratch, hashseed="0"):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "SIM_REPO_SRC", "SIM_LOGTAIL", "SIM_HLOG", "SIM_LOCKTB", "SIM_PYTHON")}
    e.update({"PYTHONHASHSEED": hashseed, "SIM_SCRATCH": scratch, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1",
              "HOME": scratch, "PYTHONPATH": VERIF})
    return e


class W:
    def __init__(self, args, scratch_root, hashseed="0"):
        self.scratch = tempfile.mkdtemp(prefix="w", dir=scratch_root)
        self.err = open(os.path.join(self.scratch, "stderr"), "w+b")
        self.p = subprocess.Popen([PY, "-m", "sim.worker"] + [str(a) for a in args], cwd=self.scratch,
                                  env=worker_env(self.scratch, hashseed), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        self.msgs = []
        self.th = threading.Thread(target=self._pump, daemon=True)
        self.th.start()

    def _pump(self):
        for line in self.p.stdout:
            try:
                self.msgs.append(json.loads(line))
            except ValueError:
                self.msgs.append({"t": "garbage", "line": line[:200].decode("utf-8", "replace")})

    def wait(self, timeout=None):
        self.p.wait(timeout)
        self.th.join(10)
        return self.p.returncode

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass

    def stderr_tail(self):
        try:
            self.err.flush()
            with open(self.err.name, "rb") as f:
                return f.read()[-3000:].decode("utf-8", "replace")
        except OSError:
            return ""


def known_for(cid):
    """(unlisted suppressions) entries of known_findings.json that are not 'fixed'."""
    p = os.path.join(VERIF, "known_findings.json")
    try:
        d = json.load(open(p))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == cid]


def check(cid):
    t_start = time.monotonic()
    vseed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.path.insert(0, VERIF)
    from sim import registry_meta
    meta = registry_meta.META[cid]
    n = meta["quick"] if tier == "quick" else meta["thorough"]
    n = int(os.environ.get("SIM_RUNS", n))
    limit = 520.0 if tier == "quick" else 3 * 3600.0
    print("check %s tier=%s VERIF_SEED=%s runs=%d workers=%d" % (cid, tier, vseed, n, CPUS), flush=True)
    known = known_for(cid)
    root = tempfile.mkdtemp(prefix="simrun-")
    ws = []
    try:
        kj = json.dumps([{"cls": k["cls"], "sig": k["sig"]} for k in known])
        for w in range(CPUS):
            ws.append(W(["batch", cid, vseed, tier, w, n, CPUS, limit, kj], root))
        viol = None
        hard = time.monotonic() + limit + 120
        while True:
            for w in ws:
                for m in list(w.msgs):
                    if m.get("t") == "violation":
                        if viol is None or m["i"] < viol["i"]:
                            viol = m
            if viol is not None:
                # give workers at lower seeds a moment, then stop
                time.sleep(0.5)
                break
            if all(w.p.poll() is not None for w in ws):
                for w in ws:
                    w.wait(10)
                break
            if time.monotonic() > hard:
                print("ERROR: workers exceeded the hard wall limit", flush=True)
                return 3
            time.sleep(0.05)
        for w in ws:
            for m in list(w.msgs):
                if m.get("t") == "violation" and (viol is None or m["i"] < viol["i"]):
                    viol = m
        harness = []
        aggs = []
        for w in ws:
            if viol is not None:
                w.kill()
                w.wait(20)
            rc = w.p.returncode
            done = [m for m in w.msgs if m.get("t") == "done"]
            for m in w.msgs:
                if m.get("t") == "error":
                    harness.append("seed %s: %s" % (m["i"], m["errors"]))
            if done:
                aggs.append(done[0]["agg"])
            elif viol is None:
                harness.append("worker ended rc=%s: %s" % (rc, w.stderr_tail()))
        rc = 0
        replay_rel = None
        if viol is not None:
            rc, replay_rel = report(cid, viol, vseed, tier, root)
        elif harness:
            for h in harness[:5]:
                print("ERROR:", h, flush=True)
            rc = 4
        write_evidence(cid, meta, aggs, vseed, tier, time.monotonic() - t_start, viol, known, n, harness)
        tot = {}
        for a in aggs:
            for k, v in a["known"].items():
                tot[k] = tot.get(k, 0) + v
        if rc == 0:
            for i, k in enumerate(known):
                print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (cid, k["what"], tot.get(str(i), 0)))
            print("OK %s: %d runs, no violation" % (cid, sum(a["runs"] for a in aggs)), flush=True)
        return rc
    finally:
        for w in ws:
            w.kill()
        shutil.rmtree(root, ignore_errors=True)


def report(cid, viol, vseed, tier, root):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (cid, tier, vseed, viol["i"]))
    rec = {"check": cid, "verif_seed": vseed, "tier": tier, "seed_index": viol["i"], "sseed": viol["sseed"],
           "scenario": viol["scen"], "choices": viol["choices"], "class": viol["v"]["cls"], "violation": viol["v"]}
    tmp = os.path.join(root, "viol.json")
    json.dump({"scen": viol["scen"], "choices": viol["choices"], "sseed": viol["sseed"], "v": viol["v"]}, open(tmp, "w"))
    budget = 60 if tier == "quick" else 300
    w = W(["shrink", cid, tmp, budget], root)
    try:
        w.wait(budget + 200)
    except subprocess.TimeoutExpired:
        w.kill()
        w.wait(10)
    out = [m for m in w.msgs if m.get("t") == "shrunk"]
    minimised = False
    if out and out[0]["f"].get("ok"):
        f = out[0]["f"]
        rec.update(scenario=f["scenario"], choices=f["choices"], violation=f["v"], trace_hash=f["thash"],
                   shrink_attempts=f["tries"], minimised=True)
        minimised = True
    json.dump(rec, open(path, "w"), indent=1, sort_keys=True)
    # the replay file must reproduce in a fresh process
    w = W(["one", cid, path], root)
    try:
        w.wait(300)
    except subprocess.TimeoutExpired:
        w.kill()
        w.wait(10)
    got = [m for m in w.msgs if m.get("t") == "result"]
    ok = bool(got) and any(v["cls"] == rec["class"] for v in got[0]["violations"])
    same = ok and ("trace_hash" not in rec or got[0]["thash"] == rec["trace_hash"])
    if ok:
        rec["trace_hash"] = got[0]["thash"]
        rec["event_log_tail"] = got[0]["log"][-150:]
        json.dump(rec, open(path, "w"), indent=1, sort_keys=True)
    v = rec["violation"]
    print("seed=%s index=%d class=%s minimised=%s replay_reproduces=%s identical_trace=%s" % (
        vseed, viol["i"], v["cls"], minimised, ok, same))
    print("what: %s" % v["msg"])
    if not ok:
        print("ERROR: the violation did not replay; this is a defect of the simulator", w.stderr_tail())
        return 5, path
    print("VIOLATION property=%s replay=%s" % (cid, path), flush=True)
    return 1, path


def write_evidence(cid, meta, aggs, vseed, tier, wall, viol, known, n, harness):
    from sim import registry_meta
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def tot(k):
        return sum(a[k] for a in aggs)

    def totd(k):
        d = {}
        for a in aggs:
            for x, y in a[k].items():
                d[x] = d.get(x, 0) + y
        return dict(sorted(d.items()))

    def uni(k):
        s = set()
        for a in aggs:
            s.update(a[k])
        return len(s)
    runs = tot("runs")
    wsum = max([a["wall"] for a in aggs] or [1e-9])
    samples = [s for a in aggs for s in a["samples"]][:3]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": uni("keys"),
        "rule": meta["rule"],
        "samples": samples or [viol["scen"] if viol else "none"],
        "runs_planned": n,
        "operations": tot("ops"),
        "runs_per_hour": int(runs / wsum * 3600) if aggs else 0,
        "seeds_per_hour": int(runs / wsum * 3600) if aggs else 0,
        "simulated_seconds": round(tot("sim_time"), 3),
        "scheduling_points": tot("points"),
        "context_switches": tot("switches"),
        "faults_injected": totd("stats"),
        "runs_with_a_fault": tot("faulty"),
        "probes": totd("probes"),
        "distinct_event_traces": uni("traces"),
        "distinct_thread_schedules": uni("scheds"),
        "inconclusive_runs": tot("inconclusive"),
        "inconclusive_reasons": totd("incwhy"),
        "known_findings_seen": totd("known"),
        "truncated_by_wall_limit": any(a["truncated"] for a in aggs),
        "components_real": meta["real"],
        "components_stubbed": meta["stub"],
    }
    ev = {"property": cid, "tier": tier, "seed": int(vseed) if str(vseed).lstrip("-").isdigit() else 0,
          "level": "exploration", "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(wall, 2),
          "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)


def replay(path):
    rec = json.load(open(path))
    root = tempfile.mkdtemp(prefix="simrun-")
    try:
        w = W(["one", rec["check"], os.path.abspath(path)], root)
        w.wait(600)
        got = [m for m in w.msgs if m.get("t") == "result"]
        if not got:
            print("ERROR: replay gave no result", w.stderr_tail())
            return 4
        g = got[0]
        for l in g["log"]:
            print(l)
        for v in g["violations"]:
            print("violation:", v["cls"], v["msg"])
        if g["errors"]:
            print("errors:", g["errors"])
        print("trace_hash", g["thash"], "recorded", rec.get("trace_hash"))
        if any(v["cls"] == rec["class"] for v in g["violations"]):
            print("VIOLATION property=%s replay=%s" % (rec["check"], path))
            return 1
        print("replay: the violation does not occur on this tree")
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def selftest(ids, per=40):
    """Determinism: same seeds, different workers/orders/hash seeds -> identical traces."""
    sys.path.insert(0, VERIF)
    from sim import registry_meta
    vseed = os.environ.get("VERIF_SEED", "1")
    bad = 0
    for cid in ids or sorted(registry_meta.META):
        root = tempfile.mkdtemp(prefix="simrun-")
        try:
            idx = list(range(per))
            groups = [(idx, "0"), (list(reversed(idx)), "0"), (idx[::2] + idx[1::2], "1"), (idx[: per // 2], "77"), (idx[per // 2:], "12345")]
            ws = [W(["hashes", cid, vseed, "quick", json.dumps(g)], root, hs) for g, hs in groups]
            seen = {}
            n = 0
            for w in ws:
                rc = w.wait(1200)
                if rc != 0:
                    print("selftest %s worker rc=%s %s" % (cid, rc, w.stderr_tail()))
                    bad += 1
                for m in w.msgs:
                    if m.get("t") == "hash":
                        n += 1
                        seen.setdefault(m["i"], set()).add(json.dumps(m["h"]))
            diff = [i for i, s in seen.items() if len(s) > 1]
            print("selftest %s: %d seeds, %d executions, %d nondeterministic %s" % (cid, len(seen), n, len(diff), sorted(diff)[:5]), flush=True)
            bad += len(diff)
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return 1 if bad else 0


def survey(cid, n):
    """All violations of n runs, by class (development aid)."""
    root = tempfile.mkdtemp(prefix="simrun-")
    try:
        ws = [W(["batch", cid, os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick"), k, n, CPUS, 3000, json.dumps(
            [{"cls": k["cls"], "sig": k["sig"]} for k in known_for(cid)]), "survey"], root) for k in range(CPUS)]
        by, aggs = {}, []
        for w in ws:
            rc = w.wait(3600)
            if rc != 0:
                print("worker rc", rc, w.stderr_tail())
            for m in w.msgs:
                if m["t"] == "sv":
                    by.setdefault(m["cls"], []).append(m)
                elif m["t"] == "error":
                    print("ERROR seed", m["i"], str(m["errors"])[:1500])
                elif m["t"] == "done":
                    aggs.append(m["agg"])
                elif m["t"] == "garbage":
                    print(m)
        for c, l in sorted(by.items()):
            l.sort(key=lambda m: m["i"])
            print("== %s: %d runs, seeds %s" % (c, len({m["i"] for m in l}), sorted({m["i"] for m in l})[:6]))
            sigs = {}
            for m in l:
                sigs.setdefault(m.get("sig"), m)
            for m in list(sigs.values())[:4]:
                print("   [%s] %d: %s" % (m.get("sig"), m["i"], m["msg"]))
        st, pr, inc = {}, {}, {}
        for a in aggs:
            for d, k in ((st, "stats"), (pr, "probes"), (inc, "incwhy")):
                for x, y in a[k].items():
                    d[x] = d.get(x, 0) + y
        print("runs", sum(a["runs"] for a in aggs), "wall/worker %.1f" % max([a["wall"] for a in aggs] or [0]), "nontrivial", sum(a["nontrivial"] for a in aggs),
              "\nfaults", st, "\nprobes", pr, "\ninconclusive", inc)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def seed(cid, i):
    root = tempfile.mkdtemp(prefix="simrun-")
    try:
        w = W(["seed", cid, os.environ.get("VERIF_SEED", "1"), os.environ.get("VERIF_TIER", "quick"), i], root)
        w.wait(600)
        for m in w.msgs:
            for l in m.pop("log", []):
                print(l)
            print(json.dumps(m, indent=1)[:20000])
        print(w.stderr_tail())
        return 0
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        sys.path.insert(0, VERIF)
        from sim import registry_meta
        rc = subprocess.run([PY, "-c", "import cwl_utils, schema_salad, ruamel.yaml, requests"], env=dict(os.environ, PYTHONPATH="/repo/src")).returncode
        rc = rc or subprocess.run(["node", "-e", "1"]).returncode
        print("setup: python and node %s; checks: %s" % ("ok" if rc == 0 else "NOT usable", " ".join(sorted(registry_meta.META))))
        return rc
    if a[0] == "check":
        return check(a[1])
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "selftest":
        return selftest(a[1:], int(os.environ.get("SIM_SELFTEST", "40")))
    if a[0] == "survey":
        return survey(a[1], int(a[2]))
    if a[0] == "seed":
        return seed(a[1], int(a[2]))
    raise SystemExit("usage: check ID | replay FILE | selftest [ID...] | seed ID N")


if __name__ == "__main__":
    sys.exit(main())
