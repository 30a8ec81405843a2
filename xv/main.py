"""Runner: distributes a check's scenarios over worker processes, merges what the monitors
observed, writes evidence and the verdict.  Exit 0 held, 1 violated, 2 inconclusive."""
import argparse
import importlib
import json
import os
import queue
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STALL = 240.0
RSS_LIMIT = 2.2e9


class Worker:
    def __init__(self, prop, env, workdir):
        r, w = os.pipe()
        self.r = r
        e = dict(os.environ)
        e.update({"XV_FD": str(w), "PYTHONPATH": f"{e['XV_REPO']}:{HERE}", "PYTHONUNBUFFERED": "1",
                  "XV_WORKDIR": workdir, "TF_CPP_MIN_LOG_LEVEL": "3"})
        e.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0")
        for k, v in env.items():
            e[k] = v
        self.env_key = json.dumps(env, sort_keys=True)
        self.log = tempfile.NamedTemporaryFile(dir=workdir, suffix=".log", delete=False)
        self.p = subprocess.Popen([sys.executable, "-m", "xv.worker", prop], stdin=subprocess.PIPE,
                                  stdout=self.log, stderr=self.log, pass_fds=(w,), env=e, cwd=HERE,
                                  start_new_session=True)
        os.close(w)
        self.buf = b""

    def send(self, obj):
        self.p.stdin.write((json.dumps(obj) + "\n").encode())
        self.p.stdin.flush()

    def recv(self, stop, last):
        """next message, or {'dead':..}/{'stalled':..}/{'stopped':..}."""
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                msg = json.loads(line)
                last[0] = time.time()
                return msg
            if stop():
                return {"stopped": 1}
            rd, _, _ = select.select([self.r], [], [], 0.5)
            if rd:
                d = os.read(self.r, 1 << 20)
                if not d:
                    self.p.wait()
                    return {"dead": self.p.returncode}
                self.buf += d
            elif time.time() - last[0] > STALL:
                return {"stalled": 1}

    def tail(self, n=3000):
        try:
            with open(self.log.name, "rb") as f:
                return f.read()[-n:].decode(errors="replace")
        except OSError:
            return ""

    def kill(self, dump=False):
        try:
            if dump and self.p.poll() is None:
                os.kill(self.p.pid, signal.SIGUSR1)
                time.sleep(1.0)
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        try:
            os.close(self.r)
            self.p.stdin.close()
        except OSError:
            pass


class Runner:
    def __init__(self, prop, tier, seed, scenarios, budget, hard, nworkers, workdir, max_rounds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scenarios, self.budget, self.hard = scenarios, budget, hard
        self.nw, self.workdir, self.max_rounds = nworkers, workdir, max_rounds
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.pending = [(0, s, 0) for s in scenarios]  # (round, scenario, retries)
        self.pending.sort(key=lambda x: -x[1].weight)
        self.round = 0
        self.results, self.violations, self.notes = [], [], []
        self.stop_at = None
        self.setup_error = None

    def stopped(self):
        return (self.stop_at is not None and time.time() > self.stop_at) or time.time() - self.t0 > self.hard

    def next_job(self, env_key):
        with self.lock:
            if self.stop_at is not None or time.time() - self.t0 > self.hard:
                return None
            if not self.pending:
                if self.round + 1 < self.max_rounds and time.time() - self.t0 < self.budget:
                    self.round += 1
                    self.pending = [(self.round, s, 0) for s in self.scenarios if not s.once]
                    self.pending.sort(key=lambda x: -x[1].weight)
                if not self.pending:
                    return None
            for i, (r, s, k) in enumerate(self.pending):
                if json.dumps(s.env, sort_keys=True) == env_key:
                    return self.pending.pop(i)
            return self.pending.pop(0)

    def add_violation(self, sc, rnd, v, known):
        with self.lock:
            self.violations.append(dict(scenario=sc.to_json(), round=rnd, **v))
            if not known(v["key"]) and self.stop_at is None:
                self.stop_at = time.time() + 3.0

    def slot(self, known):
        w = None
        while True:
            job = self.next_job(w.env_key if w else None)
            if job is None:
                break
            rnd, sc, retries = job
            if rnd > 0 and time.time() - self.t0 > self.budget * 1.5:
                continue
            key = json.dumps(sc.env, sort_keys=True)
            last = [time.time()]
            if w is None or w.env_key != key:
                if w:
                    w.kill()
                w = Worker(self.prop, sc.env, self.workdir)
                ok = False
                while True:
                    m = w.recv(self.stopped, last)
                    if m.get("ready"):
                        ok = True
                        break
                    if "hb" in m:
                        continue
                    break
                if not ok:
                    if "import_error" in m:
                        self.add_violation(sc, rnd, dict(key="import", msg="the package cannot be imported or its record types cannot be built",
                                                         detail={"traceback": m["import_error"]}), known)
                    elif "setup_error" in m:
                        self.setup_error = m["setup_error"]
                    elif "stopped" not in m:
                        self.notes.append(f"worker failed to start: {m} {w.tail(800)}")
                        if retries < 1:
                            with self.lock:
                                self.pending.append((rnd, sc, retries + 1))
                    w.kill()
                    w = None
                    if "stopped" in m:
                        break
                    continue
            try:
                w.send(dict(scenario=sc.to_json(), seed=self.seed, round=rnd, tier=self.tier))
            except OSError:
                pass
            while True:
                m = w.recv(self.stopped, last)
                if "hb" in m:
                    continue
                break
            if "result" in m and m["result"] is not None:
                with self.lock:
                    self.results.append(m["result"])
                if m["result"]["violation"]:
                    self.add_violation(sc, rnd, m["result"]["violation"], known)
                if m.get("rss", 0) > RSS_LIMIT:   # compiled code piles up: go on in a fresh process
                    w.kill()
                    w = None
                continue
            if "stopped" in m:
                w.kill()
                w = None
                break
            # dead, stalled or out of memory
            w.kill(dump="stalled" in m)
            tail = w.tail()
            w = None
            self.notes.append(f"{sc.name} round {rnd}: {m}")
            if retries < 1:
                with self.lock:
                    self.pending.insert(0, (rnd, sc, retries + 1))
            elif "stalled" in m:
                self.add_violation(sc, rnd, dict(key="no-progress", msg=f"an operation made no progress for {STALL:.0f} s, twice, in fresh processes",
                                                 detail={"stderr": tail}), known)
            elif m.get("dead") in (-6, -7, -8, -11):
                self.add_violation(sc, rnd, dict(key="crash", msg=f"process crashed twice with signal {-m['dead']}",
                                                 detail={"stderr": tail}), known)
            else:
                self.notes.append(f"{sc.name} round {rnd} gave no answer: {m} {tail[-500:]}")
        if w:
            w.kill()

    def run(self, known):
        ths = [threading.Thread(target=self.slot, args=(known,)) for _ in range(self.nw)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()


def load_findings(prop):
    keys = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(t.split("=", 1) for t in line.split() if "=" in t and t.split("=")[0] in ("property", "key"))
                if f.get("property") == prop:
                    keys[f["key"]] = line.split("key=" + f["key"], 1)[1].strip()
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="substring of scenario names")
    ap.add_argument("--rounds", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    prop = a.prop.upper()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module(f"xv.plans.{prop.lower()}")
    scenarios = mod.scenarios(tier, seed)
    names = [s.name for s in scenarios]
    assert len(set(names)) == len(names), "duplicate scenario names"
    budget = getattr(mod, "BUDGET", {}).get(tier, 15.0 if tier == "quick" else 420.0)
    max_rounds = getattr(mod, "MAX_ROUNDS", {}).get(tier, 3 if tier == "quick" else 200)
    hard = 760.0 if tier == "quick" else 840.0
    if a.replay:
        rep = json.load(open(a.replay))
        from xv.ctx import Scenario
        s = rep["scenario"]
        sc = Scenario(s["name"], s["fn"], env=s["env"], **s["params"])
        seed, tier = rep["seed"], rep["tier"]
        scenarios = [sc]
        max_rounds, budget = 1, 0
    if a.only:
        scenarios = [s for s in scenarios if a.only in s.name]
    if a.rounds:
        max_rounds = a.rounds
        if a.rounds > 1:
            budget = 1e9
    findings = load_findings(prop)

    def known(key):
        return key in findings

    work = os.path.join(HERE, ".work")
    os.makedirs(work, exist_ok=True)
    workdir = tempfile.mkdtemp(prefix=f"{prop}-", dir=work)
    try:
        R = Runner(prop, tier, seed, scenarios, budget, hard, max(1, min(a.jobs, len(scenarios))), workdir, max_rounds)
        if a.replay:
            R.pending = [(rep["round"], scenarios[0], 0)]
        R.run(known)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    evals = sum(r["evals"] for r in R.results)
    distinct = set()
    events, samples, per = {}, [], {}
    for r in R.results:
        distinct.update(r["distinct"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        d = per.setdefault(r["name"], dict(runs=0, evaluations=0, wall_s=0.0))
        d["runs"] += 1
        d["evaluations"] += r["evals"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        if len(samples) < 6 and r["samples"]:
            samples.append(dict(scenario=r["name"], round=r["round"], case=r["samples"][0]))
    bad = [v for v in R.violations if not known(v["key"])]
    old = [v for v in R.violations if known(v["key"])]
    for k in sorted({v["key"] for v in old}):
        print(f"KNOWN-FINDING: property={prop} {findings[k]}")
    done0 = {r["name"] for r in R.results}
    missing_sc = [s.name for s in scenarios if s.name not in done0]
    need = getattr(mod, "REQUIRED_EVENTS", ())
    missing_ev = [k for k in need if not events.get(k)] if not (a.only or a.replay) else []
    wall = round(time.time() - t0, 2)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=mod.RULE,
                            samples=samples or ["none"], scenarios=len(scenarios), scenarios_completed=len(done0),
                            scenario_runs=len(R.results), rounds=R.round + 1, events=dict(sorted(events.items())),
                            per_scenario=per, scenarios_not_completed=missing_sc, notes=R.notes[:20]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", ())), wall_s=wall, violations=len(bad))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.replay and not a.only:
        with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {len(R.results)} scenario runs, {evals} evaluations, {len(distinct)} distinct non-trivial, "
          f"events={json.dumps(dict(sorted(events.items())))}, wall={wall}s")
    if a.only or os.environ.get("XV_VERBOSE"):
        for k, v in sorted(per.items(), key=lambda kv: -kv[1]["wall_s"]):
            print("   ", k, v)
    for n in R.notes[:10]:
        print("note:", n)
    if bad:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(bad[:3]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, **v,
                               replay_cmd=f"cd {HERE} && VERIF_SEED={seed} ./check.sh {prop} --replay {path}"), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  scenario={v['scenario']['name']} round={v['round']} key={v['key']}: {v['msg'][:700]}")
            d = v.get("detail") or {}
            print("  " + json.dumps(d)[:1500])
        sys.exit(1)
    if R.setup_error:
        print("setup error:", R.setup_error)
        sys.exit(2)
    if missing_ev or not evals or len(missing_sc) > len(scenarios) // 2:
        print(f"INCONCLUSIVE: monitors not reached: events {missing_ev}, scenarios not completed {missing_sc}")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
