#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree
   check.py --setup                     build the engine, the standard library bitcode and the IR
   check.py --replay FILE               run a recorded counterexample natively again
   check.py --list                      jobs per property
"""
import collections, concurrent.futures, json, os, resource, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import pipeline, jobs  # noqa: E402

NCPU = 8
BUILD = pipeline.BUILD
RUNS = os.path.join(BUILD, "runs")
# (placement of allocations, poison pattern of fresh memory)
MODES = [(0, 0xA5), (1, 0x5A), (2, 0x00), (0, 0xFF)]
MEM = 7 << 30


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Stop(Exception):
    pass


def engine_run(exe, ir, job, shard, limit, out):
    cmd = [exe, "--ll", ir["ll"], "--entry", job.entry, "--args", ",".join(map(str, job.args)), "--time", str(limit), "--query-ms",
           str(job.query_ms), "--shard", "%d/%d" % (shard, job.shards), "--max-violations", "3", "--max-traces", str(job.traces), "--max-steps", str(job.steps), "--out",
           out + ".json", "--traces", out + ".tr"] + (["--plain"] if job.plain else [])
    return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), preexec_fn=limits)


HEAVY = threading.Semaphore(2)


def native(ir, lines, mode, poison, timeout=300):
    """lines: list of (entry, args, tape); returns list of (status, events)."""
    heavy = any(e.startswith("h_huge_") for e, _, _ in lines)
    if not heavy:
        res = native1(ir, lines, mode, poison, timeout)
    else:
        # gigabytes each: few at a time
        res = []
        for l in lines:
            with HEAVY:
                res += native1(ir, [l], mode, poison, timeout)
    if len(res) == len(lines):
        for i, (s, e) in enumerate(res):
            for k in range(3):
                # ended from outside (memory) or by its timer: once more, alone
                if not (s == "signal:9" and k < 2 or s == "signal:14" and k < 1):
                    break
                time.sleep(2 * k)
                with ALONE:
                    r = native1(ir, [lines[i]], mode, poison, timeout)
                if r:
                    s = r[0][0]
                    res[i] = r[0]
    return res


ALONE = threading.Lock()


def native1(ir, lines, mode, poison, timeout):
    inp = "".join("%s\t%s\t%s\n" % (e, ",".join(map(str, a)), t) for e, a, t in lines)
    p = subprocess.run([ir["replay"], "--mode", str(mode), "--poison", str(poison)], input=inp.encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=timeout)
    res = []
    for l in p.stdout.decode("utf-8", "replace").split("\n"):
        if "\t" in l:
            s, e = l.split("\t", 1)
            res.append((s, [x for x in e.split("\x01") if x]))
    return res


def bad_native(status, events):
    """A violation shown by the real code itself."""
    for e in events:
        if e.startswith("f"):
            return "check failed: " + e[1:]
        if e.startswith("P"):
            return "panic: " + e[1:]
        if e.startswith("!") and not e.startswith("!T"):
            return "memory error: " + e[1:]
    if status.startswith("signal:") and status != "signal:9":
        return "killed by " + status
    return None


def visible(events):
    return [e for e in events if e[:1] in "ecvfP!"]


def ev_match(a, b):
    """engine events against native events (e? is a value the engine leaves open)"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y or (x == "e?" and y[:1] == "e") or (x[:1] in "pP" and y[:1] == x[:1]):
            continue
        return False
    return True


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.jobs = jobs.jobs_for(prop, tier)
        self.limit = jobs.LIMIT[tier]
        self.res = {}
        self.stop = threading.Event()
        self.violation = None
        self.unconfirmed = []
        self.problems = []
        self.cut = []
        self.known = []
        self.validated = 0
        self.killed = 0
        self.skipped = []
        self.native_runs = 0
        self.procs = set()
        self.plock = threading.Lock()
        self.dir = None

    def left(self):
        return self.limit - (time.time() - self.t0)

    # ---- one engine process
    def run_one(self, exe, irs, job, shard):
        if self.stop.is_set():
            return None
        out = os.path.join(self.dir, "%d-%d" % (self.jobs.index(job), shard))
        lim = max(5.0, min(job.time, self.left()))
        p = engine_run(exe, irs[job.cfg], job, shard, lim, out)
        with self.plock:
            self.procs.add(p)
        try:
            try:
                p.wait(timeout=lim + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        finally:
            with self.plock:
                self.procs.discard(p)
        if self.stop.is_set():
            return None
        try:
            d = json.load(open(out + ".json"))
        except Exception:
            err = open(out + ".err").read()[-800:]
            return dict(error="engine exit %s: %s" % (p.returncode, err))
        tr = []
        if os.path.exists(out + ".tr"):
            for l in open(out + ".tr", encoding="utf-8", errors="replace"):
                f = l.rstrip("\n").split("\t")
                if len(f) >= 3:
                    tr.append((f[0], f[1], [x for x in f[2].split("\x01") if x]))
        d["_traces"] = tr
        for v in d["violations"]:
            self.confirm(irs[job.cfg], job, v)
        for t in d.get("suspects", []):
            # a path the engine did not finish: what the real code does there counts if it is wrong
            r = native(irs[job.cfg], [(job.entry, job.args, t)], 0, 0xA5)
            b = bad_native(*r[0]) if r else None
            if b:
                self.report(job, t, "path not explored to the end: " + ", ".join(d["incomplete"]), b)
                break
        return d

    # ---- engine counterexample -> native run
    def confirm(self, ir, job, v):
        if self.stop.is_set():
            return
        what, runs = None, []
        for mode, poison in MODES:
            r = native(ir, [(job.entry, job.args, v["tape"])], mode, poison)
            self.native_runs += 1
            if not r:
                continue
            runs.append(r[0])
            what = bad_native(*r[0])
            if what:
                break
        if not what and len(set((s, tuple(visible(e))) for s, e in runs)) > 1:
            what = "result depends on uninitialised memory or on the placement of allocations"
        if not what:
            self.unconfirmed.append("%s %s: %s %s not reproduced natively" % (job.entry, job.args, v["kind"], v["msg"]))
            return
        self.report(job, v["tape"], v["kind"] + ": " + v["msg"], what)

    def report(self, job, tape, msg, what):
        for k in jobs.known_findings():
            if k["property"] == self.prop and k["entry"] == job.entry and k["args"] == list(job.args) and k["what"] in (msg + " / " + what):
                line = "KNOWN-FINDING: property=%s %s" % (self.prop, k["text"])
                if line not in self.known:
                    self.known.append(line)
                return
        with self.plock:
            if self.violation:
                return
            d = os.path.join(BUILD, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, self.tier))
            json.dump(dict(property=self.prop, cfg=job.cfg, entry=job.entry, args=list(job.args), tape=tape, solver=msg, native=what), open(path, "w"),
                      indent=1)
            self.violation = dict(path=path, msg=msg, native=what, entry=job.entry, args=list(job.args), cfg=job.cfg)
            self.stop.set()
            for p in self.procs:
                p.kill()

    # ---- engine path summaries against the real code
    def validate(self, irs):
        groups = {}
        for (ji, sh), d in self.res.items():
            if d and not d.get("error"):
                j = self.jobs[ji]
                for t in d["_traces"]:
                    groups.setdefault(j.cfg, []).append((j, t))
        work = []
        for cfg, items in groups.items():
            for k, (mode, poison) in enumerate(MODES):
                part = items if k < 2 else items[:: 4]
                if k > 0:
                    # clouds of gigabytes: every path once
                    part = [x for x in part if not x[0].entry.startswith("h_huge_read")]
                if not part:
                    continue
                n = max(1, (len(part) + 3) // 4)
                for i in range(0, len(part), n):
                    work.append((cfg, mode, poison, part[i:i + n]))
        def go(w):
            cfg, mode, poison, part = w
            return w, native(irs[cfg], [(j.entry, j.args, t[1]) for j, t in part], mode, poison, timeout=400)
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for (cfg, mode, poison, part), r in ex.map(go, work):
                if len(r) != len(part):
                    self.problems.append("native replay (%s) answered %d of %d" % (cfg, len(r), len(part)))
                    continue
                for (j, t), (s, e) in zip(part, r):
                    self.native_runs += 1
                    b = bad_native(s, e)
                    if b:
                        self.report(j, t[1], "path of the encoding", b)
                        continue
                    if s == "signal:9":
                        self.killed += 1
                        continue
                    if s != t[0] or not ev_match(visible(t[2]), visible(e)):
                        self.problems.append("encoding and native run differ: %s %s %s mode %d: %s %s / %s %s" %
                                             (cfg, j.entry, j.args, mode, t[0], visible(t[2])[-6:], s, visible(e)[-6:]))
                    elif (mode, poison) == MODES[0]:
                        self.validated += 1

    def main(self):
        os.makedirs(RUNS, exist_ok=True)
        try:
            cfgs = sorted(set(j.cfg for j in self.jobs))
            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                fe = ex.submit(pipeline.build_engine)
                ex.submit(pipeline.build_std).result()
                irs, failed = {}, {}
                for c, f in [(c, ex.submit(pipeline.build_ir, c)) for c in cfgs]:
                    try:
                        irs[c] = f.result()
                    except pipeline.BuildError as e:
                        failed[c] = e
                exe = fe.result()
            if failed:
                # a feature combination that does not compile: the other ones still decide
                n = sum(j.shards for j in self.jobs)
                self.jobs = [j for j in self.jobs if j.cfg in irs]
                if not self.jobs or "dev" in failed or sum(j.shards for j in self.jobs) * 2 < n:
                    raise next(iter(failed.values()))
                for c, e in failed.items():
                    print(str(e)[-2000:])
                    self.skipped.append("configuration %s does not compile" % c)
        except pipeline.BuildError as e:
            print(str(e)[-6000:])
            print("ERROR: build failed")
            return 2
        tb = time.time()
        with tempfile.TemporaryDirectory(dir=RUNS) as d:
            self.dir = d
            todo = [(j, s) for j in self.jobs for s in range(j.shards)]
            todo.sort(key=lambda x: -x[0].cost / x[0].shards)
            todo = collections.deque(todo)

            def work(small):
                # the large searches first, so that they do not end last; some workers take the small ones, which answer
                # at once if much is wrong
                while True:
                    with self.plock:
                        if not todo:
                            return
                        j, s = todo.pop() if small else todo.popleft()
                    self.res[(self.jobs.index(j), s)] = self.run_one(exe, irs, j, s)

            with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
                for f in [ex.submit(work, i < NCPU // 4) for i in range(NCPU)]:
                    f.result()
            te = time.time()
            if not self.violation:
                self.validate(irs)
        return self.finish(irs, tb, te, exe)

    def finish(self, irs, tb, te, exe):
        tot = {}
        funcs = set()
        checks = {}
        per = []
        for ji, j in enumerate(self.jobs):
            covers = set()
            acc = {}
            for s in range(j.shards):
                d = self.res.get((ji, s))
                if d is None:
                    continue
                if d.get("error"):
                    self.problems.append("%s %s: %s" % (j.entry, j.args, d["error"]))
                    continue
                c = d["covers"]
                covers |= set(c if isinstance(c, list) else [k for k in c if c[k]])
                for k, v in d.items():
                    if isinstance(v, (int, float)) and not isinstance(v, bool):
                        tot[k] = tot.get(k, 0) + v
                        acc[k] = acc.get(k, 0) + v
                for f in d["functions"]:
                    funcs.add(f)
                for m, (a, b) in d["checks"].items():
                    x = checks.setdefault(m, [0, 0])
                    x[0] += a
                    x[1] += b
                if d["incomplete"] and not self.violation:
                    # out of time: the explored part stands, the rest is reported as not covered
                    late = set(d["incomplete"]) <= {"time limit", "step limit per path", "solver gave no answer within its time limit"}
                    (self.cut if late else self.problems).append("%s %s [%s]: incomplete: %s %s" % (j.entry, j.args, j.cfg, d["incomplete"], (d.get("incomplete_trace") or [""])[:1]))
                elif d["stopped_early"] and not d["violations"] and not self.violation:
                    self.problems.append("%s %s: stopped early" % (j.entry, j.args))
                elif d["smt_unknown"] and not self.violation:
                    self.problems.append("%s %s: %d solver queries undecided" % (j.entry, j.args, d["smt_unknown"]))
            for c in j.covers:
                if c not in covers and not self.violation and not self.unconfirmed and not any((self.res.get((ji, s)) or {}).get("incomplete") for s in range(j.shards)):
                    self.problems.append("%s %s [%s]: never reached: %s" % (j.entry, j.args, j.cfg, c))
            per.append(dict(cfg=j.cfg, entry=j.entry, args=list(j.args), bounds=j.bounds, shards=j.shards, paths=int(acc.get("paths_ok", 0) + acc.get("paths_panic", 0)),
                            smt_queries=int(acc.get("smt_queries", 0)), solver_s=round(acc.get("smt_time_s", 0), 2), cpu_s=round(acc.get("wall_s", 0), 2)))
        samples = []
        for (ji, sh), d in sorted(self.res.items()):
            if d and d.get("_traces"):
                t = d["_traces"][0]
                j = self.jobs[ji]
                samples.append(dict(cfg=j.cfg, entry=j.entry, args=list(j.args), inputs=t[1][:300], result=t[0], events=[e[:60] for e in t[2][:8]]))
            if len(samples) >= 6:
                break
        repo_funcs = sorted(f for f in funcs if "ros_pointcloud2" in f or "rpcl2" in f)
        evidence = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - self.t0, 2),
            violations=1 if self.violation else 0,
            coverage=dict(
                states=int(tot.get("paths_ok", 0) + tot.get("paths_panic", 0) + tot.get("paths_assume", 0) + tot.get("paths_violation", 0)),
                transitions=int(tot.get("forks", 0)),
                traces_validated_against_impl=self.validated,
                samples=samples,
                explanation="states = symbolic paths executed to their end, each standing for every input that satisfies its path condition; transitions = forks "
                "decided by the solver; traces = paths whose solver model was executed by the real, natively compiled code with the same observable result",
                ir_steps=int(tot.get("steps", 0)),
                assertions={m: dict(evaluated=a, proved=b) for m, (a, b) in sorted(checks.items())},
                assertion_queries=int(tot.get("check_queries", 0)),
                branch_queries=int(tot.get("branch_queries", 0)),
                memory_queries=int(tot.get("mem_queries", 0)),
                memory_accesses_checked=int(tot.get("mem_accesses", 0)),
                solver_queries=int(tot.get("smt_queries", 0)), solver_sat=int(tot.get("smt_sat", 0)), solver_unsat=int(tot.get("smt_unsat", 0)),
                solver_unknown=int(tot.get("smt_unknown", 0)), solver_time_s=round(tot.get("smt_time_s", 0), 2),
                native_runs=self.native_runs,
                functions_encoded=len(funcs), repo_functions_encoded=repo_funcs[:400],
                jobs=per, bounds=jobs.bounds(self.prop, self.tier), outside=jobs.OUTSIDE.get(self.prop, []),
                ir_modules={c: dict(sha=i["hash"][:16], build_s=round(i["build_s"], 1)) for c, i in irs.items()},
                engine_s=round(te - tb, 1), problems=self.problems[:20], cut_by_time_limit=self.cut[:50], not_compiling=self.skipped, native_runs_without_memory=self.killed, unconfirmed=self.unconfirmed[:20], known_findings=self.known,
            ),
            assumptions=jobs.ASSUMPTIONS,
        )
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print(k)
        c = evidence["coverage"]
        print("%s %s: %d jobs, %d paths, %d forks, %d assertions, %d solver queries (%.1f s), %d paths validated natively, %.1f s" % (
            self.prop, self.tier, len(self.jobs), c["states"], c["transitions"], sum(x["evaluated"] for x in c["assertions"].values()),
            c["solver_queries"], c["solver_time_s"], self.validated, evidence["wall_s"]))
        if self.violation:
            v = self.violation
            print("%s %s [%s]: %s; natively: %s" % (v["entry"], v["args"], v["cfg"], v["msg"], v["native"][:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, v["path"]))
            return 1
        for x in self.skipped:
            print("NOTE: not checked:", x)
        for x in self.cut[:10]:
            print("NOTE: not explored to the end:", x[:300])
        if self.killed:
            print("NOTE: %d native runs were ended for want of memory and validate nothing" % self.killed)
        if len(self.cut) * 2 > sum(j.shards for j in self.jobs):
            self.problems.append("%d of %d searches hit the time limit" % (len(self.cut), sum(j.shards for j in self.jobs)))
        if self.unconfirmed or self.problems:
            for x in (self.unconfirmed + self.problems)[:20]:
                print("ERROR:", x[:1500])
            return 2
        return 0


def do_replay(path):
    v = json.load(open(path))
    ir = pipeline.build_ir(v["cfg"])
    print(json.dumps(v, indent=1))
    worst = 0
    for mode, poison in MODES:
        for s, e in native(ir, [(v["entry"], v["args"], v["tape"])], mode, poison):
            b = bad_native(s, e)
            print("mode %d poison %02x: %s %s" % (mode, poison, s, b or "no violation"))
            worst |= b is not None
    return 1 if worst else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        pipeline.build_engine()
        pipeline.build_std()
        cfgs = sorted(set(j.cfg for p in jobs.PROPS for j in jobs.jobs_for(p, "quick")))
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(pipeline.build_ir, cfgs):
                print("built", r["cfg"], "%.1f s" % r["build_s"])
        return 0
    if a and a[0] == "--replay":
        return do_replay(a[1])
    if a and a[0] == "--list":
        for p in jobs.PROPS:
            for t in ("quick", "thorough"):
                for j in jobs.jobs_for(p, t):
                    print(p, t, j.cfg, j.entry, j.args, j.shards)
        return 0
    if not a:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return Check(a[0], tier).main()


if __name__ == "__main__":
    sys.exit(main())
