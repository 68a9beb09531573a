"""Common parts of all checks: build, run the harness, run TLC, report, write evidence."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.environ.get("VERIF_DIR", "/verif")
PY = "/opt/ngs/6.2.2405/bin/python"
JARS = "/opt/veriftools/tla"
ENV = {
    "HOME": "/root", "LANG": "C.UTF-8",
    "PATH": "/opt/ngs/6.2.2405/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "NGS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_btl_base_warn_component_unused": "0",
    "VERIF_DIR": V,
}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = "%s/work/%s.%s" % (V, pid, tier)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(V + "/evidence", exist_ok=True)
        self.rdir = "%s/work/replay" % V
        os.makedirs(self.rdir, exist_ok=True)
        self.violations = []     # (key, text, replay)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.lock = threading.Lock()

    quick = property(lambda s: s.tier == "quick")

    def pick(self, q, t):
        return q if self.quick else t

    # ------------------------------------------------------------------ violations
    def violation(self, text, data, key=None):
        """key: identifies the failing input/history, to match the known-findings file."""
        key = key or text
        for kf in self.known:
            if re.search(kf["match"], key):
                if kf["match"] not in self.known_hit:
                    self.known_hit.add(kf["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["what"]))
                return
        with self.lock:
            path = "%s/%s-%s.json" % (self.rdir, self.pid, hashlib.sha1(repr((text, key)).encode()).hexdigest()[:10])
            if len(self.violations) < 20:
                json.dump({"property": self.pid, "what": text, "key": key, "data": data}, open(path, "w"), indent=1, default=str)
            self.violations.append((key, text, path))

    # ------------------------------------------------------------------ harness
    def harness(self, mod, scenarios, stall=150, keep_going=True, tasks=False):
        """Runs scenarios (dicts with 'np') and returns [(scenario, [record per rank])]; crashes,
        exceptions and hangs are reported as violations of this property."""
        groups = {}
        rng = random.Random(self.seed * 7 + len(scenarios))
        for i, s in enumerate(scenarios):
            s["sid"] = i
            groups.setdefault(s["np"], []).append(s)
            t = rng.random()
            if tasks and "tm" not in s and t < (0.25 if s["np"] == 1 else 0.08):     # with worker threads
                s["tm"] = rng.choice([2, 2, 3, 5]) if s["np"] == 1 else 2
        if tasks:
            self.cov["scenarios_with_worker_threads"] = self.cov.get("scenarios_with_worker_threads", 0) + sum(1 for s in scenarios if s.get("tm"))
        res = {}
        chunks = []
        for np_, ss in groups.items():
            njobs = max(1, min(len(ss) // 20, 8 // max(1, min(np_, 4))))
            for j in range(njobs):
                part = ss[j::njobs]
                if part:
                    chunks.append((np_, part, "%s_%d_%d" % (mod, np_, j)))
        chunks.sort(key=lambda c: -c[0] * len(c[1]))
        slots = threading.Condition()
        free = [10]

        def work(np_, part, name):
            need = min(np_, 10)
            with slots:
                while free[0] < need:
                    slots.wait()
                free[0] -= need
            try:
                rest, n = part, 0
                while rest and not self.violations:      # after a crash or a hang the verdict is clear
                    rest = self._job(mod, np_, rest, "%s_%d" % (name, n), res, stall)
                    n += 1
                    if n > 3 or not keep_going:
                        break
            finally:
                with slots:
                    free[0] += need
                    slots.notify_all()

        ths = [threading.Thread(target=work, args=c) for c in chunks]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if keep_going and not self.violations and len(res) != len(scenarios):
            die("%s: %d of %d scenarios have no result" % (mod, len(scenarios) - len(res), len(scenarios)))
        return [(scenarios[i], res[i]) for i in sorted(res)]

    def _job(self, mod, np_, part, name, res, stall, attempt=0):
        sf, of = "%s/%s.scen.json" % (self.dir, name), "%s/%s.out" % (self.dir, name)
        json.dump(part, open(sf, "w"))
        cmd = [PY, V + "/harness/run.py", mod, sf, of]
        if np_ > 1:
            cmd = ["mpirun", "-np", str(np_)] + cmd
        log = open("%s/%s.log" % (self.dir, name), "w")
        for f in glob.glob(of + ".*"):
            os.unlink(f)
        tmp = tempfile.mkdtemp(prefix="vj", dir="/tmp")      # several mpiruns in one session directory get into each other's way
        p = subprocess.Popen(cmd, cwd=self.dir, env=dict(ENV, TMPDIR=tmp), stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        last, lastsize = time.time(), -1
        hung = False
        while p.poll() is None:
            time.sleep(0.05)
            size = sum(os.path.getsize(f) for f in glob.glob(of + ".*"))
            if size != lastsize:
                last, lastsize = time.time(), size
            elif time.time() - last > stall:
                hung = True
                p.terminate()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    pass
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        shutil.rmtree(tmp, ignore_errors=True)
        recs, excs, began, done = {}, {}, -1, 0
        for r in range(np_):
            try:
                lines = open("%s.%d" % (of, r)).read().split("\n")
            except FileNotFoundError:
                continue
            for l in lines:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if "begin" in d:
                    began = max(began, d["begin"])
                elif "exc" in d:
                    excs.setdefault(d["k"], []).append((r, d["exc"], d["tb"]))
                elif "done" in d:
                    done += 1
                else:
                    recs.setdefault(d["k"], {})[r] = d["r"]
        complete = 0
        for k, byrank in recs.items():
            if len(byrank) == np_ and k not in excs:
                res[part[k]["sid"]] = [byrank[r] for r in range(np_)]
                complete = max(complete, k + 1)
        if done == np_:
            return []
        if began < 0 and attempt < (1 if hung else 3):
            time.sleep(1 + attempt)
            return self._job(mod, np_, part, name, res, stall, attempt + 1)
        if began < 0:
            die("harness did not start (%s): %s" % (name, open("%s/%s.log" % (self.dir, name)).read()[-2000:]))
        bad = part[began]
        if began in excs:
            what = "exception: " + excs[began][0][1]
            tb = excs[began][0][2]
            if "ImportError" in what or "AttributeError: module 'ngsv'" in what or "scen_" in tb.split("\n")[-2] and ("KeyError" in what or "NameError" in what):
                die("harness error: %s\n%s" % (what, tb))
        elif hung:
            what, tb = "no progress for %d s (blocked for ever)" % stall, ""
        else:
            what, tb = "process died", open("%s/%s.log" % (self.dir, name), errors="replace").read()[-3000:]
        self.violation("%s in scenario %s" % (what, bad.get("name", bad.get("op", "?"))), {"scenario": bad, "what": what, "trace": tb, "module": mod},
                       key="%s|%s|%s" % (mod, bad.get("key", bad.get("op", "")), what))
        return part[began + 1:]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, deadlock=False, heap="4g", args=(), simulate=None):
        """Runs TLC on spec/<module>.tla; returns its output. Raises through die() when TLC itself fails."""
        meta = "%s/tlc_%s_%d" % (self.dir, module, len(glob.glob(self.dir + "/tlc_*")))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", "%s/build/tla:%s/tla2tools.jar:%s" % (V, JARS, cm_jar()),
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
        if not deadlock:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(args) + [module + ".tla"]
        e = dict(ENV)
        e.update(env or {})
        e["PATH"] = ENV["PATH"]
        try:
            r = subprocess.run(cmd, cwd=V + "/spec", env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as x:
            die("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        open("%s/tlc_%s.log" % (self.dir, module), "a").write(r.stdout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct", r.stdout)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return r.returncode, r.stdout

    def model(self, module, cfg=None, expect="No error has been found", env=None, **kw):
        """Model checking of the specification itself (independent of the code): has to succeed."""
        rc, out = self.tlc(module, cfg, env, **kw)
        if expect not in out:
            die("model checking of %s failed:\n%s" % (module, out[-3000:]))
        return out

    def validate(self, module, traces, what="trace", env=None, chunk=None, cfg=None, **kw):
        """Trace validation: traces is a list of dicts with 'id'; the specification prints
        <<"ACCEPT", n>> or <<"REJECT", n, l, clauses>> for every trace n (1-based)."""
        if not traces and self.violations:
            return set(), {}
        if not traces:
            die("no traces to validate")
        f = "%s/%s_%d.traces.json" % (self.dir, module, len(glob.glob(self.dir + "/*.traces.json")))
        json.dump([{k: v for k, v in t.items() if k != "scen"} for t in traces], open(f, "w"))
        e = {"TRACES": f}
        e.update(env or {})
        rc, out = self.tlc(module, cfg or module + ".cfg", e, **kw)
        acc = set(int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
        rej = {}
        for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)>>\n', out, re.S):
            rej.setdefault(int(m.group(1)), (int(m.group(2)), " ".join(m.group(3).split())))
        for n, (l, cl) in sorted(rej.items()):
            t = traces[n - 1]
            ev = t.get("events", [])
            self.violation("%s rejected at event %d by %s: %s" % (what, l, module, cl), {"trace": t, "event": l, "clauses": cl, "module": module},
                           key="%s|%s|%d|%s" % (t.get("key", t.get("id", "")), (ev[l - 1].get("op", "") if 0 < l <= len(ev) else ""), l, cl))
        missing = set(range(1, len(traces) + 1)) - acc - set(rej)
        if missing:
            err = out[out.find("Error:"):][:1500] if "Error:" in out else out[-1500:]
            if rc == 0 or "Error:" not in out:
                die("TLC did not decide all traces of %s: %s" % (module, out[-2000:]))
            m = re.search(r"/\\ tr = (\d+)", out)
            n = int(m.group(1)) if m else min(missing)
            self.violation("%s cannot be evaluated by %s (malformed observation): %s" % (what, module, err), {"trace": traces[n - 1], "module": module},
                           key="%s|malformed" % traces[n - 1].get("key", ""))
        self.traces += len(acc)
        return acc, rej

    # ------------------------------------------------------------------ end
    def finish(self, level="model_checking", extra=None, **cov):
        c = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
             "samples": self.samples[:5] or ["none"]}
        c.update(self.cov)
        c.update(cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": c,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        json.dump(ev, open("%s/evidence/%s.json" % (V, self.pid), "w"), indent=1, default=str)
        if self.violations:
            for key, text, path in self.violations[:10]:
                print("  " + text[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][2]))
            sys.exit(1)
        if self.traces == 0:
            die("vacuous run: nothing was validated against the implementation")
        print("OK %s: %d traces validated, %d model states, %.0f s" % (self.pid, self.traces, self.states, time.time() - self.t0))
        for f in glob.glob(self.dir + "/*.out.*") + glob.glob(self.dir + "/*.scen.json"):
            os.remove(f)
        sys.exit(0)


def cm_jar():
    c = glob.glob(JARS + "/*ommunity*.jar")
    return ":".join(c)


def load_known(pid):
    """KNOWN_FINDINGS.txt:  finding: property=<id> match=<regex on the key> :: <what fails>
                            fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
    out = []
    try:
        for l in open(V + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"finding: property=(\S+) match=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"match": m.group(2), "what": m.group(3)})
    except FileNotFoundError:
        pass
    return out


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(2)


def build():
    r = subprocess.run(["bash", V + "/tools/build.sh"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        die("build failed\n" + r.stdout[-4000:])
