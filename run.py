#!/usr/bin/env python3
"""python3 run.py <property>: run the check of one property (environment: VERIF_SEED, VERIF_TIER)."""
import importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vbuild
from specs import SPECS

WORKERS = os.cpu_count() or 4
RUN_ENV = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0")


def known(pid):
    """(regex, description) of the recorded findings of this property"""
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid, spec, tier, seed):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.t0 = time.time()
        self.budget = 660 if tier == "quick" else 780   # wall-clock bound; a bound hit ends the search early, it decides nothing
        self.tot = {"evaluations": 0, "distinct_nontrivial": 0, "oracle_checks": 0}
        self.labels, self.discarded, self.samples, self.per, self.notes = {}, {}, [], {}, []
        self.violations = []
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))

    def left(self):
        return self.budget - (time.time() - self.t0)

    def env(self, part):
        return dict(RUN_ENV, **part.get("env", {}))

    # ---- C++ harnesses
    def cpp(self):
        parts = self.spec["parts"]
        jobs, exes = {}, {}
        for i, p in enumerate(parts):
            if self.tier == "quick" and p.get("thorough_only"):
                continue
            jobs[i] = (lambda p=p: vbuild.harness(p.get("file", self.pid), p.get("variant", "default"), p.get("mode", "san"), tuple(p.get("extra", ()))))
        built = vbuild.many(jobs)
        for i, b in built.items():
            if isinstance(b, vbuild.BuildError):
                if parts[i].get("variant", "default") == "default":
                    print(b, file=sys.stderr)
                    print("the harness does not build against this tree", file=sys.stderr)
                    sys.exit(3)
                self.notes.append("variant %s does not build and was skipped" % parts[i]["variant"])
            else:
                exes[i] = b
        if not exes:
            print("no harness builds against this tree", file=sys.stderr)
            sys.exit(3)
        procs = []
        for i, exe in exes.items():
            p = parts[i]
            n = p["quick"] if self.tier == "quick" else p["thorough"]
            shards = max(1, min(p.get("shards", WORKERS), n))
            name = self.pid + "/" + p.get("name", p.get("variant", "default"))
            for k in range(shards):
                procs.append((p, exe, name, k, n, shards))
        running, queue, failures = [], procs[::-1], []
        width = self.spec.get("width", WORKERS)
        while queue or running:
            while queue and len(running) < width and not failures:
                p, exe, name, k, n, shards = queue.pop()
                base = os.path.join(self.scratch, "%s-%d" % (name.replace("/", "_"), k))
                cmd = [exe, "search", "--id", name, "--seed", str(self.seed), "--first", str(k), "--last", str(n), "--step", str(shards),
                       "--stats", base + ".json", "--mark", base + ".mark", "--deadline", str(int(max(5, self.left()))), "--cpu", str(p.get("cpu", 20))]
                err = open(base + ".err", "w")
                pr = subprocess.Popen(cmd, stdout=err, stderr=err, env=self.env(p), cwd=self.scratch)
                running.append((pr, p, exe, name, base, err, time.time()))
            if failures:
                queue = []
            still = []
            for item in running:
                pr, p, exe, name, base, err, started = item
                rc = pr.poll()
                if rc is None:
                    if time.time() - started > self.budget + 60 or (failures and time.time() - failures[0][-1] > 20):
                        hung = time.time() - started > self.budget + 60
                        pr.kill(); pr.wait(); err.close()
                        if hung:
                            failures.append((p, exe, name, self.mark(base), "case did not finish", time.time()))
                        continue
                    still.append(item)
                    continue
                err.close()
                st = None
                try:
                    st = json.load(open(base + ".json"))
                except (OSError, ValueError):
                    pass
                if st is not None:
                    self.merge(name, st)
                if rc == 1 and st is not None and "failure" in st:
                    failures.append((p, exe, name, st["index"], st["failure"], time.time()))
                elif rc != 0 or st is None:
                    tail = open(base + ".err", errors="replace").read()
                    m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .*|Assertion .* failed|terminate called.*|WARNING: ThreadSanitizer: .*)", tail)
                    failures.append((p, exe, name, self.mark(base), ("did not end (CPU time)" if rc in (-27, -24) else "crashed (status %s): %s" % (rc, m.group(1) if m else tail[-300:])), time.time()))
            running = still
            time.sleep(0.02)
        for f in failures[:2]:
            self.confirm(*f[:5])
            if self.violations:
                break
        if self.tier == "thorough" and not self.violations:
            for p in self.spec.get("fuzz", []):
                if self.left() > 60 and not self.violations:
                    self.fuzz(p)

    @staticmethod
    def mark(base):
        try:
            return int.from_bytes(open(base + ".mark", "rb").read(8), "little")
        except OSError:
            return 0

    def merge(self, name, st):
        per = self.per.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0})
        for k in self.tot:
            self.tot[k] += st.get(k, 0)
            if k in per:
                per[k] += st.get(k, 0)
        for k, v in st.get("labels", {}).items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in st.get("discarded", {}).items():
            self.discarded[k] = self.discarded.get(k, 0) + v
        have = sum(1 for s in self.samples if s.get("part") == name)
        for s in st.get("samples", [])[:max(0, 2 - have)]:
            if len(self.samples) < 8:
                self.samples.append(dict(s, part=name))

    def confirm(self, p, exe, name, index, msg):
        """shrink a failing case, replay it three times, and report it"""
        out = os.path.join(self.scratch, "shrunk.json")
        tries = p.get("confirm", 3)
        n = p["quick"] if self.tier == "quick" else p["thorough"]
        shards = max(1, min(p.get("shards", WORKERS), n))
        # at last together with the cases before it: the failure may need what they left behind in the process
        for history in [[]] * tries + [["--first", str(index % shards), "--step", str(shards)]]:
            subprocess.run([exe, "shrink", "--id", name, "--seed", str(self.seed), "--index", str(index), "--out", out,
                            "--cpu", str(p.get("cpu", 20)), "--budget", str(p.get("shrink", 1200)), "--wall", "120"] + history, env=self.env(p), cwd=self.scratch,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                r = json.load(open(out))
            except (OSError, ValueError):
                continue
            if r["kind"] in (1, 3):
                break
        else:
            self.notes.append("case %s of %s failed once and never again: %s" % (index, name, msg))
            print("NOTE: unreproducible: %s" % self.notes[-1])
            return
        self.report(p, exe, name, r, msg, index)

    def report(self, p, exe, name, r, msg, index):
        rep = self.replay_path(name, index)
        r.update({"property": self.pid, "part": name, "seed": self.seed, "index": index, "first_failure": msg,
                  "variant": p.get("variant", "default"), "mode": p.get("mode", "san"), "extra": list(p.get("extra", ())), "file": p.get("file", self.pid), "env": p.get("env", {})})
        with open(rep, "w") as f:
            json.dump(r, f, indent=1)
        again = sum(subprocess.run([exe, "replay", rep, "--cpu", str(p.get("cpu", 20))], env=self.env(p), cwd=self.scratch, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
        if again == 0 and p.get("confirm", 3) <= 3:
            # shrunk too far into a flaky region: keep it, but only if the unshrunk case still fails
            self.notes.append("shrunk case of %s did not replay" % name)
        message = r.get("message") or msg
        for rx, what in known(self.pid):
            if rx.search(message):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
                return
        self.violations.append(message)
        print("%s: %s" % (name, message))
        for k, v in r.get("notes", {}).items():
            print("  %s: %s" % (k, v[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rep, HERE)))

    def replay_path(self, name, index):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-seed%d-%s.json" % (re.sub(r"\W", "_", name), self.seed, index))

    def fuzz(self, p):
        """coverage-guided search over the same property body (thorough tier)"""
        try:
            exe = vbuild.harness(p.get("file", self.pid), p.get("variant", "default"), "fuzz", tuple(p.get("extra", ())))
        except vbuild.BuildError as e:
            self.notes.append("fuzz target does not build")
            return
        procs = []
        secs = int(min(p.get("seconds", 150), self.left() - 30))
        for k in range(WORKERS):
            corpus = os.path.join(self.scratch, "corpus-%s-%d" % (p.get("variant", "default"), k))
            os.makedirs(corpus, exist_ok=True)
            # random starting inputs long enough to hold whole scenes
            rng = random.Random(self.seed * 1000 + k)
            for j in range(24):
                with open(os.path.join(corpus, "s%d" % j), "wb") as f:
                    f.write(bytes(rng.randrange(256) for _ in range(rng.choice([64, 256, 700, 1500]))))
            out = os.path.join(self.scratch, "fuzzfail-%s-%d.json" % (p.get("variant", "default"), k))
            log = open(os.path.join(self.scratch, "fuzz-%s-%d.log" % (p.get("variant", "default"), k)), "w")
            pr = subprocess.Popen([exe, corpus, "-seed=%d" % (self.seed * 100 + k + 1), "-max_total_time=%d" % secs, "-max_len=2400", "-timeout=60",
                                   "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=%s/" % self.scratch, "-len_control=0"],
                                  stdout=log, stderr=log, env=dict(self.env(p), PBT_FUZZ_OUT=out), cwd=self.scratch)
            procs.append((pr, out, log, k))
        for pr, out, log, k in procs:
            pr.wait()
            log.close()
            text = open(log.name, errors="replace").read()
            m = re.search(r"stat::number_of_executed_units: (\d+)", text)
            n = int(m.group(1)) if m else 0
            cov = re.findall(r"cov: (\d+)", text)
            per = self.per.setdefault("%s/fuzz-%s" % (self.pid, p.get("variant", "default")), {"executions": 0, "edges_covered": 0})
            per["executions"] += n
            per["edges_covered"] = max([per["edges_covered"]] + [int(c) for c in cov])
            self.tot["evaluations"] += n
            if pr.returncode != 0:
                san = vbuild.harness(p.get("file", self.pid), p.get("variant", "default"), "san", tuple(p.get("extra", ())))
                if not os.path.exists(out):
                    # crash inside the code under test: decode the artifact through the same harness
                    arts = [f for f in os.listdir(self.scratch) if f.startswith(("crash-", "timeout-", "oom-"))]
                    if not arts:
                        self.notes.append("fuzzer ended with %d: %s" % (pr.returncode, text[-200:]))
                        continue
                    subprocess.run([exe, os.path.join(self.scratch, arts[0])], env=dict(self.env(p), PBT_FUZZ_CHOICES=out), cwd=self.scratch,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if not os.path.exists(out):
                    self.notes.append("fuzzer artifact could not be decoded")
                    continue
                shr = out + ".shrunk"
                subprocess.run([san, "shrink", "--from", out, "--out", shr, "--wall", "120"], env=self.env(p), cwd=self.scratch,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    r = json.load(open(shr))
                except (OSError, ValueError):
                    continue
                if r["kind"] in (1, 3) and not self.violations:
                    self.report(p, san, "%s/fuzz-%s" % (self.pid, p.get("variant", "default")), r, "found by coverage-guided search", k)

    # ---- Python checks
    def py(self):
        out = os.path.join(self.scratch, "py.json")
        env = dict(os.environ, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, PYTHONHASHSEED="0")
        r = subprocess.run(["python3-vt", os.path.join(HERE, "tools", "pyrunner.py"), self.pid, out, self.scratch, str(int(self.left()))], env=env, cwd=self.scratch)
        try:
            st = json.load(open(out))
        except (OSError, ValueError):
            print("the Python check ended with %d" % r.returncode, file=sys.stderr)
            sys.exit(3)
        if st.get("error"):
            print(st["error"], file=sys.stderr)
            sys.exit(3)
        for name, s in st["parts"].items():
            self.merge(self.pid + "/" + name, s)
        self.notes += st.get("notes", [])
        for v in st["violations"]:
            if any(rx.search(v["message"]) and not print("KNOWN-FINDING: property=%s %s" % (self.pid, what)) for rx, what in known(self.pid)):
                continue
            rep = self.replay_path(self.pid + "_" + v["part"], v.get("index", 0))
            with open(rep, "w") as f:
                json.dump(v, f, indent=1)
            self.violations.append(v["message"])
            print("%s/%s: %s" % (self.pid, v["part"], v["message"][:3000]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rep, HERE)))

    def run(self):
        try:
            if "parts" in self.spec:
                self.cpp()
            if self.spec.get("py") and not self.violations:
                self.py()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": {"evaluations": self.tot["evaluations"], "distinct_nontrivial": self.tot["distinct_nontrivial"],
                           "rule": self.spec["rule"], "samples": self.samples, "oracle_comparisons": self.tot["oracle_checks"],
                           "labels": dict(sorted(self.labels.items())), "discarded": self.discarded, "parts": self.per, "notes": self.notes},
              "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d cases, %d distinct non-trivial, %d oracle comparisons, %d discarded, %.1f s" % (
            self.pid, self.tot["evaluations"], self.tot["distinct_nontrivial"], self.tot["oracle_checks"], sum(self.discarded.values()), time.time() - self.t0))
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        r = json.load(open(sys.argv[3]))
        if "choices" in r:
            exe = vbuild.harness(r["file"], r["variant"], r["mode"], tuple(r["extra"]))
            sys.exit(subprocess.run([exe, "replay", os.path.abspath(sys.argv[3])], env=dict(RUN_ENV, PBT_VERBOSE="1", **r["env"])).returncode)
        sys.exit(subprocess.run(["python3-vt", os.path.join(HERE, "tools", "pyrunner.py"), pid, "--replay", os.path.abspath(sys.argv[3])]).returncode)
    sys.exit(Check(pid, SPECS[pid], "thorough" if tier == "thorough" else "quick", seed).run())


if __name__ == "__main__":
    main()
