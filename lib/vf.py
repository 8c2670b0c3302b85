"""Runner library: build harnesses against /repo/include, run TLC, replay behaviours, write evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute"]
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Check:
    def __init__(self, pid, level="model_checking"):
        self.id, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_replayed": 0,
                    "samples": [], "specs": [], "operations": {}}
        self.assumptions = []
        self.known = self._load_known()
        self.known_hit = {}
        self.violations = []
        self.pool = cf.ThreadPoolExecutor(max_workers=64)       # leaf tasks: TLC and replay processes
        self.sem = threading.BoundedSemaphore(NCPU)
        self.lock = threading.RLock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _load_known(self):
        """known-findings.txt: `known: property=<id> match=<json> :: <what fails>` (fixed: lines suppress nothing)."""
        out = []
        f = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r"known: property=(\w+) match=(\{.*?\}) :: (.*)$", l.strip())
                if m and m.group(1) == self.id:
                    out.append({"match": json.loads(m.group(2)), "what": m.group(3)})
        return out

    def _time(self, what, t0):
        if os.environ.get("VERIF_TIMING"):
            print("TIMING %6.1fs (from %5.1f) %s" % (time.time() - t0, t0 - self.t0, what), flush=True)

    # ------------------------------------------------------------------ build
    def compile(self, name, src, flags=(), san=True, cxx="g++", std="c++17", opt="-O1", srcdir=None, extra_link=()):
        """Compile harness/<src> against the current /repo/include; returns the binary path."""
        out = os.path.join(self.work, name)
        srcs = [src] if isinstance(src, str) else list(src)
        paths = [s if os.path.isabs(s) else os.path.join(srcdir or os.path.join(VERIF, "harness"), s) for s in srcs]
        cmd = ["nice", cxx, "-std=" + std, opt, "-g1", "-w", "-I", os.path.join(REPO, "include"),
               "-I", os.path.join(VERIF, "harness")]
        if san:
            cmd += SAN + ["-fno-omit-frame-pointer"]
        cmd += list(flags) + paths + ["-o", out, "-pthread"] + list(extra_link)
        with self.sem:
            t0 = time.time()
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        self._time("compile " + name, t0)
        if r.returncode != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
        return out

    # -------------------------------------------------------------------- TLC
    def _cfg(self, cfg, const):
        text = open(os.path.join(VERIF, "spec", cfg)).read()
        for k, v in (const or {}).items():
            text, n = re.subn(r"(?m)^(\s*)%s\s*=\s*.*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), text)
            if n != 1:
                raise CheckError("constant %s not in %s" % (k, cfg))
        return text

    def _tlc(self, module, cfg_text, args, env, timeout, heap, tag):
        d = tempfile.mkdtemp(prefix="tlc-%s-" % tag, dir=self.work)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for f in getattr(self, "extra_modules", []):
            shutil.copy(f, d)
        open(os.path.join(d, "run.cfg"), "w").write(cfg_text)
        cmd = ["java", "-Xmx%s" % heap, "-Xss32m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "states"), "-config", "run.cfg", "-noGenerateSpecTE"] + args + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            with self.sem:
                t0 = time.time()
                r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, tag))
        self._time("tlc %s %s" % (module, tag), t0)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r.returncode, r.stdout, d

    @staticmethod
    def _stats(out):
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        return (int(m.group(1)), 0) if m else (0, 0)

    def tlc_check(self, module, cfg, const=None, workers=4, timeout=600, heap="4g", min_states=2, env=None, args=()):
        """Exhaustive model check of a design specification; failure is an error of the model."""
        rc, out, d = self._tlc(module, self._cfg(cfg, const), ["-workers", str(workers), "-coverage", "60"] + list(args),
                               env, timeout, heap, "mc")
        gen, dist = self._stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("TLC on %s/%s: rc=%d\n%s" % (module, cfg, rc, out[-5000:]))
        if dist < min_states:
            raise CheckError("TLC on %s/%s explored only %d states" % (module, cfg, dist))
        dead = sorted(set(re.findall(r"<(\w+) line [^>]*>: 0:0\s*$", out, re.M)))
        dead = [a for a in dead if a not in ("Init",)]
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["specs"].append({"module": module, "config": cfg, "constants": const or {}, "distinct_states": dist,
                                  "states_generated": gen, "actions_never_taken": dead})
        return gen, dist

    def tlc_gen(self, module, cfg, const=None, num=1000, depth=50, jobs=4, timeout=600, heap="2g", seed_off=0, env=None):
        """Random behaviours (simulation).  Returns list of behaviour files (one JSON string per line)."""
        text = self._cfg(cfg, const)

        def one(i):
            f = os.path.join(self.work, "beh-%s-%s-%d-%d.txt" % (module, cfg, seed_off, i))
            e = {"OUT": f}
            e.update(env or {})
            rc, out, d = self._tlc(module, text, ["-simulate", "num=%d" % max(1, num // jobs), "-depth", str(depth),
                                                  "-seed", str(self.seed * 1000003 + seed_off * 1009 + i), "-workers", "1"],
                                   e, timeout, heap, "sim%d" % i)
            if rc != 0 or "Error:" in out:
                raise CheckError("TLC simulation of %s/%s failed: rc=%d\n%s" % (module, cfg, rc, out[-4000:]))
            return f, self._stats(out)

        res = list(self.pool.map(one, range(jobs)))
        gen = sum(r[1][0] for r in res)
        self.cov["transitions"] += gen
        self.cov["specs"].append({"module": module, "config": cfg, "constants": const or {}, "mode": "simulation",
                                  "traces_requested": num, "states_generated": gen})
        return [r[0] for r in res]

    def tlc_enum(self, module, cfg, const=None, timeout=600, heap="4g", workers=4, min_lines=1, env=None, split=NCPU):
        """Exhaustive breadth-first generation: every behaviour / case of the bounded model is emitted."""
        f = os.path.join(self.work, "enum-%s-%s-%s.txt" % (module, cfg, hashlib.sha1(repr((sorted((const or {}).items()), sorted((env or {}).items()))).encode()).hexdigest()[:6]))
        e = {"OUT": f}
        e.update(env or {})
        rc, out, d = self._tlc(module, self._cfg(cfg, const), ["-workers", str(workers)], e, timeout, heap, "enum")
        gen, dist = self._stats(out)
        if rc != 0 or "No error has been found" not in out or not os.path.exists(f):
            raise CheckError("TLC enumeration of %s/%s: rc=%d\n%s" % (module, cfg, rc, out[-5000:]))
        lines = sorted(set(open(f).read().splitlines()))
        if len(lines) < min_lines:
            raise CheckError("TLC enumeration of %s/%s emitted %d lines" % (module, cfg, len(lines)))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["specs"].append({"module": module, "config": cfg, "constants": const or {}, "mode": "enumeration",
                                  "distinct_states": dist, "states_generated": gen, "behaviours": len(lines)})
        files = []
        for i in range(split):
            part = lines[i::split]
            if part:
                p = "%s.%d" % (f, i)
                open(p, "w").write("\n".join(part) + "\n")
                files.append(p)
        os.remove(f)
        return files

    # ----------------------------------------------------------------- replay
    def run_harness(self, binary, beh, args=(), env=None, timeout=600):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("handle_abort=1:detect_leaks=1:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                             "malloc_context_size=8:quarantine_size_mb=16:alloc_dealloc_mismatch=0:max_allocation_size_mb=4096:symbolize=1")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=86"
        e["LSAN_OPTIONS"] = "exitcode=87"
        e.update(env or {})
        if e.get("VERIF_NO_LEAKS"):
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        try:
          with self.sem:
            t0 = time.time()
            r = subprocess.run([binary, beh] + list(args), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=timeout, preexec_fn=_limits, cwd=self.work)
            self._time("replay %s %s" % (os.path.basename(binary), os.path.basename(beh)), t0)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            return 124, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"

    def replay(self, binary, files, args=(), env=None, timeout=600, expect_ops=(), label=None, leaks=True):
        """Replay behaviour files; a confirmed difference is recorded as violation."""
        label = (label or os.path.basename(binary)).replace("/", "-")
        if not leaks:
            env = dict(env or {}, VERIF_NO_LEAKS="1")
        jobs = list(self.pool.map(lambda f: (f, self.run_harness(binary, f, args, env, timeout)), files))
        ops = {}
        with self.lock:
            for f, (rc, out, err) in jobs:
                if len(self.violations) < 4:
                    self._digest(f, rc, out, err, binary, args, env, timeout, label, ops)
        tot = self.cov["operations"].setdefault(label, {})
        for k, v in ops.items():
            tot[k] = tot.get(k, 0) + v
        if not self.violations:
            missing = [o for o in expect_ops if tot.get(o, 0) == 0]
            if missing:
                raise CheckError("%s: operations never exercised: %s" % (label, missing))
        return ops

    def _digest(self, f, rc, out, err, binary, args, env, timeout, label, ops):
        m = re.search(r"^REPLAYED (\{.*\})$", out, re.M)
        if m:
            d = json.loads(m.group(1))
            self.cov["traces_validated_against_impl"] += d["behaviours"]
            self.cov["steps_replayed"] += d["steps"]
            for k, v in d["ops"].items():
                ops[k] = ops.get(k, 0) + v
        if not self.cov["samples"] or len(self.cov["samples"]) < 3:
            with open(f) as fh:
                self.cov["samples"].append({"replayed_by": label, "behaviour": fh.readline()[:600]})
        if rc == 0 and m and "MISMATCH" not in out:
            return
        if rc == 2 and "HARNESS-ERROR" in (out + err):
            raise CheckError("harness error in %s:\n%s%s" % (label, out[-3000:], err[-3000:]))
        bad = [json.loads(x[len("MISMATCH "):]) for x in out.splitlines() if x.startswith("MISMATCH ")]
        if not bad:
            t = re.findall(r"^AT (\{.*\})$", out + "\n" + err, re.M)
            at = json.loads(t[-1]) if t else {}
            kind = "timeout" if rc == 124 else ("leak" if "LeakSanitizer" in err else "crash rc=%d" % rc)
            summ = re.findall(r"(?:SUMMARY: .*|runtime error: .*|.*Assertion .*)", err)
            bad = [dict(at, kind=kind, got=(summ[-1] if summ else err[-300:]), detail=err[:3000])]
        lines = open(f).read().splitlines()
        for b in bad[:3]:
            self._confirm(f, lines, b, binary, args, env, timeout, label)

    def _confirm(self, f, lines, b, binary, args, env, timeout, label):
        rdir = os.path.join(VERIF, "replays", self.id)
        os.makedirs(rdir, exist_ok=True)
        ln = b.get("line")
        one = None
        if isinstance(ln, int) and 0 <= ln < len(lines):
            one = os.path.join(rdir, "%s-%s.txt" % (label, hashlib.sha1(lines[ln].encode()).hexdigest()[:12]))
            open(one, "w").write(lines[ln] + "\n")
            rc, out, err = self.run_harness(binary, one, args, env, timeout)
            if rc == 0 and "MISMATCH" not in out:
                one = None
        if one is None:  # whole file needed (leak at exit, cross-behaviour state)
            rc, out, err = self.run_harness(binary, f, args, env, timeout)
            if rc == 0 and "MISMATCH" not in out:
                raise CheckError("violation of %s did not repeat: %s" % (label, b))
            one = os.path.join(rdir, "%s-%s" % (label, os.path.basename(f)))
            shutil.copy(f, one)
            if b.get("kind") == "leak":
                one = self._bisect_leak(f, lines, binary, args, env, timeout, rdir, label) or one
        if self._is_known(b):
            return
        info = dict(b, harness=label, args=list(args))
        open(one + ".json", "w").write(json.dumps(info, indent=1))
        self.violations.append((info, one))

    def _bisect_leak(self, f, lines, binary, args, env, timeout, rdir, label):
        lo = lines
        p = os.path.join(self.work, "bisect.txt")
        for _ in range(14):
            if len(lo) <= 1:
                break
            h = len(lo) // 2
            for part in (lo[:h], lo[h:]):
                open(p, "w").write("\n".join(part) + "\n")
                rc, out, err = self.run_harness(binary, p, args, env, timeout)
                if rc != 0:
                    lo = part
                    break
            else:
                break
        out = os.path.join(rdir, "%s-leak-%s.txt" % (label, hashlib.sha1("\n".join(lo).encode()).hexdigest()[:12]))
        open(out, "w").write("\n".join(lo) + "\n")
        return out

    def _is_known(self, b):
        for k in self.known:
            if all(str(b.get(f)) == str(v) for f, v in k["match"].items()):
                self.known_hit[k["what"]] = self.known_hit.get(k["what"], 0) + 1
                return True
        return False

    def known_probe(self, what, still_fails):
        """A listed finding demonstrated by a dedicated probe."""
        for k in self.known:
            if k["what"] == what:
                if still_fails:
                    self.known_hit[what] = self.known_hit.get(what, 0) + 1
                return True
        return False

    def fail(self, what, data, name="case"):
        """Record a violation found directly by the runner (data is written to the replay file)."""
        if self._is_known({"what": what, "name": name}):
            return
        rdir = os.path.join(VERIF, "replays", self.id)
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, "%s-%s.txt" % (name, hashlib.sha1(str(data).encode()).hexdigest()[:12]))
        open(f, "w").write("%s\n%s\n" % (what, data if isinstance(data, str) else json.dumps(data, indent=1)))
        self.violations.append(({"what": what}, f))

    # --------------------------------------------------------------- finishing
    def finish(self):
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.id, what))
        for info, path in self.violations[:5]:
            print("DETAIL " + json.dumps({k: v for k, v in info.items() if k != "detail"})[:1500])
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        if not self.violations:
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d behaviours=%d steps=%d wall=%.1fs" % (
                self.id, self.tier, self.seed, self.cov["states"], self.cov["transitions"],
                self.cov["traces_validated_against_impl"], self.cov["steps_replayed"], time.time() - self.t0))
        return 1 if self.violations else 0


def main(pid, body, level="model_checking"):
    c = Check(pid, level)
    rc = 2
    try:
        try:
            body(c)
        except CheckError:
            if not c.violations:   # an already confirmed violation outweighs a later infrastructure problem
                raise
        rc = c.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
    except Exception:
        print("ERROR property=%s internal\n%s" % (pid, traceback.format_exc()))
    finally:
        c.pool.shutdown(wait=True, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
        else:
            print("workdir", c.work)
    sys.stdout.flush()
    sys.exit(rc)


def par(c, *fns):
    """Run several steps concurrently; returns their results in order."""
    with cf.ThreadPoolExecutor(max_workers=max(1, len(fns))) as ex:
        futs = [ex.submit(f) for f in fns]
        return [f.result() for f in futs]
