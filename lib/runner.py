"""Running batches of cases through instrumented builds, and reporting verdicts."""
import hashlib, json, os, random, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import vbuild

JOBS = min(8, os.cpu_count() or 4)


def san_env(extra=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
                         "max_allocation_size_mb=8000:hard_rss_limit_mb=3500:handle_abort=1:"
                         "detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=8:malloc_context_size=12")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:report_thread_leaks=0:second_deadlock_stack=1"
    e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or ""
    if not e["ASAN_SYMBOLIZER_PATH"]:
        del e["ASAN_SYMBOLIZER_PATH"]
    if extra:
        e.update(extra)
    return e


def crash_signature(stderr, rc):
    """A stable name for a crash: kind plus the innermost frames inside the repository."""
    kind = None
    m = re.search(r"runtime error: (.*)", stderr)
    if m:
        kind = "ubsan " + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:90]
    m2 = re.search(r"SUMMARY: (\w+): (\S+)", stderr)
    if not kind and m2:
        kind = m2.group(1) + " " + m2.group(2)
    m3 = re.search(r"VP-MONITOR: (.*)", stderr)
    if m3:
        kind = "monitor " + m3.group(1)[:90]
    if not kind:
        m4 = re.search(r"terminate called|what\(\):[^\n]*|Assertion[^\n]*|TIRO_[^\n]*", stderr)
        kind = f"exit {rc} " + (m4.group(0)[:90] if m4 else "")
    frames = []
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", stderr):
        if "/src/" in m.group(2) and "/usr/" not in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            fn = re.sub(r"<.*>", "", fn).split("::")[-1]
            if fn not in frames:
                frames.append(fn)
        if len(frames) >= 2:
            break
    return (kind + " @ " + "<".join(frames)).strip()


class Batch:
    """Runs cases through `tdrv` of one build variant, surviving crashes and hangs."""

    def __init__(self, exe, alarm=20, jobs=JOBS, driver_args=(), mem_mb=None):
        self.exe, self.alarm, self.jobs = exe, alarm, jobs
        self.args = list(driver_args)
        self.dir = tempfile.mkdtemp(prefix="vpb.")

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _shard(self, k, cases, alarm, max_crashes=60):
        inp, outp, errp = (f"{self.dir}/{k}.{x}" for x in ("in", "out", "err"))
        with open(inp, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        open(outp, "w").close()
        results, start, crashes, slow = {}, 0, 0, 0
        while start < len(cases):
            with open(errp, "wb") as ef:
                rc = subprocess.run([self.exe, inp, outp, str(start), str(alarm), *self.args],
                                    stdout=subprocess.DEVNULL, stderr=ef, env=san_env()).returncode
            lines = open(outp, "r", errors="replace").read().split("\n")
            lines = [l for l in lines if l.strip()]
            done = len(lines)
            if rc == 0:
                start = len(cases)
                break
            # done lines counted over the whole run, including markers for crashed cases
            if rc == 42:  # watchdog wrote its own line
                start = done
                slow += 1
                if slow >= 4:
                    for c in cases[start:]:
                        results[c["id"]] = {"id": c["id"], "skipped": True}
                    break
                continue
            err = open(errp, "rb").read().decode("utf-8", "replace")
            if done >= len(cases):
                # everything ran but the process ended badly
                results["__end__%d" % k] = {"id": "__end__", "crash": err[-6000:], "rc": rc,
                                            "sig": crash_signature(err, rc)}
                break
            cid = cases[done]["id"]
            # drop an incomplete line
            with open(outp, "w") as f:
                f.write("".join(l + "\n" for l in lines))
                f.write(json.dumps({"id": cid, "crash": err[:3000] + ("\n...\n" + err[-3000:] if len(err) > 3000 else ""),
                                    "rc": rc, "sig": crash_signature(err, rc)}) + "\n")
            start = done + 1
            crashes += 1
            if crashes >= max_crashes:
                for c in cases[start:]:
                    results[c["id"]] = {"id": c["id"], "skipped": True}
                break
        for l in open(outp, "r", errors="replace"):
            if l.strip():
                r = json.loads(l)
                results[r["id"]] = r
        return results

    def run(self, cases):
        ids = [c["id"] for c in cases]
        assert len(set(ids)) == len(ids), "duplicate case ids"
        n = max(1, min(self.jobs, len(cases)))
        mixed = list(cases)
        random.Random(len(cases)).shuffle(mixed)  # regular patterns must not end up in one shard
        shards = [mixed[i::n] for i in range(n)]
        res = {}
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda kv: self._shard(kv[0], kv[1], self.alarm), enumerate(shards)):
                res.update(r)
        # hangs are re-run alone with a larger limit before they mean anything
        slow = [c for c in cases if res.get(c["id"], {}).get("timeout")]
        if slow:
            with ThreadPoolExecutor(2) as ex:
                for r in ex.map(lambda kv: self._shard(1000 + kv[0], [kv[1]], self.alarm * 3), enumerate(slow[:4])):
                    for x in r.values():
                        x["alone"] = True
                    res.update(r)
        for c in cases:
            res.setdefault(c["id"], {"id": c["id"], "missing": True})
        return res


class Check:
    """Collects observations and violations of one property and produces the verdict."""

    def __init__(self, prop, title=""):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.violations = []   # (key, detail, replay payload)
        self.known_seen = {}
        self.known = load_known(prop)
        self.inconclusive = []
        self.rule = ""
        self._exes = {}
        self.level = "exploration"

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, variant, *programs):
        r = vbuild.build(variant, programs)
        return r[programs[0]] if len(programs) == 1 else r

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observe(self, obj, n=1):
        """One evaluation of the oracle; `obj` characterises the behaviour that was seen."""
        self.evaluations += n
        self.distinct.add(hashlib.md5(repr(obj).encode("utf-8", "surrogateescape")).digest()[:8])

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text if len(text) < 1500 else text[:1500] + "...")

    def violation(self, key, detail, payload=None):
        if key in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return
        self.violations.append((key, detail, payload))

    def run_cases(self, variant_exe, cases, alarm=20, crash=True, args=(), hang=True):
        """Runs cases; crashes and sanitizer reports are violations when crash is set."""
        b = Batch(variant_exe, alarm=alarm, driver_args=args)
        try:
            res = b.run(cases)
        finally:
            b.close()
        byid = {c["id"]: c for c in cases}
        for i, r in res.items():
            if r.get("crash") is not None and crash:
                self.violation("crash:" + r["sig"], "case %s: %s\n%s" % (i, r["sig"], r["crash"][:2500]),
                               byid.get(i))
            if r.get("timeout"):
                self.inconclusive.append(i)
                if hang and r.get("alone"):
                    self.violation("hang", "case %s did not end within %d seconds, alone (cases of this check take milliseconds)"
                                   % (i, alarm * 3), byid.get(i))
            if r.get("missing") or r.get("skipped"):
                self.count("not_run")
        return res

    def finish(self):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        shutil.rmtree(f"{VERIF}/replay/{self.prop}", ignore_errors=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule or "distinct observed behaviours (hashed)",
                           "samples": self.samples[:10] or ["(none)"],
                           "counters": self.counters,
                           "inconclusive": self.inconclusive[:50]},
              "wall_s": round(time.time() - self.t0, 1),
              "violations": [{"key": k, "detail": d[:400]} for k, d, _ in self.violations[:50]],
              "known_findings_seen": self.known_seen}
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, desc in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {desc}"
                  + ("" if self.known_seen.get(k) else " (not exercised by this run)"))
        print(f"{self.prop} {self.tier} seed={self.seed}: evaluations={self.evaluations} "
              f"distinct={len(self.distinct)} inconclusive={len(self.inconclusive)} "
              f"wall={ev['wall_s']}s {json.dumps(self.counters)[:600]}")
        if self.violations:
            os.makedirs(f"{VERIF}/replay/{self.prop}", exist_ok=True)
            seen = {}
            for k, d, p in self.violations:
                seen.setdefault(k, []).append((d, p))
            for n, (k, items) in enumerate(list(seen.items())[:20]):
                d, p = items[0]
                path = f"{VERIF}/replay/{self.prop}/{n:03d}.json"
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": k, "occurrences": len(items), "detail": d,
                               "case": p}, f, indent=1, default=repr)
                print(f"  [{k}] x{len(items)} {d[:700]}")
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.exit(1)
        if self.evaluations == 0 or len(self.distinct) < 2:
            print(f"{self.prop}: nothing was observed, no verdict")
            sys.exit(4)
        if len(self.inconclusive) > max(20, self.evaluations // 5):
            print(f"{self.prop}: too many inconclusive cases")
            sys.exit(5)
        sys.exit(0)


def load_known(prop):
    """known_findings.txt: `known: property=<id> key=<key> :: <what fails>` (fixed: lines suppress nothing)."""
    r = {}
    try:
        for l in open(f"{VERIF}/known_findings.txt"):
            m = re.match(r"known: property=(\w+) key=(.+?) :: (.*)", l.rstrip("\n"))
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    except OSError:
        pass
    return r
