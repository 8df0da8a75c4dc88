"""Shared driver code: build a harness from /repo's working tree, run TLC, run the
harness, collect rejections, match known findings, write evidence."""
import json, os, re, shutil, signal, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.tseed = self.seed % 1000003          # small enough for TLC and the harnesses
        self.work = os.path.join(VERIF, "work", prop)
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.rejects = []       # dicts: id, what, and anything else
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, q, t):
        return q if self.quick else t

    def path(self, name):
        return os.path.join(self.work, name)

    # ---------------------------------------------------------------- build
    def build(self, crate):
        """Build /verif/harness/<crate> against /repo's working tree; path of the binary."""
        d = os.path.join(VERIF, "harness", crate)
        r = build_crate(d)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise ToolError("harness %s does not build" % crate)
        return os.path.join(TARGET, "debug", "h-" + crate)

    # ------------------------------------------------------------------ TLC
    def tlc(self, area, module, cfg=None, env=None, args=(), workers=8, timeout=800, ok=(0,), quiet=True, heap="6g"):
        """Run TLC in spec/<area>; returns stdout. Exit statuses other than ok raise."""
        spec = os.path.join(VERIF, "spec", area)
        meta = os.path.join(self.work, "meta-%s-%d" % (module, int(time.time() * 1e6)))
        tmp = os.path.join(self.work, "tmp")
        os.makedirs(tmp, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp,
               "-DTLA-Library=" + os.path.join(VERIF, "spec", "lib"),
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC %s timed out after %ds" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        with open(self.path("tlc-%s.log" % (cfg or module)), "w") as f:
            f.write(r.stdout)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", r.stdout)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", r.stdout)
            if m:
                self.transitions += int(m.group(1).replace(",", ""))
        self.last_exit = r.returncode
        if r.returncode not in ok:
            sys.stdout.write(r.stdout[-5000:])
            raise ToolError("TLC %s exited %d" % (module, r.returncode))
        return r.stdout

    def model_check(self, area, module, cfg=None, **kw):
        """Exhaustive exploration of the specification itself."""
        before = (self.states, self.transitions)
        out = self.tlc(area, module, cfg, **kw)
        self.extra.setdefault("model", []).append(
            {"module": module, "cfg": cfg or module, "states": self.states - before[0],
             "transitions": self.transitions - before[1]})
        return out

    def generate(self, area, module, num, cfg=None, depth=400, env=None, tag="GEN", salt=0, timeout=600):
        """Random walks of the spec; returns the JSON values it printed."""
        out = self.tlc(area, module, cfg, env=env, workers=1, timeout=timeout,
                       args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.tseed * 31 + 7 + salt)])
        return printed(out, tag)

    def enumerate(self, area, module, cfg=None, env=None, tag="GEN", timeout=600, workers=8):
        """Exhaustive enumeration by TLC; returns the JSON values printed (order-independent)."""
        out = self.tlc(area, module, cfg, env=env, timeout=timeout, workers=workers)
        vals = printed(out, tag)
        return sorted(vals, key=lambda v: json.dumps(v, sort_keys=True))

    def judge(self, area, module, lines, cfg=None, env=None, label="", timeout=800, describe=None):
        """Have the trace specification judge recorded runs. `lines` is a list of dicts with an id."""
        if not lines:
            raise ToolError("no traces recorded for %s" % module)
        # lanes: TLC evaluates states in parallel, one lane per worker
        path = self.path("trace-%s%s.ndjson" % (module, label))
        with open(path, "w") as f:
            for l in lines:
                f.write(json.dumps(l, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        # 75..77: the spec cannot even evaluate the recorded data, i.e. it is no behaviour of it
        out = self.tlc(area, module, cfg, env=e, timeout=timeout, ok=(0, 75, 76, 77))
        n = 0
        byid = {str(l.get("id")): l for l in lines}
        for r in printed(out, "REJECT"):
            n += 1
            self.reject(r.get("id"), "trace rejected by %s" % module, detail=r, trace=byid.get(str(r.get("id"))))
        if self.last_exit != 0 and n == 0:
            m = re.search(r"Error: (.*?)\n\d+\.", out, re.S)
            self.reject("unevaluable", "recorded data is not interpretable by %s: %s" % (module, (m.group(1) if m else out[-1500:])[:1500]))
        self.traces += len(lines)
        return n

    # -------------------------------------------------------------- harness
    def run(self, binary, args, inputs=None, timeout=600, env=None, parse=True):
        """Run the harness. Abnormal death (signal) is data: the case after the last
        reported one crashed the code under test."""
        stdin = None
        if inputs is not None:
            p = self.path("in-%s.ndjson" % "-".join(str(a) for a in args[:1]).replace("/", "_"))
            with open(p, "w") as f:
                for x in inputs:
                    f.write(json.dumps(x, separators=(",", ":")) + "\n")
            stdin = open(p)
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.update(env or {})
        try:
            r = subprocess.run([binary] + [str(a) for a in args], stdin=stdin, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", env=e, cwd=self.work)
            out, code, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            code, err = "timeout", ""
        finally:
            if stdin:
                stdin.close()
        lines = [l for l in out.split("\n") if l.startswith("{") or l.startswith("[")]
        vals = []
        for l in lines:
            try:
                vals.append(json.loads(l))
            except ValueError:
                pass
        if code == "timeout" or (isinstance(code, int) and code != 0):
            if code == -signal.SIGKILL or code == 137:
                raise ToolError("harness was killed")
            last = vals[-1].get("id") if vals and isinstance(vals[-1], dict) else None
            what = "did not finish" if code == "timeout" else "crashed (exit %s): %s" % (code, err[-600:])
            self.reject("crash:%s" % (args[0],), "the code under test %s after case %s" % (what, last))
        return vals

    def run_split(self, binary, args, inputs, parts=6, timeout=300, memory_gb=4):
        """Run the cases in several harness processes of limited memory; results in input order."""
        import concurrent.futures, resource

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (memory_gb << 30, memory_gb << 30))

        def one(k):
            mine = inputs[k::parts]
            try:
                r = subprocess.run([binary] + [str(a) for a in args], input="".join(json.dumps(x, separators=(",", ":")) + "\n" for x in mine),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace",
                                   env=dict(os.environ, RUST_BACKTRACE="0"), cwd=self.work, preexec_fn=limit)
                out, code, err = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as x:
                out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
                code, err = "timeout", ""
            vals = []
            for l in out.split("\n"):
                if l.startswith("{"):
                    try:
                        vals.append(json.loads(l))
                    except ValueError:
                        pass
            return mine, vals, code, err

        res = []
        with concurrent.futures.ThreadPoolExecutor(parts) as ex:
            for mine, vals, code, err in ex.map(one, range(parts)):
                res += vals
                if code != 0:
                    if code in (-signal.SIGKILL, 137):
                        raise ToolError("harness was killed")
                    what = "did not finish" if code == "timeout" else "crashed (exit %s): %s" % (code, err[-600:])
                    case = mine[len(vals)] if len(vals) < len(mine) else None
                    self.reject("crash:%s" % (args[0],), "the code under test %s" % what, case=case)
        order = {str(x.get("id")): i for i, x in enumerate(inputs)}
        return sorted(res, key=lambda v: order.get(str(v.get("id")), 0))

    # ------------------------------------------------------------ reporting
    def reject(self, id, what, **kw):
        d = {"id": str(id), "what": what}
        d.update(kw)
        self.rejects.append(d)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, (str, dict)) else json.dumps(s)[:400])

    def finish(self, level="model_checking", coverage=None, assumptions=None, signature=None):
        """Write evidence, print the verdict, return the exit status.
        signature(reject) -> string matched against known-findings.txt."""
        known = load_known(self.prop)
        bad, found = [], {}
        for r in self.rejects:
            sig = signature(r) if signature else r["id"]
            r["sig"] = sig
            hit = [k for k in known if k == sig]
            if hit:
                found.setdefault(sig, 0)
                found[sig] += 1
            else:
                bad.append(r)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"]}
        cov.update(coverage or {})
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if assumptions:
            ev["assumptions"] = assumptions
        if bad:
            ev["violations"] = [{"id": r["id"], "what": r["what"]} for r in bad[:20]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig, n in sorted(found.items()):
            print("KNOWN-FINDING: property=%s %s (%d)" % (self.prop, sig, n))
        if bad:
            rp = os.path.join(VERIF, "work", "%s-violation.json" % self.prop)
            with open(rp, "w") as f:
                json.dump(bad[:50], f, indent=1)
            for r in bad[:5]:
                print("  rejected %s: %s" % (r["sig"], r["what"][:300]))
                if r.get("detail"):
                    print("    " + json.dumps(r["detail"])[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("OK %s %s: %d states, %d transitions, %d implementation runs, %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def printed(out, tag):
    """Values printed by PrintT(tag \\o " " \\o ToJson(x))."""
    vals, seen = [], set()
    pre = '"' + tag + " "
    for l in out.split("\n"):
        if l.startswith(pre) and l.endswith('"'):
            if l in seen:
                continue
            seen.add(l)
            s = l[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\")
            try:
                vals.append(json.loads(s))
            except ValueError:
                raise ToolError("cannot parse TLC output: " + l[:300])
    return vals


def load_known(prop):
    """known-findings.txt lines: `known: property=<id> sig=<signature> :: description`"""
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(.*?) :: ", l)
            if m and m.group(1) == prop:
                res.append(m.group(2).strip())
    return res


def build_crate(d, extra=()):
    e = dict(os.environ)
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export CARGO_TARGET_DIR='%s'; cargo build --offline " % TARGET + " ".join(extra)], cwd=d, env=e,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)


def main(prop, fn):
    try:
        c = Check(prop)
        code = fn(c)
    except ToolError as x:
        print("CHECK ERROR %s: %s" % (prop, x))
        code = 2
    sys.stdout.flush()
    sys.exit(code)
