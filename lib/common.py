"""What all checks share: building the driver from /repo, running TLC, running jobs, evidence and verdicts."""
import atexit, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CPUS = os.cpu_count() or 4


class Error(Exception):
    """The machinery failed: neither a pass nor a violation"""


def goenv():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    p = "/opt/veriftools/go1.23.12/bin"
    if os.path.isdir(p):
        env["PATH"] = p + ":" + env.get("PATH", "")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
    return env


class Run:
    """One run of one check"""

    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.start = time.time()
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.drv = {}
        self._n = 0
        self.phase_times = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.start:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ driver
    def driver(self, race=False):
        if race in self.drv:
            return self.drv[race]
        ov = os.path.join(self.dir, "overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": {os.path.join(REPO, "cmd/verifdrv", os.path.basename(g)): g
                                   for g in sorted(glob.glob(os.path.join(VERIF, "driver", "*.go")))}}, f)
        out = os.path.join(self.dir, "drv-race" if race else "drv")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-overlay", ov, "-o", out, "./cmd/verifdrv"]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise Error("the driver does not build:\n" + p.stdout + p.stderr)
        self.drv[race] = out
        self.log("driver built from", REPO)
        return out

    def jobs(self, jobs, race=False, parallel=None, per_child=40, timeout=850, env=None):
        """Runs jobs and returns their results in the order of the jobs"""
        drv = self.driver(race)
        self._n += 1
        jp, op = os.path.join(self.dir, f"jobs{self._n}"), os.path.join(self.dir, f"out{self._n}")
        sc = os.path.join(self.dir, f"scratch{self._n}")
        os.makedirs(sc)
        for i, j in enumerate(jobs):
            j["id"] = i
            if not race:
                j.setdefault("zone", ZONES[i % len(ZONES)])
        with open(jp, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        e = dict(os.environ)
        e.update(TMPDIR=sc, HOME=sc)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run([drv, "-jobs", jp, "-out", op, "-scratch", sc, "-parallel", str(parallel or CPUS),
                                "-per-child", str(per_child)], env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error("the driver did not finish in time")
        if p.returncode != 0:
            raise Error("the driver failed:\n" + p.stdout[-4000:] + p.stderr[-8000:])
        shutil.rmtree(sc, ignore_errors=True)
        with open(op) as f:
            res = [json.loads(line) for line in f]
        if len(res) != len(jobs):
            raise Error(f"{len(jobs)} jobs, but {len(res)} results")
        os.unlink(op)
        os.unlink(jp)
        self.phase("driver", time.time() - t0)
        return res

    def phase(self, name, s):
        self.phase_times[name] = round(self.phase_times.get(name, 0) + s, 2)

    # --------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, consts=None, env=None, workers=None, args=(), timeout=800, ok=(0,), mem="4g"):
        """Runs TLC; consts replace the values of constants in the configuration"""
        self._n += 1
        text = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(rf"(?m)^(\s*{k}\s*=).*$", lambda m: m.group(1) + " " + str(v), text)
            if n != 1:
                raise Error(f"constant {k} in {cfg or module}.cfg")
        cp = os.path.join(self.dir, f"tlc{self._n}.cfg")
        with open(cp, "w") as f:
            f.write(text)
        meta = os.path.join(self.dir, f"meta{self._n}")
        e = dict(os.environ)
        e.update(env or {})
        jar = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m", f"-Djava.io.tmpdir={self.dir}", "-cp", jar, "tlc2.TLC",
               "-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-config", cp, *map(str, args),
               os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error(f"TLC did not finish {module} in time")
        shutil.rmtree(meta, ignore_errors=True)
        self.phase("tlc:" + module, time.time() - t0)
        if p.returncode not in ok:
            raise Error(f"TLC failed on {module} (exit {p.returncode}):\n" + p.stdout[-6000:] + p.stderr[-2000:])
        return p.returncode, p.stdout

    def count(self, out, module):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            raise Error(f"no state count from {module}")
        g, d = map(int, m[-1])
        self.transitions += g
        self.states += d
        return g, d

    def model(self, module, **kw):
        """Checks a design model exhaustively. A violation is an error of the specification, not of the code."""
        _, out = self.tlc(module, **kw)
        g, d = self.count(out, module)
        self.log(f"{module}: {g} states generated, {d} distinct")
        self.extra.setdefault("models", {})[module] = {"generated": g, "distinct": d}
        return out

    def printed(self, out, tag):
        """The values which a specification printed with PrintT(<<tag, ToJson(v)>>)"""
        res = []
        pre = f'<<"{tag}", '
        for line in out.splitlines():
            if line.startswith(pre) and line.endswith(">>"):
                res.append(json.loads(json.loads(line[len(pre):-2])))
        return res

    def simulate(self, module, num, depth, consts=None, cfg=None, tag="HIST", salt=0):
        """Behaviours which TLC generates; they depend on the seed only"""
        seed = (self.seed * 1000003 + salt * 7919 + 17) % (2 ** 31)
        _, out = self.tlc(module, cfg=cfg, consts=consts, workers=1,
                          args=["-simulate", f"num={num}", "-depth", depth, "-seed", seed])
        res = self.printed(out, tag)
        if len(res) < num:
            raise Error(f"{module} generated {len(res)} of {num} behaviours")
        return res[:num]

    # -------------------------------------------------------------- validation
    def validate(self, module, traces, jobs=None, cfg="T", consts=None, what="trace", env=None, keep=None, maxbad=3, report=True):
        """Validates traces against a trace specification. Returns the violations, each with its trace and line."""
        bad, self.out = [], ""
        idx = [i for i, r in enumerate(traces) if "fail" not in r and "skipped" not in r]
        for i, r in enumerate(traces):
            if "fail" in r and len(bad) < maxbad:
                bad.append({"trace": i, "line": 0, "bad": [r["fail"], str(r.get("detail", ""))[:20000]]})
        while idx and len(bad) < maxbad:
            self._n += 1
            p = os.path.join(self.dir, f"traces{self._n}.ndjson")
            with open(p, "w") as f:
                for i in idx:
                    f.write(json.dumps({k: v for k, v in traces[i].items() if keep is None or k in keep}) + "\n")
            e = {"TRACES": p}
            e.update(env or {})
            code, out = self.tlc(module, cfg=cfg, consts=consts, env=e, ok=(0, 12), mem="8g")
            os.unlink(p)
            self.out = out
            if code == 0:
                g, d = self.count(out, module)
                self.traces += len(idx)
                self.steps += d
                break
            m = re.search(r"Error: Invariant (\w+) is violated", out)
            blocks = re.split(r"\nState \d+: |is violated by the initial state:\n", out)
            if not m or len(blocks) < 2:
                raise Error(f"can not read the counterexample of {module}:\n" + out[-4000:])
            last = blocks[-1]
            t = int(re.search(r"(?m)^/\\ t = (\d+)", last).group(1))
            l = int(re.search(r"(?m)^/\\ l = (\d+)", last).group(1))
            b = re.search(r"(?ms)^/\\ bad = (.*?)(?=^/\\ |^\s*$|\Z)", last)
            bad.append({"trace": idx[t - 1], "line": l, "bad": b.group(1).strip() if b else m.group(1)})
            del idx[t - 1]
        if not report:
            return bad
        for b in bad:
            self.violation(b, traces[b["trace"]], jobs[b["trace"]] if jobs else None, module, what)
        return bad

    def known_findings(self, module, cases):
        """cases: finding, trace, job and what is expected to be violated. Other violations are reported."""
        text = {}
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == self.prop:
                text[m.group(2)] = m.group(3)
        for fid, trace, job, expect in cases:
            for b in self.validate(module, [trace], [job], maxbad=1, report=False):
                got = re.sub(r"\s+", " ", str(b["bad"]))
                if fid in text and re.fullmatch(expect, got):
                    self.known.append(fid)
                    print(f"KNOWN-FINDING: property={self.prop} {fid}: {text[fid]}", flush=True)
                else:
                    self.violation(b, trace, job, module)

    def violation(self, b, trace, job, module, what="trace"):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}-{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "specification": module, "line": b["line"], "violated": b["bad"],
                       "job": job, "trace": trace}, f, indent=1)
        self.violations.append(path)
        self.log(f"{what} {b['trace']} line {b['line']}: {str(b['bad'])[:1500]}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    # ---------------------------------------------------------------- evidence
    def finish(self, evaluations=0, distinct=0, rule=""):
        cov = {"samples": self.samples[:6]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                       trace_states=self.steps)
        else:
            cov.update(evaluations=evaluations, distinct_nontrivial=distinct, rule=rule,
                       states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        if evaluations:
            cov["evaluations"] = evaluations
            cov["distinct_nontrivial"] = distinct
            cov["rule"] = rule
        cov.update(self.extra)
        cov["phase_seconds"] = self.phase_times
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.start, 2), "assumptions": self.assumptions, "violations": len(self.violations), "known_findings": self.known}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("violations" if self.violations else "held", f"{len(self.violations)}", self.phase_times)
        return 1 if self.violations else 0


# ------------------------------------------------------------------ concretisation
LONG = "long-" + "n" * 100 + "-name"


def RAW(byte):
    """A byte which is not valid UTF-8; the driver takes these private characters for such bytes"""
    return chr(0xe000 + byte)


PALETTES = [
    ["a", "b", "c", "d"],
    ["a", "ab", "a_", "a%"],
    ["a b", " a", "a.b", "..a"],
    ["ä", "日本", "é_", "ß%"],
    ["%", "_", "__", "%%"],
    [LONG, LONG + "x", "n", LONG[:60]],
    ["x.gz", "x", "x.age", "x.gz.age"],
    [".hidden", "A", "a", "a'"],
    ["a\\b", "a\"b", "[a]", "a*?"],
    ["b", "bb", "bbb", "b b"],
    ["C", "c", "c.tar", "c;--"],
    ["ab", "a_b", "a%b", "axb"],
    ["...", "....", "..b", ". ."],
    [" ", "  ", "\u00a0", "\n"],
    [RAW(0xff), RAW(0xfe), "a" + RAW(0xc3), "\ufffd"],
    ["\t", "a\n", "a\nb", "a\x01=b"],
    ["e\u0301", "\u00e9", "\U0001f600", RAW(0xe9)],
]


def names(rng, abstract, i=None):
    """Maps abstract names to concrete ones"""
    if i is not None and i < len(PALETTES):
        pal = list(PALETTES[i])
    else:
        pal = list(PALETTES[rng.randrange(len(PALETTES))]) if rng.random() < 0.6 else rng.sample(sorted({n for p in PALETTES for n in p}), 4)
    rng.shuffle(pal)
    while len(pal) < len(abstract):
        x = rng.choice(sorted({n for p in PALETTES for n in p}))
        if x not in pal:
            pal.append(x)
    return dict(zip(abstract, pal))


ZONES = ["UTC", "CET", "UTC", "Kathmandu", "UTC", "Marquesas", "Kiritimati"]
COMP = ["", "gzip", "parallelgzip", "lz4", "zstandard", "brotli", "bzip2", "parallelbzip2"]
LEVELS = ["fastest", "balanced", "smallest"]
ENC = ["", "age", "pgp"]
SIG = ["", "minisign", "pgp"]
RS = [1, 2, 3, 5, 7, 20, 64]


def config(rng, plain=0.4, tape=0.1, enc=True, sig=True, rs=None):
    """A pipeline configuration"""
    c = {"comp": "", "enc": "", "sig": "", "level": "fastest", "rs": rng.choice(rs or RS), "cache": rng.choice(["memory", "file"]),
         "wpr": rng.random() < 0.5, "tape": rng.random() < tape}
    if rng.random() >= plain:
        c["comp"] = rng.choice(COMP)
        c["level"] = rng.choice(LEVELS)
        if enc:
            c["enc"] = rng.choice(ENC)
        if sig:
            c["sig"] = rng.choice(SIG)
    if c["tape"] and not tape_supported(c):
        c["tape"] = False
    return c


def tape_supported(c):
    """Whether a configuration is supported on drives which are not regular files"""
    if c["sig"] == "minisign" or c["comp"] in ("brotli", "parallelgzip"):
        return False
    if c["comp"] in ("gzip", "lz4"):
        return c["rs"] >= 128
    if c["comp"] == "zstandard":
        return c["rs"] >= 2
    return True


def key(c):
    return "/".join(str(c[k]) for k in ("comp", "enc", "sig", "level", "rs", "cache", "tape", "wpr"))
