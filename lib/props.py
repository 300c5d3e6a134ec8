"""The checks, one per property"""
import concurrent.futures, json, os, subprocess, tarfile, time
from common import *
import tour

CHECKS = {}
LEVELS = {}


def check(prop, level):
    def deco(fn):
        def run(tier):
            r = Run(prop, tier, level)
            args = fn(r) or {}
            return r.finish(**args)
        CHECKS[prop] = run
        LEVELS[prop] = level
        return fn
    return deco


ROOT_STATE = [[[], "d", []]]


def fs_histories(r, num, steps, focus="all", salt=0, names_=("a", "b", "c"), depth=3, maxlen=4):
    """Histories which TLC generates from the reference file system"""
    return r.simulate("Gen_FS", num, steps + 1, salt=salt,
                      consts={"Steps": steps, "Focus": f'"{focus}"', "MaxDepth": depth, "MaxLen": maxlen,
                              "Names": "{" + ", ".join(f'"{n}"' for n in names_) + "}"})


# ---------------------------------------------------------------------- C02
@check("C02", "model_checking")
def c02(r):
    out = r.model("MC_RefFS", consts={"Export": "TRUE", "MaxTok": r.pick(0, 1)})
    edges = r.printed(out, "EDGE")
    edges.sort(key=lambda e: json.dumps(e, sort_keys=True))
    want = set(range(len(edges)))
    limit = r.pick(9000, 60000)
    if len(want) > limit:
        want = set(r.rng.sample(range(len(edges)), limit))
    hs = tour.tours(edges, ROOT_STATE, want, 150, r.rng)
    jobs = []
    for i, h in enumerate(hs):
        c = config(r.rng, plain=0.5, rs=[1, 3, 20])
        if i % 3 == 0:
            c["enc"] = c["sig"] = ""
        jobs.append({"kind": "hist", "cfg": c, "g": 1, "names": names(r.rng, ["a", "b"], i), "ops": h, "style": 0})
    ntour = len(jobs)
    for i, h in enumerate(fs_histories(r, r.pick(240, 2500), 30)):
        c = config(r.rng, plain=0.5)
        jobs.append({"kind": "hist", "cfg": c, "g": r.rng.choice([1, 1, 7, 300]), "names": names(r.rng, ["a", "b", "c"], i), "ops": h,
                     "style": r.rng.choice([0, 0, -1])})
    res = r.jobs(jobs)
    r.extra["transition_coverage"] = {"transitions": len(edges), "replayed": len(want), "histories": ntour}
    r.extra["configurations"] = len({key(j["cfg"]) for j in jobs})
    r.extra["calls"] = sum(len(j["ops"]) for j in jobs)
    r.extra["calls_by_result"] = tally(f'{s["o"]["op"]}:{s["e"]}' for t in res for s in t.get("steps", []) if "o" in s)
    r.samples = [{"cfg": j["cfg"], "names": j["names"], "ops": [brief(o) for o in j["ops"][:8]]} for j in jobs[:2] + jobs[-2:]]
    r.validate("T_C02", res, jobs)


def brief(o):
    return {k: v for k, v in o.items() if v not in ([], "", 0, False, None)}


def tally(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return dict(sorted(d.items()))


# ---------------------------------------------------------------------- C14
@check("C14", "model_checking")
def c14(r):
    jobs = []
    edges = []
    for wpr in (False, True):
        out = r.model("MC_Handle", consts={"Export": "TRUE", "MaxLen": r.pick(2, 3), "Wpr": str(wpr).upper()})
        es = sorted(r.printed(out, "EDGE"), key=lambda e: json.dumps(e, sort_keys=True))
        want = set(range(len(es)))
        if r.quick and wpr:
            want = set(r.rng.sample(range(len(es)), len(es) // 3))
        for i, h in enumerate(tour.tours(es, [[]], want, 400, r.rng)):
            c = config(r.rng, plain=0.5)
            c["wpr"] = wpr
            jobs.append({"kind": "handle", "cfg": c, "g": [1, 1, 513, 2][i % 4], "ops": h})
        edges.append((len(es), len(want)))
    ntour = len(jobs)
    for num, ml, gs in ((r.pick(300, 4000), 24, [1, 1, 2, 50, 700, 5000]), (r.pick(40, 400), 120, [1, 512, 1111])):
        for h in r.simulate("Gen_Handle", num, 61, consts={"Steps": 60, "MaxLen": ml}, salt=ml):
            jobs.append({"kind": "handle", "cfg": config(r.rng, plain=0.4), "g": r.rng.choice(gs), "ops": h})
    res = r.jobs(jobs)
    r.extra["transition_coverage"] = {"transitions": sum(e[0] for e in edges), "replayed": sum(e[1] for e in edges), "histories": ntour}
    r.extra["configurations"] = len({key(j["cfg"]) for j in jobs})
    r.extra["calls"] = sum(len(j["ops"]) for j in jobs)
    r.extra["calls_by_result"] = tally(f'{s["o"]["op"]}:{s["e"]}' for t in res for s in t.get("steps", []) if "o" in s)
    r.samples = [{"cfg": j["cfg"], "g": j["g"], "ops": [brief(o) for o in j["ops"][:10]]} for j in jobs[:2] + jobs[-2:]]
    r.validate("T_C14", res, jobs)


MANY = ["x%d" % i for i in range(1, 17)]


def hist_job(r, i, ops, cfg, abstract=("a", "b", "c"), obs=(), g=None, style=None, pal=None):
    n = names(r.rng, list(abstract), i if pal is None else pal)
    n.update({x: x for x in MANY})
    return {"kind": "hist", "cfg": cfg, "g": g or r.rng.choice([1, 1, 7, 300, 700]), "names": n, "ops": ops,
            "style": r.rng.choice([0, 0, -1]) if style is None else style, "obs": list(obs)}


def summary(r, jobs, res):
    r.extra["configurations"] = len({key(j["cfg"]) for j in jobs})
    r.extra["calls"] = sum(len(j["ops"]) for j in jobs)
    r.extra["calls_by_result"] = tally(f'{s["o"]["op"]}:{s["e"]}' for t in res for s in t.get("steps", []) if "o" in s)
    r.samples = [{"cfg": j["cfg"], "names": j["names"], "ops": [brief(o) for o in j["ops"][:8]]} for j in jobs[:2] + jobs[-2:]]


# ---------------------------------------------------------------------- C01
@check("C01", "model_checking")
def c01(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(150, 1500), 25, "ops") + fs_histories(r, r.pick(50, 500), 25, "mutate", salt=1)):
        obs = ["rebuild", "reopen"]
        if i % 4 == 0:
            # Link targets are what is observed of links, so links come last
            obs.append("links")
            h = h + [symlink(["a", "b", "c"][i % 3], ["x1"]), stat([])] + ([symlink("x2", ["x3"])] if i % 8 == 0 else [])
        jobs.append(hist_job(r, i, h, config(r.rng, plain=0.4, tape=0.2), obs=obs))
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.validate("T_C01", res, jobs)


def call(op, p, **kw):
    c = {"op": op, "p": p, "q": [], "acc": "r", "creat": False, "excl": False, "trunc": False, "app": False, "m": 0, "u": 0, "g": 0,
         "t": 0, "c": [], "k": "", "repl": False, "items": [], "n": 0}
    c.update(kw)
    return c


def symlink(old, new):
    return call("symlink", [old], q=new)


def stat(p):
    return call("stat", p)


# ---------------------------------------------------------------------- C04
@check("C04", "model_checking")
def c04(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(160, 1600), 22, "ops") + fs_histories(r, r.pick(60, 600), 22, "mutate", salt=1)):
        jobs.append(hist_job(r, i, h, config(r.rng, plain=0.4, tape=0.25), obs=["members", "rows"], style=0, g=r.rng.choice([1, 7, 300, 513, 3000])))
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.extra["record_sizes"] = tally(j["cfg"]["rs"] for j in jobs)
    r.validate("T_C04", res, jobs)


# ---------------------------------------------------------------------- C05
@check("C05", "model_checking")
def c05(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    jobs = []
    again = fs_histories(r, 40, 10, "ops", salt=2)
    for i, h in enumerate(fs_histories(r, r.pick(120, 1200), 25, "ops") + fs_histories(r, r.pick(120, 1200), 25, "all", salt=1)):
        h = list(h)
        for _ in range(3):
            h.insert(r.rng.randrange(len(h) + 1), r.rng.choice(rejected_calls()))
        jobs.append(hist_job(r, i, h, config(r.rng, plain=0.5, tape=0.25), obs=["members"], g=r.rng.choice([1, 7, 300, 512, 3000])))
        jobs[-1]["dump"] = os.path.join(r.dir, f"tape{i}.tar")
        if i % 4 == 0 and not jobs[-1]["cfg"].get("tape"):
            jobs[-1]["again"] = r.rng.choice(again)
    res, fj = [], []
    for t, j in zip(r.jobs(jobs), jobs):
        for k, v in enumerate(t.get("vars", [t])):
            v["id"] = len(res)
            res.append(v)
            fj.append(dict(j, dump=j["dump"] + ".again" * k))
    r.extra["overwritten_drives"] = len(fj) - len(jobs)
    summary(r, fj, res)
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for t, (py, gnu) in zip(res, ex.map(lambda j: other_readers(j["dump"]), fj)):
            t["py"], t["gnu"] = py, gnu
    r.phase("other readers", time.time() - t0)
    r.validate("T_C05", res, fj)


def rejected_calls():
    """Calls with valid arguments which can not succeed, or succeed without anything to do"""
    n, f = ["x20"], ["x1"]
    item = lambda p, c: {"p": p, "k": "f", "m": 0o640, "c": list(c)}
    return [call("badlevel", n, items=[item(n, [1, 2])]), call("badlevel", n, items=[item(n, [1, 2])], repl=True), call("badlevel", n, items=[item(n, [])]),
            call("opupdate", n, items=[item(n, [1])], repl=True), call("opupdate", n, items=[item(n, [])]), call("opdelete", n), call("opmove", n, q=f),
            call("archive", n, items=[]), call("oprestore", n), call("remove", n), call("rename", n, q=f), call("chmod", n, m=0o600), call("chown", n, u=1, g=1),
            call("chtimes", n, t=1), call("mkdir", n + f, m=0o700), call("open", n + f, acc="w", creat=True, c=[1]), call("open", n, acc="rw", trunc=True, c=[1]),
            call("remove", []), call("rename", [], q=n)]


def other_readers(p):
    """Block offsets of the members which Python's tarfile finds, and how many GNU tar finds"""
    if not os.path.exists(p):
        return [], 0
    try:
        with tarfile.open(p, "r:", ignore_zeros=True) as f:
            py = [m.offset // 512 for m in f]
    except Exception as e:
        py = [str(e)]
    g = subprocess.run(["tar", "--ignore-zeros", "--quoting-style=escape", "-tf", p], capture_output=True)
    gnu = len(g.stdout.splitlines()) if g.returncode == 0 else -1
    os.unlink(p)
    return py, gnu


# ---------------------------------------------------------------------- C12
@check("C12", "model_checking")
def c12(r):
    r.model("MC_RefFS", consts={"MaxTok": r.pick(0, 1)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(220, 2200), 30, "struct", names_=("a", "b", "c", "d"), depth=4, maxlen=2)
                          + fs_histories(r, r.pick(60, 600), 25, "ops", salt=1)):
        jobs.append(hist_job(r, i, h, config(r.rng, plain=0.7), abstract=["a", "b", "c", "d"], obs=["rebuild"], g=1))
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.validate("T_C12", res, jobs)


# ---------------------------------------------------------------------- C13
@check("C13", "model_checking")
def c13(r):
    r.model("MC_RefFS", consts={"MaxTok": r.pick(0, 1)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(120, 1200), 25, "struct", names_=("a", "b", "c", "d"), depth=4, maxlen=2)
                          + fs_histories(r, r.pick(60, 600), 25, "ops", salt=1)):
        jobs.append(hist_job(r, i, h, config(r.rng, plain=0.7), abstract=["a", "b", "c", "d"], obs=["rows", "lists"], g=r.rng.choice([1, 300])))
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.validate("T_C13", res, jobs)


# ---------------------------------------------------------------------- C06
@check("C06", "model_checking")
def c06(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(150, 1200), 10, "ops") + fs_histories(r, r.pick(110, 900), 14, "mutate", salt=1)):
        j = hist_job(r, i, h, config(r.rng, plain=0.4, tape=0.2), g=r.rng.choice([1, 7, 300, 513, 700]))
        j.update(kind="cut", seed=r.rng.randrange(1 << 31), max=r.pick(90, 600))
        jobs.append(j)
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.extra["cuts"] = sum(len(t.get("cuts", [])) for t in res)
    r.extra["cuts_by_result_of_indexing"] = tally(c["e"] for t in res for c in t.get("cuts", []))
    r.validate("T_C06", res, jobs)


# ---------------------------------------------------------------------- C07
@check("C07", "model_checking")
def c07(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(120, 1000), 12, "ops") + fs_histories(r, r.pick(90, 800), 16, "mutate", salt=1)):
        j = hist_job(r, i, h, config(r.rng, plain=0.4, tape=0.25), g=r.rng.choice([1, 7, 300, 513]))
        j.update(kind="replay", seed=r.rng.randrange(1 << 31), max=r.pick(12, 60))
        jobs.append(j)
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.extra["starts"] = tally(s["kind"] for t in res for s in t.get("steps", []) if "o" in s)
    r.validate("T_C07", res, jobs)


# ---------------------------------------------------------------------- C16
def tail(rng):
    """Calls after opening, on names which are not in use"""
    a, b, c, d = rng.sample(MANY[:8], 4)
    ops = [call("open", [a], acc="w", creat=True, c=[1, 2]), call("mkdir", [b], m=0o750), call("read", [a]),
           call("open", [b, c], acc="rw", creat=True, m=0o644, c=[3]),
           call("chmod", [a], m=0o600), call("rename", [b], q=[d]), call("read", [d, c]), call("open", [a], acc="rw", app=True, c=[4]),
           call("read", [a]), call("removeall", [d]), call("remove", [a]), call("list", [])]
    return [ops[0]] + [o for o in ops[1:] if rng.random() < 0.7]


@check("C16", "model_checking")
def c16(r):
    r.model("MC_Tape", consts={"Calls": r.pick(3, 4)})
    free = fs_histories(r, 60, 5, "all", salt=2)
    jobs = []
    for i, h in enumerate(fs_histories(r, r.pick(60, 600), 8, "ops") + fs_histories(r, r.pick(40, 400), 12, "mutate", salt=1)):
        j = hist_job(r, i, h, config(r.rng, plain=0.5, tape=0.25), g=r.rng.choice([1, 7, 300, 513]))
        j.update(kind="open", seed=r.rng.randrange(1 << 31), max=r.pick(6, 24), free=r.rng.choice(free), tail=tail(r.rng))
        jobs.append(j)
    res = r.jobs(jobs)
    flat, fj = [], []
    for t, j in zip(res, jobs):
        for v in t.get("vars", [t] if "fail" in t else []):
            v["id"] = len(flat)
            flat.append(v)
            fj.append(j)
    summary(r, jobs, flat)
    r.extra["openings"] = tally(f'{v["idx"]}:{"intact" if v["b"] == v["total"] else "cut"}:{v["e"]}' for v in flat if "idx" in v)
    r.validate("T_C16", flat, fj)


# ---------------------------------------------------------------------- C15
@check("C15", "model_checking")
def c15(r):
    out = r.model("MC_RefFS", consts={"Export": "TRUE", "MaxTok": r.pick(0, 1)})
    edges = sorted(r.printed(out, "EDGE"), key=lambda e: json.dumps(e, sort_keys=True))
    jobs = []

    def job(i, h, free, g=None, abstract=("a", "b", "c")):
        c = config(r.rng, plain=0.5, tape=0.15)
        j = hist_job(r, i, h, c, g=g, abstract=abstract)
        drv = r.rng.choice(["intact"] * 5 + ["cut", "cut", "empty", "absent"])
        j.update(kind="ro", free=free, nowrite=r.rng.random() < 0.5, idx=r.rng.choice(["copy", "missing"]) if drv == "intact" else "missing", drv=drv,
                 seed=r.rng.randrange(1 << 31))
        jobs.append(j)

    # Every call of the reference in every state of the small model
    total = 0
    for i, (path, calls) in enumerate(tour.states(edges, ROOT_STATE)):
        total += len(calls)
        r.rng.shuffle(calls)
        for k in range(0, len(calls), 60):
            job(i, path, calls[k:k + 60] if not r.quick else calls[k:k + 18], g=1, abstract=("a", "b"))
            if jobs[-1]["drv"] != "intact":
                jobs[-1].update(drv="intact")
    ntour = len(jobs)
    free = fs_histories(r, r.pick(120, 1000), 30, "all", salt=3)
    free += [f + [symlink("a", ["x1"])] for f in free[:20]]
    for i, h in enumerate(fs_histories(r, r.pick(140, 1200), 14, "ops")):
        job(i, h, r.rng.choice(free))
    res = r.jobs(jobs)
    r.extra["calls_of_reference_in_small_states"] = {"all": total, "executed": sum(len(j["free"]) for j in jobs[:ntour])}
    summary(r, jobs, res)
    r.extra["openings"] = tally(f'{t["drv"]}:{t["idx"]}:{t["e"]}' for t in res if "drv" in t)
    r.validate("T_C15", res, jobs)
    hj = []
    for h, init in r.simulate("Gen_Handle", r.pick(150, 1500), 41, consts={"Steps": 40, "MaxLen": 16, "RO": "TRUE"}, salt=5):
        hj.append({"kind": "handle", "cfg": config(r.rng, plain=0.4), "g": r.rng.choice([1, 2, 50, 700]), "ops": h, "init": init, "ro": True, "nowrite": r.rng.random() < 0.5})
    res = r.jobs(hj)
    r.extra["calls_on_files"] = tally(f'{s["o"]["op"]}:{s["e"]}' for t in res for s in t.get("steps", []))
    r.validate("T_C15H", res, hj)


# ---------------------------------------------------------------------- C10
READS = "fread fseek freadat fseekend fread fstat fstring fclose fcloseagain"
WRITES = "fwrite fsync fread fseek fread fwriteat fstat ftruncate fstring fclose fcloseagain fread"


def fault_setup():
    return [call("mkdir", ["x1"], m=0o755), call("open", ["x1", "x2"], acc="rw", creat=True, m=0o644, c=[1, 2, 3, 1, 2, 3]),
            call("mkdir", ["x1", "x3"], m=0o755), call("open", ["x4"], acc="w", creat=True, m=0o600, c=[2, 1]), call("mkdir", ["x5"], m=0o700)]


def fault_calls():
    """All kinds of calls on what fault_setup() has created, successful and rejected ones"""
    f, d, n = ["x1", "x2"], ["x1"], ["x9"]
    item = lambda p, k, c=(): {"p": p, "k": k, "m": 0o640, "c": list(c)}
    return [
        call("init", []), call("init", [], trunc=True), call("index", []), call("index", [], trunc=True), call("query", []),
        call("oprestore", d), call("oprestore", f), call("oprestore", n),
        call("archive", n, items=[item(n, "f", [1, 2, 3]), item(["x5", "x6"], "d"), item(["x7"], "f")]),
        call("archive", f, items=[item(f, "f", [3])]), call("archive", n, items=[]),
        call("opupdate", f, repl=True, items=[item(f, "f", [3, 3, 3, 3]), item(["x4"], "f", [1])]),
        call("opupdate", f, items=[item(f, "f", []), item(d, "d")]), call("opupdate", n, items=[item(n, "f", [1])], repl=True),
        call("opdelete", d), call("opdelete", n), call("opmove", d, q=n), call("opmove", n, q=["x8"]), call("opmove", f, q=["x4"]),
        call("opmove", f, q=["x9", "x9"]), call("badlevel", n, items=[item(n, "f", [1])]), call("opinit", []),
        call("file", f, acc="r", k=READS, c=[1, 2]), call("file", f, acc="rw", k=WRITES, c=[1, 2]), call("file", d, acc="r", k="freaddir fread fwrite fstat fclose"),
        call("file", f, acc="w", trunc=True, k="fwrite fclose", c=[3]), call("file", f, acc="rw", app=True, k="fwrite fsync fwrite fseek fread fclose", c=[3]),
        call("file", n, acc="rw", creat=True, k="fclose"), call("file", n, acc="r", k="fclose"), call("file", n, acc="rw", creat=True, excl=True, k=WRITES, c=[2]),
        call("file", f, acc="w", k="ftruncate fclose"), call("file", d, acc="rw", k="fwrite fclose", c=[1]),
        call("open", n, acc="w", creat=True, c=[1]), call("open", f, acc="w", trunc=True, c=[1]), call("open", ["x9", "x9"], acc="w", creat=True, c=[1]),
        call("create", n, c=[1, 2]), call("mkdir", n, m=0o700), call("mkdir", d, m=0o700), call("mkdirall", ["x9", "x8", "x7"], m=0o700), call("mkdirall", ["x4", "x8"], m=0o700),
        call("remove", f), call("remove", d), call("remove", n), call("removeall", d), call("removeall", n), call("removeall", ["x4"]),
        call("rename", d, q=n), call("rename", f, q=["x4"]), call("rename", ["x5"], q=["x1", "x3"]), call("rename", n, q=["x8"]), call("rename", d, q=["x1", "x3", "x9"]),
        call("rename", f, q=["x9", "x9"]), call("rename", f, q=f), call("chmod", f, m=0o600), call("chmod", n, m=0o600), call("chown", d, u=5, g=6), call("chtimes", f, t=3),
        call("chtimes", n, t=3), call("stat", f), call("stat", n), call("list", d, n=-1), call("list", n), call("read", f), call("read", n), call("read", d), symlink(["x4"][0], n),
    ]


PROBES = [call("init", []), call("open", ["x11"], acc="w", creat=True, m=0o644, c=[1, 2]), call("read", ["x11"]), call("mkdir", ["x12"], m=0o700), call("list", []),
          call("oprestore", ["x11"]), call("rename", ["x11"], q=["x13"]), call("query", []), call("removeall", ["x13"])]


@check("C10", "model_checking")
def c10(r):
    r.model("MC_Drive", consts={"Calls": r.pick(2, 3), "Faults": r.pick(2, 3)})
    jobs = []
    every = fault_calls()
    hs = fs_histories(r, r.pick(72, 700), 8, "all")
    for i, h in enumerate(hs):
        n = r.rng.randrange(0, 5)
        c = config(r.rng, plain=0.5, tape=0.25)
        j = hist_job(r, i, h[:n] + fault_setup(), c, g=r.rng.choice([1, 300, 3000]))
        # Each kind of call has its turn, together with some which the reference file system generates
        calls = [every[(i * 7 + k) % len(every)] for k in range(7)] + h[n:n + 3]
        j.update(kind="fault", calls=calls, probes=PROBES, seed=r.rng.randrange(1 << 31), max=r.pick(45, 400))
        jobs.append(j)
    res = r.jobs(jobs, per_child=4)
    r.extra["runs"] = sum(len(t.get("runs", [])) for t in res)
    r.extra["faults_by_point"] = tally(f'{u["call"]["op"]}:{u["point"]}' for t in res for u in t.get("runs", []) if u["point"])
    r.extra["configurations"] = len({key(j["cfg"]) for j in jobs})
    r.samples = [{"cfg": j["cfg"], "ops": [brief(o) for o in j["ops"][:8]], "calls": [brief(o) for o in j["calls"]]} for j in jobs[:2]]
    r.validate("T_C10", res, jobs)


# ---------------------------------------------------------------------- C11
@check("C11", "model_checking")
def c11(r):
    r.model("MC_Drive", consts={"Calls": r.pick(2, 3), "Faults": r.pick(1, 2)})
    jobs = []
    for clients, depth, steps, num in ((2, 2, 16, r.pick(50, 600)), (3, 3, 24, r.pick(50, 600)), (5, 2, 24, r.pick(30, 400)), (8, 2, 36, r.pick(24, 300))):
        for i, p in enumerate(r.simulate("Gen_Conc", num, steps + 1, salt=clients,
                                         consts={"Steps": steps, "Clients": clients, "MaxDepth": depth})):
            j = hist_job(r, i, p["setup"], config(r.rng, plain=0.6, tape=0.2), abstract=["a", "b", "f", "g"], g=r.rng.choice([1, 300, 3000]), style=r.rng.choice([0, 0, -1]))
            j.update(kind="conc", clients=p["progs"], delay=r.rng.choice([50, 300, 1500]), delayrate=r.rng.choice([0, 20, 50]))
            jobs.append(j)
    t = r.jobs(jobs, race=True, parallel=CPUS // 2 + 1, env={"GORACE": "halt_on_error=1 exitcode=66", "GOMAXPROCS": "4"})
    # The same programs in another interleaving, without the slow race detector
    again = [json.loads(json.dumps(j)) for j in jobs]
    t2 = r.jobs(again, parallel=CPUS // 2 + 1)
    res, alljobs = t + t2, jobs + again
    r.extra["configurations"] = len({key(j["cfg"]) for j in jobs})
    r.extra["calls"] = sum(len(x.get("calls", [])) for x in res)
    r.extra["calls_by_result"] = tally(f'{c["op"]}:{c["e"]}' for x in res for c in x.get("calls", []))
    r.extra["overlapping_calls"] = sum(overlaps(x) for x in res)
    r.samples = [{"cfg": j["cfg"], "setup": [brief(o) for o in j["ops"]], "clients": [[brief(o) for o in c[:4]] for c in j["clients"]]} for j in jobs[:2]]
    r.validate("T_C11", res, alljobs)
    r.extra["order_given_up"] = len(r.printed(r.out, "GAVEUP"))


def overlaps(x):
    """How many calls have been invoked while another one was in progress"""
    n = open_ = 0
    for e in x.get("evs", []):
        if e["e"] == "i":
            n += open_ > 0
            open_ += 1
        else:
            open_ -= 1
    return n


# ---------------------------------------------------------------------- C17
ROOTS = ["./", "/", "NAMED"]


@check("C17", "model_checking")
def c17(r):
    r.model("MC_Names", consts={"Entries": r.pick(2, 3)})
    jobs = []
    gens = [(r.pick(200, 1500), 9, 18, "all", True), (r.pick(80, 700), 12, 22, "mutate", False), (r.pick(150, 1200), 24, 24, "all", False)]
    for k, (num, members, steps, focus, dup) in enumerate(gens):
        hs = r.simulate("Gen_Foreign", num, steps + 1, salt=k,
                        consts={"Steps": steps, "Members": members, "Focus": f'"{focus}"', "Dup": str(dup).upper(), "MaxDepth": 4 if k == 2 else 3})
        for i, h in enumerate(hs):
            c = config(r.rng, plain=1, tape=0.2)
            c["rs"] = r.rng.choice([1, 2, 3, 7, 20, 20, 64])
            j = hist_job(r, i, h[members:], c, g=r.rng.choice([1, 7, 300, 512, 3000]))
            root = ROOTS[i % 3]
            if root == "NAMED":
                n = r.rng.choice(["top", "a b", "日本", "t%_", list(j["names"].values())[0], "top.tar", "x" * 120, " ", "...", "..x", "\u00a0", ".x", "-"])
                root = r.rng.choice(["{}/", "{}/", "./{}/", "/{}/", "srv/{}/", "/srv/{}/"]).format(n)
            j.update(kind="foreign", members=[dict(m, k=m["k"]) for m in h[:members]], root=root, format=r.rng.choice(["ustar", "pax", "gnu"]),
                     pad=r.rng.choice([0, 0, 20]), seed=r.rng.randrange(1 << 31), caches=i % 2 == 0, **{"global": r.rng.random() < 0.3})
            jobs.append(j)
    res = r.jobs(jobs)
    summary(r, jobs, res)
    r.extra["archives"] = tally(f'{t.get("format")}:{j["root"].count("/") if j["root"] not in ROOTS else j["root"]}' for t, j in zip(res, jobs))
    r.validate("T_C17", res, jobs)
    # Links, as tar writes them: known not to be listed
    mem = lambda p, k, c=(), l="": {"p": p, "k": k, "m": 0o755, "u": 0, "g": 0, "t": 1, "c": list(c), "l": l}
    kj = []
    for k, l in (("l", "x1"), ("h", "x1")):
        j = hist_job(r, 0, [], dict(config(r.rng, plain=1, tape=0), rs=20), g=1, style=0)
        j.update(kind="foreign", members=[mem([], "d"), mem(["x1"], "f", [1, 2]), mem(["x2"], k, (), l)], root="./", format="ustar", pad=0, seed=1, caches=False)
        kj.append(j)
    kt = r.jobs(kj)
    r.known_findings("T_C17", [("foreign-" + n, kt[i], kj[i], e) for i, (n, e) in enumerate((
        ("symlink", r'\{<<"listed twice", \{<<"x1">>\}, "missing", \{<<"x2">>\}>>\}'),
        ("hardlink", r'\{<<"tree differs from the archive at", \{<<"x2">>\}>>\}')))])


# ---------------------------------------------------------------------- C03
DISTS = ["zeros", "ones", "random", "random", "text", "tar", "gz", "sparse"]


def content_size(r, rs, big):
    rec = rs * 512
    c = [0, 1, 2, 511, 512, 513, 1023, 1024, 1025, rec - 1, rec, rec + 1, 3 * rec + 17, 2 * rec, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537]
    if big:
        c = [131072, 262143, 262144, 262145, (1 << 20) + 3, 300001, 999983, 4194304, (4 << 20) + 1, 2500000, 8 << 20]
    return r.rng.choice(c)


@check("C03", "model_checking")
def c03(r):
    sizes = [1, 2, 3, 7, 20, 64, 128, 150] if r.quick else [1, 2, 3, 4, 5, 7, 10, 20, 33, 64, 128, 150, 256]
    out = r.model("MC_Pipe", consts={"Export": "TRUE", "RecordSizes": "{" + ", ".join(map(str, sizes)) + "}", "MaxLen": r.pick(1, 2)})
    by = {}
    for c in sorted(r.printed(out, "CFG"), key=lambda c: json.dumps(c, sort_keys=True)):
        by.setdefault((c["comp"], c["level"], c["enc"], c["sig"]), []).append(c)
    cfgs = []
    for k in sorted(by):
        if r.quick:
            # Half of them as on a tape drive, if that is supported
            for i in range(3):
                cs = [c for c in by[k] if c["tape"] == (i == 1)] or by[k]
                cfgs.append(r.rng.choice(cs))
        else:
            cfgs += by[k]
    jobs = []
    for i, c in enumerate(cfgs):
        c = dict(c, wpr=r.rng.random() < 0.5)
        j = hist_job(r, i, [], c, abstract=("a", "b", "c", "d"), g=1)
        free = ["a", "b", "c", "d", "x1", "x2"]
        r.rng.shuffle(free)
        have, steps = [], []
        big = i % (8 if r.quick else 16) == 0
        for how in r.rng.sample(["create", "excl", "archive", "multi", "multi"], 2) + [r.rng.choice(["over", "trunc", "opupdate", "create"])]:
            if how in ("over", "trunc", "opupdate"):
                ps = r.rng.sample(have, r.rng.choice([1, 2]) if how == "opupdate" else 1)
            else:
                ps = [[free.pop()] for _ in range(2 if how in ("archive", "multi") and len(free) > 2 else 1)]
                if how == "multi" and have:
                    # Including some which exist
                    ps.append(r.rng.choice(have))
                have += [p for p in ps if p not in have]
            items = []
            for p in ps:
                n = content_size(r, c["rs"], big and not any(s["items"][0]["n"] > 1 << 17 for s in steps) and not items)
                items.append({"p": p, "n": n, "dist": r.rng.choice(DISTS), "seed": r.rng.randrange(1 << 31)})
            chunk = r.rng.choice([0, 0, 1, 3, 7, 100, 511, 512, 513, 4096, 32768, 33000])
            if items[0]["n"] > 20000 and chunk < 100:
                chunk = 4099
            steps.append({"how": how, "items": items, "chunk": chunk})
        j.update(kind="pipe", steps=steps, seed=r.rng.randrange(1 << 31))
        jobs.append(j)
    res = r.jobs(jobs)
    r.extra["configurations"] = {"pipelines": len(by), "runs": len(jobs), "on tape drives": sum(j["cfg"]["tape"] for j in jobs),
                                 "different": len({key(j["cfg"]) for j in jobs})}
    r.extra["written"] = tally(f'{s["how"]}:{s["e"]}' for t in res for s in t.get("steps", []))
    r.extra["read"] = tally(e["via"] for t in res for s in t.get("steps", []) for e in s["reads"])
    r.extra["contents"] = {"sizes": len({x["n"] for j in jobs for s in j["steps"] for x in s["items"]}), "largest": max(x["n"] for j in jobs for s in j["steps"] for x in s["items"])}
    r.samples = [dict(cfg=j["cfg"], steps=j["steps"]) for j in jobs[:3]]
    r.validate("T_C03", res, jobs)


# ---------------------------------------------------------------------- C18
def passwords(r, i, scrypt):
    """Four different passwords, of which some are alike"""
    base = r.rng.choice(["p", "password", "correct horse battery staple", "pässwörd", "密码", "🔑🔑", " ", "a b", "\t", "\n", "0", "null", "'\"\\", "%s%n", "-",
                         "x" * 71, "x" * 72, "x" * 255, "é" * 600, "y" * 5000, "A" * 64]).encode()
    if i % 5 == 0:
        base = bytes(r.rng.randrange(256) for _ in range(r.rng.choice([1, 8, 33])))
    alike = [base + b" ", b" " + base, base + b"\n", base + b"\r\n", base + b"\0", base[:-1], base + b"x", base * 2, base.swapcase(), base[::-1], base + base[-1:], b"\0" + base,
             base.decode("latin1").encode(), base.hex().encode(), base[:32], base[:64], base[:72], base[:256], base[:8] + b"z" + base[9:],
             __import__("unicodedata").normalize("NFD", base.decode("utf8", "replace")).encode(), base.lower(), base.upper(), base + b"\xff"]
    out = [base, b""]
    r.rng.shuffle(alike)
    for a in alike:
        # Bytes of value zero at the end: a known finding with scrypt
        if a not in out and not (scrypt and a.endswith(b"\0")) and len(out) < 4:
            out.append(a)
    r.rng.shuffle(out)
    return out


@check("C18", "model_checking")
def c18(r):
    r.model("MC_Keys", consts={"MaxPairs": 2, "MaxThings": r.pick(2, 3)})
    import base64
    jobs = []
    # Private halves with passwords are slow on purpose: that of age takes a second, those of minisign take seconds
    gens = [('{"pgpe", "pgps"}', r.pick(150, 1500), 3, 45, 14), ('{"age", "pgpe"}', r.pick(12, 120), 2, 40, 4), ('{"age"}', r.pick(6, 80), 2, 30, 3),
            ('{"minisign", "pgps"}', r.pick(3, 40), 2, 36, 4), ('{"minisign"}', r.pick(2, 30), 2, 30, 3), ('{"age", "pgpe", "pgps", "minisign"}', r.pick(4, 60), 3, 45, 3)]
    for k, (ks, num, pairs, steps, slow) in enumerate(gens):
        hs = r.simulate("Gen_Keys", num, steps + 1, consts={"Ks": ks, "Pairs": pairs, "Steps": steps, "Slow": slow}, salt=k)
        for i, h in enumerate(hs):
            msgs = [b"", r.rng.choice([b"m", "日本".encode(), b"\0\xff\n", b"{}"]), bytes(r.rng.randrange(256) for _ in range(17)) * r.rng.choice([1, 61, 3900, 8000])]
            jobs.append({"kind": "keys", "ops": h, "passwords": [base64.b64encode(p).decode() for p in passwords(r, i, 'age' in ks or 'minisign' in ks)], "msgs": [base64.b64encode(m).decode() for m in msgs]})
    slow = [j for j in jobs if any(o["f"] == "minisign" for o in j["ops"])]
    fast = [j for j in jobs if j not in slow]
    res = r.jobs(fast) + r.jobs(slow, parallel=6, per_child=1)
    jobs = fast + slow
    r.extra["calls"] = tally(f'{s["o"]["op"]}:{s["e"]}' for t in res for s in t.get("steps", []))
    r.extra["pairs"] = tally(o["f"] for j in jobs for o in j["ops"] if o["op"] == "gen")
    r.extra["passwords"] = len({p for j in jobs for p in j["passwords"]})
    r.samples = [{"passwords": j["passwords"], "ops": [[o[k] for k in ("op", "i", "j", "f", "w", "m", "how")] for o in j["ops"][:12]]} for j in jobs[:2] + jobs[-2:]]
    r.validate("T_C18", res, jobs)
    # Known: scrypt does not tell passwords apart which differ by bytes of value zero at their end only
    op = lambda o, i, f, w: {"op": o, "i": i, "j": 0, "f": f, "w": w, "m": 0, "how": ""}
    kj = [{"kind": "keys", "ops": [op("gen", 0, f, 1), op("parse", 1, "", 2)], "passwords": ["cHc=", "cHcA"], "msgs": [""]} for f in ("age", "minisign")]
    kt = r.jobs(kj, parallel=2, per_child=1)
    r.known_findings("T_C18", [(f"{f}-trailing-zero", kt[i], kj[i], r'\{<<"succeeds", \[[^\]]*op \|-> "parse"[^\]]*\], "password", "\\"pw\\\\x00\\"">>\}') for i, f in enumerate(("age", "minisign"))])


# ---------------------------------------------------------------------- C08
def signed_config(r, i):
    c = config(r.rng, plain=0, tape=0)
    c["sig"] = SIG[1 + i % 2]
    c["enc"] = ENC[(i // 2) % 3]
    c["comp"] = r.rng.choice(COMP) if i % 3 else ""
    c["tape"] = r.rng.random() < 0.2
    c["rs"] = r.rng.choice([1, 1, 2, 3, 7, 20])
    if not tape_supported(c):
        c["tape"] = False
    return c


SIGNED = [call("open", ["a"], acc="w", creat=True, m=0o644, c=[1, 2, 3]), call("open", ["b"], acc="w", creat=True, m=0o600, c=[4, 5]), call("chmod", ["a"], m=0o600)]


@check("C08", "model_checking")
def c08(r):
    out = r.model("MC_Crypto", consts={"Export": "TRUE"})
    changes = sorted({json.dumps(c, sort_keys=True) for c in r.printed(out, "CHANGE")})
    jobs = []

    def job(i, h, n, flips, g=None, **kw):
        j = hist_job(r, i, h, signed_config(r, i), g=g or r.rng.choice([4, 30, 300]))
        cs = [json.loads(c) for c in (r.rng.sample(changes, n) if n < len(changes) else changes)]
        for c in cs:
            if c["sig"]["k"] == "bad":
                c["sig"]["i"] = r.rng.randrange(11)
        for k, n in j["names"].items():  # Changed records are made of headers in JSON, which has no such names
            j["names"][k] = "".join(f"x{ord(c) - 0xe000:02x}" if 0xe000 <= ord(c) < 0xe100 else c for c in n)
        j.update(kind="forge", seed=r.rng.randrange(1 << 31), files=2, others=1, changes=cs, flips=flips, **kw)
        j["cfg"]["wpr"] = True
        jobs.append(j)
        return j

    # All bytes of small tapes
    for i in range(r.pick(4, 48)):
        j = job(r.seed + i, SIGNED, 0, -1, g=4, shards=8)
        j["cfg"].update(rs=1, comp=j["cfg"]["comp"] if not r.quick else "")
        for k in range(1, 8):
            jobs.append(dict(j, shard=k, seed=j["seed"] + k))
    for i, h in enumerate(fs_histories(r, r.pick(56, 700), 8, "ops") + fs_histories(r, r.pick(12, 150), 10, "mutate", salt=1)):
        job(i, SIGNED[:r.rng.choice([2, 3])] + h, r.pick(60, 500), r.pick(40, 300))
    # Large contents
    for i in range(r.pick(8, 60)):
        c = job(r.seed + i, SIGNED, r.pick(12, 60), r.pick(24, 120), g=[70000, 25000, 12000, 200000][i // 2 % 4])["cfg"]
        c.update(comp="" if i % 4 < 2 else r.rng.choice(COMP))
        c["tape"] = c["tape"] and tape_supported(c)
    res = r.jobs(jobs, per_child=3)
    summary(r, jobs, res)
    r.extra["changes"] = {"of the specification": len(changes), "different": len({json.dumps(c["c"], sort_keys=True) for t in res for c in t.get("chs", [])}),
                          "executed": sum(len(t.get("chs", [])) for t in res)}
    r.extra["bytes"] = {"changed": sum(t.get("flipped", 0) for t in res), "tapes with all": sum(j["flips"] == -1 for j in jobs) // 8}
    r.extra["skipped"] = tally(t["skipped"] for t in res if "skipped" in t)
    r.extra["records_accepted_of_changed_tapes"] = tally(f'{len(o["acc"])} of {t["n"]}' if t["n"] < 6 else "more" for t in res for k in ("chs", "flips") for o in [x["o"] for x in t.get(k, [])])
    r.validate("T_C08", res, jobs)
    # Known: what is signed of a content is not told apart from what is signed of a header
    j = hist_job(r, 0, SIGNED, {"comp": "", "enc": "", "sig": "pgp", "level": "fastest", "rs": 20, "cache": "memory", "wpr": True, "tape": False}, g=4)
    j.update(kind="forge", seed=1, files=2, others=1, changes=[], flips=0, headerlike=True)
    kt = r.jobs([j])
    r.known_findings("T_C08", [("content-as-header", kt[0], j,
                                r'\{<<\[(?=[^\]]*\[i \|-> 0, k \|-> "append")(?=.*sig \|-> \[i \|-> 2, k \|-> "content").*\], \{(?=.*<<"accepts", \{0\}, <<)(?=.*<<"queries", \{0\}, <<)'
                                r'(?=.*<<"indexes", <<"upsert [^<>]*\\"Name\\":\\"/forged\\"[^<>]*">>>>)(?=.*<<"restores", \{<<0, 0>>\}, <<).*\}>>\}')])


# ---------------------------------------------------------------------- C09
def marker(r, n=20):
    return "".join(r.rng.choice("abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789") for _ in range(n))


@check("C09", "model_checking")
def c09(r):
    r.model("MC_Secrecy", consts={"MaxRecords": r.pick(4, 5)})
    jobs = []
    n = r.pick(420, 6000)
    hs = fs_histories(r, n * 6 // 10, 14, "ops") + fs_histories(r, n * 2 // 10, 14, "mutate", salt=1) + fs_histories(r, n * 2 // 10, 14, "all", salt=2)
    for i, h in enumerate(hs):
        c = config(r.rng, plain=0, tape=0.2)
        c["enc"] = ENC[1 + i % 2]
        c["sig"] = SIG[(i // 2) % 3]
        c["comp"] = COMP[(i // 6) % len(COMP)]
        c["rs"] = r.rng.choice([1, 3, 20, 20, 64])
        if c["tape"]:
            c["rs"] = 128 if c["comp"] in ("gzip", "lz4") else max(2, c["rs"])
            c["tape"] = tape_supported(c)
        if not c["tape"]:
            c["rs"] = min(c["rs"], 64)
        h = [dict(o) for o in h]
        if i % 3 == 0:
            h += [symlink(["a", "b", "c"][i % 3], ["x1"]), symlink("x2", ["x3"])]
        j = hist_job(r, i, h, c, g=r.rng.choice([24, 64, 300, 3000]))
        marks = {"name": []}
        for k in j["names"]:
            m = marker(r)
            j["names"][k] = r.rng.choice(["", "", "日本 ", ".", "-", "a%_"]) + m + r.rng.choice(["", "", ".gz.age", "ä", "." + m[:3]])
            marks["name"].append(m)
        for o in h:
            for k in ("u", "g"):
                if o["op"] == "chown" and o[k]:
                    o[k] = (1234500000 if k == "u" else 1987600000) + o[k] % 1000
                    marks.setdefault("owner", []).extend([str(o[k]), "%o" % o[k]])
        for k in ("uname", "gname", "paxkey", "pax", "extra", "link"):
            marks[k] = [marker(r).upper() if k == "paxkey" else marker(r)]
        marks.setdefault("owner", []).extend([f(x) for x in (1876500321, 1876500322) for f in (str, lambda v: "%o" % v)])
        j.update(kind="secret", markers=marks, fault=0 if i % 4 else r.rng.choice([3, 5]), seed=r.rng.randrange(100), extra=i % 2 == 0)
        jobs.append(j)
    res = r.jobs(jobs, per_child=4)
    summary(r, jobs, res)
    r.extra["members"] = tally(f'{m["act"]} {m["kind"]}' for t in res for s in t.get("steps", []) for m in s["recs"])
    r.extra["searched"] = {"forms": sum(t.get("forms", 0) for t in res), "bytes": sum(t.get("tape", 0) for t in res), "cut off calls": sum(s["e"] == "injected" for t in res for s in t.get("steps", []))}
    r.extra["extra"] = tally(s["e"] + s.get("d", "") for t in res for s in t.get("steps", []) if s["o"]["op"] == "extra")
    r.validate("T_C09", res, jobs)
