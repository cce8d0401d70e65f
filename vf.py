#!/usr/bin/env python3
"""Driver: builds the instrumented esmini from /repo's working tree, explores the harness cases of one property
with the symbolic runtime, confirms counterexamples by concrete replay, writes evidence and prints the verdict.

usage: vf.py check ID [--tier quick|thorough] [--case NAME] [--keep]
       vf.py build ID...      vf.py setup       vf.py replay FILE
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, ".build"))
SIM = os.path.join(REPO, "EnvironmentSimulator")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "clang++"
JOBS = os.cpu_count() or 8
sys.path.insert(0, HERE)
import props as P  # noqa: E402

INCS = ["Modules/CommonMini", "Modules/RoadManager", "Modules/Controllers", "Modules/ScenarioEngine/SourceFiles",
        "Modules/ScenarioEngine/OSCTypeDefs", "Modules/PlayerBase", "Modules/ViewerBase", "Applications/replayer",
        "Libraries/esminiLib", "Libraries/esminiRMLib"]
EXT = ["externals/pugixml", "externals/expr", "externals/yaml", "externals/dirent"]
SKIP = {"version.cpp", "UDP_none.cpp", "ControllerSumo.cpp", "OSIReporter.cpp", "OSITrafficCommand.cpp", "Plot.cpp"}
FLAGS = ["-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-D_USE_GTEST", "-DFMT_SHARED", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize",
         "-fno-strict-aliasing", "-w", "-fPIC"]
HFLAGS = ["-fno-access-control"]

MODULES = {
    "common": ["EnvironmentSimulator/Modules/CommonMini/*.cpp"],
    "road": ["EnvironmentSimulator/Modules/RoadManager/*.cpp", "externals/pugixml/*.cpp"],
    "scenario": ["EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/*.cpp", "EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/*.cpp",
                 "EnvironmentSimulator/Modules/Controllers/*.cpp", "EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/*.c", "EnvironmentSimulator/Modules/PlayerBase/*.cpp"],
    "yaml": ["externals/yaml/*.cpp"],
    "replay": ["EnvironmentSimulator/Applications/replayer/Replay.cpp", "EnvironmentSimulator/Applications/replayer/PacketHandler.cpp"],
    "lib": ["EnvironmentSimulator/Libraries/esminiLib/*.cpp"],
    "rmlib": ["EnvironmentSimulator/Libraries/esminiRMLib/*.cpp"],
}


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for base in [SIM + "/Modules", SIM + "/Applications/replayer", SIM + "/Libraries/esminiLib", SIM + "/Libraries/esminiRMLib",
                     REPO + "/externals/pugixml", REPO + "/externals/expr", REPO + "/externals/yaml", REPO + "/externals/dirent"]:
            for root, _, fs in sorted(os.walk(base)):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".hxx", ".inl", ".inc", ".ipp")):
                        h.update(f.encode())
                        h.update(rd(os.path.join(root, f)))
        _hdr = h.hexdigest()
    return _hdr


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


class BuildError(Exception):
    pass


def publish(tmp, dst):
    os.replace(tmp, dst)


def build_pass():
    key = sh256(rd(HERE + "/engine/pass.cpp"))
    so = f"{BUILD}/fpsym-{key}.so"
    if not os.path.exists(so):
        fl = subprocess.check_output(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], text=True).split()
        t = f"{so}.{os.getpid()}.tmp"
        r = run([CXX, "-w", "-fPIC", "-shared", "-O1", *fl, "-std=c++17", HERE + "/engine/pass.cpp", "-o", t])
        if r.returncode:
            raise BuildError("pass: " + r.stdout.decode()[-3000:])
        publish(t, so)
    return so


def build_runtime():
    key = sh256(rd(HERE + "/engine/runtime.cpp"), rd(HERE + "/engine/vf.h"))
    o = f"{BUILD}/runtime-{key}.o"
    if not os.path.exists(o):
        t = f"{o}.{os.getpid()}.tmp"
        r = run([CXX, "-std=gnu++17", "-O2", "-g1", "-w", "-fPIC", "-fno-strict-aliasing", "-I" + Z3 + "/include", "-I" + HERE + "/engine", "-c", HERE + "/engine/runtime.cpp", "-o", t])
        if r.returncode:
            raise BuildError("runtime: " + r.stdout.decode()[-3000:])
        publish(t, o)
    return o


def sources(mods):
    out = []
    for m in mods:
        for g in MODULES[m]:
            for f in sorted(glob.glob(os.path.join(REPO, g))):
                if os.path.basename(f) not in SKIP:
                    out.append(f)
    return out


def compile_one(src, so, extra=()):
    key = sh256(rd(src), src, header_hash(), rd(so), " ".join(FLAGS), " ".join(extra), b"".join(rd(h) for h in [HERE + "/engine/vf.h"] + sorted(glob.glob(HERE + "/harness/*.h"))) if src.startswith(HERE) else "")
    o = f"{BUILD}/obj/{os.path.basename(src)}-{key}.o"
    if os.path.exists(o):
        return o, True
    inc = [f"-I{SIM}/{i}" for i in INCS] + [f"-I{REPO}/{i}" for i in EXT] + [f"-I{HERE}/engine", f"-I{HERE}/harness"]
    t = f"{o}.{os.getpid()}.tmp"
    flags = [f for f in FLAGS if not (src.endswith(".c") and f.startswith("-std="))]
    r = run(["clang" if src.endswith(".c") else CXX, f"-fpass-plugin={so}", *flags, *extra, *inc, "-c", src, "-o", t])
    if r.returncode:
        raise BuildError(f"{src}: " + r.stdout.decode()[-4000:])
    publish(t, o)
    return o, False


def build(pid):
    """build the harness executable of a property; returns path"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    cfg = P.PROPS[pid]
    t0 = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fr = ex.submit(build_runtime)
        so = build_pass()
        srcs = sources(cfg["modules"])
        # big files first
        srcs.sort(key=lambda f: -os.path.getsize(f))
        futs = [ex.submit(compile_one, s, so) for s in srcs]
        futs.append(ex.submit(compile_one, HERE + "/engine/version_stub.cpp", so))
        for h in cfg["harness"]:
            futs.append(ex.submit(compile_one, f"{HERE}/harness/{h}", so, tuple(HFLAGS)))
        objs = [f.result()[0] for f in futs] + [fr.result()]
    key = sh256(*objs)
    exe = f"{BUILD}/{pid}-{key}"
    if not os.path.exists(exe):
        t = f"{exe}.{os.getpid()}.tmp"
        ld = ["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") else []
        r = run([CXX, *ld, "-no-pie", "-o", t, *objs, f"-L{Z3}/lib", "-lz3", f"-Wl,-rpath,{Z3}/lib", "-lfmt", "-lpthread", "-ldl"])
        if r.returncode:
            raise BuildError("link: " + r.stdout.decode()[-4000:])
        publish(t, exe)
    return exe, srcs, time.time() - t0


def load(p):
    out = []
    if os.path.exists(p):
        for l in open(p, errors="replace"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def write_replay(path, model, ints):
    with open(path, "w") as f:
        for k, v in model.items():
            f.write(f"{k} {v}\n")
        for k, v in ints.items():
            f.write(f"{k} {v}\n")


def concrete(exe, case, replay_file, work, extra=(), budget=60):
    out = tempfile.mktemp(dir=work)
    try:
        subprocess.run([exe, case, out, f"replay={replay_file}", f"budget={budget}", *extra], cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=budget + 20)
    except subprocess.TimeoutExpired:
        return {"status": "timeout"}
    r = [x for x in load(out) if x.get("kind") == "concrete"]
    try:
        os.unlink(out)
    except OSError:
        pass
    return r[0] if r else {"status": "none"}


def symbolize(exe, addrs):
    if not addrs:
        return {}
    try:
        base = 0
        hd = subprocess.check_output(["nm", exe], text=True)
        m = re.search(r"^([0-9a-f]+) . __executable_start$", hd, re.M)
        base = int(m.group(1), 16) if m else 0x200000
        inp = "\n".join(hex(a + base - 1) for a in addrs)
        tool = "/usr/lib/llvm-18/bin/llvm-symbolizer"
        o = subprocess.run([tool, "-e", exe, "--functions=linkage", "-C", "--inlines"], input=inp, text=True, capture_output=True, timeout=120).stdout
        fn = {}
        for blk in o.strip().split("\n\n"):
            ls = blk.split("\n")
            for i in range(0, len(ls) - 1, 2):
                f = ls[i + 1].split(":")[0]
                if f.startswith(REPO):
                    name = re.sub(r"\(.*", "", ls[i])
                    fn[name] = os.path.relpath(f, REPO)
        return fn
    except Exception as e:  # evidence only
        return {"symbolizer failed: " + str(e): ""}


def known_findings():
    p = HERE + "/known_findings.json"
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def matches(kf, pid, v):
    if kf.get("property") != pid or kf.get("status") == "fixed":
        return False
    if kf.get("case") != v["case"] or kf.get("label") != v["label"]:
        return False
    for k, (lo, hi) in (kf.get("inputs") or {}).items():
        val = v["values"].get(k)
        if val is None or not (lo <= val <= hi):
            return False
    return True


def fl(x):
    if isinstance(x, (int, float)):
        return float(x)
    return float.fromhex(x)


def check(pid, tier, only=None, keep=False):
    t0 = time.time()
    cfg = P.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {}, "wall_s": 0.0}
    exe, srcs, tb = build(pid)
    work = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    os.makedirs(HERE + "/evidence", exist_ok=True)
    cases = subprocess.check_output([exe, "--list"], text=True).split()
    cases = [c for c in cases if tier == "thorough" or not c.startswith("t_")]
    if only:
        cases = [c for c in cases if c in only]
    total = cfg.get("budget", {}).get(tier, 600 if tier == "quick" else 5400)
    results, fns = {}, {}
    viol, unconf, undec, errors, validated, mism, samples = [], [], [], [], 0, [], []
    queue = [(c, {**cfg.get("opts", {}), **cfg.get("case_opts", {}).get(c, {})}) for c in cases]
    par = cfg.get("par", 4)

    def one(cq):
        c, o = cq
        cw = os.path.join(work, c)
        os.makedirs(cw, exist_ok=True)
        out = os.path.join(work, c + ".jsonl")
        bud = o.get("budget_t" if tier == "thorough" else "budget", 900 if tier == "thorough" else 240)
        bud = min(bud, max(10, total - (time.time() - t0)))
        args = [exe, c, out, f"budget={bud}", f"jobs={max(2, JOBS // par + 1)}", f"maxpaths={o.get('maxpaths', 20000)}", f"tbranch={o.get('tbranch', 2000)}",
                f"tassert={o.get('tassert', 40000 if tier == 'quick' else 240000)}", f"thorough={1 if tier == 'thorough' else 0}"]
        try:
            subprocess.run(args, cwd=cw, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=bud + 300)
        except subprocess.TimeoutExpired:
            return c, load(out), "timeout"
        return c, load(out), None

    def validate(c, recs):
        nonlocal validated
        cw = os.path.join(work, c)
        paths = [r for r in recs if r["kind"] == "path" and r["status"] == "complete" and r["model_ok"]]
        step = max(1, len(paths) // 40) if tier == "quick" else max(1, len(paths) // 400)

        def run(ir):
            i, r = ir
            rf = os.path.join(work, f"{c}.w{i}")
            write_replay(rf, r["model"], r["ints"])
            wd = os.path.join(cw, f"w{i % 8}")
            os.makedirs(wd, exist_ok=True)
            res = concrete(exe, c, rf, wd)
            os.unlink(rf)
            return r, res

        with cf.ThreadPoolExecutor(8) as wx:
            done = list(wx.map(run, enumerate(paths[::step])))
        for r, res in done:
            if res.get("status") != "complete":
                if not r["uncertain"]:
                    mism.append({"case": c, "model": r["model"], "ints": r["ints"], "got": res.get("status"), "label": res.get("label")})
                continue
            same = set(res["obs"]) == set(r["obs"])
            if same:
                for k, v in r["obs"].items():
                    a, b = fl(v), fl(res["obs"][k])
                    if not (abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) or a != a or b != b or a == 1e300):
                        same = False
            if same:
                validated += 1
                if len(samples) < 4:
                    samples.append({"case": c, "inputs": {k: fl(v) for k, v in r["model"].items()}, "ints": r["ints"], "observed": {k: fl(v) for k, v in list(res["obs"].items())[:12]}})
            elif not r["uncertain"]:
                mism.append({"case": c, "model": r["model"], "ints": r["ints"], "sym": r["obs"], "got": res["obs"]})

    with cf.ThreadPoolExecutor(par) as ex:
        for c, recs, err in ex.map(one, queue):
            summ = [r for r in recs if r["kind"] == "summary"]
            if err or not summ:
                errors.append(f"{c}: {err or 'no summary'}")
                continue
            results[c] = summ[0]
            fns.update(symbolize(exe, summ[0].pop("addrs")))
            lab = set()
            for r in recs:
                if r["kind"] == "path":
                    lab.update(r.get("labels", []))
            summ[0]["labels"] = sorted(lab)
            seen = {}
            for r in recs:
                if r["kind"] != "violation":
                    continue
                k = r["label"]
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 25:
                    continue
                ok = None
                for m in r["models"]:
                    rf = os.path.join(work, f"{c}.{len(viol)}.{len(unconf)}.replay")
                    write_replay(rf, m, r["ints"])
                    res = concrete(exe, c, rf, os.path.join(work, c))
                    if res.get("status") in ("violation", "crash", "died"):
                        ok = (rf, res, m)
                        break
                d = {"case": c, "label": r["label"], "expr": r["expr"], "loc": r["loc"], "ints": r["ints"]}
                if ok:
                    d["label"] = ok[1].get("label", d["label"])
                    d["values"] = {**{k: fl(v) for k, v in ok[2].items()}, **{k: float(v) for k, v in r["ints"].items()}}
                    d["replay"] = ok[0]
                    viol.append(d)
                else:
                    d["models"] = [{k: fl(v) for k, v in m.items()} for m in r["models"][:3]]
                    unconf.append(d)
            for r in recs:
                if r["kind"] == "undecided":
                    undec.append({"case": c, "label": r["label"], "loc": r["loc"], "ints": r["ints"]})
            validate(c, recs)

    tot = {k: sum(r.get(k, 0) for r in results.values()) for k in
           ["paths", "completed", "assumed", "queries", "sat", "unsat", "unknown", "solver_s", "truncated", "violations", "concretized", "undecided", "proved", "branch_unknown", "int_branches", "interval_decided", "cvc5_calls", "guessed", "icp_calls", "icp_unsat"]}
    kfs = known_findings()
    fresh, known = [], {}
    for v in viol:
        k = next((f for f in kfs if matches(f, pid, v)), None)
        if k:
            known[k["id"]] = k
        else:
            fresh.append(v)
    vacuous = [c for c, r in results.items() if r["violations"] == 0 and (r["completed"] == 0 or r["proved"] == 0)]
    rc = 0
    for k in known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if fresh:
        rd_ = os.path.join(HERE, "replays")
        os.makedirs(rd_, exist_ok=True)
        v = fresh[0]
        dst = os.path.join(rd_, f"{pid}_{v['case']}.json")
        json.dump({"property": pid, "case": v["case"], "label": v["label"], "assertion": v["expr"], "at": v["loc"], "inputs": v["values"],
                   "replay_values": open(v["replay"]).read().split("\n")}, open(dst, "w"), indent=1)
        shown = {}
        for v in fresh:
            shown.setdefault((v["case"], v["label"]), v)
        for v in list(shown.values())[:40]:
            print(f"  {v['case']}: {v['label']}: {v['expr']} at {v['loc']} inputs {json.dumps(v['values'])}")
        print(f"VIOLATION property={pid} replay={dst}")
        rc = 1
    elif errors or vacuous or mism_bad(mism, validated):
        rc = 2
    fn_files = sorted(fns)
    ev["coverage"] = {
        "states": tot["completed"], "transitions": tot["queries"] + tot["interval_decided"], "traces_validated_against_impl": validated,
        "samples": samples, "functions_encoded": fn_files[:400], "functions_encoded_count": len(fn_files),
        "bounds": cfg.get("bounds", ""), "cases": {c: r for c, r in results.items()},
        "queries_discharged": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2),
        "obligations": tot["proved"] + tot["undecided"] + tot["violations"], "discharged": tot["proved"],
        "undecided": undec[:50], "undecided_count": len(undec), "unconfirmed_counterexamples": unconf[:20], "truncated_branches": tot["truncated"],
        "witness_mismatches": mism[:10], "known_findings": sorted(known), "build_s": round(tb, 1), "sources": len(srcs), "errors": errors,
        "explanation": "states = completed symbolic paths; transitions = branch/assertion decisions (solver queries + interval decisions); traces_validated_against_impl = path witnesses replayed concretely through the same real code with identical observations",
        "exhaustive": tot["truncated"] == 0 and not undec and not errors,
    }
    ev["assumptions"] = cfg.get("assumptions", []) + P.COMMON_ASSUMPTIONS
    ev["violations"] = len(fresh)
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} [{tier}] cases={len(results)} paths={tot['completed']} obligations={tot['proved']} queries={tot['queries']} unsat={tot['unsat']} solver={tot['solver_s']:.1f}s "
          f"undecided={len(undec)} unconfirmed={len(unconf)} truncated={tot['truncated']} concretized={tot['concretized']} witnesses={validated}/{validated + len(mism)} build={tb:.0f}s wall={ev['wall_s']}s")
    if os.environ.get("VF_VERBOSE"):  # per-case
        for c, r in results.items():
            print(f"   {c}: paths={r['completed']} proved={r['proved']} queries={r['queries']} solver={r['solver_s']:.1f} wall={r.get('wall_s', 0):.1f} trunc={r['truncated']}")
    for u in undec[:8]:
        print("  undecided:", json.dumps(u))
    for u in unconf[:8]:
        print("  unconfirmed:", json.dumps(u))
    for m in mism[:4]:
        print("  witness mismatch:", json.dumps(m)[:1500])
    if vacuous:
        print("  vacuous cases:", vacuous)
    for e in errors:
        print("  error:", e)
    if keep:
        print("  work:", work)
    else:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def mism_bad(mism, validated):
    return len(mism) > 5 and len(mism) > validated


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        os.makedirs(BUILD + "/obj", exist_ok=True)
        build_pass()
        build_runtime()
        print("engine built")
        return 0
    if a[0] == "build":
        for p in a[1:]:
            print(build(p)[0])
        return 0
    if a[0] == "replay":
        d = json.load(open(a[1]))
        exe = build(d["property"])[0]
        w = tempfile.mkdtemp(prefix="vf_replay_")
        rf = w + "/in"
        open(rf, "w").write("\n".join(d["replay_values"]))
        print(json.dumps(concrete(exe, d["case"], rf, w), indent=1))
        shutil.rmtree(w, ignore_errors=True)
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        only, keep = [], False
        i = 2
        while i < len(a):
            if a[i] == "--tier":
                tier = a[i + 1]; i += 1
            elif a[i] == "--case":
                only.append(a[i + 1]); i += 1
            elif a[i] == "--keep":
                keep = True
            i += 1
        try:
            return check(a[1], tier, only, keep)
        except BuildError as e:
            print("build failed:", e)
            return 2
    return 2


if __name__ == "__main__":
    sys.exit(main())
