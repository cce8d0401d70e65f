#!/usr/bin/env python3
"""Random operator mutants of the functions behind a property, run through its harness (development aid: finds what the check does not see).
usage: mut.py PROP N [SEED]   (scratch copy of the sources in /tmp/mut_PROP, removed at the end)"""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
pid, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
scratch = f"/tmp/mut_{pid}"
shutil.rmtree(scratch, ignore_errors=True)
os.makedirs(scratch)
subprocess.check_call(["rsync", "-a", "--include=*/", "--include=*.cpp", "--include=*.c", "--include=*.h", "--include=*.hpp", "--exclude=*", "/repo/EnvironmentSimulator", "/repo/externals", scratch]) if shutil.which("rsync") else subprocess.check_call(f"cd /repo && find EnvironmentSimulator externals \\( -name '*.cpp' -o -name '*.c' -o -name '*.h' -o -name '*.hpp' \\) | cpio -pdm --quiet {scratch}", shell=True)
os.environ["VF_REPO"] = scratch
os.environ["VF_BUILD"] = "/tmp/mut_build"
sys.path.insert(0, "/verif")
import vf
from targets import TARGETS
OPS = [(r" < ", " > "), (r" > ", " < "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" && ", " || "), (r" \|\| ", " && "), (r" == ", " != "), (r" != ", " == "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bMAX\(", "MIN("), (r"\bMIN\(", "MAX("), (r"\bfabs\(", "("), (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r" \+= ", " -= "), (r" -= ", " += "), (r"\b0\.0\b", "1.0"), (r"\b2\b", "3"), (r"(?<=[(, ])-(?=[a-z])", ""), (r"\b1\b", "2"), (r" / ", " * ")]


def bodies(path, rx):
    s = open(path, errors="replace").read()
    out = []
    for m in re.finditer(r"^[^\s#/}].*?" + rx + r"\s*\(", s, re.M):
        i = s.find("{", m.end())
        semi = s.find(";", m.end())
        if i < 0 or (0 <= semi < i and ":" not in s[m.end():i]):
            continue
        d, j = 0, i
        while j < len(s):
            if s[j] == "{": d += 1
            if s[j] == "}":
                d -= 1
                if d == 0: break
            j += 1
        out.append((i, j))
    return s, out


cands = []
for f, fs in TARGETS[pid]:
    p = os.path.join(scratch, "EnvironmentSimulator/Modules", f)
    for rx in fs:
        s, bs = bodies(p, rx)
        if not bs: print("no body", f, rx)
        for i, j in bs:
            pos = i
            for line in s[i:j].split("\n"):
                st = line.strip()
                if st and not st.startswith("//") and "LOG" not in st and not st.startswith(("case", "default")):
                    code = line.split("//")[0]
                    for a, b in OPS:
                        for m in re.finditer(a, code):
                            if "for (" in code and a in (r" < ", r" > ", r" \+ ", r"\b1\b", r" != "): continue
                            cands.append((p, pos + m.start(), pos + m.end(), b, rx))
                    if re.match(r"^\s*[\w\.\->\[\]\*]+ [\+\-\*]?= [^;]*;$", code) or re.match(r"^\s*[\w\.\->]+\([^;]*\);$", code):
                        cands.append((p, pos, pos + len(line), ";", rx))
                pos += len(line) + 1
random.seed(seed)
random.shuffle(cands)
print(f"{pid}: {len(cands)} candidates", flush=True)
base, srcs, _ = vf.build(pid)
so = vf.build_pass()
allcases = [c for c in subprocess.check_output([base, "--list"], text=True).split() if not c.startswith("t_")]
ref = {}


def mutant_obj(c, k):
    p, i, j, b, rx = c
    s = open(p, errors="replace").read()
    t = f"{scratch}/m{k}_{os.path.basename(p)}"
    # compile from a copy next to the original so that relative includes work
    d = os.path.dirname(p)
    t = f"{d}/m{k}_{os.path.basename(p)}"
    open(t, "w").write(s[:i] + b + s[j:])
    ln = s.count("\n", 0, i) + 1
    old = s.split("\n")[ln - 1].strip()
    new = (s[:i] + b + s[j:]).split("\n")[ln - 1].strip()
    try:
        o, _ = vf.compile_one(t, so)
    except vf.BuildError:
        o = None
    os.unlink(t)
    return o, f"{os.path.basename(p)}:{ln} [{rx}] {old}  ==>  {new}"


def link(o, c, k):
    objs = []
    for s in srcs:
        objs.append(o if s == c[0] else vf.compile_one(s, so)[0])
    objs.append(vf.compile_one(vf.HERE + "/engine/version_stub.cpp", so)[0])
    for h in vf.P.PROPS[pid]["harness"]:
        objs.append(vf.compile_one(f"{vf.HERE}/harness/{h}", so, tuple(vf.HFLAGS))[0])
    objs.append(vf.build_runtime())
    exe = f"/tmp/mut_build/mut_{pid}_{k}"
    ld = ["-fuse-ld=lld"] if os.path.exists("/usr/bin/ld.lld") else []
    r = subprocess.run([vf.CXX, *ld, "-no-pie", "-o", exe, *objs, f"-L{vf.Z3}/lib", "-lz3", f"-Wl,-rpath,{vf.Z3}/lib", "-lfmt", "-lpthread", "-ldl"], capture_output=True)
    return exe if r.returncode == 0 else None


def execute(exe):
    work = tempfile.mkdtemp(prefix="mut_")
    procs, q, res, par = {}, list(allcases), None, 4
    t0 = time.time()
    try:
        while (q or procs) and not res:
            while q and len(procs) < par:
                c = q.pop(0)
                cw = f"{work}/{c}"; os.makedirs(cw)
                o = vf.P.PROPS[pid].get("opts", {})
                procs[c] = (subprocess.Popen([exe, c, f"{work}/{c}.jsonl", "budget=90", "jobs=3", f"maxpaths={o.get('maxpaths', 20000)}", "tbranch=2000", "tassert=20000", "thorough=0"], cwd=cw, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True), time.time())
            time.sleep(0.2)
            for c in list(procs):
                p, ts = procs[c]
                txt = open(f"{work}/{c}.jsonl", errors="replace").read() if os.path.exists(f"{work}/{c}.jsonl") else ""
                base_v = ref.get(c, set())
                for l in txt.split("\n"):
                    if '"violation"' in l:
                        try: r = json.loads(l)
                        except ValueError: continue
                        if r["kind"] == "violation" and r["label"] not in base_v:
                            res = f"{c}/{r['label']}"
                            if exe is base: ref.setdefault(c, set()).add(r["label"]); res = None
                if p.poll() is not None:
                    if exe is not base and '"summary"' not in txt: res = res or f"{c}/no summary"
                    if '"complete"' not in txt:
                        if exe is base: ref.setdefault(c, set()).add("nothing completes")
                        elif not res and "nothing completes" not in ref.get(c, set()): res = f"{c}/nothing completes"
                    del procs[c]
                elif time.time() - ts > 150:
                    res = res or (f"{c}/hang" if exe is not base else None)
                    os.killpg(p.pid, 9); del procs[c]
            if time.time() - t0 > 400: res = res or "slow"
    finally:
        for c, (p, _) in procs.items():
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
        shutil.rmtree(work, ignore_errors=True)
    return res


execute(base)
print("base violations:", {k: sorted(v) for k, v in ref.items()}, flush=True)
killed = tot = 0
ahead = cf.ThreadPoolExecutor(4)
futs = [(c, k, ahead.submit(mutant_obj, c, k)) for k, c in enumerate(cands[:n])]
for c, k, f in futs:
    o, desc = f.result()
    if not o:
        continue
    exe = link(o, c, k)
    if not exe: continue
    r = execute(exe)
    os.unlink(exe); os.unlink(o)
    tot += 1
    killed += bool(r)
    print(("killed  " if r else "SURVIVED"), desc, "|", r or "", flush=True)
print(f"{pid}: killed {killed}/{tot}")
shutil.rmtree(scratch, ignore_errors=True)
