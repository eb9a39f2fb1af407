#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property of /repo with the symbolic executor symx
   check.py --setup                           build the executor
   check.py --replay FILE                     run a recorded counterexample against the real code
   check.py --table PROPERTY                  as a check, printing one line per job (development)"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
SYMX = os.path.join(VERIF, "build", "symx"); HARN = os.path.join(VERIF, "harness")
CLANG = ["/usr/bin/clang++", "-std=c++17", "-O2", "-DNDEBUG", "-DSX_BC", "-march=x86-64-v3", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
         "-fsized-deallocation", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-Wno-everything", "-emit-llvm", "-c"]
GXX = ["g++", "-std=c++17", "-O1", "-DNDEBUG", "-march=x86-64-v3", "-g1", "-fsanitize=address", "-fsized-deallocation", "-fno-lifetime-dse", "-w"]
ASAN = "malloc_fill_byte=205:max_malloc_fill_size=1000000:detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1"
procs, plock = set(), threading.Lock(); stopping = threading.Event()

def run(cmd, timeout, env=None):
    with plock:
        if stopping.is_set(): return None, "", ""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True); procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate(); rc = "timeout"
    with plock: procs.discard(p)
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace")

def stop_all():
    with plock:
        stopping.set()
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass

def setup():
    r = subprocess.run(["make", "-s", "-C", os.path.join(VERIF, "symx")])
    return r.returncode

class Build:
    """compiles each harness variant from /repo's current source: bitcode for the executor, an ASan binary for replay"""
    def __init__(self, tmp, pool): self.tmp, self.pool, self.f, self.lock = tmp, pool, {}, threading.Lock()
    def key(self, job): return (job["src"], tuple(job["defs"]))
    def base(self, job): return os.path.join(self.tmp, hashlib.sha1(repr(self.key(job)).encode()).hexdigest()[:16])
    def start(self, job):
        for kind in ("bc", "nat"):
            k = (kind,) + self.key(job)
            if k not in self.f: self.f[k] = self.pool.submit(self.compile, kind, job)
    def compile(self, kind, job):
        inc = ["-I" + os.path.join(REPO, "src"), "-I" + HARN]; src = os.path.join(HARN, job["src"])
        if kind == "bc":
            out = self.base(job) + ".bc"; cmd = CLANG + inc + job["defs"] + [src, "-o", out]
        elif kind == "plain": # for valgrind
            out = self.base(job) + ".plain." + "x"; cmd = [c for c in GXX if "sanitize" not in c] + inc + job["defs"] + ["-DSX_MULTI", src, os.path.join(HARN, "native.cpp"), "-o", out, "-ldl", "-rdynamic"]
        else:
            out = self.base(job) + ".nat." + "x"; cmd = GXX + inc + job["defs"] + ["-DSX_MULTI", src, os.path.join(HARN, "native.cpp"), "-o", out, "-ldl", "-rdynamic"]
        rc, o, e = run(cmd, 300)
        return (out, None) if rc == 0 else (None, "%s of %s %s failed: %s" % (kind, job["src"], " ".join(job["defs"]), e.strip()[:1500]))
    def late(self, kind, job):
        k = (kind,) + self.key(job)
        with self.lock:
            if k not in self.f: self.f[k] = self.pool.submit(self.compile, kind, job)
        return self.f[k].result()
    def get(self, kind, job): return self.f[(kind,) + self.key(job)].result()

def replay_uninit(b, job, inputs, tmp):
    """what the executor calls a decision on memory that was never written, under valgrind"""
    bin_, err = b.late("plain", job)
    if not bin_: return False, err
    fd, vf = tempfile.mkstemp(dir=tmp); os.write(fd, "\n".join(str(i["value"]) for i in inputs).encode()); os.close(fd)
    rc, o, e = run(["valgrind", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes", bin_, job["entry"], vf] + [str(p) for p in job["params"]], 120, dict(os.environ, **job.get("env", {}))); os.unlink(vf)
    m = re.search(r"(Conditional jump or move depends on uninitialised|Use of uninitialised)[^\n]*(\n==\d+==\s+(at|by) [^\n]*){0,3}", e)
    return (True, "valgrind: " + re.sub(r"\s*==\d+==\s*", " ", m.group(0))) if rc == 99 and m else (False, "completed without a report by valgrind")

def replay(binary, job, inputs, tmp, limit=20):
    """runs the real code on concrete inputs; returns (failed, what)"""
    fd, vf = tempfile.mkstemp(dir=tmp); os.write(fd, "\n".join(str(i["value"]) for i in inputs).encode()); os.close(fd)
    env = dict(os.environ, ASAN_OPTIONS=ASAN, **job.get("env", {}))
    rc, o, e = run([binary, job["entry"], vf] + [str(p) for p in job["params"]], limit, env); os.unlink(vf)
    if rc == 0 or rc is None: return False, "completed without a failure"
    if rc == 77: return False, "assumption not met"
    if rc == 79: return False, "no such entry"
    if rc == 78: return False, "replay ran out of values"
    if rc == "timeout": return True, "does not terminate within %d s" % limit
    m = re.search(r"CHECK FAILED: .*", e) or re.search(r"ERROR: AddressSanitizer: [^\n]*", e) or re.search(r"terminate called[^\n]*|Assertion `[^\n]*", e)
    return True, (m.group(0) if m else "exit status %s" % rc)[:300]

def execute(job, b, tmp, tend):
    r = dict(job=job, status="", viol=[], note="")
    bc, err = b.get("bc", job)
    if not bc: r.update(status="compile", note=err or "stopped"); return r
    left = tend - time.time()
    if left < 3: r.update(status="skipped", note="time budget used up"); return r
    out = os.path.join(tmp, "out-%s.json" % hashlib.sha1(job["name"].encode()).hexdigest()[:12]); tl = min(job["t"], left)
    cmd = [SYMX, bc, "--entry", job["entry"], "--out", out, "--time", "%.0f" % tl, "--maxviol", "1", "--witness", "4", "--mem", str(job.get("mem", 3300)),
           "--pathlimit", str(job.get("pathlimit", 20000000)), "--fill", "205", "--hop", "32", "--seed", os.environ.get("VERIF_SEED", "1") or "1"]
    if job.get("uninit"): cmd.append("--uninit")
    for p in job["params"]: cmd += ["--param", str(p)]
    t0 = time.time(); rc, o, e = run(cmd, tl + 60)
    r["wall"] = time.time() - t0
    if rc is None: r.update(status="stopped"); return r
    try: d = json.load(open(out)); os.unlink(out)
    except Exception: r.update(status="engine", note="executor ended with %s: %s" % (rc, e[-300:])); return r
    r["d"] = d
    for v in d["violations"]:
        nat, err = b.get("nat", job)
        if not nat: r["note"] = err; continue
        bad, what = replay(nat, job, v["inputs"], tmp)
        if not bad and "uninitialised" in v["msg"]: bad, what = replay_uninit(b, job, v["inputs"], tmp)
        r["viol"].append(dict(v, reproduced=bad, replay=what))
    r["status"] = "violation" if any(v["reproduced"] for v in r["viol"]) else "unreproduced" if r["viol"] else "ok" if d["complete"] and not d["errors"] else "partial"
    r["wit_ok"] = r["wit_no"] = 0
    if r["status"] in ("ok", "partial", "unreproduced"):
        nat, err = b.get("nat", job)
        for w in (d["witnesses"] if nat else []):
            bad, what = replay(nat, job, w, tmp)
            if bad: # the encoded path passes, the real code fails on it
                r["viol"].append(dict(msg=what, loc="native replay of an explored path", inputs=w, reproduced=True, replay=what)); r["status"] = "violation"; break
            if what.startswith("completed"): r["wit_ok"] += 1
            else: r["wit_no"] += 1
    if r["status"] == "ok" and job.get("must") and not d.get("unknown") and not d["reach"].get("end"): # the solver's answer for all values is that none gets there
        r["viol"].append(dict(msg=job["must"], loc="all %d paths decided, none gets there" % d["paths"], inputs=[], reproduced=True, replay="no input to run: for every value of the symbolic inputs the outcome is another one (solver's verdict)")); r["status"] = "violation"
    return r

def known():
    """known_findings.txt: 'finding: property=<id> job=<job> msg=<text> | <what fails>' and 'fixed: ...' lines"""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) job=(\S+) msg=(.*?) \| (.*)", l.strip())
        if m: out.append(dict(zip(("property", "job", "msg", "what"), m.groups())))
    return out

def main():
    a = sys.argv[1:]
    if a == ["--setup"]: sys.exit(setup())
    import jobs
    if a and a[0] == "--replay":
        rec = json.load(open(a[1])); job = rec["job"]; tmp = tempfile.mkdtemp(prefix="verif-"); pool = cf.ThreadPoolExecutor(2); b = Build(tmp, pool); b.start(job)
        nat, err = b.get("nat", job)
        if nat: bad, what = replay(nat, job, rec["inputs"], tmp)
        if nat and not bad and "uninitialised" in rec["msg"]: bad, what = replay_uninit(b, job, rec["inputs"], tmp)
        if nat: print(what)
        else: print(err); bad = False
        shutil.rmtree(tmp, ignore_errors=True); sys.exit(1 if bad else 0)
    table = False; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False
    if a[0] == "--table": table = True; a = a[1:]
    prop = a[0]
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = a[i + 1]
        if x == "--keep": keep = True
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not os.path.exists(SYMX) and setup(): print("the executor does not build"); sys.exit(3)
    js = [j for j in jobs.PROPS[prop]["jobs"](tier) if not only or re.search(only, j["name"])]
    assert len(set(j["name"] for j in js)) == len(js), "job names"
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "780")); tend = t0 + budget
    tmp = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_TMP", "/tmp")); known_l = [k for k in known() if k["property"] == prop]
    rc = 0
    try:
        pool = cf.ThreadPoolExecutor(8); cpool = cf.ThreadPoolExecutor(8); b = Build(tmp, cpool)
        js.sort(key=lambda j: -j["t"])
        for j in js: b.start(j)
        fs = {pool.submit(execute, j, b, tmp, tend): j for j in js}; res = []; hit = None; khits = []
        for f in cf.as_completed(fs):
            r = f.result(); res.append(r); j = r["job"]
            if table:
                d = r.get("d", {}); print("%-34s %-11s %6.1fs cpu paths %-7s q %-7s (%s/%s) solver %6.1fs wit %s/%s %s %s" % (j["name"], "undecided" if r["status"] == "ok" and d.get("unknown") else r["status"], r.get("wall", 0), d.get("paths"), d.get("queries"), d.get("unsat"), d.get("unknown"), d.get("solver_s", 0), r.get("wit_ok"), r.get("wit_no"), r["note"][:600], "; ".join(v["msg"] + " [" + v["replay"] + "] " + v["loc"][:200] for v in r["viol"])), flush=True)
                if d.get("errors"): print("    ERRORS", d["errors"][:3])
            if r["status"] == "violation":
                v = [x for x in r["viol"] if x["reproduced"]][0]
                k = [x for x in known_l if x["job"] == j["name"] and (x["msg"] in v["msg"] or x["msg"] in v["replay"])]
                if k: khits.append((k[0], v))
                elif hit is None:
                    hit = (r, v)
                    if not table: stop_all()
        pool.shutdown(); cpool.shutdown()
        # evidence
        ok = [r for r in res if "d" in r]; S = lambda k: sum(r["d"][k] for r in ok)
        fns = sorted(set(f for r in ok for f in r["d"]["functions"])); files = sorted(set(f.split(":")[0] for f in fns))
        samples = []
        for r in ok:
            if r["d"]["witnesses"] and len(samples) < 6: samples.append(dict(job=r["job"]["name"], inputs=[[i["name"], i["value"]] for i in r["d"]["witnesses"][-1]][:40]))
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=1 if hit else 0,
            assumptions=jobs.ASSUME + jobs.PROPS[prop].get("assume", []),
            coverage=dict(
                explanation="Bounded symbolic execution of the real code's LLVM bitcode (compiled from /repo in this run); every branch and assertion over the symbolic inputs is decided by z3. " + jobs.PROPS[prop]["bounds"],
                states=S("paths"), transitions=S("forks"), traces_validated_against_impl=sum(r.get("wit_ok", 0) for r in res) + sum(1 for r in res for v in r["viol"] if v["reproduced"]),
                samples=samples, exhaustive=bool(res) and all(r["status"] in ("ok", "violation") for r in res),
                paths=S("paths"), pruned=S("pruned"), instructions=S("instructions"), assertions=S("assertions"), symbolic_assertions=S("symbolic_assertions"),
                queries=S("queries"), queries_unsat=S("unsat"), queries_sat=S("sat"), queries_unknown=S("unknown"), solver_s=round(S("solver_s"), 2), max_query_s=max([r["d"]["max_query_s"] for r in ok] or [0]),
                functions_encoded=len(fns), functions=[f for f in fns][:400], files_encoded=files, lines_encoded={f: len(set(l for r in ok for l in r["d"]["lines"].get(f, []))) for f in sorted(set(f for r in ok for f in r["d"]["lines"]))},
                jobs=[dict(name=r["job"]["name"], bounds=r["job"]["desc"], status=r["status"], paths=r.get("d", {}).get("paths"), queries=r.get("d", {}).get("queries"), solver_s=r.get("d", {}).get("solver_s"), wall_s=round(r.get("wall", 0), 1),
                           witnesses_replayed=r.get("wit_ok", 0), pending=r.get("d", {}).get("pending"), errors=r.get("d", {}).get("errors", [])[:3], unknowns=r.get("d", {}).get("unknowns", [])[:3], note=r["note"][:500],
                           unreproduced=[v["msg"] for v in r["viol"] if not v["reproduced"]]) for r in sorted(res, key=lambda r: r["job"]["name"])],
                known_findings=[k["what"] for k, v in khits]))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in known_l:
            h = [v for kk, v in khits if kk is k]
            if h: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if hit:
            r, v = hit; os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
            path = os.path.join(VERIF, "build", "replay", "%s-%s.json" % (prop, hashlib.sha1(r["job"]["name"].encode()).hexdigest()[:8]))
            json.dump(dict(property=prop, job=r["job"], msg=v["msg"], loc=v["loc"], replay=v["replay"], inputs=v["inputs"], how="python3 check.py --replay " + path), open(path, "w"), indent=1)
            print("job %s (%s)\n  %s\n  at %s\n  replayed on the real code: %s" % (r["job"]["name"], r["job"]["desc"], v["msg"], v["loc"][:400], v["replay"]))
            print("  inputs: " + ", ".join("%s=%s" % (i["name"], i["value"]) for i in v["inputs"])[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path)); rc = 1
        else:
            bad = [r for r in res if r["status"] in ("compile", "engine") or ("d" in r and not r["job"].get("noreach") and not r["job"].get("must") and not r["viol"] and not r["d"]["reach"].get("end"))]
            for r in bad: print("job %s decided nothing: %s %s" % (r["job"]["name"], r["status"], r["note"]))
            part = [r["job"]["name"] for r in res if r["status"] in ("partial", "skipped", "unreproduced")]
            if part: print("not fully explored within the budget (see the evidence): " + ", ".join(part))
            print("%s: held on %d paths of %d jobs; %d queries, %.1f s of solver time, %.0f s" % (prop, S("paths"), len(ok), S("queries"), S("solver_s"), time.time() - t0))
            if bad and len(bad) == len(res) or not res or any(r["status"] == "compile" for r in bad): rc = 2
    finally:
        stop_all()
        if not keep: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
if __name__ == "__main__": main()
