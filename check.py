#!/usr/bin/env python3
"""Driver: check.py <property> [--thorough] [--replay FILE]

Rebuilds /repo's current working tree and the property's harness, enumerates
the harness's spaces on all cores, replays any violation alone, and writes
evidence/<property>.json. Exit 0: held on everything explored. Exit 1 with a
VIOLATION line: broken. Exit 2: the check itself could not run.
"""
import concurrent.futures, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
NPROC = max(1, os.cpu_count() or 1)

CONFIGS = {
    # asserts stay on, as in the project's default build
    "plain": dict(cc="gcc", cxx="g++", flags=["-O2", "-g"], lib=[], harness=[], link=[], run=[]),
    "asan":  dict(cc="gcc", cxx="g++", flags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], lib=["-ftrivial-auto-var-init=pattern"], harness=[], link=[], run=["--asan"]),
    # scheduling points: a call at every basic block, load and store of the library (not of the harness)
    "sched": dict(cc="clang", cxx="clang++", flags=["-O1", "-g"], lib=["-fsanitize-coverage=trace-pc,trace-loads,trace-stores", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin"], harness=["-DVF_SCHED"],
                  link=["-pthread"] + ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "memcmp", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")], run=[]),
    # allocation faults: the C allocator calls of the library are wrapped at link time
    "alloc": dict(cc="gcc", cxx="g++", flags=["-O1", "-g"], lib=["-fno-builtin"], harness=["-DVF_ALLOC"],
                  link=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"], run=[]),
    "allocasan": dict(cc="gcc", cxx="g++", flags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], lib=["-fno-builtin", "-ftrivial-auto-var-init=pattern"], harness=["-DVF_ALLOC"],
                  link=["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"], run=["--asan"]),
}

# property -> list of (source, config)
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

class Broken(Exception):
    pass
class Slow(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def sources():
    out = []
    for pat in ("opm/**/*.cpp", "opm/**/*.c", "opm/**/*.cc"):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    return sorted(set(out))

def tree_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, "opm/**/*"), recursive=True))
    files += sorted(glob.glob(os.path.join(VERIF, "src/*")))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]

def build(jobs):
    """jobs: list of (source, config) -> dict to binary path"""
    tag = tree_hash(CONFIGS)
    root = os.path.join(BUILD, tag)
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d != tag and re.fullmatch(r"[0-9a-f]{16}", d):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    cmds, links, bins = [], [], {}
    for cfg in sorted(set(c for _, c in jobs)):
        C = CONFIGS[cfg]
        od = os.path.join(root, cfg)
        os.makedirs(od, exist_ok=True)
        objs = []
        for s in sources():
            o = os.path.join(od, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            comp, std = (C["cc"], "-std=c99") if s.endswith(".c") else (C["cxx"], "-std=c++17")
            if not os.path.exists(o):
                cmds.append([comp, std, *C["flags"], *C["lib"], "-w", "-I", REPO, "-c", s, "-o", o + ".tmp"])
        for src, c in jobs:
            if c != cfg:
                continue
            o = os.path.join(od, "h_" + src + ".o")
            b = os.path.join(od, src)
            bins[(src, cfg)] = b
            if not os.path.exists(o):
                cmds.append([C["cxx"], "-std=c++17", *C["flags"], *C["harness"], "-Wall", "-I", REPO, "-I", os.path.join(VERIF, "src"),
                             "-c", os.path.join(VERIF, "src", src + ".cpp"), "-o", o + ".tmp"])
            if not os.path.exists(b):
                links.append([C["cxx"], *C["flags"], *objs, o, *C["link"], "-o", b + ".tmp"])  # the library's template instances win
    cmds.sort(key=lambda c: 0 if "/src/" in c[-3] else 1)
    def one(c):
        sh(c)
        os.replace(c[-1], c[-1][:-4])
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, cmds))
        list(ex.map(one, links))
    return bins

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=190:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C", MALLOC_PERTURB_="165")

STALL = 40.0     # seconds without progress inside one case before it is called a suspected hang
REPLAY = 120.0   # limit for the suspected case alone

class Worker:
    def __init__(self, binary, run, thorough, shard, nshard, tmp, deadline, upto=None):
        self.cmd = [binary, *run] + (["--thorough"] if thorough else [])
        self.shm = os.path.join(tmp, "shm%d" % shard)
        self.out = os.path.join(tmp, "out%d.json" % shard)
        self.err = os.path.join(tmp, "err%d.txt" % shard)
        self.shard, self.nshard = shard, nshard
        with open(self.shm, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(self.shm, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        full = self.cmd + ["--shard", str(shard), str(nshard), "--shm", self.shm, "--out", self.out, "--deadline", str(deadline)]
        if upto:
            full += ["--upto", str(upto[0]), str(upto[1])]
        self.p = subprocess.Popen(full, stdout=open(self.err, "wb"), stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        self.seq, self.t = -1, time.monotonic()
    def pos(self):
        return struct.unpack("<4Q", self.m[:32])  # seq, space, idx, done
    def stalled(self):
        seq = self.pos()[0]
        if seq != self.seq:
            self.seq, self.t = seq, time.monotonic()
            return False
        return time.monotonic() - self.t > STALL
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
    def close(self):
        self.m.close(); self.f.close()

class Setup(Exception):
    pass

def space_names(binary, run, thorough):
    cmd = [binary, *run] + (["--thorough"] if thorough else []) + ["--list"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    o = r.stdout.decode("utf8", "replace")
    if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
        # the reference executions, run before the enumeration, crashed
        raise Setup("exit status %d\n%s" % (r.returncode, o[-3000:]))
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), o[-6000:]))
    return [l.split("\t") for l in o.splitlines() if "\t" in l]

def replay_case(binary, run, thorough, space, idx):
    """returns (reproduced, text)"""
    cmd = [binary, *run] + (["--thorough"] if thorough else []) + ["--case", space, str(idx)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=REPLAY)
        txt = r.stdout.decode("utf8", "replace")
        if r.returncode == 0:
            return False, txt
        if r.returncode == 2:
            raise Broken("replay of %s[%d] could not run: %s" % (space, idx, txt))
        return True, txt + ("" if r.returncode == 3 else "\nCRASHED: exit status %d" % r.returncode)
    except subprocess.TimeoutExpired:
        return True, "HANG: no result within %g s" % REPLAY

def explore(src, cfg, binary, thorough, tmp, deadline):
    run = CONFIGS[cfg]["run"]
    try:
        names = space_names(binary, run, thorough)
    except Setup as e:
        viol = dict(source=src, config=cfg, thorough=thorough, space="reference", space_index=0, idx=0, kind="crash", mode="setup",
                    shard=0, nshard=NPROC, observed="crash in the reference executions: %s" % e, replay="")
        agg = dict(config=cfg, source=src, spaces=[], capped=False, outcomes=0, samples=[], states=0, transitions=0, traces=0, nontrivial=0, skipped=0, exhaustive=False)
        return agg, viol
    ws = [Worker(binary, run, thorough, i, NPROC, tmp, deadline) for i in range(NPROC)]
    suspects = []   # (space_index, idx, kind, worker)
    live = list(ws)
    while live and not suspects:
        time.sleep(0.02)
        for w in list(live):
            rc = w.p.poll()
            if rc is not None:
                live.remove(w)
                if rc == 3:
                    f = json.load(open(w.out))["failure"]
                    suspects.append((f["space_index"], f["idx"], "fail", f["msg"] + "\n" + f["desc"], w.shard))
                elif rc != 0:
                    _, s, i, done = w.pos()
                    if w.pos()[0] == 0 or rc == 2:
                        raise Broken("harness failed: %s" % open(w.err, errors="replace").read()[-3000:])
                    suspects.append((s, i, "crash", "exit status %d\n%s" % (rc, open(w.err, errors="replace").read()[-6000:]), w.shard))
            elif w.stalled():
                _, s, i, _ = w.pos()
                w.kill(); live.remove(w)
                suspects.append((s, i, "hang", "no progress for %g s" % STALL, w.shard))
    for w in live:   # a violation stops the run
        w.kill()
    viol = None
    if suspects:
        suspects.sort()
        s, i, kind, text, shard = suspects[0]
        name = names[s][0]
        ok, t = replay_case(binary, run, thorough, name, i)
        mode = "case"
        if not ok:
            # Perhaps it depends on what ran before it in the same process: repeat the shard up to the case.
            w = Worker(binary, run, thorough, shard, NPROC, tmp, deadline + 600, upto=(s, i))
            try:
                rc = w.p.wait(timeout=900)
            except subprocess.TimeoutExpired:
                w.kill(); rc = -9
            mode, t = "shard", text
            if rc == 0:
                # A failure seen on the real code counts even if it depends on addresses or timing; a slow or
                # killed worker does not.
                if kind == "hang":
                    raise Slow("%s[%d]: %s" % (name, i, text))
                if kind == "crash" and text.startswith("exit status -9"):
                    raise Broken("worker killed at %s[%d]" % (name, i))
                mode = "observed"
        viol = dict(source=src, config=cfg, thorough=thorough, space=name, space_index=s, idx=i, kind=kind, mode=mode,
                    shard=shard, nshard=NPROC, observed=text, replay=t)
    res = []
    for w in ws:
        try:
            res.append(json.load(open(w.out)))
        except Exception:
            pass
    bm = 0
    for w in ws:
        try:
            bm |= int.from_bytes(open(w.out + ".bm", "rb").read(), "little")
        except FileNotFoundError:
            pass
        w.close()
    spaces = {}
    for r in res:
        for s in r["spaces"]:
            d = spaces.setdefault(s["name"], dict(name=s["name"], bound=s["bound"], size=s["size"], cases=0, skipped=0, cpu_s=0.0))
            d["cases"] += s["cases"]; d["skipped"] += s["skipped"]; d["cpu_s"] = round(d["cpu_s"] + s["seconds"], 2)
    agg = dict(config=cfg, source=src, spaces=list(spaces.values()), capped=any(r["capped"] for r in res),
               outcomes=bin(bm).count("1"), samples=sum((r["samples"] for r in res), []))
    for k in ("states", "transitions", "traces", "nontrivial", "skipped"):
        agg[k] = sum(r[k] for r in res)
    agg["exhaustive"] = viol is None and not agg["capped"] and all(s["cases"] == s["size"] for s in agg["spaces"])
    return agg, viol

def main():
    if "--setup" in sys.argv:
        # Nothing to prepare: every check builds what it needs. Fail early if a tool is missing.
        for tool in ("gcc", "g++", "clang", "clang++"):
            sh([tool, "--version"])
        print("ready")
        return 0
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    C = CHECKS[pid]
    jobs = [tuple(j) for j in C["jobs"]]
    if "--only" in sys.argv:
        jobs = [j for j in jobs if j[1] == sys.argv[sys.argv.index("--only") + 1]]
        args = [a for a in args if a not in CONFIGS]
    t0 = time.monotonic()
    bins = build(jobs)
    tb = time.monotonic() - t0
    if "--replay" in sys.argv:
        v = json.load(open(args[1]))
        b, run = bins[(v["source"], v["config"])], CONFIGS[v["config"]]["run"]
        if v["mode"] == "case":
            ok, t = replay_case(b, run, v["thorough"], v["space"], v["idx"])
        elif v["mode"] == "setup":
            try:
                ok, t = False, str(space_names(b, run, v["thorough"]))
            except Setup as e:
                ok, t = True, str(e)
        else:
            tmp = os.path.join(BUILD, "tmp%d" % os.getpid()); os.makedirs(tmp)
            w = Worker(b, run, v["thorough"], v["shard"], v["nshard"], tmp, 3600, upto=(v["space_index"], v["idx"]))
            rc = w.p.wait(); ok, t = rc != 0, "shard exit status %d" % rc
            shutil.rmtree(tmp)
        print(t)
        print("REPRODUCED" if ok else "HELD")
        return 1 if ok else 0
    tmp = os.path.join(BUILD, "tmp-%s-%d" % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    parts, viol = [], None
    budget = 3600.0 * 4 if thorough else 700.0
    try:
        for src, cfg in jobs:
            sub = os.path.join(tmp, src + "-" + cfg)
            os.makedirs(sub)
            left = max(5.0, budget - (time.monotonic() - t0))
            try:
                agg, viol = explore(src, cfg, bins[(src, cfg)], thorough, sub, left)
            except Slow as e:
                # The machine was busy: once more, with more patience.
                print("note: repeating %s/%s after a slow case (%s)" % (src, cfg, e))
                global STALL
                STALL *= 4
                sub += "-again"
                os.makedirs(sub)
                try:
                    agg, viol = explore(src, cfg, bins[(src, cfg)], thorough, sub, max(5.0, budget - (time.monotonic() - t0)))
                except Slow as e2:
                    raise Broken("too slow: %s" % e2)
            parts.append(agg)
            if viol:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=C["level"])
    cov = dict(states=sum(a["states"] for a in parts), transitions=sum(a["transitions"] for a in parts),
               traces_validated_against_impl=sum(a["traces"] for a in parts),
               evaluations=sum(s["cases"] for a in parts for s in a["spaces"]),
               distinct_nontrivial=sum(a["nontrivial"] for a in parts), rule=C["rule"],
               distinct_outcomes_at_least=max([a["outcomes"] for a in parts] or [0]),
               excluded_by_precondition=sum(a["skipped"] for a in parts),
               exhaustive=all(a["exhaustive"] for a in parts) and viol is None,
               spaces=[dict(build=a["config"], **s) for a in parts for s in a["spaces"]],
               samples=sum((a["samples"] for a in parts), [])[:40])
    ev["coverage"] = cov
    ev["assumptions"] = C.get("assumptions", [])
    ev["wall_s"] = round(time.monotonic() - t0, 2)
    ev["build_s"] = round(tb, 2)
    ev["violations"] = 1 if viol else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for a in parts:
        for s in a["spaces"]:
            print("%s %-6s %-28s %12d/%d cases, %d excluded, %.1f cpu-s" % (pid, a["config"], s["name"], s["cases"], s["size"], s["skipped"], s["cpu_s"]))
    print("%s: states=%d transitions=%d traces=%d nontrivial=%d outcomes>=%d exhaustive=%s wall=%.1fs (build %.1fs)" % (
        pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_nontrivial"],
        cov["distinct_outcomes_at_least"], cov["exhaustive"], ev["wall_s"], tb))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (pid, viol["config"], viol["space"], viol["idx"]))
        viol["property"] = pid
        viol["how"] = "python3 check.py %s --replay %s" % (pid, path)
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print(viol["kind"] + ": " + viol["observed"][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
