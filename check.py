#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and searches for a violation
of one property.

  check.py PROPERTY            quick or thorough, as VERIF_TIER says
  check.py --build DIR [--race]  only build
  check.py --replay FILE       run a replay file; exit 1 if it fails again
  check.py --det PROPERTY N    print the digests of N runs
"""
import json, os, shutil, subprocess, sys, time, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
GO = "/usr/local/go/bin/go" if os.path.exists("/usr/local/go/bin/go") else "go"

RACE = {"C01", "C02", "C03", "C18"}
# of their workers, so many run without the race detector, many times faster
PLAIN = 3
PLAIN0 = 1000000000
# properties for which the parser runtime is instrumented, too
ANTLR = {"C02"}
LIB = "github.com/bserdar/gojsonpath"

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e

def die(msg):
    sys.stderr.write("check.py: " + msg + "\n")
    sys.exit(2)

def run(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die(what + " failed:\n" + p.stdout[-6000:])
    return p.stdout

def packages():
    """Directories of /repo that hold packages of the library."""
    r = []
    for d, subs, files in os.walk(REPO):
        subs[:] = sorted(s for s in subs if s not in ("testdata", "vendor") and s[0] not in "._")
        go = [f for f in files if f.endswith(".go") and not f.endswith("_test.go")]
        if not go:
            continue
        with open(os.path.join(d, sorted(go)[0])) as f:
            if any(l.strip() == "package main" for l in f):
                continue
        if d != REPO and os.path.exists(os.path.join(d, "go.mod")):
            continue
        r.append(d)
    return r

def build(out, race, with_antlr):
    os.makedirs(out, exist_ok=True)
    instr = os.path.join(out, "instr")
    run([GO, "build", "-o", instr, "./instr"], SIM, "building the instrumenter")
    modfile = open(os.path.join(REPO, "go.mod")).read()
    ver = None
    for l in modfile.splitlines():
        f = l.split()
        if "github.com/antlr4-go/antlr/v4" in f:
            ver = f[f.index("github.com/antlr4-go/antlr/v4") + 1]
    if ver is None:
        die("no antlr in go.mod")
    src = os.path.join(env()["GOMODCACHE"], "github.com/antlr4-go/antlr/v4@" + ver)
    antlr = os.path.join(out, "antlr")
    base = 100
    sites = []
    unsim = []
    def instrument(src, dst, yld, glob):
        nonlocal base
        run([instr, "-out", dst, "-base", str(base), "-yield", yld, "-globals", glob, src], SIM, "instrumenting " + src)
        m = json.load(open(os.path.join(dst, "meta.json")))
        os.remove(os.path.join(dst, "meta.json"))
        base = m["next"]
        for s in m["sites"]:
            s["pkg"] = glob
        sites.extend(m["sites"])
        unsim.extend(m["unsimulated"] or [])
        return m["replace"]
    overlay = {}
    for n, d in enumerate(packages()):
        rel = os.path.relpath(d, REPO)
        glob = "lib" if rel == "." else ("parser" if rel == "parser" else "lib." + rel.replace("/", "."))
        overlay.update(instrument(d, os.path.join(out, "ov%d" % n), "Y", glob))
    if with_antlr:
        instrument(src, antlr, "YA", "antlr")
        for f in ("go.mod", "go.sum"):
            if os.path.exists(os.path.join(src, f)):
                shutil.copyfile(os.path.join(src, f), os.path.join(antlr, f))
    json.dump({"Replace": overlay}, open(os.path.join(out, "overlay.json"), "w"))
    # the module file: what the library requires, with the library and its
    # parser runtime replaced
    req = []
    inreq = False
    for l in modfile.splitlines():
        t = l.split("//")[0].strip()
        if t.startswith("require ("):
            inreq = True
        elif inreq and t == ")":
            inreq = False
        elif inreq and t:
            req.append(t)
        elif t.startswith("require "):
            req.append(t[len("require "):])
    gover = [l for l in modfile.splitlines() if l.startswith("go ")]
    mod = "module verif.local/sim\n\n%s\n\nrequire (\n\t%s v0.0.0\n%s)\n\nreplace %s => %s\n" % (
        gover[0] if gover else "go 1.22.1", LIB, "".join("\t" + r + "\n" for r in req), LIB, REPO)
    if with_antlr:
        mod += "\nreplace github.com/antlr4-go/antlr/v4 => %s\n" % antlr
    gm = os.path.join(out, "gen.mod")
    open(gm, "w").write(mod)
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copyfile(os.path.join(REPO, "go.sum"), os.path.join(out, "gen.sum"))
    exe = os.path.join(out, "simcheck")
    cmd = [GO, "build", "-modfile=" + gm, "-overlay=" + os.path.join(out, "overlay.json")]
    if race:
        cmd += ["-race"]
        for p in ("simrt", "simsync", "simcheck", "simrand"):
            cmd += ["-gcflags=verif.local/sim/%s=-race=false -d=checkptr=0" % p]
        for p in (LIB + "/...", "github.com/antlr4-go/antlr/v4"):
            cmd += ["-gcflags=%s=-d=checkptr=0" % p]
    cmd += ["-o", exe, "./simcheck"]
    run(cmd, SIM, "building the simulator with the library in /repo")
    meta = {"sites": len(sites), "lib_sites": sorted(s["id"] for s in sites if s["pkg"] != "antlr"),
            "where": {s["id"]: s["pkg"] + "/" + s["pos"] for s in sites}, "unsimulated": unsim}
    json.dump(meta, open(os.path.join(out, "sites.json"), "w"))
    return exe, meta

def start(exe, args, log, race):
    e = env()
    e["GORACE"] = "log_path=%s suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=2" % log
    e["GOTRACEBACK"] = "all"
    return subprocess.Popen([exe] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)

def replay_once(exe, path, tmp, n):
    p = start(exe, ["-mode", "replay", "-file", path], os.path.join(tmp, "rr%d" % n), True)
    out, err = p.communicate(timeout=600)
    return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")

def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        exe, meta = build(os.path.abspath(a[1]), "--race" in a, "--antlr" in a)
        print(exe, meta["sites"], "yield points;", "not simulated:", [u for u in meta["unsimulated"]][:5])
        return
    if a and a[0] == "--setup":
        # fills the build cache, so that the checks build fast
        for race, antlr in ((False, False), (True, False), (True, True)):
            tmp = tempfile.mkdtemp(prefix="setup-", dir=scratch())
            try:
                build(tmp, race, antlr)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return
    if a and a[0] == "--replay":
        f = json.load(open(a[1]))
        tmp = tempfile.mkdtemp(prefix="replay-", dir=scratch())
        try:
            plain = f.get("plain")
            exe, _ = build(tmp, f["property"] in RACE and not plain, f["property"] in ANTLR and not plain)
            rc, out, err = replay_once(exe, os.path.abspath(a[1]), tmp, 0)
            sys.stdout.write(out)
            sys.stderr.write(err)
            sys.exit(1 if f["class"] == "crash" and died(err) else rc)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a and a[0] == "--det":
        tmp = tempfile.mkdtemp(prefix="det-", dir=scratch())
        try:
            exe, _ = build(tmp, a[1] in RACE, a[1] in ANTLR)
            sys.exit(subprocess.call([exe, "-prop", a[1], "-mode", "det", "-max", a[2], "-seed", os.environ.get("VERIF_SEED", "1")], env=env()))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    check(a[0])

def scratch():
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    return d

def check(prop):
    import simdesc
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    desc = simdesc.DESC[prop]
    secs = float(os.environ.get("SIM_SECONDS") or (desc["quick_s"] if tier == "quick" else desc["thorough_s"]))
    race = prop in RACE
    tmp = tempfile.mkdtemp(prefix=prop + "-", dir=scratch())
    procs = []
    try:
        exe, meta = build(tmp, race, prop in ANTLR)
        built = time.time() - t0
        n = max(1, min(8, os.cpu_count() or 1))
        if os.environ.get("SIM_WORKERS"):
            n = int(os.environ["SIM_WORKERS"])
        plain = PLAIN if race and n > PLAIN else 0
        exes = [exe] * n
        if plain:
            pexe, pmeta = build(os.path.join(tmp, "plain"), False, False)
            exes[n - plain:] = [pexe] * plain
        for w in range(n):
            # runs of workers without the race detector are numbered from PLAIN0
            if exes[w] == exe:
                share = ["-worker", str(w), "-workers", str(n - plain)]
            else:
                share = ["-worker", str(w - n + plain), "-workers", str(plain), "-from", str(PLAIN0)]
            procs.append(start(exes[w], ["-prop", prop, "-seed", str(seed)] + share +
                                     ["-seconds", str(secs), "-out", os.path.join(tmp, "r%d.json" % w)],
                               os.path.join(tmp, "race%d" % w), race))
        reports, errs, crashed = [None] * n, [], []
        limit = time.time() + secs + 300
        for w, p in enumerate(procs):
            try:
                _, err = p.communicate(timeout=max(5, limit - time.time()))
            except subprocess.TimeoutExpired:
                errs.append("worker %d did not end" % w)
                continue
            f = os.path.join(tmp, "r%d.json" % w)
            if p.returncode != 0 and not (race and p.returncode == 66) or not os.path.exists(f):
                if died(err.decode(errors="replace")) and os.path.exists(f + ".run"):
                    i = int(open(f + ".run").read())
                    first, step = (w, n - plain) if exes[w] == exe else (PLAIN0 + w - n + plain, plain)
                    crashed.append((i, err.decode(errors="replace"), exes[w], list(range(first, i, step))[-2000:]))
                errs.append("worker %d ended with %s:\n%s" % (w, p.returncode, err.decode(errors="replace")[-3000:]))
                continue
            reports[w] = json.load(open(f))
        got = [r for r in reports if r]
        for r in got:
            if r.get("found"):
                r["found"]["worker"] = r["worker"]
                if race and not r.get("race"):
                    r["found"]["plain"] = True
        bad = sorted([r["found"] for r in got if r.get("found")], key=lambda f: f["run"])
        lost = []
        for f in bad:
            path, how = confirm(pexe if f.get("plain") else exe, prop, f, tmp, race)
            if path is None:
                lost.append(how)
                continue
            v = f["violation"][0]
            print("property %s is violated: %s" % (prop, v["class"]))
            for v in f["violation"][:3]:
                print("  " + v["msg"].splitlines()[0][:600])
            print("  run %d of VERIF_SEED=%d, made smaller in %d runs; %s" % (f["run"], seed, f["shrink_runs"], how))
            evidence(ev, prop, tier, seed, got, meta, t0, built, n, secs, desc, len(bad))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.stdout.flush()
            sys.exit(1)
        for i, text, x, before in sorted(crashed, key=lambda c: c[0]):
            path = confirm_crash(x, prop, seed, i, tmp, x != exe, before)
            if path is None:
                continue
            print("property %s is violated: crash" % prop)
            print("  a run ended the process: " + died(text))
            print("  run %d of VERIF_SEED=%d; replayed twice in fresh processes" % (i, seed))
            evidence(ev, prop, tier, seed, got, meta, t0, built, n, secs, desc, 1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if errs:
            die("\n".join(errs))
        evidence(ev, prop, tier, seed, got, meta, t0, built, n, secs, desc, 0, lost)
        for l in lost:
            # A failure counts if its replay file reproduces it.
            print("UNCONFIRMED, did not fail again when replayed: " + l)
        runs = sum(r["runs"] for r in got)
        print("%s: %d simulated runs in %.1f s, no violation" % (prop, runs, time.time() - t0))
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)

def died(text):
    """What ended a process: a fatal error of the Go runtime (out of stack,
    say), or that it stood still in code that is not simulated."""
    for l in text.splitlines():
        if l.startswith("fatal error: ") or l.startswith("simcheck: nothing has moved"):
            return l
    return None

def confirm_crash(exe, prop, seed, i, tmp, plain, before):
    """Makes the run that ended a process once more in fresh processes, alone
    and after the runs before it."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-crash-%d-%d.json" % (prop, seed, i))
    for seq in ([], before):
        json.dump(dict({"property": prop, "class": "crash", "verif_seed": seed, "run": i},
                       **({"plain": True} if plain else {}), **({"sequence": seq} if seq else {})), open(path, "w"), indent=1)
        if all(rc == 1 or died(err) for rc, out, err in (replay_once(exe, path, tmp, k) for k in range(2))):
            return path
    os.remove(path)
    return None

def confirm(exe, prop, f, tmp, race):
    """Replays a violation in fresh processes; the path of the replay file if
    it is the same violation each time."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, f["plan"]["seed"]))
    seq = f.pop("sequence", None) or []
    tries = [("replayed twice in fresh processes", dict(f)),
             ("replayed twice in fresh processes, not made smaller", dict(f, plan=f.get("original"))),
             ("replayed in fresh processes after the %d runs before it" % len(seq), dict(f, plan=f.get("original"), sequence=seq[-3000:]))]
    out = ""
    for how, g in tries:
        if not g.get("plan"):
            continue
        open(path, "w").write(json.dumps(g, ensure_ascii=False))
        digs = set()
        ok = True
        for i in range(2):
            rc, out, err = replay_once(exe, path, tmp, i)
            digs.add(next((l for l in out.splitlines() if l.startswith("digest")), ""))
            if rc != 1:
                ok = False
                break
        if ok:
            return path, how + ("" if len(digs) == 1 else " (traces differ)")
    # not every time: something the simulator does not decide is involved
    for g in [t[1] for t in tries[:2] if t[1].get("plan")]:
        open(path, "w").write(json.dumps(g, ensure_ascii=False))
        n = sum(replay_once(exe, path, tmp, i)[0] == 1 for i in range(6))
        if n >= 2:
            return path, "failed again in %d of 6 replays in fresh processes" % n
    os.remove(path)
    return None, "run %d: %s %s\n%s" % (f["run"], f["class"], f["violation"][0]["msg"][:2000], (f.get("race") or "")[:3000] or out[-1500:])

def evidence(ev, prop, tier, seed, got, meta, t0, built, n, secs, desc, bad, lost=()):
    wall = time.time() - t0
    runs = sum(r["runs"] for r in got)
    distinct, scheds, sites = set(), set(), set()
    counts = {}
    for r in got:
        distinct.update(r.get("distinct") or [])
        scheds.update(r.get("schedules") or [])
        sites.update(r.get("sites") or [])
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
    lib = set(meta["lib_sites"])
    search = max(r["wall"] for r in got) if got else 1
    steps = sum(r["steps"] for r in got)
    faults = {k: counts.get(k, 0) for k in ("panics_injected", "goexits_injected", "stalls_injected", "pauses_injected",
              "nested_calls_injected", "document_changes_injected", "growth_injected", "overwrites_injected", "time_jumps_injected", "wrong_answers_injected", "broken_nodes", "heap_measured", "absent_answers") }
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": desc["rule"] + " Counted are the different digests (plan, schedule, every outcome) of such runs, at most 400000 a worker.",
            "samples": [s for r in got for s in (r.get("samples") or [])][:4],
            "simulated_runs_per_hour": int(runs / max(search, 0.001) * 3600),
            "seeds_per_hour": int(runs / max(search, 0.001) * 3600),
            "steps_simulated": steps,
            "simulated_time": "the library has no clock or timer; the logical clock is the %d steps" % steps,
            "context_switches": sum(r["switches"] for r in got),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": "hashes of (task, place, length) of every piece of the schedule, of runs with at least one switch",
            "faults_and_events_injected": faults,
            "counts": counts,
            "library_statements_reached": len(sites & lib),
            "library_statements": len(lib),
            "switch_points_used_by_the_busiest_worker": max([r["switch_sites"] for r in got] or [0]),
            "race_detector": "%d of %d workers, %d of the runs" % (sum(bool(r.get("race")) for r in got), n, sum(r["runs"] for r in got if r.get("race"))),
            "workers": n,
            "real_code": "all of /repo (root package and parser), and the ANTLR runtime it uses, compiled from the working tree with yield points before every statement",
            "stubs": desc["stubs"],
            "not_simulated": meta["unsimulated"],
            "seen_but_not_reproduced": len(lost),
            "build_s": round(built, 1),
        },
        "assumptions": desc["assumptions"],
        "wall_s": round(wall, 1),
        "violations": bad,
    }
    json.dump(e, open(ev, "w"), indent=1, ensure_ascii=False)

if __name__ == "__main__":
    main()
