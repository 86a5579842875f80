#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decides the property for /repo's working tree
check.py replay <property> <file>         executes a recorded violation again

Every check builds the harness against /repo, makes it execute scenarios on the
real code, and has TLC decide whether what was observed is a behaviour of the
specification in /verif/spec.  The scenarios are random ones of the property's
profile and the behaviours which TLC enumerates in the bounded models of the
property (spec/MC*.tla), whose invariants are checked at the same time.

Exit status: 0 no violation, 1 violation (a line VIOLATION property=... is
printed), 2 no verdict.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOBIN = "/opt/veriftools/go1.27.3/bin"
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")
CORES = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, HERE)
import plan  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def go_env():
    e = dict(os.environ)
    if os.path.isdir(GOBIN):
        e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    return e


def build(work):
    src = os.path.join(work, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), src)
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    exe = os.path.join(work, "vh")
    r = subprocess.run(["go", "build", "-o", exe, "."], cwd=src, env=go_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoVerdict("the harness doesn't build against " + REPO + ":\n" + r.stdout[-4000:])
    hdr = os.path.join(work, "header.json")
    r = subprocess.run([exe, "-n", "0", "-out", os.path.join(work, "none"), "-header", hdr])
    if r.returncode != 0:
        raise NoVerdict("the harness doesn't run")
    spec = os.path.join(work, "spec")
    os.mkdir(spec)
    for f in os.listdir(os.path.join(HERE, "spec")):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(HERE, "spec", f), spec)
    return exe, hdr, spec


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(exe, args, out, timeout):
    """Executes scenarios; the trace ends up in out.  A fatal error of the real
    code is recorded in the trace as the outcome of the operation."""
    r = None
    try:
        r = subprocess.run([exe, "-out", out, "-cur", out + ".cur"] + args, preexec_fn=limits,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        if r.returncode == 0:
            return ""
        if r.returncode == 3:
            raise NoVerdict("harness: " + r.stderr.decode(errors="replace")[-2000:])
        what = "fatal: " + r.stderr.decode(errors="replace")[:300].replace("\n", " ")
    except subprocess.TimeoutExpired:
        what = "hang"
    cur = []
    try:
        cur = [json.loads(x) for x in open(out + ".cur") if x.endswith("\n")]
    except ValueError:
        pass
    if len(cur) < 2 or not isinstance(cur[-1], dict) or "begin" not in cur[-1]:
        raise NoVerdict("the harness ended with %s outside of an operation" % what)
    steps = [x for x in cur[1:] if "begin" not in x]
    steps.append(crash_step(cur[-1]["begin"], what))
    lines = []
    if os.path.exists(out):
        lines = [x for x in open(out) if x.endswith("\n")]
    with open(out, "w") as f:
        f.writelines(lines)
        f.write(json.dumps({"id": cur[0], "steps": steps}, ensure_ascii=False) + "\n")
    return what


def crash_step(o, what):
    return {"o": o, "ok": False, "crash": what, "out": [],
            "ret": {"nil": True, "same": 0, "chain": []},
            "dump": [], "loose": [], "rootseen": False}


JAVA = "-Dfile.encoding=UTF-8 -Xss64m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xmx%dm"


def tlc(spec, work, name, module, cfg, env, workers, timeout, heap=2500, args=()):
    md = os.path.join(work, "md-" + name)
    # Not JAVA_TOOL_OPTIONS: the stack of the main thread, which evaluates the
    # constants and the initial states, is given to the launcher.
    e = dict(os.environ, JDK_JAVA_OPTIONS=JAVA % heap, **env)
    out = os.path.join(work, name + ".log")
    with open(out, "w") as f:
        try:
            r = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md,
                                "-config", cfg] + list(args) + [module], cwd=spec, env=e, stdout=f,
                               stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def counts(text):
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left", text, re.M)
    return (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else (0, 0, -1)


MIS = re.compile(r'^<<"MISMATCH", (".*")>>$')


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.bad = []      # (scenario, mismatch)
        self.trouble = []  # no verdict
        self.broken = []   # properties (Props.tla) that the specification itself doesn't have


def validate(trace, hdr, spec, work, name, workers, timeout, depth=0):
    """TLC over a recorded trace."""
    res = Result()
    sizes, empty = {}, True
    with open(trace) as f:
        for line in f:
            s = json.loads(line)
            sizes[s["id"]] = len(s["steps"])
            empty = False
    if empty:
        return res
    rc, out = tlc(spec, work, name, "Trace.tla", "Trace.cfg",
                  {"VERIF_HEADER": hdr, "VERIF_TRACE": trace}, workers, timeout)
    text = open(out, errors="replace").read()
    gen, dist, left = counts(text)
    res.states, res.transitions = dist, gen
    bad = {}
    res.broken = re.findall(r'^"(BROKEN .*)"$', text, re.M)
    for line in text.split("\n"):
        m = MIS.match(line.strip())
        if m:
            d = json.loads(json.loads(m.group(1)))
            bad.setdefault(d["sc"], d)
    inv = re.search(r"Error: Invariant (\w+) is violated", text)
    where = None
    if inv or (rc != 0 and "Error:" in text):
        # The last state of the printed behaviour tells the scenario.
        ids = re.findall(r"^/\\ sc = (\d+)$", text, re.M) or re.findall(r"\bsc = (\d+)\b", text)
        ls = re.findall(r"^/\\ l = (\d+)$", text, re.M)
        if ids:
            names = list(sizes)
            where = names[int(ids[-1]) - 1]
    want = sum(n + 1 for n in sizes.values())
    for line in open(trace):
        s = json.loads(line)
        if s["id"] in bad:
            res.bad.append((s, bad[s["id"]]))
    if inv:
        if where is None:
            res.trouble.append("an invariant is violated: " + text[-2000:])
        else:
            step = int(ls[-1]) - 1 if ls else sizes[where]
            for line in open(trace):
                s = json.loads(line)
                if s["id"] == where:
                    res.bad.append((s, {"sc": where, "step": step, "what": "invariant " + inv.group(1),
                                        "want": "the invariant holds", "got": "it is violated"}))
    elif rc != 0:
        err = text[text.find("Error:"):][:1500] if "Error:" in text else text[-1500:]
        res.trouble.append("TLC ended with %d on %s: %s" % (rc, where, err))
    elif left != 0 or (not bad and dist != want):
        res.trouble.append("TLC has %d states of %d" % (dist, want))
    if (inv or res.trouble) and where is not None and depth < 4:
        # The rest of the scenarios are still to be validated.
        rest = trace + ".rest"
        with open(rest, "w") as f:
            for line in open(trace):
                s = json.loads(line)
                if s["id"] != where and s["id"] not in bad:
                    f.write(line)
        r = validate(rest, hdr, spec, work, name + "r", workers, timeout, depth + 1)
        res.states += r.states
        res.transitions += r.transitions
        res.bad += r.bad
        res.trouble += r.trouble
        res.broken += r.broken
    res.traces = len(sizes) - len(res.trouble)
    res.events = sum(sizes.values())
    return res


def one_chunk(a):
    exe, hdr, spec, work, name, hargs, workers, timeout = a
    out = os.path.join(work, name + ".ndjson")
    run_harness(exe, hargs, out, timeout / 2)
    r = validate(out, hdr, spec, work, name, workers, timeout)
    r.sample = None
    with open(out) as f:
        line = f.readline()
        if line:
            r.sample = json.loads(line)
    os.remove(out)
    return r


def confirm(exe, hdr, spec, work, scen, mis, tries):
    """The scenario up to the mismatch is executed again."""
    ops = [x["o"] for x in scen["steps"][:mis["step"]]]
    src = os.path.join(work, "confirm-in.json")
    with open(src, "w") as f:
        f.write(json.dumps({"id": scen["id"], "steps": ops}, ensure_ascii=False) + "\n")
    dump = ["-dump"] if mis["what"] in ("dump", "loose") or mis["what"].startswith("invariant") else []
    for k in range(tries):
        out = os.path.join(work, "confirm.ndjson")
        run_harness(exe, ["-replay", src, "-procs", "8" if k % 2 else "1"] + dump, out, 120)
        r = validate(out, hdr, spec, work, "confirm", 2, 300)
        if r.bad:
            return k + 1, r.bad[0]
    return 0, None


def describe(scen, mis):
    lines = []
    for i, x in enumerate(scen["steps"][:mis["step"]], 1):
        lines.append("  %d. %s%s" % (i, "" if x["ok"] else "(rejected) ", json.dumps(x["o"], ensure_ascii=False)))
    lines.append("  -> %s: the specification says %s" % (mis["what"], json.dumps(mis["want"], ensure_ascii=False)))
    lines.append("     but the code says %s" % json.dumps(mis["got"], ensure_ascii=False))
    return "\n".join(lines)


def run_model(m, tier, spec, hdr, work, seed, again=False):
    """An exhaustive bounded model; returns its statistics and the behaviours it emitted."""
    b = m.get(tier) or m["quick"]
    name = "mc-" + m["name"]
    cfg = os.path.join(spec, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(m["cfg"])
        for k, v in b.get("consts", {}).items():
            f.write("CONSTANT %s = %s\n" % (k, v))
    rc, out = tlc(spec, work, name, m["module"], os.path.basename(cfg),
                  {"VERIF_HEADER": hdr, "VERIF_MODEL": m["name"]},
                  b.get("workers", 4), b.get("timeout", 600), b.get("heap", 4000))
    gen, dist, left = 0, 0, -1
    scen = os.path.join(work, name + ".scen")
    seen = set()
    err = ""
    with open(out, errors="replace") as f, open(scen, "w") as g:
        for line in f:
            if line.startswith('<<"SCENARIO", '):
                t = line.rstrip("\n")[len('<<"SCENARIO", '):-2]
                if t in seen:
                    continue
                seen.add(t)
                g.write(json.dumps({"id": "%s-%d" % (m["name"], len(seen)), "steps": json.loads(json.loads(t))},
                                   ensure_ascii=False) + "\n")
            elif "states generated" in line:
                c = counts(line)
                if c[2] >= 0:
                    gen, dist, left = c
            elif line.startswith("Error:") and not err:
                err = line.strip() + " " + f.read(3000)
    if (rc != 0 or left != 0 or not seen) and not again:
        return run_model(m, tier, spec, hdr, work, seed, True)
    if rc != 0 or left != 0 or not seen:
        raise NoVerdict("the model %s: TLC ended with %d: %s" % (m["name"], rc, err or "unfinished"))
    return {"name": m["name"], "states": dist, "transitions": gen, "behaviours": len(seen), "file": scen,
            "consts": b.get("consts", {})}


def known_findings(prop, exe, hdr, spec, work):
    """Executes the listed findings of the property."""
    out = []
    if not os.path.exists(FINDINGS):
        return out
    for line in open(FINDINGS):
        m = re.match(r"KNOWN-FINDING: property=(\w+) scenario=(\S+) (.*)$", line.strip())
        if not m or m.group(1) != prop:
            continue
        src = os.path.join(HERE, m.group(2))
        t = os.path.join(work, "known.ndjson")
        run_harness(exe, ["-replay", src], t, 60)
        s = json.loads(open(t).readline())
        if s["steps"] and s["steps"][-1]["ok"]:
            out.append("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
    return out


def main():
    if len(sys.argv) >= 4 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2], sys.argv[3]))
    if sys.argv[1:] == ["setup"]:
        sys.exit(setup())
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in plan.PROPS:
        log("no property", prop)
        sys.exit(2)
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        sys.exit(check(prop, tier, seed, work))
    except NoVerdict as e:
        log("no verdict:", e)
        sys.exit(2)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work):
    t0 = time.time()
    p = plan.PROPS[prop]
    exe, hdr, spec = build(work)
    n = p[tier]["n"]
    budget = 400 if tier == "quick" else 3 * 3600
    chunk = p[tier].get("chunk", 250)
    jobs = []
    states = transitions = traces = events = 0
    models, samples, bad, trouble, broken = [], [], [], [], []

    # The behaviours of the bounded models.
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = []
        for m in p.get("models", []):
            fs.append(ex.submit(run_model, plan.MODELS[m], tier, spec, hdr, work, seed))
        k = 0
        left = n
        while left > 0:
            c = min(chunk, left)
            left -= c
            # Parallel execution makes sense only where requests run concurrently.
            procs = "4" if p.get("parallel") and k % 2 else "1"
            jobs.append((exe, hdr, spec, work, "r%d" % k,
                         ["-profile", p["profile"], "-n", str(c), "-seed", str(seed * 1000 + k), "-procs", procs],
                         1, budget))
            k += 1
        rs = [ex.submit(one_chunk, j) for j in jobs]
        replays = []
        for f in fs:
            try:
                m = f.result()
            except NoVerdict as e:
                # What the random scenarios show counts nevertheless.
                trouble.append(str(e))
                continue
            models.append(m)
            states += m["states"]
            transitions += m["transitions"]
            lines = open(m["file"]).readlines()
            size = max(20, -(-len(lines) // (2 * CORES)))
            for i in range(0, len(lines), size):
                q = os.path.join(work, "%s-%d.scen" % (m["name"], i))
                with open(q, "w") as g:
                    g.writelines(lines[i:i + size])
                replays.append(ex.submit(one_chunk, (exe, hdr, spec, work, "m-%s-%d" % (m["name"], i),
                                                     ["-replay", q, "-dumps"], 1, budget)))
        for f in cf.as_completed(rs + replays):
            r = f.result()
            states += r.states
            transitions += r.transitions
            traces += r.traces
            events += r.events
            bad += r.bad
            trouble += r.trouble
            broken += r.broken
        for f in rs[:1] + replays[:1]:
            if f.result().sample:
                s = f.result().sample
                samples.append({"id": s["id"], "ops": [
                    {"o": x["o"], "ok": x["ok"]} for x in s["steps"][:14]]})

    found = known_findings(prop, exe, hdr, spec, work)
    for line in found:
        print(line)

    os.makedirs(EVIDENCE, exist_ok=True)
    status, violations = 0, 0
    if bad:
        bad.sort(key=lambda b: (b[1]["step"], len(json.dumps(b[0]["steps"][:b[1]["step"]]))))
        scen, mis = bad[0]
        violations = len(bad)
        tries, again = confirm(exe, hdr, spec, work, scen, mis, 4)
        for other in bad[1:4]:
            if tries:
                break
            tries, again = confirm(exe, hdr, spec, work, other[0], other[1], 4)
            if tries:
                scen, mis = other
        path = os.path.join(EVIDENCE, "replay-%s-%s.json" % (prop, tier))
        # What has been recorded is an execution of the real code in any case;
        # one that depends on the schedule may not come up again at once.
        with open(path, "w") as f:
            json.dump({"property": prop, "mismatch": mis, "reproduced": bool(tries), "attempts": tries or 16,
                       "scenario": {"id": scen["id"], "steps": scen["steps"][:mis["step"]]}},
                      f, ensure_ascii=False)
        if tries or p.get("parallel"):
            log(describe(scen, mis)[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
        else:
            trouble.append("a mismatch could not be reproduced: %s" % json.dumps(mis, ensure_ascii=False)[:2000])
    if broken:
        # The specification accepts what a property forbids: it has to be corrected.
        log("the specification doesn't have a property:", broken[0][:3000])
        if status == 0 and tier == "thorough":
            status = 2
    if status == 0 and trouble:
        log("no verdict:", trouble[0][:3000])
        status = 2

    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": states, "transitions": transitions,
              "traces_validated_against_impl": traces,
              "operations_validated": events,
              "models": [{k: m[k] for k in ("name", "states", "transitions", "behaviours", "consts")} for m in models],
              "random_scenarios": n,
              "property_predicates_broken_by_the_specification": len(broken),
              "exhaustive": False,
              "samples": samples or [{"id": "none"}]},
          "assumptions": plan.ASSUMPTIONS + p.get("assumptions", []),
          "violations": violations,
          "wall_s": round(time.time() - t0, 1)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    log("%s %s: %d scenarios, %d operations, %d states, %d mismatches, %.0f s" %
        (prop, tier, traces, events, states, len(bad), time.time() - t0))
    return status


def setup():
    """The tools are there and the harness and the specification are in order."""
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        exe, hdr, spec = build(work)
        r = one_chunk((exe, hdr, spec, work, "setup", ["-profile", "base", "-n", "20", "-seed", "1"], 1, 300))
        return 0 if r.traces == 20 else 2
    except NoVerdict as e:
        log("no verdict:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(prop, path):
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        exe, hdr, spec = build(work)
        d = json.load(open(path))
        tries, again = confirm(exe, hdr, spec, work, d["scenario"], d["mismatch"], 8)
        if tries:
            log(describe(again[0], again[1])[:20000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        log("not reproduced")
        return 0
    except NoVerdict as e:
        log("no verdict:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
