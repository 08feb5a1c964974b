#!/usr/bin/env python3
"""Runs one property check: explores the specification with TLC, rebuilds the
harness against /repo's working tree, replays the explored behaviours into the
real code and (C01) validates recorded traces against the trace specification.

  check.py build            build everything once
  check.py Cxx              check a property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE      re-run one reported case against the current tree
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VELATO_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "build")
HARNESS = os.path.join(TARGET, "debug", "velato-conformance")
JOBS = 8
# Properties about loading explore the grammar (module Load) as well as or instead of
# rendering sessions (module MC).
MODULES = {"C11": ["MC", "Concur"], "C12": ["Load"], "C13": ["MC", "Load"], "C14": ["MC", "Load"],
           "C18": ["MC", "Calls"]}

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for base, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(base, n) for n in sorted(names)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

def build():
    """Builds the harness; file times are not trusted to reveal changes."""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    manifest = os.path.join(VERIF, "harness", "Cargo.toml")
    stamp = os.path.join(TARGET, "velato.src")
    now = source_hash()
    if os.path.exists(stamp) and open(stamp).read() != now or not os.path.exists(stamp):
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "-p", "velato"],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", manifest],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return r.stdout
    with open(stamp, "w") as f:
        f.write(now)
    return None

# ---------------------------------------------------------------- TLC
def tlc(module, env, out, workers=JOBS):
    meta = out + ".states"
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, "w") as f:
        r = subprocess.run(["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                            "-config", module + ".cfg", module + ".tla"],
                           cwd=SPEC, env=dict(os.environ, **env), stdout=f, stderr=subprocess.STDOUT)
    shutil.rmtree(meta, ignore_errors=True)
    states = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left")
    gen = dist = None
    errors = []
    with open(out, errors="replace") as f:
        for line in f:
            m = states.match(line)
            if m:
                gen, dist = (int(x.replace(",", "")) for x in m.groups())
            elif line.startswith("Error:") and len(errors) < 5:
                errors.append(line.strip())
    return r.returncode, gen, dist, errors

SEEDS = {}     # the seed a module was explored with

def explore(module, prop, tier, seed, share, workdir):
    """Explores the specification; a run that leaves TLC's number range is
    repeated with other random choices.  Workers of TLC that sort the fields of
    a record they share at the same time can spoil it, so that a run which fails
    in another way is repeated as it is, the last time with one worker."""
    attempt, failures = 0, 0
    while attempt < 4:
        s = (seed * 16 + attempt) % 1000003
        out = os.path.join(workdir, f"{module}.out")
        env = {"PROP": prop, "SEED": str(s), "TIER": tier, "SHARE": str(share), "ONLY": "0", "JAVA_TOOL_OPTIONS": "-Xss64m"}
        rc, gen, dist, errors = tlc(module, env, out, JOBS if failures < 2 else 1)
        if rc == 0 and gen is not None and intact(out):
            SEEDS[module] = s
            return out, gen, dist
        if "verflow" in open(out, errors="replace").read():
            attempt += 1
        elif failures < 2:
            failures += 1
        else:
            break
    raise RuntimeError(f"TLC failed on {module} for {prop}: {errors[:3]} (see {out})")

def intact(out):
    with open(out, errors="replace") as f:
        return all(line.rstrip().endswith('}"') for line in f if line.startswith('"CASE '))

def confirmed(f, prop, tier, outs, workdir):
    """Whether the behaviours a violation rests on are those of the specification:
    explores the case once more with one worker and compares."""
    module, case = f["module"], f["case"]
    ident = str(case).split("/")[0]
    if module not in SEEDS or not ident.isdigit():
        return True
    out = os.path.join(workdir, f"{module}-{ident}.out")
    env = {"PROP": prop, "SEED": str(SEEDS[module]), "TIER": tier, "SHARE": "100", "ONLY": ident,
           "JAVA_TOOL_OPTIONS": "-Xss64m"}
    rc, gen, _, errors = tlc(module, env, out, 1)
    if rc != 0 or gen is None:
        raise RuntimeError(f"TLC failed on case {case} of {module} for {prop}: {errors[:3]} (see {out})")
    key = lambda lines: sorted(json.dumps(parse_case(l), sort_keys=True) for l in lines)
    if module == "Load":
        old, new = key(document_lines(outs[module], case)), key(document_lines(out, case))
    else:
        old, new = key(session_lines(outs[module], case, None)), key(session_lines(out, case, None))
    same = old == new
    if not same and module == "Load":
        res, crash = run_documents(prop, out, out, 0, 1)
    elif not same:
        res, crash = run_sessions(prop, shard(out, workdir, 1)[0][0], out)
    os.remove(out)
    return same or bool(crash or res["found"])

# ---------------------------------------------------------------- replay
CNO = re.compile(r'\\"cno\\":(\d+)')

def parse_case(line):
    return json.loads(json.loads(line)[5:])

def shard(out, workdir, n):
    """Distributes the sessions of a module; returns their number."""
    outs = [f"{out[:-4]}{i}.cases" for i in range(n)]
    fs = [open(o, "w") for o in outs]
    cases = set()
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE '):
                m = CNO.search(line)
                if not m or not line.rstrip().endswith('}"'):
                    raise RuntimeError("garbled TLC output: " + line[:200])
                c = int(m.group(1))
                cases.add(c)
                fs[c % n].write(line)
    for f in fs:
        f.close()
    return outs, len(cases)

def documents(out):
    """The number of documents printed by module Load."""
    n = set()
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE '):
                if not line.rstrip().endswith('}"'):
                    raise RuntimeError("garbled TLC output: " + line[:200])
                n.add(line)
    return len(n)

ALONE = threading.Lock()

def bounded():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(args, out, progress):
    def run():
        for f in (out, progress):
            if os.path.exists(f):
                os.remove(f)
        return subprocess.run([HARNESS] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", preexec_fn=bounded)
    r = run()
    if r.returncode == -9:
        # ended from outside, for want of memory: once more, alone
        with ALONE:
            time.sleep(5)
            r = run()
    if r.returncode == 0 and os.path.exists(out):
        return json.load(open(out)), None
    at = (open(progress).read() if os.path.exists(progress) else "") or "?"
    if r.returncode == 10:
        raise RuntimeError("harness failure: " + r.stdout[-2000:])
    why = "does not terminate" if "stuck" in at else f"kills the process (status {r.returncode}: {r.stdout.strip()[-300:]})"
    return None, (at.split()[0], why)

def run_sessions(prop, cases, base):
    out, progress, trace = base + ".out", base + ".progress", base + ".trace"
    for f in (out, progress, trace):
        if os.path.exists(f):
            os.remove(f)
    return harness(["replay", prop, cases, out, progress, trace], out, progress)

def run_documents(prop, lines, base, k, n):
    out, progress = base + ".out", base + ".progress"
    for f in (out, progress):
        if os.path.exists(f):
            os.remove(f)
    return harness(["load", prop, lines, out, progress, str(k), str(n)], out, progress)

def session_lines(out, cno, most=400):
    res = []
    with open(out, errors="replace") as f:
        for line in f:
            m = CNO.search(line) if line.startswith('"CASE ') else None
            if m and m.group(1) == str(cno):
                res.append(line)
    res.sort(key=lambda l: '\\"docs\\"' not in l)   # the line with the documents first
    return res[:most]

def document_lines(out, ident):
    """The line of a document and that of its starting document."""
    want = [int(x) for x in ident.split("/")] if ident != "?" else [0]
    site = '\\"site\\":%d,' % want[0], '\\"site\\":%d}' % want[0]
    res = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"CASE ') and (site[0] in line or site[1] in line):
                c = parse_case(line)
                if "text" in c or [e["n"] for e in c["edits"]] == want[1:]:
                    res.append(line)
    return res

# ---------------------------------------------------------------- findings
def known_findings():
    """Lines `known: property=<id> match=<text> -- <what fails>`."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) match=(.*?) -- (.*)$", line.strip())
        if m:
            res.append(m.groups())
    return res

def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workdir = os.path.join(WORK, prop)
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir, exist_ok=True)
    evid = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evid, "replay"), exist_ok=True)
    for old in glob.glob(os.path.join(evid, "replay", prop + "-*")):
        os.remove(old)

    found = []
    total = {"cases": 0, "renders": 0, "calls": 0, "draws": 0, "sink_failures": 0}
    families, outs, gen, dist, expected, traces = {}, {}, 0, 0, 0, []
    with cf.ThreadPoolExecutor(JOBS + 2) as pool:
        building = pool.submit(build)
        for module in MODULES.get(prop, ["MC"]):
            outs[module], g, d = explore(module, prop, tier, seed, 100, workdir)
            gen, dist = gen + g, dist + d
        failed = building.result()
        if failed:
            log("cannot build the harness against", REPO)
            log(failed[-6000:])
            sys.exit(2)
        runs = []
        for module in outs:
            if module != "Load":
                shards, n = shard(outs[module], workdir, JOBS)
                expected += n
                traces += [s + ".trace" for s in shards]
                runs += [(module, pool.submit(run_sessions, prop, s, s)) for s in shards]
        if "Load" in outs:
            expected += documents(outs["Load"])
            runs += [("Load", pool.submit(run_documents, prop, outs["Load"], os.path.join(workdir, f"load{k}"), k, JOBS))
                     for k in range(JOBS)]
        for module, run in runs:
            res, crash = run.result()
            if crash:
                found.append({"case": crash[0], "what": crash[1], "module": module})
                continue
            for k in total:
                total[k] += res.get(k, 0)
            for k, v in res.get("families", {}).items():
                families[k] = families.get(k, 0) + v
            found += [dict(f, module=module) for f in res["found"]]

    validated = None
    if prop == "C01":
        validated, rejected = validate_traces(workdir, traces)
        found += [dict(f, module="Trace") for f in rejected]

    if not found and total["cases"] != expected:
        log(f"{total['cases']} of {expected} cases were replayed")
        sys.exit(2)

    while found and not any(k[0] == prop and k[1] in found[0]["what"] for k in known_findings()):
        if confirmed(found[0], prop, tier, outs, workdir):
            break
        log(f"case {found[0]['case']} of {found[0]['module']} was spoiled by TLC and is left out")
        found.pop(0)

    reported = 0
    for n, f in enumerate(found):
        text = f"{f['what']}"
        hit = [k for k in known_findings() if k[0] == prop and k[1] in text]
        if hit:
            log(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
            continue
        reported += 1
        if reported > 5:
            continue
        path = os.path.join(evid, "replay", f"{prop}-{n + 1}.json")
        f["property"] = prop
        f["lines"] = (document_lines(outs["Load"], f["case"]) if f["module"] == "Load" else
                      session_lines(outs.get(f["module"], outs.get("MC")), f["case"]))
        with open(path, "w") as w:
            json.dump(f, w, indent=1)
        log(f"case {f['case']} ({f.get('family', '')}): {text[:600]}")
        log(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")

    samples = []
    for module, out in outs.items():
        n = 0
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"CASE ') and ('\\"docs\\"' in line or '\\"edits\\"' in line):
                    samples.append({k: v for k, v in parse_case(line).items()
                                    if k in ("cno", "fam", "ops", "docs", "site", "edits", "expect", "blame", "calls", "scene", "sched")})
                    n += 1
                    if n == 2:
                        break
    coverage = {
        "states": dist, "transitions": gen,
        "traces_validated_against_impl": total["renders"] if total["renders"] else total["cases"],
        "behaviours_of_the_specification": expected,
        "sessions_by_family": families,
        "sink_calls_recorded": total["calls"], "draws_recorded": total["draws"],
        "sink_failures_injected": total["sink_failures"],
        "samples": samples,
    }
    if validated is not None:
        coverage["recorded_traces_accepted_by_trace_specification"] = validated
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
                "assumptions": ["bounded documents of the specification's families and random generator",
                                "floating point compared with the tolerances of harness/src/{cmp,geom}.rs"],
                "wall_s": round(time.time() - t0, 2), "violations": reported}
    with open(os.path.join(evid, prop + ".json"), "w") as w:
        json.dump(evidence, w, indent=1)
    log(f"{prop} {tier}: {dist} states, {expected} behaviours, {total['renders']} renders, "
        f"{total['calls']} sink calls, {reported} violations, {evidence['wall_s']} s")
    if not reported:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(1 if reported else 0)

def validate_traces(workdir, traces):
    real = os.path.join(workdir, "assets.trace")
    files = sorted(glob.glob(os.path.join(REPO, "examples/assets/**/*.json"), recursive=True))
    r = subprocess.run([HARNESS, "assets", real] + files, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    rejected = []
    if r.returncode != 0:
        rejected.append({"case": "assets", "what": f"rendering an example animation fails ({r.returncode}): {r.stdout[-300:]}"})
    whole = os.path.join(workdir, "all.trace")
    with open(whole, "w") as w:
        for t in traces + [real]:
            if os.path.exists(t):
                w.write(open(t).read())
    out = os.path.join(workdir, "trace.out")
    rc, gen, dist, errors = tlc("Trace", {"TRACE": whole}, out, workers=1)
    good = None
    log_lines = None
    for line in open(out, errors="replace"):
        if line.startswith('"REJECT '):
            rej = json.loads(json.loads(line)[7:])
            log_lines = log_lines or open(whole).read().splitlines()
            start = max(k for k in range(rej["at"]) if '"e":"render"' in log_lines[k])
            rejected.append({"case": rej["id"].split("/")[0], "what": f"render {rej['id']}, call {rej['at'] - start - 1}: {rej['why']}",
                             "trace": log_lines[start:rej["at"]]})
        elif line.startswith('"VALIDATED '):
            good = json.loads(json.loads(line)[10:])["good"]
    if rc != 0 or good is None:
        raise RuntimeError(f"trace validation failed: {errors[:3]} (see {out})")
    return good, rejected

def replay(path):
    f = json.load(open(path))
    failed = build()
    if failed:
        log(failed[-4000:])
        sys.exit(2)
    os.makedirs(WORK, exist_ok=True)
    base = os.path.join(WORK, "replay")
    with open(base + ".cases", "w") as w:
        w.writelines(f["lines"])
    if f["module"] == "Load":
        res, crash = run_documents(f["property"], base + ".cases", base, 0, 1)
    else:
        res, crash = run_sessions(f["property"], base + ".cases", base)
    bad = [crash[1]] if crash else [x["what"] for x in res["found"]]
    for b in bad:
        log(b)
    sys.exit(1 if bad else 0)

def main():
    cmd = sys.argv[1]
    if cmd == "build":
        failed = build()
        if failed:
            log(failed[-6000:])
            sys.exit(1)
        for m in ("MC", "Concur", "Calls", "Load", "Trace"):
            subprocess.run(["tla-sany", m + ".tla"], cwd=SPEC, stdout=subprocess.DEVNULL)
        log("built")
    elif cmd == "replay":
        replay(sys.argv[2])
    else:
        try:
            check(cmd)
        except RuntimeError as e:
            log("ERROR", e)
            sys.exit(2)

if __name__ == "__main__":
    main()
