#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--tier quick|thorough] [--runs N] [--seed N] [--keep]

Builds the property's simulation program against /repo's working tree, runs
seeded simulations, gates and reports violations, rewrites evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION line; other: error.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "sim"))
from meta import META, REAL, STUB, ASSUME  # noqa: E402

CXX = "/usr/bin/clang++-18"
CORE = ["-std=c++11", "-O2", "-g", "-Wall"]
PROG = ["-std=c++11", "-O1", "-g", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-Wall",
        "-fno-omit-frame-pointer"]


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(3)


class DoesNotCompile(Exception):
    """code that compiles with the shipped template arguments does not with replaced ones"""


def build(pid, out):
    sim = os.path.join(VERIF, "sim")
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    objs = []
    for name in ("simcore", "model"):
        h = hashlib.sha256(" ".join([CXX] + CORE).encode())
        for f in (name + ".cpp", "simcore.hpp", "model.hpp"):
            h.update(open(os.path.join(sim, f), "rb").read())
        o = os.path.join(bdir, "%s-%s.o" % (name, h.hexdigest()[:16]))
        objs.append(o)
        if not os.path.exists(o):
            tmp = "%s.%d" % (o, os.getpid())
            jobs.append((subprocess.Popen([CXX] + CORE + ["-c", os.path.join(sim, name + ".cpp"), "-o", tmp],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), tmp, o))
    mine = []
    units = [("p_%s.cpp" % pid, out + ".o", [])]
    if META[pid].get("typed"):
        units += [("typed.cpp", "%s.t%d%d.o" % (out, w, p), ["-DSIM_WIDE=%d" % w, "-DSIM_PART=%d" % p])
                  for w in range(2) for p in range(6)]
    if META[pid].get("replaced"):
        units += [("replaced.cpp", "%s.r%d.o" % (out, p), ["-DSIM_PART=%d" % p]) for p in range(5)]
    for src, po, defs in units:
        mine.append(po)
        jobs.append((subprocess.Popen([CXX] + PROG + defs + ["-I" + os.path.join(REPO, "include"), "-c",
                                                             os.path.join(sim, src), "-o", po],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), po, po))
    bad = []
    for p, tmp, o in jobs:
        txt = p.communicate()[0]
        if p.returncode != 0:
            bad.append((o, txt))
            continue
        if tmp != o:
            os.replace(tmp, o)
    if bad:
        parts = [int(o[-3]) for o, _ in bad if re.search(r"\.r\d\.o$", o)]
        if len(parts) == len(bad):
            # the same program over the shipped value type
            c = subprocess.run([CXX] + PROG + ["-DSIM_PART=9", "-I" + os.path.join(REPO, "include"), "-fsyntax-only", os.path.join(sim, "replaced.cpp")],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if c.returncode == 0:
                raise DoesNotCompile(parts, "\n".join(txt for _, txt in bad))
        print("\n".join(txt for _, txt in bad)[-6000:])
        fail("compilation failed: " + ", ".join(o for o, _ in bad))
    r = subprocess.run([CXX, "-fsanitize=address"] + mine + objs + ["-o", out, "-ldl", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        fail("linking failed")
    for po in mine:
        os.unlink(po)


def known_findings(pid):
    """lines 'known: property=<id> class=<class> <what fails>'"""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def replay(binary, path, env):
    r = subprocess.run([binary, "--replay", path] + (["--thorough"] if json.load(open(path)).get("thorough") else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=400)
    txt = r.stdout.decode("utf-8", "replace")
    m = re.match(r"class=(\S+) hash=(\S+)", txt)
    return r.returncode, (m.group(1), m.group(2)) if m else None, txt


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if not args or args[0] not in META:
        fail("usage: check.py <property> [--replay FILE]; properties: " + " ".join(sorted(META)))
    pid = args[0]
    opt = {}
    i = 1
    while i < len(args):
        if args[i] == "--keep":
            opt["keep"] = True
            i += 1
        else:
            opt[args[i].lstrip("-")] = args[i + 1]
            i += 2
    meta = META[pid]
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")) or 1)
    runs = int(opt.get("runs", meta["runs"][0 if tier == "quick" else 1]))
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=bdir)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("LC_", "ASAN_", "UBSAN_", "MALLOC_")) or k in ("LANG", "LANGUAGE", "LOCPATH", "SIM_REEXEC", "LD_PRELOAD"):
            del env[k]
    env["TZ"] = "UTC"
    env["SIM_WORK"] = work
    code = 3
    try:
        binary = os.path.join(work, "sim")
        try:
            build(pid, binary)
        except DoesNotCompile as e:
            rfile = opt.get("replay")
            if not rfile:
                os.makedirs(os.path.join(bdir, "replays"), exist_ok=True)
                rfile = os.path.join(bdir, "replays", "%s-compile.json" % pid)
                errors = [x for x in e.args[1].splitlines() if "error:" in x][:20]
                json.dump({"property": pid, "class": "does-not-compile", "compile": True, "template_argument_sets": e.args[0], "errors": errors}, open(rfile, "w"), indent=1)
            print("class does-not-compile: sim/replaced.cpp compiles with the shipped template arguments, but not with sets %s\n%s"
                  % (e.args[0], "\n".join(x for x in e.args[1].splitlines() if "error:" in x)[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rfile))
            sys.exit(1)
        t_build = time.time() - t0
        if "replay" in opt and json.load(open(opt["replay"])).get("compile"):
            print("the recorded violation does not occur on this tree")
            sys.exit(0)
        if meta.get("locale"):
            src = os.path.join(VERIF, "sim", "sim_DE")
            subprocess.run(["localedef", "-c", "-i", src, "-f", "ANSI_X3.4-1968", os.path.join(work, "sim_DE")],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.isdir(os.path.join(work, "sim_DE")):
                env["LOCPATH"] = work
        if "replay" in opt:
            rc, sig, txt = replay(binary, opt["replay"], env)
            print(txt)
            want = json.load(open(opt["replay"]))
            if rc == 1 and sig == (want.get("class"), want.get("hash")):
                print("VIOLATION property=%s replay=%s" % (pid, opt["replay"]))
                sys.exit(1)
            if rc == 0:
                print("the recorded violation does not occur on this tree")
                sys.exit(0)
            if rc == 1:
                print("VIOLATION property=%s replay=%s (another one than recorded: %s)" % (pid, opt["replay"], sig))
                sys.exit(1)
            fail("replay error")
        rep = os.path.join(work, "report.json")
        rdir = os.path.join(bdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, "%s-seed%d-%s.json" % (pid, seed, tier))
        if os.path.exists(rfile):
            os.unlink(rfile)
        known = known_findings(pid)
        workers = max(1, min(16, os.cpu_count() or 4))
        cmd = [binary, "--seed", str(seed), "--runs", str(runs), "--workers", str(workers), "--out", rep,
               "--replay-out", rfile, "--cap", str(420 if tier == "quick" else meta.get("cap", 3000)), "--shrink", "20"]
        if known:
            cmd += ["--known", ",".join(k[0] for k in known)]
        if tier == "thorough":
            cmd += ["--thorough"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(rep):
            print(r.stdout.decode("utf-8", "replace")[-3000:])
            fail("simulator exit status %d" % r.returncode)
        d = json.load(open(rep))
        viol = d["violation"]
        if viol:
            if tier == "thorough":
                j = json.load(open(rfile))
                j["thorough"] = True
                json.dump(j, open(rfile, "w"), indent=0)
            def identical():
                want = (1, (viol["class"], viol["hash"]))
                return all((lambda a: a[:2])(replay(binary, rfile, env)) == want for _ in range(2))

            if not identical():
                # report the first failing run itself, unminimised
                subprocess.run([binary, "--seed", str(seed), "--first", str(viol["run"]), "--runs", "1", "--workers", "1", "--det-every", "0", "--out", rep,
                                "--replay-out", rfile, "--shrink", "0"] + (["--thorough"] if tier == "thorough" else []),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                v2 = json.load(open(rep))["violation"]
                if not v2:
                    fail("violation %s of run %d does not occur again" % (viol["class"], viol["run"]))
                viol = v2
                if tier == "thorough":
                    j = json.load(open(rfile))
                    j["thorough"] = True
                    json.dump(j, open(rfile, "w"), indent=0)
                if not identical():
                    fail("violation %s of run %d does not replay identically" % (viol["class"], viol["run"]))
        elif d["determinism_bad"]:
            fail("%d of %d repeated runs differ from their first execution (run %s)" % (d["determinism_bad"], d["determinism_checked"], d["bad_idx"]))
        missing = [p for p in meta.get("must", []) if not d["probes"].get(p) and not d["faults"].get(p)]
        wall = time.time() - t0
        hours = max(d["run_s"], 1e-3) / 3600.0
        cov = {
            "evaluations": d["runs"],
            "distinct_nontrivial": d["distinct"],
            "nontrivial_runs": d["nontrivial"],
            "rule": meta["rule"],
            "samples": d["samples"],
            "runs_requested": runs,
            "runs_per_hour": int(d["runs"] / hours),
            "seeds": {"VERIF_SEED": seed, "run_seeds": d["runs"], "note": "every run has its own seed derived from (property, VERIF_SEED, run index)"},
            "seeds_per_hour": int(d["runs"] / hours),
            "simulated_time": {"unit": "instrumented control-flow edges executed (the library has no clock or timer)", "steps": d["steps"],
                               "steps_per_run": d["steps"] // max(1, d["runs"]), "logged_events": d["events"], "choices_drawn": d["choices"]},
            "faults_injected": d["faults"],
            "conditions_reached": d["probes"],
            "conditions_expected_but_not_reached": missing,
            "task_switches": d["switches"],
            "library_allocations": d["lib_allocs"],
            "states_measure": {"distinct_event_log_hashes": d["distinct"], "program_edges_reached": d["edges"], "program_edges_total": d["edges_total"]},
            "determinism": {"runs_executed_again_from_seed_and_from_tape": d["determinism_checked"], "mismatches": d["determinism_bad"], "digest_of_all_event_logs": d["log_digest"]},
            "components": {"real": REAL + meta.get("real", []), "stub": STUB + meta.get("stub", [])},
            "known_finding_runs": d["known"],
            "build_s": round(t_build, 1),
            "simulation_s": round(d["run_s"], 1),
        }
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ASSUME + meta.get("assume", []), "wall_s": round(wall, 1), "violations": 1 if viol else 0}
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        tmp = os.path.join(edir, ".%s.%d" % (pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(edir, pid + ".json"))
        for c, text in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
        print("%s %s seed=%d: %d runs, %d non-trivial (%d distinct), %d steps, %d task switches, faults %s, %d repeated runs identical, %.1f s"
              % (pid, tier, seed, d["runs"], d["nontrivial"], d["distinct"], d["steps"], d["switches"],
                 json.dumps(d["faults"]), d["determinism_checked"] - d["determinism_bad"], wall))
        if missing:
            print("note: conditions not reached in this run: " + ", ".join(missing))
        if viol:
            print("class %s: %s" % (viol["class"], viol["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rfile))
            code = 1
        else:
            code = 0
    finally:
        if not opt.get("keep"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
