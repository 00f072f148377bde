#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough] [--only harness] [--config c]

Each property has a module of harnesses in harness/src. A harness is a query over the real code in
/repo: the compiler's MIR is translated to a SAT problem over all inputs within the harness's
bounds. Every query has to come back unsatisfiable. A counterexample is run natively against the
same code before it's reported.

Exit 0: every query was discharged. Exit 1: a counterexample was reproduced. Exit 2: no answer.
"""

import concurrent.futures
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
JOBS = os.cpu_count() or 8

# Seconds. A check is given 900 in all.
BUDGET = {"quick": 820, "thorough": 6 * 3600}
HARNESS_TIMEOUT = {"quick": 400, "thorough": 3600}

KANI = ["-Z", "stubbing", "-Z", "restrict-vtable", "-Z", "unstable-options", "--no-assertion-reach-checks"]

STUBS = [
    "TypeId::of and TypeId equality: identifiers derived from type names",
    "atomic add, sub and fence: sequential",
    "fmt::Arguments::as_str, from_str, estimated_capacity: a constant string is formatted as one `{}` argument",
    "formatting of numbers, booleans, characters and text: bytes that tell apart value, style and flags",
    "fmt::write, in C14 only: messages of discarded errors are not produced",
]

ENV = dict(os.environ)
ENV.update(
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="0",
    RUSTC_WRAPPER="",
    HOME=os.environ.get("HOME", "/root"),
)
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV["PATH"] = os.path.join(ENV["HOME"], ".cargo/bin") + ":" + ENV.get("PATH", "/usr/bin:/bin")

START = time.time()


def left(tier):
    return BUDGET[tier] - (time.time() - START)


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------------------
# Declarations


DECL = re.compile(
    r"((?:^[ \t]*///[^\n]*\n)*)^[ \t]*(\w+) \[(\d+)\] \(([^;)]*);([^)]*)\) \{", re.M
)


def harnesses(prop, tier):
    """The (module, name, unwind, config, doc) of a property at a tier."""
    module = prop.lower()
    with open(os.path.join(HARNESS, "src", module + ".rs")) as f:
        src = f.read()
    out = []
    for doc, name, unwind, quick, thorough in DECL.findall(src):
        doc = " ".join(l.strip().lstrip("/").strip() for l in doc.strip().splitlines())
        configs = re.findall(r'"(\w+)"', quick)
        if tier == "thorough":
            configs += re.findall(r'"(\w+)"', thorough)
        for c in configs:
            out.append({"module": module, "name": name, "unwind": int(unwind), "config": c, "doc": doc})
    return out


# ---------------------------------------------------------------------------------------------
# Running queries


def run(cmd, cwd, timeout, env=ENV):
    """Run a command in its own process group, ending the whole group when time is up."""
    p = subprocess.Popen(
        cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True, errors="replace", start_new_session=True,
    )
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def kani(config, names, jobs, timeout, harness_timeout, extra=()):
    cmd = ["cargo", "kani", "--features", config, "--target-dir", os.path.join(BUILD, "kani-" + config), "--lib", "--exact"]
    for n in names:
        cmd += ["--harness", n + "::check"]
    cmd += KANI + ["--output-format", "terse", "--harness-timeout", "%ds" % harness_timeout]
    if jobs:
        cmd += ["-j", str(jobs)]
    cmd += list(extra)
    rc, out = run(cmd, HARNESS, timeout)
    return rc, out, " ".join(cmd)


def parse(out):
    """Results by harness."""
    res = {}
    thread = {}
    cur = None
    block = []

    def close(cur, block):
        if cur is None or cur not in thread:
            return
        text = "\n".join(block)
        name = thread[cur]
        m = re.search(r"\*\* (\d+) of (\d+) failed", text)
        c = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
        t = re.search(r"Verification Time: ([\d.]+)s", text)
        if not (m or "VERIFICATION:-" in text):
            return
        res[name] = {
            "failed": int(m.group(1)) if m else None,
            "checks": int(m.group(2)) if m else 0,
            "covers": int(c.group(2)) if c else 0,
            "covered": int(c.group(1)) if c else 0,
            "ok": "VERIFICATION:- SUCCESSFUL" in text,
            "failures": re.findall(r"Failed Checks: (.*?)\n File: ", text, re.S),
            "places": re.findall(r'\n File: "(.*?)", line (\d+), in (.*)', text),
            "time": float(t.group(1)) if t else 0.0,
            "text": text,
        }

    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)(?:::check)?\.\.\.", line)
        if m:
            close(cur, block)
            cur, block = None, []
            thread[m.group(1) or "0"] = m.group(2)
            if m.group(1) is None:
                cur = "0"
            continue
        m = re.match(r"Thread (\d+): ?(.*)$", line)
        if m and not m.group(2).startswith("  - Stub"):
            close(cur, block)
            cur, block = m.group(1), [m.group(2)]
            continue
        if line.startswith("Manual Harness Summary") or line.startswith("Complete - "):
            close(cur, block)
            cur, block = None, []
        if cur is not None:
            block.append(line)
    close(cur, block)
    return res


def only_unwinding(r):
    f = r["failures"]
    return bool(f) and all("unwinding assertion" in x or "recursion unwinding" in x for x in f)


def encoded(config, names):
    """Functions of the code under check that a configuration's queries reach."""
    out = {}
    maps = glob.glob(os.path.join(BUILD, "kani-" + config, "**", "*.pretty_name_map.json"), recursive=True)
    for m in maps:
        try:
            with open(m) as f:
                d = json.load(f)
        except (OSError, ValueError):
            continue
        for v in d.values():
            if v and "value_bag" in v and "vbh::" not in v.split("value_bag")[0] and "::" in v:
                if "." in v or "[" == v[:1]:
                    continue
                out[v] = True
    return sorted(out)


def clean_maps(config):
    for m in glob.glob(os.path.join(BUILD, "kani-" + config, "**", "*.pretty_name_map.json"), recursive=True):
        os.unlink(m)


# ---------------------------------------------------------------------------------------------
# Replaying counterexamples


def playback(out):
    """(check, bytes) of each counterexample printed."""
    res = []
    for block in out.split("Concrete playback unit test for")[1:]:
        m = re.search(r'/// Check for `(\w+)`: "(.*?)"\n///\n', block, re.S)
        vals = re.search(r"vec!\[\n(.*?)\n    \];", block, re.S)
        data = []
        for v in re.findall(r"^\s*vec!\[([\d, ]*)\]", vals.group(1) if vals else "", re.M):
            data += [int(x) for x in v.replace(" ", "").split(",") if x]
        res.append(((m.group(1), m.group(2)) if m else ("?", "?"), bytes(data).hex()))
    return res


def replay_bin(config, release):
    target = os.path.join(BUILD, "replay-" + config)
    cmd = ["cargo", "build", "--quiet", "--features", config, "--bin", "replay", "--target-dir", target]
    if release:
        cmd.append("--release")
    env = dict(ENV, RUSTC_BOOTSTRAP="1", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    rc, out = run(cmd, HARNESS, 300, env)
    if rc != 0:
        log(out[-3000:])
        return None
    return os.path.join(target, "release" if release else "debug", "replay")


def replay_miri(config, name, data):
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", MIRIFLAGS="-Zmiri-disable-isolation")
    cmd = ["cargo", "miri", "run", "--quiet", "--features", config, "--bin", "replay",
           "--target-dir", os.path.join(BUILD, "miri-" + config), "--", name, data]
    rc, out = run(cmd, HARNESS, 240, env)
    return rc, out, cmd


def reproduces(rc, out):
    if rc is None or rc in (0, 77, 78):
        return False
    return "panicked at" in out or rc < 0 or "Undefined Behavior" in out or "SIG" in out


def replay(prop, config, name, cexs):
    """Run counterexamples natively. The first that fails, or None."""
    for release in (False, True):
        exe = replay_bin(config, release)
        if exe is None:
            continue
        for check, data in cexs:
            rc, out = run([exe, name, data], HARNESS, 60)
            if reproduces(rc, out):
                return check, data, "%s %s %s" % (exe, name, data), out
    for check, data in cexs[:2]:
        rc, out, cmd = replay_miri(config, name, data)
        if reproduces(rc, out) and "unsupported operation" not in out:
            return check, data, " ".join(cmd), out
    return None


# ---------------------------------------------------------------------------------------------


def known(prop):
    """Harnesses that stand for a listed finding: name -> what fails."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\w+) harness=(\w+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if args and args[0] in BUDGET:
        tier = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    todo = harnesses(prop, tier)
    while args:
        a = args.pop(0)
        v = args.pop(0)
        key = {"--only": "name", "--config": "config"}[a]
        todo = [h for h in todo if h[key] in v.split(",")]
    if not todo:
        log("no harnesses for", prop)
        return 2
    findings = known(prop)

    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(evidence):
        os.unlink(evidence)

    by_config = {}
    for h in todo:
        by_config.setdefault(h["config"], []).append(h)

    results = {}
    errors = []
    commands = []
    functions = {}

    def one(config):
        hs = by_config[config]
        clean_maps(config)
        names = ["%s::%s" % (h["module"], h["name"]) for h in hs]
        jobs = max(2, min(len(hs), -(-JOBS * len(hs) // len(todo)) + 1))
        rc, out, cmd = kani(config, names, jobs, left(tier) - 40, HARNESS_TIMEOUT[tier])
        res = parse(out)
        # More iterations than the declared bound: give it more, the bound is ours and not the code's.
        for grow in (3, 3):
            again = [h for h in hs if (r := res.get("%s::%s" % (h["module"], h["name"]))) and only_unwinding(r)]
            if not again or left(tier) < 60:
                break
            bound = max(h["unwind"] for h in again) * grow
            ns = []
            for h in again:
                h["unwind"] = bound
                ns.append("%s::%s" % (h["module"], h["name"]))
            _, o, _ = kani(config, ns, len(ns), left(tier) - 40, HARNESS_TIMEOUT[tier], ["--unwind", str(bound)])
            res.update(parse(o))
        return config, rc, out, cmd, res, encoded(config, names)

    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as ex:
        for config, rc, out, cmd, res, fns in ex.map(one, by_config):
            commands.append(cmd)
            functions[config] = fns
            for h in by_config[config]:
                n = "%s::%s" % (h["module"], h["name"])
                r = res.get(n)
                if r is None:
                    errors.append("%s/%s: no verdict" % (config, n))
                    if not any(x in out for x in ("Checking harness",)):
                        log(out[-4000:])
                    continue
                results[(config, n)] = (h, r)

    failing = []
    for (config, n), (h, r) in sorted(results.items()):
        state = "ok"
        if r["failed"] is None or (not r["ok"] and not r["failures"]):
            state = "no answer"
            tail = [l for l in r["text"].splitlines() if l.strip()][-4:]
            errors.append("%s/%s: no verdict: %s" % (config, n, " | ".join(tail)[:300]))
        elif not r["ok"]:
            state = "counterexample"
            failing.append((config, n, h, r))
        elif r["covered"] < r["covers"]:
            state = "vacuous"
            errors.append("%s/%s: %d of %d cases can't be reached" % (config, n, r["covers"] - r["covered"], r["covers"]))
        log("%-5s %-28s %6d checks %2d/%d covers %7.1fs  %s" % (
            config, n, r["checks"], r["covered"], r["covers"], r["time"], state))

    violations = 0
    lines = []
    failing.sort(key=lambda f: (f[2]["name"] in findings, only_unwinding(f[3]), f[3]["time"]))
    seen_known = set()
    for config, n, h, r in failing:
        if only_unwinding(r):
            errors.append("%s/%s: unwinding bound exceeded" % (config, n))
            continue
        if violations >= 1 and h["name"] not in findings:
            continue
        for f in r["failures"][:6]:
            log("  %s/%s: %s" % (config, n, f.replace("\n", " ")[:200]))
        if left(tier) < 60:
            errors.append("%s/%s: no time left to replay" % (config, n))
            continue
        _, out, _ = kani(config, [n], 0, left(tier) - 30, HARNESS_TIMEOUT[tier],
                         ["-Z", "concrete-playback", "--concrete-playback=print", "--unwind", str(h["unwind"])])
        cexs = playback(out) or [(("?", r["failures"][0] if r["failures"] else "?"), "")]
        hit = replay(prop, config, n, cexs)
        if hit is None:
            errors.append("%s/%s: counterexample not reproduced natively: %s" % (config, n, "; ".join(r["failures"])[:300]))
            continue
        check, data, cmd, text = hit
        if h["name"] in findings:
            if h["name"] not in seen_known:
                seen_known.add(h["name"])
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, findings[h["name"]]))
            continue
        violations += 1
        path = os.path.join(EVIDENCE, "%s-replay.txt" % prop)
        with open(path, "w") as f:
            f.write("property: %s\nconfiguration: %s\nharness: %s\nfailed check: %s\ninput bytes: %s\ncommand: (cd %s && %s)\n\n%s\n" % (
                prop, config, n, check[1], data or "(none)", HARNESS, cmd, text[-6000:]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))

    ok = [(h, r) for h, r in results.values() if r["ok"] and r["covered"] == r["covers"]]
    fns = sorted(set(f for v in functions.values() for f in v))
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real code with Kani: MIR of /repo's current working tree and its dependencies is translated to a CBMC program, every assertion, panic, arithmetic and memory check in it becomes one query, and a SAT solver decides each for all inputs within the bounds. Unwinding assertions are on, so a loop that outruns its bound is reported and not ignored.",
            "queries": len(todo),
            "queries_discharged": len(ok),
            "obligations": sum(r["checks"] for _, r in results.values()),
            "discharged": sum(r["checks"] - (r["failed"] or 0) for _, r in results.values()),
            "reachability_goals_met": sum(r["covered"] for _, r in results.values()),
            "solver_time_s": round(sum(r["time"] for _, r in results.values()), 2),
            "functions_encoded": len(fns),
            "functions": [f for f in fns][:400],
            "configurations": sorted(by_config),
            "bounds": [
                {"harness": n, "configuration": c, "unwind": h["unwind"], "inputs": h["doc"],
                 "checks": r["checks"], "solver_s": round(r["time"], 2), "discharged": r["ok"]}
                for (c, n), (h, r) in sorted(results.items())
            ],
            "checker_cmd": commands[0] if commands else "",
            "trusted_base": ["rustc nightly-2026-08-21 to MIR", "Kani 0.68.0", "CBMC 6.11.0 with CaDiCaL", "the harness's oracles"],
            "no_answer": errors,
        },
        "assumptions": ["library model: " + s for s in STUBS] + ["allocation doesn't fail", "one thread", "64 bit target"],
        "wall_s": round(time.time() - START, 2),
        "violations": violations,
    }
    with open(evidence, "w") as f:
        json.dump(doc, f, indent=1)

    for e in errors:
        log("no answer:", e)
    for l in lines:
        log(l)
    log("%s %s: %d of %d queries discharged, %d checks, %.0fs" % (
        prop, tier, len(ok), len(todo), doc["coverage"]["obligations"], time.time() - START))
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
