#!/usr/bin/env python3
"""check.py ID quick|thorough          decide one property against /repo's current tree
   check.py ID --replay FILE           repeat one failing case
   check.py --build                    build the harness only

Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

import mistakes

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
BIN = os.path.join(TARGET, "debug", "mmcheck")
EVIDENCE = os.path.join(HERE, "evidence")
RANDOM_TYPES = 24
MEMORY = 6 << 30

# C27 runs the checks of these on the crate without its default features
ALL = [f"C{k:02}" for k in range(1, 26)]
BARE = os.path.join(TARGET, "bare")
BARE_BIN = os.path.join(BARE, "debug", "mmcheck")

# (zoo seeds after the first, factor on the case counts, seconds per harness run)
TIERS = {"quick": (0, 2.0, 500), "thorough": (7, 12.0, 400)}

ASSUMPTIONS = {
    "*": [
        "The oracle models of the derived types (direct field access, written by gen_zoo.py) and of the dynamic values are right.",
        "Types are those of the generated set (hand-designed shapes and seed-dependent random ones), with all features on, on x86_64.",
    ],
    "C10": ["Thread schedules are those the operating system produces in fresh processes; they are not controlled."],
}


def error(msg):
    print(f"ERROR: {msg}", file=sys.stderr)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
        "CARGO_TARGET_DIR": TARGET, "CARGO_PROFILE_DEV_OPT_LEVEL": "0", "CARGO_PROFILE_DEV_DEBUG": "0",
        "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "RUST_BACKTRACE": "0",
        "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    })
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def cargo(args, cwd, extra=None):
    e = env()
    e.update(extra or {})
    return subprocess.run(["cargo", *args, "--offline"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def write_zoo(seed):
    os.makedirs(os.path.join(HERE, "gen"), exist_ok=True)
    subprocess.run([sys.executable, os.path.join(HERE, "gen_zoo.py"), str(seed), str(RANDOM_TYPES), os.path.join(HERE, "gen", "zoo.rs")], check=True)


def build_bare(zoo_seed):
    """Build the harness on the crate without its default features; what the compiler said if it can't."""
    write_zoo(zoo_seed)
    r = cargo(["build", "-q", "--no-default-features"], os.path.join(HERE, "harness"), {"CARGO_TARGET_DIR": BARE})
    return r.stdout if r.returncode else None


def build(zoo_seed):
    """Build the harness with the types of zoo_seed; the compiler's errors if they are in the derived types."""
    write_zoo(zoo_seed)
    r = cargo(["build", "-q"], os.path.join(HERE, "harness"))
    if r.returncode == 0:
        return None
    # Is it the derived code of an accepted type, or is something else wrong?
    errors = []
    block = []
    for line in r.stdout.splitlines() + ["error"]:
        if line.startswith(("error", "warning")):
            if block and block[0].startswith("error") and any("-->" in b for b in block):
                errors.append("\n".join(block))
            block = []
        block.append(line)
    lib = cargo(["build", "-q", "-p", "mirror-mirror", "--all-features"], REPO, {"CARGO_TARGET_DIR": os.path.join(TARGET, "repo")})
    in_zoo = [e for e in errors if any("-->" in line and ("gen/zoo.rs" in line or "src/zoo.rs" in line) for line in e.splitlines()[:4])]
    if lib.returncode == 0 and errors and len(in_zoo) == len(errors):
        return "\n".join(in_zoo)[:6000]
    error("the harness does not build:\n" + r.stdout[-6000:])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(args, timeout, bin=BIN):
    return subprocess.run([bin, *args], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, timeout=timeout)


def seed_of(seed, k):
    """The type seed of round k."""
    return seed + 1000 * k


def replay(prop, path):
    r = json.load(open(path))
    if r.get("kind") == "mistake":
        replay_mistake(prop, path, r)
    bare = r.get("kind") == "bare"
    errs = build_bare(r["zoo_seed"]) if bare else build(r["zoo_seed"])
    if r.get("kind") == "compile":
        if errs:
            print(errs)
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        print("compiles")
        sys.exit(0)
    if errs:
        error("the harness does not build:\n" + errs)
    work = tempfile.mkdtemp(prefix="mmcheck.")
    try:
        tape = os.path.join(work, "tape")
        with open(tape, "w") as f:
            f.write("\n".join(str(n) for n in r["tape"]))
        try:
            o = harness(["one", r.get("of", prop), r["sub"], tape], 150, BARE_BIN if bare else BIN)
            code, text = o.returncode, o.stdout + o.stderr
        except subprocess.TimeoutExpired:
            code, text = 1, "the case did not end within 150 s"
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(text)
    if code != 0:
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    sys.exit(0)


def violation(prop, ev, rep, message):
    path = os.path.join(EVIDENCE, f"{prop}.replay.json")
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    ev["violations"] = 1
    write_evidence(ev)
    print(message)
    print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)


def write_evidence(ev):
    ev["wall_s"] = round(time.time() - T0, 2)
    path = os.path.join(EVIDENCE, ev["property"] + ".json")
    with open(path + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".new", path)


MISTAKES = os.path.join(HERE, "gen", "mistakes.rs")


def mistakes_cargo(args, cwd):
    return cargo(args, cwd, {"CARGO_TARGET_DIR": os.path.join(TARGET, "mistakes")})


def mistakes_run(items):
    fails, more = mistakes.run(items, MISTAKES, mistakes_cargo, os.path.join(HERE, "mistakes"))
    if fails is None:
        error("the items were not compiled:\n" + more[-3000:])
    if more:
        error("errors outside the items: " + "; ".join(more[:5]))
    return fails


def check_mistakes(prop, tier):
    """C26: batches of derive inputs."""
    batches, size = {"quick": (6, 1500), "thorough": (60, 1500)}[tier]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(os.path.join(HERE, "gen"), exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "a case counts when the item has a mistake or an option; distinct by its text and the mistake",
           "samples": [], "classes": {}}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["What is a mistake is what the generator in mistakes.py put in as one.", "Errors are attributed to items by the lines of their primary spans."],
        "violations": 0, "wall_s": 0,
    }
    for line in known_findings(prop):
        print(line)
    seen = set()
    for b in range(batches):
        items = mistakes.generate(seed * 1000003 + b, size)
        if b % 3 == 2:
            # without any mistake, so that the compiler goes through all its stages
            items = [i for i in items if not i[1]]
        fails = mistakes_run(items)
        cov["evaluations"] += len(items)
        for it, bad, text in items:
            if bad or "#[reflect" in text:
                seen.add((bad, text.split("Item", 1)[1].lstrip("0123456789")))
            c = bad.split(" ")[0] if bad else "no mistake"
            cov["classes"][c] = cov["classes"].get(c, 0) + 1
        cov["samples"] += [f"{bad}: {text}" for _, bad, text in items[:3]]
        cov["distinct_nontrivial"] = len(seen)
        if fails:
            k, msg = fails[0]
            it, bad, text = items[k]
            it = mistakes.shrink(it, bad, MISTAKES, mistakes_cargo, os.path.join(HERE, "mistakes"))
            text = mistakes.text(it)
            if not mistakes_run([(it, bad, text)]):
                text = items[k][2]
            violation(prop, ev, {"property": prop, "kind": "mistake", "bad": bad, "text": text, "message": msg}, f"{msg}\n{text}")
    write_evidence(ev)
    print(f"{prop}: {cov['evaluations']} items, {cov['distinct_nontrivial']} distinct and non-trivial; {ev['wall_s']} s")
    sys.exit(0)


def check_bare(prop, tier):
    """C27: everything once more on the crate without its default features."""
    rounds, scale, secs = {"quick": (0, 0.3, 60), "thorough": (3, 2.0, 120)}[tier]
    scale *= float(os.environ.get("VERIF_SCALE", "1"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "that of the property whose check is run", "samples": [], "trivial": 0, "per_check": {}, "classes": {}, "types": 0, "type_sets": []}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUMPTIONS["*"][:1] + ["The build without default features runs on a host with the standard library.",
                                               "A crate that doesn't build without its default features isn't decided."],
        "violations": 0, "wall_s": 0,
    }
    for line in known_findings(prop):
        print(line)
    for k in range(rounds + 1):
        zoo = seed_of(seed, k)
        errs = build_bare(zoo)
        if errs:
            # a broken build is seen by everyone who makes it; what this decides is behaviour
            ev["notes"] = ["not decided: the harness does not build without the default features: " + errs[-1500:]]
            cov["samples"] = cov["samples"] or ["none: it doesn't build"]
            write_evidence(ev)
            print(f"{prop}: {ev['notes'][0]}")
            sys.exit(0)
        cov["type_sets"].append(zoo)
        for p in ALL:
            work = tempfile.mkdtemp(prefix="mmcheck.")
            try:
                r = harness(["run", p, str(seed + k), str(scale), str(secs), work], secs + 400, BARE_BIN)
                j = json.loads(r.stdout.strip().splitlines()[-1])
            except subprocess.TimeoutExpired:
                error(f"the harness did not end: {p}")
            except (IndexError, ValueError):
                error(f"the harness ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-2000:]}")
            finally:
                shutil.rmtree(work, ignore_errors=True)
            for n in ("evaluations", "trivial", "distinct_nontrivial"):
                cov[n] += j[n]
            cov["types"] = max(cov["types"], j["types"])
            for x, n in j["per_sub"].items():
                cov["per_check"][p + " " + x] = cov["per_check"].get(p + " " + x, 0) + n
            if k == 0:
                cov["samples"] += [p + " " + s for s in j["samples"][:1]]
            if j["notes"]:
                ev.setdefault("notes", []).extend(j["notes"])
            if j["failure"]:
                f = j["failure"]
                rep = {"property": prop, "kind": "bare", "of": p, "zoo_seed": zoo, "sub": f["sub"], "tape": f["tape"], "message": f["message"]}
                violation(prop, ev, rep, f"without default features, {p} {f['sub']}: {f['message']}")
            if any("gave up" in n or "before its first case" in n for n in j["notes"]):
                write_evidence(ev)
                error("; ".join(j["notes"]))
    write_evidence(ev)
    print(f"{prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct and non-trivial; {ev['wall_s']} s")
    for n in ev.get("notes", []):
        print("note:", n)
    sys.exit(0)


def replay_mistake(prop, path, r):
    os.makedirs(os.path.join(HERE, "gen"), exist_ok=True)
    fails = mistakes_run([(None, r["bad"], r["text"])])
    print(r["text"])
    if fails:
        print(fails[0][1])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print("as it should be")
    sys.exit(0)


def known_findings(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith(f"KNOWN-FINDING: property={prop} "):
            out.append(line.rstrip("\n"))
    return out


def check(prop, tier):
    if prop == "C26":
        check_mistakes(prop, tier)
    if prop == "C27":
        check_bare(prop, tier)
    rounds, scale, secs = TIERS[tier]
    scale *= float(os.environ.get("VERIF_SCALE", "1"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "trivial": 0, "per_check": {}, "classes": {}, "types": 0, "type_sets": []}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(prop, []), "violations": 0, "wall_s": 0,
    }
    notes = []
    for line in known_findings(prop):
        print(line)
    for k in range(rounds + 1):
        zoo = seed_of(seed, k)
        errs = build(zoo)
        if errs:
            if prop == "C22":
                cov["rule"] = "Every generated type that the derive macro accepts compiles."
                cov["samples"] = [errs[:500]]
                cov["evaluations"] += 1
                violation(prop, ev, {"property": prop, "kind": "compile", "zoo_seed": zoo}, "derived types do not compile:\n" + errs)
            error("the harness does not build:\n" + errs)
        work = tempfile.mkdtemp(prefix="mmcheck.")
        try:
            r = harness(["run", prop, str(seed + k), str(scale), str(secs), work], secs + 400)
        except subprocess.TimeoutExpired:
            error("the harness did not end")
        finally:
            shutil.rmtree(work, ignore_errors=True)
        try:
            j = json.loads(r.stdout.strip().splitlines()[-1])
        except (IndexError, ValueError):
            error(f"the harness ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-2000:]}")
        cov["evaluations"] += j["evaluations"]
        cov["trivial"] += j["trivial"]
        # of different type sets or generator seeds; each counted within its own run
        cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        cov["rule"] = j["rule"]
        cov["types"] = max(cov["types"], j["types"])
        cov["type_sets"].append(zoo)
        for a, b in ((cov["per_check"], j["per_sub"]), (cov["classes"], j["labels"])):
            for x, n in b.items():
                a[x] = a.get(x, 0) + n
        if len(cov["samples"]) < 24:
            cov["samples"] += j["samples"][: 12 if k == 0 else 3]
        notes += j["notes"]
        if j["out_of_time"]:
            notes.append(f"type set {zoo}: out of time, not all cases were run")
        if notes:
            ev["notes"] = notes
        if j["failure"]:
            f = j["failure"]
            rep = {"property": prop, "kind": "case", "zoo_seed": zoo, "sub": f["sub"], "tape": f["tape"], "message": f["message"]}
            violation(prop, ev, rep, f"{f['sub']}: {f['message']}")
        if any("gave up" in n or "before its first case" in n for n in j["notes"]):
            write_evidence(ev)
            error("; ".join(j["notes"]))
    write_evidence(ev)
    print(f"{prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct and non-trivial; {ev['wall_s']} s")
    for n in notes:
        print("note:", n)
    sys.exit(0)


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        os.makedirs(os.path.join(HERE, "gen"), exist_ok=True)
        mistakes_run([])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        for errs in (build_bare(seed), build(seed)):
            if errs:
                print(errs)
        sys.exit(0)
    if len(a) == 3 and a[1] == "--replay":
        replay(a[0], a[2])
    if len(a) == 2 and a[1] in TIERS:
        check(a[0], a[1])
    sys.exit(__doc__)


T0 = time.time()
main()
