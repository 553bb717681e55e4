#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code (Kani -> goto program -> CBMC).

usage: vrun.py <PROPERTY> [--tier quick|thorough] [--only CASE[,CASE]] [--keep] [-v]

1. mirror /repo (symlinks to its sources) into .work/ws, as the offline build does;
2. compile harness/src/<property>.rs against it with kani-compiler into one goto program
   (all dependencies from source, models/ replacing hashbrown, foldhash and bytes);
3. per case: link the case selector, run CBMC (symbolic execution + SAT) on it;
4. a failed assertion: get the solver's assignment, replay it natively against the real code
   with the real dependencies; reproduced -> VIOLATION (exit 1), otherwise exit 2;
5. write evidence/<property>.json.

Exit: 0 held, 1 violated (VIOLATION line), 2 inconclusive or error.
"""

import concurrent.futures as cf
import fcntl
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPO = os.environ.get("VERIF_REPO", "/repo")  # (a copy, for development only)
WS = os.path.join(WORK, "ws")
HARNESS = os.path.join(VERIF, "harness", "src")
MODELS = os.path.join(VERIF, "models")
TK = os.path.join(WORK, "tk")
TN = os.path.join(WORK, "tn")
NATIVE_TOOLCHAIN = "stable"
MEM_LIMIT_GB = int(os.environ.get("VERIF_MEM_GB", "14"))

CBMC_FLAGS = [
    "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check",
    "--no-bounds-check", "--no-pointer-check", "--no-div-by-zero-check",
    "--no-pointer-primitive-check", "--no-self-loops-to-assumptions",
    "--object-bits", "16", "--max-field-sensitivity-array-size", "2000",
]
DEFAULT_UNWINDSET = "memcmp.0:33"

VERBOSE = False
LOCK = threading.Lock()


def log(*a):
    with LOCK:
        print(*a, file=sys.stderr, flush=True)


class Inconclusive(Exception):
    pass


# --- cases -----------------------------------------------------------------------------------

CASE_RE = re.compile(r"^//@\s*case\b(.*)\n(?:(?:///|//|#\[).*\n)*pub fn (\w+)\s*\(\)", re.M)
HEAD_RE = re.compile(r"^//@\s*(\w+):\s*(.*)$", re.M)


def parse_cases(prop):
    """Cases of a property: `//@ case key=value ...` lines above `pub fn name()`."""
    text = open(os.path.join(HARNESS, prop.lower() + ".rs"), encoding="utf-8").read()
    cases = []
    for m in CASE_RE.finditer(text):
        opts = dict(kv.split("=", 1) for kv in m.group(1).split())
        cases.append({"name": m.group(2), "unwind": int(opts.get("unwind", "5")),
                      "tier": opts.get("tier", "quick"), "solver": opts.get("solver", "cadical"),
                      "timeout": int(opts.get("timeout", "600")),
                      "unwindset": opts.get("unwindset", ""),
                      "bounds": opts.get("bounds", "")})
    for i, c in enumerate(cases):
        c["index"] = i
    heads = {}
    for m in HEAD_RE.finditer(text):
        if m.group(1) != "case":
            heads.setdefault(m.group(1), []).append(m.group(2).strip())
    return cases, heads


# --- building --------------------------------------------------------------------------------

def manifest(patched, prop):
    t = f"""[package]
name = "mvh-{prop.lower()}"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "src/lib.rs"
[dependencies]
mega-evm = {{ path = "{WS}/crates/mega-evm" }}
alloy-primitives = {{ version = "1.3.0", default-features = false, features = ["map-hashbrown"] }}
[profile.dev]
debug = 0
opt-level = {0 if patched else 1}
[profile.release]
debug = 0
opt-level = 2
[lints.rust]
unexpected_cfgs = {{ level = "allow" }}
"""
    if patched:
        t += "[patch.crates-io]\n"
        for m in ("hashbrown", "foldhash", "bytes", "revm-primitives", "revm-interpreter"):
            t += f'{m} = {{ path = "{MODELS}/{m}" }}\n'
    return t


def lib_rs(prop, cases, heads, native):
    p = prop.lower()
    t = "#![allow(dead_code, unused_imports, unused_variables, unused_mut)]\n"
    for f in ["sym", "common"] + [m for h in heads.get("use", []) for m in h.split()] + [p]:
        t += f'#[path = "{HARNESS}/{f}.rs"]\npub mod {f};\n'
    if native:
        t += "pub fn verif_main(case: u32) {\n    match case {\n"
        for c in cases:
            t += f"        {c['index']} => {p}::{c['name']}(),\n"
        return t + "        _ => panic!(),\n    }\n}\n"
    t += '#[cfg(kani)]\nextern "C" { fn verif_case() -> u32; }\n'
    t += "#[cfg(kani)]\n#[kani::proof]\n"
    for s in heads.get("stub", []):
        t += f"#[kani::stub({s})]\n"
    t += "fn verif_main() {\n    match unsafe { verif_case() } {\n"
    for c in cases:
        t += f"        {c['index']} => {p}::{c['name']}(),\n"
    return t + "        _ => {}\n    }\n}\n"


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUSTUP_TOOLCHAIN", "RUSTC", "RUSTFLAGS"))
           or k in ("CARGO_HOME",)}
    env["CARGO_NET_OFFLINE"] = "true"
    env["VERIF_WS"] = WS
    env["VERIF_REPO"] = REPO
    return env


def mirror():
    os.makedirs(WS, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(VERIF, "tools", "mirror.py")], check=True, env=base_env())


def package(prop, cases, heads, native):
    d = os.path.join(WORK, "nat" if native else "sym", prop)
    put(os.path.join(d, "Cargo.toml"), manifest(not native, prop))
    put(os.path.join(d, "src", "lib.rs"), lib_rs(prop, cases, heads, native))
    if native:
        put(os.path.join(d, "src", "main.rs"),
            f"fn main() {{ mvh_{prop.lower()}::verif_main(std::env::var(\"VERIF_CASE\").unwrap()"
            ".parse().unwrap()); println!(\"REPLAY-COMPLETED\"); }\n")
    lock = os.path.join(d, "Cargo.lock")
    src = open(os.path.join(REPO, "Cargo.lock"), encoding="utf-8").read()
    stamp = os.path.join(d, ".lock-src")
    if not os.path.exists(lock) or not os.path.exists(stamp) or open(stamp).read() != src:
        put(lock, src)
        put(stamp, src)
    return d


def codegen(prop, cases, heads):
    """Compiles the property's harness to a goto program; returns (path, entry function)."""
    d = package(prop, cases, heads, native=False)
    cmd = ["cargo", "kani", "--target-dir", TK, "--only-codegen", "--no-default-checks",
           "--no-assertion-reach-checks", "-Z", "stubbing", "-Z", "c-ffi", "-Z", "unstable-options"]
    r = subprocess.run(cmd, cwd=d, env=base_env(), capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        sys.stderr.write((r.stdout + r.stderr)[-6000:])
        raise Inconclusive("the harness does not compile against /repo")
    name = f"mvh_{prop.lower()}"
    outs = []
    for base, _, files in os.walk(os.path.join(TK, "kani")):
        for f in files:
            if f.startswith(name + "-") and f.endswith(".symtab.out"):
                p = os.path.join(base, f)
                outs.append((os.path.getmtime(p), p))
    if not outs:
        raise Inconclusive("no goto program produced")
    sym = max(outs)[1]
    # the metadata names the mangled entry function
    entry = re.search(r"__(_?R\w+)\.symtab\.out$", sym).group(1)
    entry = "_" + entry.lstrip("_")
    unsupported = re.findall(r"^\s+- (.*)$", r.stderr + r.stdout, re.M)
    return sym, entry, unsupported


KANI_LIB = None


def kani_lib():
    global KANI_LIB
    if KANI_LIB is None:
        home = os.path.join(os.path.expanduser("~"), ".kani")
        for dname in sorted(os.listdir(home)):
            p = os.path.join(home, dname, "library", "kani", "kani_lib.c")
            if os.path.exists(p):
                KANI_LIB = p
    return KANI_LIB


def link(prop, sym, entry, case):
    d = os.path.join(WORK, "goto", prop)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, f"case{case['index']}.c")
    put(c, f"unsigned verif_case(void) {{ return {case['index']}u; }}\n")
    out = os.path.join(d, f"{case['name']}.goto")
    r = subprocess.run(["goto-cc", sym, kani_lib(), c, "--function", entry, "-o", out],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Inconclusive("goto-cc failed: " + (r.stdout + r.stderr)[-800:])
    return out


# --- solving ---------------------------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT_GB << 30, MEM_LIMIT_GB << 30))
    os.setsid()


def cbmc(goto, case, extra=(), slice_=True, timeout=None):
    us = DEFAULT_UNWINDSET + ("," + case["unwindset"] if case["unwindset"] else "")
    cmd = ["cbmc", *CBMC_FLAGS, "--unwind", str(case["unwind"]), "--unwindset", us]
    if slice_:
        cmd.append("--slice-formula")
    cmd += ["--sat-solver", case["solver"]]
    cmd += ["--json-ui", "--verbosity", "9", *extra, goto]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits)
    try:
        out, err = p.communicate(timeout=timeout or case["timeout"])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise Inconclusive(f"case {case['name']}: solver time cap ({timeout or case['timeout']} s)")
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
    try:
        items = json.loads(out)
    except json.JSONDecodeError:
        raise Inconclusive(f"case {case['name']}: cbmc ended with {p.returncode}: {out[-300:]} {err[-300:]}")
    return items


def messages(items):
    return [i.get("messageText", "") for i in items if "messageText" in i]


def results(items):
    for i in items:
        if "result" in i:
            return i["result"]
    return None


def is_cover(r):
    return ".cover." in r["property"]


ENGINE_MARKS = ("MODEL-CAPACITY", "is not currently supported by Kani", "unwinding assertion",
                "recursion unwinding assertion", "call to foreign", "is not supported", "MODEL-UNSUPPORTED",
                "undefined function")


def is_engine(r):
    d = r.get("description", "")
    return ".unwind." in r["property"] or ".recursion" in r["property"] or any(m in d for m in ENGINE_MARKS)


def stats(msgs):
    s = {"symex_s": 0.0, "solver_s": 0.0, "vccs": 0, "vccs_after_simplification": 0, "steps": 0,
         "variables": 0, "clauses": 0, "queries": 0}
    nobody = set()
    for m in msgs:
        if x := re.search(r"Runtime Symex: ([\d.]+)", m):
            s["symex_s"] += float(x.group(1))
        if x := re.search(r"Runtime decision procedure: ([\d.e-]+)", m):
            s["solver_s"] += float(x.group(1))
            s["queries"] += 1
        if x := re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m):
            s["vccs"], s["vccs_after_simplification"] = int(x.group(1)), int(x.group(2))
        if x := re.search(r"size of program expression: (\d+) steps", m):
            s["steps"] = int(x.group(1))
        if x := re.search(r"(\d+) variables, (\d+) clauses", m):
            s["variables"], s["clauses"] = int(x.group(1)), int(x.group(2))
        if x := re.search(r"no body for (?:function|callee) (\S+)", m):
            nobody.add(x.group(1))
    return s, nobody


OK_NOBODY = re.compile(r"^(__CPROVER|_CPROVER|nondet)")


def trace_values(items, prop_id):
    """Values of the symbolic inputs, in the order the harness drew them."""
    res = results(items) or []
    for r in res:
        if r.get("property") == prop_id and r.get("status") == "FAILURE" and "trace" in r:
            vals = []
            for st in r["trace"]:
                if st.get("stepType") != "assignment":
                    continue
                fn = st.get("sourceLocation", {}).get("function", "")
                lhs = st.get("lhs", "")
                if "any_raw" in fn and lhs.startswith("goto_symex$$return_value"):
                    v = st.get("value", {})
                    if "binary" in v:
                        b = v["binary"]
                        n = (len(b) + 7) // 8
                        x = int(b, 2)
                        vals.append(list(x.to_bytes(n, "little")))
                    elif "elements" in v:
                        bs = []
                        for e in v["elements"]:
                            b = e["value"]["binary"]
                            bs += list(int(b, 2).to_bytes((len(b) + 7) // 8, "little"))
                        vals.append(bs)
            return vals
    return None


# --- native replay ---------------------------------------------------------------------------

_native_lock = threading.Lock()
_native_built = {}


def native_bin(prop, cases, heads, profile):
    with _native_lock:
        if profile in _native_built:
            return _native_built[profile]
        d = package(prop, cases, heads, native=True)
        env = base_env()
        env["RUSTUP_TOOLCHAIN"] = NATIVE_TOOLCHAIN
        cmd = ["cargo", "build", "--offline", "--target-dir", TN] + (["--release"] if profile == "release" else [])
        r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=800)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            raise Inconclusive("native replay build failed")
        b = os.path.join(TN, profile if profile == "release" else "debug", f"mvh-{prop.lower()}")
        _native_built[profile] = b
        return b


def replay(prop, cases, heads, case, values_file, profile):
    """-> (outcome, output): outcome in fail, pass, assume, desync, error"""
    b = native_bin(prop, cases, heads, profile)
    env = dict(os.environ, VERIF_VALUES=values_file, VERIF_CASE=str(case["index"]), RUST_BACKTRACE="0")
    try:
        r = subprocess.run([b], env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return "fail", "native replay did not terminate within 120 s"
    out = (r.stdout + r.stderr)[-2000:]
    if r.returncode == 0 and "REPLAY-COMPLETED" in r.stdout:
        return "pass", out
    if r.returncode == 3:
        return "assume", out
    if r.returncode == 4:
        return "desync", out
    return "fail", out


# --- one case --------------------------------------------------------------------------------

def run_case(prop, sym, entry, case, cases, heads, tier):
    t0 = time.time()
    info = {"case": case["name"], "unwind": case["unwind"]}
    if case["bounds"]:
        info["bounds"] = case["bounds"]
    goto = None
    try:
        goto = link(prop, sym, entry, case)
        items = cbmc(goto, case)
        msgs = messages(items)
        s, nobody = stats(msgs)
        info.update(s)
        res = results(items)
        if res is None:
            err = [m for m in msgs if m][-3:]
            raise Inconclusive(f"case {case['name']}: no verdict from cbmc: {err}")
        bad_nobody = sorted(n for n in nobody if not OK_NOBODY.match(n))
        covers = [r for r in res if is_cover(r) and
                  re.search(r"::%s(::|$|\.)" % case["name"], r["property"].rsplit(".cover.", 1)[0])]
        fails = [r for r in res if r["status"] != "SUCCESS" and not is_cover(r)]
        info["assertions"] = max(info["vccs"] - len(covers), 0)
        info["discharged"] = info["assertions"] - len(fails)
        info["witnesses"] = {r["description"]: ("reached" if r["status"] == "FAILURE" else "UNREACHED") for r in covers}
        real = [r for r in fails if not is_engine(r)]
        engine = [r for r in fails if is_engine(r)]
        listed = [r for r in real if (prop, case["name"], r.get("description", "").strip('"')) in known_findings()]
        real = [r for r in real if r not in listed]
        if listed:
            v = confirm(prop, goto, case, cases, heads, listed, info)
            if not v:
                raise Inconclusive(f"case {case['name']}: a listed finding did not reproduce natively")
            info["known_findings"] = [known_findings()[(prop, case["name"], r["description"].strip('"'))] for r in listed]
        if real:
            info["failed"] = [f"{r['property']}: {r['description']}" for r in real][:8]
            v = confirm(prop, goto, case, cases, heads, real, info)
            if v:
                info["violation"] = v
                return info
            raise Inconclusive(f"case {case['name']}: counterexample did not reproduce natively: {info['failed'][:3]}")
        if engine:
            raise Inconclusive(f"case {case['name']}: bound or model too small: " +
                               "; ".join(f"{r['property']}: {r['description']}" for r in engine[:4]))
        if bad_nobody:
            raise Inconclusive(f"case {case['name']}: functions without a body: {bad_nobody[:5]}")
        missing = [d for d, st in info["witnesses"].items() if st != "reached"]
        if missing or not covers:
            raise Inconclusive(f"case {case['name']}: vacuous, witness not reached: {missing or 'none declared'}")
        # validate the encoding: replay one witness trace natively
        if case.get("validate"):
            w, info["functions"] = witness_replay(prop, goto, case, cases, heads, covers)
            info["witness_replay"] = w
            if w["outcome"] not in ("pass", "no trace"):
                raise Inconclusive(f"case {case['name']}: witness replay disagrees with the encoding: {w}")
    except Inconclusive as e:
        info["error"] = str(e)
    finally:
        info["wall_s"] = round(time.time() - t0, 1)
        if goto and os.path.exists(goto):
            os.unlink(goto)
    return info


def known_findings():
    """{(property, case, assertion): text} from lines `known: property=P case=C assertion="A" text`."""
    found = {}
    for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r'known: property=(\w+) case=(\w+) assertion="([^"]*)" (.*)', line)
        if m:
            found[m.group(1), m.group(2), m.group(3)] = m.group(4).strip()
    return found


def traced_functions(items):
    """Functions of the repository that the symbolic execution ran through, from a solver trace."""
    found = set()
    for r in results(items) or []:
        for st in r.get("trace", []):
            loc = st.get("sourceLocation", {})
            f = loc.get("file", "")
            i = f.find("/crates/mega-evm/src/")
            if i >= 0 and loc.get("function"):
                found.add(f[i + len("/crates/mega-evm/src/"):] + "::" + loc["function"])
    return sorted(found)


def save_values(prop, case, vals, tag):
    d = os.path.join(VERIF, "evidence", "replay", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{case['name']}{tag}.values")
    with open(p, "w") as f:
        f.write("\n".join(",".join(map(str, v)) for v in vals) + "\n")
    return p


def confirm(prop, goto, case, cases, heads, real, info):
    """Replays the counterexamples natively; returns a violation record or None."""
    tried = []
    # harness assertions first: they state the property; then panics in the code
    real = sorted(real, key=lambda r: 0 if re.match(r"[A-Z]\d\d", r.get("description", "").strip('"')) else 1)
    for r in real[:4]:
        items = cbmc(goto, case, extra=["--trace", "--property", r["property"]], slice_=False)
        vals = trace_values(items, r["property"])
        if vals is None:
            tried.append((r["property"], "no trace"))
            continue
        p = save_values(prop, case, vals, f".{len(tried)}")
        for profile in ("dev", "release"):
            outcome, out = replay(prop, cases, heads, case, p, profile)
            tried.append((r["property"], profile, outcome))
            if outcome == "fail":
                rec = {"property": r["property"], "description": r["description"], "profile": profile,
                       "values": p, "native_output": out[-600:]}
                rp = p.replace(".values", ".json")
                with open(rp, "w") as f:
                    json.dump({"case": case["name"], "case_index": case["index"], **rec,
                               "how": f"tools/replay.sh {prop} {case['name']} {p}"}, f, indent=1)
                rec["replay"] = rp
                return rec
    info["unreproduced"] = tried
    return None


def witness_replay(prop, goto, case, cases, heads, covers):
    r = covers[-1]
    items = cbmc(goto, case, extra=["--trace", "--property", r["property"]], slice_=False)
    vals = trace_values(items, r["property"])
    if vals is None:
        return {"outcome": "no trace"}, []
    p = save_values(prop, case, vals, ".witness")
    outcome, out = replay(prop, cases, heads, case, p, "dev")
    if outcome == "pass" and "REPLAY-WITNESS" not in out:
        outcome = "witness not reached natively"
    return {"outcome": outcome, "values": [hex(int.from_bytes(bytes(v), "little")) for v in vals][:64], "witness": r["description"]}, traced_functions(items)


# --- main ------------------------------------------------------------------------------------

def main():
    global VERBOSE
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    validate = os.environ.get("VERIF_VALIDATE", "1") == "1"
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0).split(",")
        elif a == "--jobs":
            jobs = int(args.pop(0))
        elif a == "--no-validate":
            validate = False
        elif a == "-v":
            VERBOSE = True
    t0 = time.time()
    cases, heads = parse_cases(prop)
    chosen = [c for c in cases if (only is None or c["name"] in only) and
              (tier == "thorough" or c["tier"] == "quick" or only)]
    error = None
    infos = []
    build_s = 0.0
    unsupported = []
    os.makedirs(WORK, exist_ok=True)
    try:
        with open(os.path.join(WORK, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            mirror()
            sym, entry, unsupported = codegen(prop, cases, heads)
        build_s = time.time() - t0
        nat = None
        if validate and chosen:
            # one witness per run is replayed natively (all of them in the thorough tier)
            for i, c in enumerate(chosen):
                c["validate"] = tier == "thorough" or i == 0
            nat = threading.Thread(target=lambda: safe(native_bin, prop, cases, heads, "dev"))
            nat.start()
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(run_case, prop, sym, entry, c, cases, heads, tier)
                    for c in sorted(chosen, key=lambda c: -c["timeout"])]
            for f in cf.as_completed(futs):
                i = f.result()
                infos.append(i)
                if VERBOSE:
                    log(json.dumps({k: v for k, v in i.items() if k != "functions"}))
        if nat:
            nat.join()
    except Inconclusive as e:
        error = str(e)
    except subprocess.TimeoutExpired as e:
        error = f"build time cap: {e.cmd[:2]}"
    infos.sort(key=lambda i: i["case"])
    violations = [i for i in infos if "violation" in i]
    errors = [i["error"] for i in infos if "error" in i] + ([error] if error else [])
    if not infos and not errors:
        errors.append("no cases")
    evidence(prop, tier, heads, infos, violations, errors, unsupported, build_s, time.time() - t0)
    for i in infos:
        log(f"{prop} {i['case']}: " + ("VIOLATION" if "violation" in i else "ERROR " + i["error"] if "error" in i else
            f"held ({i['assertions']} assertions, symex {i['symex_s']:.1f}s, solver {i['solver_s']:.1f}s)") + f" {i['wall_s']}s")
    if error:
        log("ERROR", error)
    for text in sorted({k for i in infos for k in i.get("known_findings", [])}):
        print(f"KNOWN-FINDING: property={prop} {text}")
    if violations:
        v = violations[0]
        for w in violations:
            log("  violated:", w["case"], w["violation"]["description"])
        print(f"VIOLATION property={prop} replay={v['violation']['replay']}")
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: {errors[0]}")
        return 2
    print(f"HELD property={prop} tier={tier} cases={len(infos)} wall_s={time.time() - t0:.0f}")
    return 0


def safe(f, *a):
    try:
        return f(*a)
    except Inconclusive as e:
        log("native build:", e)


def evidence(prop, tier, heads, infos, violations, errors, unsupported, build_s, wall):
    fns = sorted({f for i in infos for f in i.get("functions", [])})
    traces = sum(1 for i in infos if i.get("witness_replay", {}).get("outcome") == "pass")
    samples = [{"case": i["case"], **i["witness_replay"]} for i in infos if "witness_replay" in i][:5]
    cov = {
        "states": sum(i.get("steps", 0) for i in infos),
        "transitions": sum(i.get("vccs", 0) for i in infos),
        "rule": "bounded symbolic execution: states = steps of the symbolic unrolling (each over all input values at "
                "once), transitions = verification conditions generated from them",
        "traces_validated_against_impl": traces + len(violations),
        "samples": samples or [{"case": i["case"], "witnesses": i.get("witnesses", {})} for i in infos][:5],
        "obligations": sum(i.get("assertions", 0) for i in infos),
        "discharged": sum(i.get("discharged", 0) for i in infos),
        "queries": sum(i.get("queries", 0) for i in infos),
        "solver_s": round(sum(i.get("solver_s", 0) for i in infos), 2),
        "symex_s": round(sum(i.get("symex_s", 0) for i in infos), 2),
        "functions_encoded": fns,
        "bounds": heads.get("bounds", []),
        "outside": heads.get("outside", []),
        "checker_cmd": "cargo kani --only-codegen; goto-cc; cbmc " + " ".join(CBMC_FLAGS),
        "cases": [{k: v for k, v in i.items() if k not in ("functions", "witness_replay")} for i in infos],
        "build_s": round(build_s, 1),
        "errors": errors,
    }
    e = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
         "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
         "assumptions": heads.get("assume", []) + [
             "hashbrown, foldhash and bytes are replaced by finite models in models/ (native replay uses the real ones)",
             "Kani 0.68 / CBMC 6.11 and rustc MIR semantics are trusted; pointer-validity checks of unsafe code are off",
         ] + ["stub: " + s for s in heads.get("stub", [])],
         "wall_s": round(wall, 1), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(e, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
