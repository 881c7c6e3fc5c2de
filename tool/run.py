#!/usr/bin/env python3
"""Decides one property of enumset by bounded model checking of its real code.

usage: run.py ID [quick|thorough]      check property ID
       run.py --replay FILE            re-run a recorded counterexample against the real code
       run.py --setup                  prebuild what every check shares

Per run: the harness crate (a path dependency on /repo's crate) is compiled by Kani's compiler to
goto programs, one per harness; each is linked and instrumented exactly as `cargo kani` does, and
CBMC hands the resulting formula to a SAT solver. A counterexample is replayed on a native build
before it is reported.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "stable"
JOBS = int(os.environ.get("VH_JOBS", str(os.cpu_count() or 4)))
ONLY = os.environ.get("VH_ONLY")  # debugging aid: a regular expression over harness names


STOP = threading.Event()  # set once a violation was reproduced: nothing more needs to be solved


def crate(features):
    """The harness crate of a property: C23's harnesses include the source of the derive macro itself."""
    return os.path.join(VERIF, "derive" if features[0] == "c23" else "harness")


def target_dir(kind, features):
    return os.path.join(BUILD, kind + ("-derive" if features[0] == "c23" else ""))


class CheckError(Exception):
    """Anything that prevents a verdict: exit status 2, never a success."""


class Unmodelled(CheckError):
    """The derive macro uses something the models of its libraries do not have."""


class Rejected(CheckError):
    """The harness crate, written against the documented API, is rejected by the compiler."""


def log(*a):
    print(*a, flush=True)


def kani_home():
    c = sorted(glob.glob(os.path.expanduser("~/.kani/kani-*"))) or sorted(glob.glob("/root/.kani/kani-*"))
    c = [d for d in c if os.path.isdir(os.path.join(d, "bin"))]
    if not c:
        raise CheckError("Kani is not installed")
    return c[-1]


def sh(cmd, timeout=None, cwd=None, env=None, out=None, stop=None):
    """Runs a command in its own process group; returns (rc, or None on timeout or when `stop` is set, and output)."""
    f = open(out, "wb") if out else tempfile.TemporaryFile()
    if stop is not None and stop.is_set():
        return None, ""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT if not out else subprocess.DEVNULL,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        if stop is None:
            rc = p.wait(timeout)
        else:
            rc, end = None, time.time() + timeout
            while rc is None and time.time() < end and not stop.is_set():
                try:
                    rc = p.wait(0.5)
                except subprocess.TimeoutExpired:
                    pass
    except subprocess.TimeoutExpired:
        rc = None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    if out:
        f.close()
        return rc, ""
    f.seek(0)
    return rc, f.read().decode("utf-8", "replace")


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


# ---------------------------------------------------------------- building
def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "enumset"), os.path.join(REPO, "enumset_derive"),
                 os.path.join(VERIF, "harness"), os.path.join(VERIF, "derive")):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def freshen(target):
    """Cargo trusts modification times; a changed content hash drops what it built from /repo."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source.sha256")
    now = source_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    if os.path.exists(stamp):
        for p in ("vh", "renamed", "enumset", "enumset_derive"):
            for pat in ("**/build/%s" % p, "**/.fingerprint/%s-*" % p, "**/deps/lib%s-*" % p, "**/deps/%s-*" % p):
                for x in glob.glob(os.path.join(target, pat), recursive=True):
                    shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
    open(stamp, "w").write(now)


def locked(fn):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return fn()


def first_errors(out):
    """The first compiler errors, without the noise around them."""
    blocks = [b for b in re.split(r"\n\s*\n", out) if re.search(r"^error", b, re.M)]
    return "\n\n".join("\n".join(l[:300] for l in b.splitlines()[:12]) for b in blocks[:3])


def depends_on_debug_assertions():
    """Whether /repo's code could behave differently when debug assertions are off (the harnesses are
    compiled with them on, so that they are obligations, too)."""
    for d in ("enumset/src", "enumset_derive/src"):
        for f in glob.glob(os.path.join(REPO, d, "**", "*.rs"), recursive=True):
            if re.search("debug_assert", open(f, errors="replace").read()):
                return True
    return False


def codegen(features, work, release=False):
    """Compiles the harnesses with Kani's compiler; returns their metadata, goto files in `work`."""
    target = target_dir("kani", features)
    e = env()
    if release:
        e.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")

    def go():
        freshen(target)
        for m in glob.glob(os.path.join(target, "**", "vh-*.kani-metadata.json"), recursive=True):
            shutil.rmtree(os.path.dirname(os.path.dirname(m)), ignore_errors=True)
        for m in glob.glob(os.path.join(target, "kani", "*", "debug", "incremental", "vh-*")):
            shutil.rmtree(m, ignore_errors=True)
        cmd = ["cargo", "kani", "--lib", "--only-codegen", "--no-assertion-reach-checks", "--target-dir", target,
               "--features", ",".join(features)]
        rc, out = sh(cmd, timeout=600, cwd=crate(features), env=e)
        if rc != 0:
            why = rustc_rejects(features) if features[0] != "c23" else None
            if why:
                raise Rejected(why)
            raise (Unmodelled if features[0] == "c23" else CheckError)(
                "the harness crate does not compile for Kani:\n" + first_errors(out))
        metas = glob.glob(os.path.join(target, "**", "vh-*.kani-metadata.json"), recursive=True)
        if len(metas) != 1:
            raise CheckError("expected one metadata file, found %r" % metas)
        m = json.load(open(metas[0]))
        hs = []
        for i, h in enumerate(m["proof_harnesses"]):
            i += 1000 if release else 0
            dst = os.path.join(work, "%03d.symtab" % i)
            shutil.move(h["goto_file"], dst)
            hs.append({"name": h["pretty_name"], "mangled": h["mangled_name"], "goto": dst,
                       "unwind": h["attributes"]["unwind_value"] or 2, "idx": i, "release": release})
        return hs

    return locked(go)


def rustc_rejects(features):
    """The errors plain rustc has about the harnesses, if it accepts /repo's own crates."""
    target = target_dir("native", features)
    freshen(target)
    base = ["cargo", "check", "--offline", "--target-dir", target]
    rc, _ = sh(base + ["-p", "enumset"], timeout=600, cwd=crate(features), env=env())
    if rc != 0:
        return None
    rc, out = sh(base + ["--lib", "--features", ",".join(features)], timeout=600, cwd=crate(features), env=env())
    errs = first_errors(out)
    ours = re.search("could not compile `(vh|renamed)`", out) and re.search("--> (src|.*/renamed/src)/", errs)
    return errs if rc not in (0, None) and ours else None


def native(features, profile):
    target = target_dir("native", features)

    def go():
        freshen(target)
        cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", target,
               "--features", ",".join(features)] + (["--release"] if profile == "release" else [])
        rc, out = sh(cmd, timeout=600, cwd=crate(features), env=env())
        if rc != 0:
            raise CheckError("the native replay does not build:\n" + first_errors(out))
        dst = tempfile.mktemp(prefix="replay-%s-" % profile, dir=BUILD)
        shutil.copy(os.path.join(target, "release" if profile == "release" else "debug", "replay"), dst)
        return dst

    return locked(go)


# ---------------------------------------------------------------- model checking
CBMC_FLAGS = ["--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
              "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16",
              "--verbosity", "8", "--json-ui"]


def link(h, kani, klib, work):
    b = os.path.join(kani, "bin")
    a = os.path.join(work, "%03d.out" % h["idx"])
    t = a + ".tmp"
    steps = [
        ["goto-cc", h["goto"], klib, "--function", h["mangled"], "-o", a],
        ["goto-instrument", "--add-library", "--no-malloc-may-fail", a, t],
        ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
         "--generate-function-body", ".*", "--drop-unused-functions", t, a],
        ["goto-instrument", "--ensure-one-backedge-per-target", a, a],
    ]
    for s in steps:
        rc, out = sh([os.path.join(b, s[0])] + s[1:], timeout=300)
        if rc != 0:
            raise CheckError("%s failed for %s:\n%s" % (s[0], h["name"], out[-1500:]))
    for p in (t, h["goto"]):
        if os.path.exists(p):
            os.unlink(p)
    return a


def call_graph(binary, kani):
    _, out = sh([os.path.join(kani, "bin", "goto-instrument"), "--reachable-call-graph", binary], timeout=120)
    fns = set()
    for l in out.splitlines():
        if " -> " in l:
            fns.update(x.strip() for x in l.split(" -> "))
    return fns


def cbmc(binary, kani, unwind, timeout, work, solver="cadical", extra=()):
    out = tempfile.mktemp(dir=work, suffix=".json")
    back = ["--z3"] if solver == "z3" else ["--sat-solver", solver]
    cmd = [os.path.join(kani, "bin", "cbmc")] + CBMC_FLAGS + ["--unwind", str(unwind)] + back + list(extra) + [binary]
    # 9 GB at most per solver process: an out-of-memory end is an error, not a verdict.
    cmd = ["bash", "-c", 'ulimit -v 9000000; exec "$@"', "-"] + cmd
    t0 = time.time()
    rc, _ = sh(cmd, timeout=timeout, out=out, stop=STOP)
    wall = time.time() - t0
    txt = open(out, "rb").read().decode("utf-8", "replace")
    os.unlink(out)
    if rc is None:
        return {"status": "stopped" if STOP.is_set() else "timeout", "wall": wall}
    try:
        js = json.loads(txt)
    except ValueError:
        return {"status": "error", "wall": wall, "why": "rc %s: %s" % (rc, txt[-600:])}
    res, solver_s, clauses, variables, errs = None, 0.0, 0, 0, []
    for o in js:
        if "result" in o:
            res = o["result"]
        m = o.get("messageText", "")
        if o.get("messageType") == "ERROR":
            errs.append(m)
        x = re.match(r"Runtime (?:Solver|decision procedure): ([\d.e-]+)s", m, re.I)
        if x:
            solver_s = max(solver_s, float(x.group(1)))
        x = re.match(r"(\d+) variables, (\d+) clauses", m)
        if x:
            variables, clauses = int(x.group(1)), int(x.group(2))
    if res is None or rc not in (0, 10):
        return {"status": "error", "wall": wall, "why": "rc %s: %s" % (rc, "; ".join(errs)[-600:] or txt[-600:])}
    return {"status": "done", "result": res, "wall": wall, "solver_s": solver_s, "variables": variables,
            "clauses": clauses}


def cls(p):
    """The property class: `function.class.number`, or `.class.number` without a function."""
    parts = p["property"].rsplit(".", 2)
    return parts[1] if len(parts) == 3 else parts[0]


UNDECIDABLE = ("unsupported_construct", "sanity_check", "no-body", "missing_function")
UNWIND_LADDER = (12, 20, 36, 72, 140, 280)


def judge(h, r):
    """Sorts one CBMC answer: unwinding failures, undecidable ones, candidates, and vacuity."""
    bad = [p for p in r["result"] if p["status"] == "FAILURE"]
    odd = [p for p in r["result"] if p["status"] not in ("FAILURE", "SUCCESS")]
    unwind = [p for p in bad if cls(p) in ("unwind", "recursion")]
    covers = [p for p in r["result"] if cls(p) == "cover" and p.get("description", "").strip('"') == "REACH"]
    other = [p for p in bad if cls(p) not in ("unwind", "recursion", "cover", "code_coverage", "reachability_check")]
    undec = [p for p in other if cls(p) in UNDECIDABLE]
    other = [p for p in other if cls(p) not in UNDECIDABLE]
    panics = h["name"].rsplit("::", 1)[-1].startswith("panics_")
    expected = []
    if panics:
        expected = [p for p in other if not p["description"].strip('"').startswith("RETURNED")]
        other = [p for p in other if p["description"].strip('"').startswith("RETURNED")]
    reached = bool(covers) and all(p["status"] == "FAILURE" for p in covers)
    return {"unwind": unwind, "undec": undec, "cand": other, "expected": expected, "reached": reached,
            "odd": odd, "panics": panics, "n": len(r["result"]),
            "checks": [p for p in r["result"] if cls(p) not in ("cover", "code_coverage", "reachability_check")]}


ENDLESS = "does not terminate"
EXHAUSTED = re.compile(r"out of time|timeout|.*(out of memory|bad_alloc)", re.I | re.S)


def run_harness(h, kani, klib, work, limit, end, thorough, found):
    """Decides one harness, with at most `limit` seconds per query and none after `end`."""
    def tmo():
        return max(1, min(limit, end - time.time()))

    rec = {"harness": h["name"], "queries": 0, "solver_s": 0.0, "wall_s": 0.0}
    try:
        binary = link(h, kani, klib, work)
        rec["functions"] = call_graph(binary, kani)
        unwind, per_loop, ids = h["unwind"], {}, None
        base = unwind
        ladder = [unwind] + [u for u in UNWIND_LADDER if u > unwind]
        for u in ladder:
            rec["unwind"] = u
            bounds = ["--unwindset", ",".join("%s:%d" % x for x in per_loop.items())] if per_loop else []
            r = cbmc(binary, kani, base, tmo(), work, extra=["--slice-formula"] + bounds)
            rec["queries"] += 1
            rec["wall_s"] += r["wall"]
            if r["status"] == "timeout" and tmo() > 5:
                # a second, independent back end before giving up
                r = cbmc(binary, kani, base, tmo(), work, solver="minisat2", extra=["--slice-formula"] + bounds)
                rec["queries"] += 1
                rec["wall_s"] += r["wall"]
            if r["status"] != "done":
                rec["error"] = "%s after %.0f s at unwind %d %s" % (r["status"], r["wall"], u, r.get("why", ""))
                rec.pop("judge", None)
                return rec
            rec["solver_s"] += r["solver_s"]
            rec["variables"], rec["clauses"] = r["variables"], r["clauses"]
            j = judge(h, r)
            rec["judge"] = j
            if j["cand"]:
                rec["cex"] = counterexamples(binary, kani, base, tmo, work, j["cand"], extra=bounds)
                rec["queries"] += len(rec["cex"])
                if any(c.get("values") is not None for c in rec["cex"]):
                    rec["binary"] = binary
                    return rec
            if not j["unwind"]:
                break
            if u == ladder[1]:
                # the loops outran two bounds: perhaps they never end
                c = counterexamples(binary, kani, unwind + 2, tmo, work, j["unwind"][:1], ENDLESS)
                rec["queries"] += 1
                if c[0]["values"] is not None and found.reproduces(h["name"], c[0]):
                    rec["cex"] = c
                    return rec
            # raise the bounds of the loops that need it, and only those
            ids = loops(binary, kani) if ids is None else ids
            up = next((x for x in ladder if x > u), u)
            if any(location(p) not in ids for p in j["unwind"]):
                base, per_loop = up, {}
            else:
                for p in j["unwind"]:
                    for i in ids[location(p)]:
                        per_loop[i] = max(140, up) if i.startswith("memcmp") else up
        if j["unwind"]:
            rec["error"] = "loops are not exhausted at unwind %d" % rec["unwind"]
            return rec
        if j["cand"]:
            rec["error"] = "no trace for a failed check: %s" % j["cand"][0]["description"]
        elif j["undec"]:
            rec["error"] = "cannot be encoded: " + j["undec"][0]["description"]
        elif j["odd"]:
            rec["error"] = "undetermined: " + j["odd"][0]["property"]
        elif not j["reached"]:
            rec["error"] = "vacuous: the end of the harness is unreachable"
        elif j["panics"] and not j["expected"]:
            rec["error"] = "vacuous: nothing panics"
        if thorough and "error" not in rec:
            r = cbmc(binary, kani, base, min(tmo(), 120), work, solver="z3", extra=["--slice-formula"] + bounds)
            rec["queries"] += 1
            rec["wall_s"] += r["wall"]
            if r["status"] == "done":
                a = {p["property"]: p["status"] for p in r["result"]}
                b = {p["property"]: p["status"] for p in j["checks"]}
                if any(a.get(k) != v for k, v in b.items()):
                    rec["error"] = "CaDiCaL and Z3 disagree"
                rec["cross"] = True
        os.unlink(binary)
    except CheckError as e:
        rec["error"] = str(e)
    except Exception as e:  # noqa: BLE001
        rec["error"] = "internal: %r" % e
    return rec


def location(p):
    l = p.get("sourceLocation", {})
    return l.get("file"), l.get("line"), l.get("function")


def loops(binary, kani):
    """The loops' names by their places in the source."""
    _, out = sh([os.path.join(kani, "bin", "cbmc"), "--show-loops", "--json-ui", binary], timeout=120)
    ids = {}
    try:
        for o in json.loads(out):
            for l in o.get("loops", []):
                ids.setdefault(location(l), []).append(l["name"])
    except ValueError:
        pass
    return ids


def counterexamples(binary, kani, unwind, tmo, work, cands, note=None, extra=()):
    """Concrete inputs for (some of) the failed checks, read off CBMC's traces."""
    out = []
    for p in cands[:3]:
        only = ["--property", p["property"]] if cls(p) != "unwind" else []  # those it does not know by name
        r = cbmc(binary, kani, unwind, tmo(), work, extra=["--trace"] + only + list(extra))
        c = {"description": p["description"].strip('"'), "class": cls(p), "values": None,
             "location": "%s:%s" % (p.get("sourceLocation", {}).get("file", "?"), p.get("sourceLocation", {}).get("line", "?")),
             "function": p.get("sourceLocation", {}).get("function", "?")}
        if note:
            c["description"] = note
        if r["status"] == "done":
            for q in r["result"]:
                if q["property"] == p["property"] and q["status"] == "FAILURE" and "trace" in q:
                    c["values"] = trace_values(q["trace"])
        out.append(c)
    return out


def trace_values(trace):
    vals = []
    for s in trace:
        if s.get("stepType") != "assignment" or not s.get("lhs", "").startswith("goto_symex$$return_value"):
            continue
        fn = s.get("sourceLocation", {}).get("function", "")
        if "any_raw_" not in fn:
            continue
        v = s.get("value", {})
        b = v.get("binary")
        if b is None:
            b = {"TRUE": "1", "FALSE": "0"}.get(str(v.get("data")).upper())
        if b is None:
            return None
        n = (len(b) + 7) // 8
        vals.append(int(b, 2).to_bytes(n, "little").hex())
    return vals


# ---------------------------------------------------------------- replay
def run_native(exe, harness, values, timeout=20):
    e = dict(os.environ, RUST_BACKTRACE="0")
    return sh([exe, harness] + (values or []), timeout=timeout, env=e)


def replay(features, harness, cex, exes):
    """Runs the counterexample on the real code. Returns the profiles in which it reproduces."""
    hits = []
    for profile in ("dev", "release"):
        if profile not in exes:
            exes[profile] = native(features, profile)
        rc, out = run_native(exes[profile], harness, cex["values"])
        if rc is None:
            hits.append((profile, "does not terminate within 20 s"))
        elif rc not in (0, 77, 78):
            last = [l for l in out.strip().splitlines() if l.strip() and not l.startswith("note:")]
            hits.append((profile, " | ".join(last[-4:])[:600] + " (status %d)" % rc))
            if features[0] == "c23":
                same, what = real_macro(out)
                if same is False:
                    hits.pop()
                elif same:
                    hits.append(("rustc", what))
        if hits:
            break
    return hits


SERDE_FOR_E = """impl serde::Serialize for E {
    fn serialize<X: serde::Serializer>(&self, ser: X) -> Result<X::Ok, X::Error> { ser.serialize_u32(*self as u32) }
}
impl<'de> serde::Deserialize<'de> for E {
    fn deserialize<X: serde::Deserializer<'de>>(_: X) -> Result<Self, X::Error> { panic!() }
}
"""


def real_crate(d, definition, checks):
    """A program with one enum definition, for rustc and the real macro."""
    os.mkdir(os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "real"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                'enumset = { path = "%s/enumset", features = ["serde", "alloc"] }\n'
                'serde = { version = "1", default-features = false }\n'
                'vh = { path = "%s/harness" }\n' % (REPO, VERIF))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("#![allow(unused)]\nuse enumset::*;\nconst K: isize = 77;\n#[derive(EnumSetType)]\n%s\n"
                'fn check(ok: bool, what: &str) { if !ok { println!("WRONG: {what}"); std::process::exit(3) } }\n'
                "fn main() {\n%s}\n" % (definition, checks))


def real_macro(out):
    """Gives the definition of a C23 counterexample to rustc and the real macro.

    True: the property is violated there too; False: it is not; None: too large to compile."""
    x = dict(re.findall(r"^([A-Z]+): ?(.*)$", out, re.M))
    if "DEFINITION" not in x or x["VALID"] == "moot":
        return None, ""
    names, discs = x["VARIANTS"].split(), [int(d) for d in x["DISCRIMINANTS"].split()]
    if max(discs + [0]) > 100000:
        return None, ""
    d = tempfile.mkdtemp(prefix="real-", dir=BUILD)
    try:
        checks = ""
        if x["VALID"] == "true":
            checks = 'check(std::mem::size_of::<EnumSet<E>>() == %s, "storage");\n' % x["SIZE"]
            checks += 'check(EnumSet::<E>::variant_count() == %d, "count");\n' % len(names)
            checks += 'check(EnumSet::<E>::bit_width() == %d, "bit width");\n' % (max(discs) + 1 if discs else 0)
            checks += 'check(EnumSet::<E>::all().iter().map(|v| v as u32).eq(%s), "variants");\n' % (
                "[%s]" % ", ".join("%du32" % v for v in sorted(discs)))
            for n, v in zip(names, discs):
                checks += 'check(E::%s as u32 == %d, "discriminant");\n' % (n, v)
                checks += 'check(EnumSet::only(E::%s).iter().next() == Some(E::%s), "conversion");\n' % (n, n)
            repr_ = re.search(r'enumset\(repr = "(u\d+)"', x["DEFINITION"])
            if repr_:
                checks += "fn f<T: EnumSetTypeWithRepr<Repr = %s>>() {} f::<E>();\n" % repr_.group(1)
            if names and max(discs) < 512:
                kind, item = {8: (1, 0), 16: (2, 0), 32: (3, 0), 64: (4, 0), 128: (5, 0), 2: (7, 3), 3: (8, 3),
                              4: (7, 4)}[int(x["SERDE"])]
                checks += ("let mut log = vh::mock::Log::new(usize::MAX);\n"
                           "let _ = serde::Serialize::serialize(&EnumSet::<E>::all(), vh::mock::Whole(&mut log));\n"
                           'check(log.kind == %d, "serialized form");\n' % kind)
                if item:
                    checks += 'check(log.item[0].0 == %d, "serialized items");\n' % item
        real_crate(d, x["DEFINITION"] + ("\n" + SERDE_FOR_E if names and x["VALID"] == "true" else ""), checks)
        base = ["cargo", "run", "--offline", "-q", "--target-dir", os.path.join(BUILD, "real")]
        rc, got = sh(base, timeout=300, cwd=d, env=env())
        if x["VALID"] == "true":
            bad = rc != 0
            what = "valid, but: " + ([l for l in got.splitlines() if re.match("error|WRONG|thread", l)] or ["?"])[0]
        else:
            bad = rc == 0 or "panicked" in got
            what = "not valid, but accepted" if rc == 0 else "the macro panicked"
        return bad, "%s: %s" % (x["DEFINITION"], what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def miri(features, harness, values):
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    rc, out = sh(["cargo", "miri", "run", "--offline", "--bin", "replay", "--target-dir", target_dir("miri", features),
                  "--features", ",".join(features), "--", harness] + values, timeout=400, cwd=crate(features), env=e)
    if rc not in (0, 77, 78, None) and "Undefined Behavior" in out:
        return [l for l in out.splitlines() if "Undefined Behavior" in l][0][:400]
    return None


def demangle(names):
    p = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), text=True, capture_output=True)
    return p.stdout.splitlines() if p.returncode == 0 else list(names)


# ---------------------------------------------------------------- driver
def check(pid, tier):
    t0 = time.time()
    cfg = PROPS[pid]
    thorough = tier == "thorough"
    features = [cfg["feature"]] + (["thorough"] if thorough else [])
    kani = kani_home()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-%s-" % pid, dir=BUILD)
    try:
        klib = os.path.join(work, "kani_lib.o")
        rc, out = sh([os.path.join(kani, "bin", "goto-cc"), os.path.join(kani, "library/kani/kani_lib.c"), "-c", "-o", klib])
        if rc != 0:
            raise CheckError("goto-cc: " + out)
        unmodelled = None
        while True:
            try:
                if unmodelled:
                    raise unmodelled
                hs = codegen(features, work)
            except Rejected as e:
                if not cfg.get("definitions"):
                    raise
                return rejected(pid, tier, cfg, features, str(e), t0)
            except Unmodelled as e:
                # Less, but not nothing: what the real macro generates for C13's definitions, by the same method.
                log("NOTE: %s\nNOTE: falling back to C13's definitions and a list of definitions for rustc" % e)
                rc, _ = sh(["cargo", "check", "--offline", "--target-dir", target_dir("native", ["c13"]), "-p", "enumset"],
                           timeout=600, cwd=crate(["c13"]), env=env())
                if rc != 0:
                    raise
                wrong = [(d, ok, w) for d, ok, w in ((d, ok, verdict(d, ok)) for d, ok in DEFINITIONS) if w]
                if wrong:
                    return rejected(pid, tier, cfg, ["c23"], "\n".join("%s: %s" % (d, w) for d, ok, w in wrong), t0,
                                    wrong)
                features = ["c13"] + features[1:]
                hs = codegen(features, work)
                cfg = dict(cfg, bounds=["FALLBACK, as the macro's source could not be encoded: " + str(e)[:600],
                                        "the definitions of C13, and accepting or rejecting %d definitions, by rustc" %
                                        len(DEFINITIONS)])
            if ONLY:
                hs = [h for h in hs if re.search(ONLY, h["name"])]
            if not hs:
                raise CheckError("no harnesses")
            if depends_on_debug_assertions():
                extra = codegen(features, work, release=True)
                hs += [h for h in extra if not ONLY or re.search(ONLY, h["name"])]
            t_codegen = time.time() - t0
            tmo = cfg.get("timeout", 400) * (6 if thorough else 1)
            # the slowest first, as measured when tool/times.json was written (VH_TIMES=1)
            times = json.load(open(os.path.join(VERIF, "tool", "times.json")))
            order = sorted(hs, key=lambda h: (h["release"], -times.get(h["name"], 0)))
            found = Reproduced(features)
            end = t0 + (6 * 3600 if thorough else 840)

            def one(h):
                if found.enough():
                    return {"harness": h["name"], "queries": 0, "solver_s": 0.0, "wall_s": 0.0, "skipped": True}
                left = end - time.time()
                if left < 5:
                    r = {"harness": h["name"], "queries": 0, "solver_s": 0.0, "wall_s": 0.0, "error": "out of time"}
                else:
                    r = run_harness(h, kani, klib, work, tmo, end, thorough, found)
                if h["release"]:
                    r["release"] = True
                if EXHAUSTED.match(r.get("error", "")):
                    r["unsolved"] = r.pop("error")
                found.consider(r)
                if STOP.is_set() and "error" in r:
                    r["skipped"] = True
                    del r["error"]
                return r

            with cf.ThreadPoolExecutor(JOBS) as ex:
                recs = list(ex.map(one, order))
            if features[0] != "c23" or found.violations or not found.unrepro:
                return conclude(pid, tier, cfg, features, hs, recs, t0, t_codegen, found)
            unmodelled = Unmodelled("counterexamples that rustc and the real macro do not confirm: " +
                                    "; ".join("%s: %s" % u for u in found.unrepro[:6]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for f in glob.glob(os.path.join(BUILD, "replay-*")):
            try:
                os.unlink(f)
            except OSError:
                pass


# Definitions at the boundaries of C23, for when its harnesses do not compile, and whether they are valid.
DEFINITIONS = [
    ("enum E {}", True), ("enum E { A }", True), ("enum E { A = 0xFFFFFFFF }", False),
    ("enum E { A = 0xFFFFFFC0 }", False), ("enum E { A = -1 }", False), ("enum E { A = 1 + 1 }", False),
    ("enum E { A = K }", False), ("enum E { A, B(u8) }", False), ("enum E { A, B {} }", False),
    ("enum E { A(), B }", False), ("enum E<T> { A }", False), ("struct E;", False), ("union E { a: u8 }", False),
    ("#[repr(u8)] enum E { A, B = 255 }", True), ("#[repr(i64)] enum E { A }", True), ("#[repr(C)] enum E { A, B }", True),
    ("#[enumset(repr = \"u8\")] enum E { A = 7 }", True), ("#[enumset(repr = \"u8\")] enum E { A = 8 }", False),
    ("#[enumset(repr = \"u16\")] enum E { A = 15 }", True), ("#[enumset(repr = \"u16\")] enum E { A = 16 }", False),
    ("#[enumset(repr = \"u32\")] enum E { A = 31 }", True), ("#[enumset(repr = \"u32\")] enum E { A = 32 }", False),
    ("#[enumset(repr = \"u64\")] enum E { A = 63 }", True), ("#[enumset(repr = \"u64\")] enum E { A = 64 }", False),
    ("#[enumset(repr = \"u128\")] enum E { A = 127 }", True), ("#[enumset(repr = \"u128\")] enum E { A = 128 }", False),
    ("#[enumset(repr = \"array\")] enum E { A = 1, B = 0 }", True), ("#[enumset(repr = \"u7\")] enum E { A }", False),
    ("#[enumset(serialize_repr = \"u8\")] enum E { A = 7 }", True),
    ("#[enumset(serialize_repr = \"u8\")] enum E { A = 8 }", False),
    ("#[enumset(serialize_repr = \"u64\")] enum E { A = 63 }", True),
    ("#[enumset(serialize_repr = \"u64\")] enum E { A = 64 }", False),
    ("#[enumset(serialize_repr = \"u128\")] enum E { A = 128 }", False),
    ("#[enumset(serialize_repr = \"nope\")] enum E { A }", False),
    ("#[enumset(nope)] enum E { A }", False),
]


def verdict(definition, valid):
    """What is wrong with the real macro's verdict on one definition, or None."""
    d = tempfile.mkdtemp(prefix="real-", dir=BUILD)
    try:
        real_crate(d, definition, "")
        rc, out = sh(["bash", "-c", 'ulimit -v 9000000; exec "$@"', "-", "cargo", "check", "--offline", "-q",
                      "--target-dir", os.path.join(BUILD, "real")], timeout=90, cwd=d, env=env())
        if "panicked" in out:
            return "the macro panicked"
        if rc is None or "memory allocation" in out:
            return None if valid else "not valid, but not rejected either"
        return None if (rc == 0) == valid else "valid, but rejected" if valid else "not valid, but accepted"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rejected(pid, tier, cfg, features, why, t0, wrong=None):
    """Definitions and expressions the documentation allows no longer compile (or `wrong` verdicts on some)."""
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
          "coverage": {"explanation": "No formula was built: the compiler's verdict on some definitions is not what "
                       "the property says.", "exhaustive": False, "errors": why},
          "assumptions": cfg["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 1}
    write_evidence(pid, ev)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-definitions.json" % pid)
    json.dump({"property": pid, "harness": None, "features": features, "values": [], "description":
               "wrong verdicts on definitions", "errors": why, "definitions": [w[:2] for w in wrong or []], "reproduced": [("rustc", why)],
               "how": "tool/run.py --replay " + path}, open(path, "w"), indent=1)
    log("  definitions are not accepted or rejected as the property says:\n" + why)
    log("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def write_evidence(pid, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


class Reproduced:
    """Replays counterexamples as they arrive, and says when there are enough violations to stop."""

    def __init__(self, features):
        self.features, self.exes, self.lock = features, {}, threading.Lock()
        self.violations, self.unrepro = [], []
        self.known = known_findings()

    def enough(self):
        return any((self.features[0].upper(), finding(r, c)) not in self.known for r, c, _ in self.violations)

    def reproduces(self, harness, c):
        with self.lock:
            return bool(replay(self.features, harness, c, self.exes))

    def consider(self, rec):
        for c in rec.get("cex", []):
            if c["values"] is None:
                continue
            with self.lock:
                if self.enough():
                    return
                try:
                    hits = replay(self.features, rec["harness"], c, self.exes)
                    if not hits and c["class"] not in ("assertion", "unwind"):
                        ub = miri(self.features, rec["harness"], c["values"])
                        if ub:
                            hits = [("miri", ub)]
                except CheckError as e:
                    rec["error"] = str(e)
                    return
                if hits:
                    self.violations.append((rec, c, hits))
                    if self.enough():
                        STOP.set()
                    return
                self.unrepro.append((rec["harness"], c["description"]))


def finding(rec, c):
    return "%s: %s" % (rec["harness"], c["description"])


def conclude(pid, tier, cfg, features, hs, recs, t0, t_codegen, found):
    violations, unrepro = found.violations, found.unrepro
    errors = [(r["harness"], r["error"]) for r in recs if "error" in r]
    skipped = sum(1 for r in recs if r.get("skipped"))
    # Harnesses for which time or memory ran out were not explored. A few are admitted, and named; without a verdict on
    # four fifths of the (first pass's) harnesses there is none at all.
    unsolved = [r for r in recs if r.get("unsolved") and not r.get("skipped")]
    if 5 * sum(1 for r in unsolved if not r.get("release")) > sum(1 for r in recs if not r.get("release")):
        errors += [(r["harness"], r["unsolved"]) for r in unsolved]
    obligations = sum(len(r["judge"]["checks"]) for r in recs if "judge" in r)
    failed = sum(len(r["judge"]["cand"]) + len(r["judge"]["unwind"]) for r in recs if "judge" in r)
    fns = set()
    for r in recs:
        fns |= r.get("functions", set())
    names = sorted(set(demangle(sorted(fns))))
    real = [n for n in names if "enumset::" in n or "derive::" in n or re.search(r"::(EnumSetType\w*)>?::", n)]
    shapes = sorted({r["harness"].split("::")[1] for r in recs})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
        "coverage": {
            "explanation": "Bounded model checking of the compiled Rust code: Kani's compiler lowers the MIR of the "
            "functions below, as monomorphised for each shape, to a goto program; CBMC unrolls it (unwinding "
            "assertions on) and CaDiCaL decides it. Every symbolic input is quantified over all its values; "
            "every harness has a reachability witness, which came back satisfied.",
            "exhaustive": False,
            "obligations": obligations,
            "discharged": obligations - failed - sum(len(r["judge"]["expected"]) for r in recs if "judge" in r),
            "expected_panics": sum(len(r["judge"]["expected"]) for r in recs if "judge" in r),
            "harnesses": len(recs) - skipped - len(unsolved),
            "harnesses_skipped_after_a_violation": skipped,
            "harnesses_not_explored": ["%s%s: %s" % (r["harness"], " (without debug assertions)" * bool(r.get("release")),
                                                     r["unsolved"]) for r in unsolved],
            "harnesses_solved_again_without_debug_assertions":
                sum(1 for r in recs if r.get("release") and "judge" in r and not r.get("unsolved")),
            "reachability_witnesses": sum(1 for r in recs if r.get("judge", {}).get("reached")),
            "solver_queries": sum(r["queries"] for r in recs),
            "solver_seconds": round(sum(r["solver_s"] for r in recs), 3),
            "cbmc_seconds": round(sum(r["wall_s"] for r in recs), 3),
            "codegen_seconds": round(t_codegen, 1),
            "cross_checked_with_z3": sum(1 for r in recs if r.get("cross")),
            "max_variables": max([r.get("variables", 0) for r in recs] or [0]),
            "max_clauses": max([r.get("clauses", 0) for r in recs] or [0]),
            "shapes": shapes,
            "unwind_per_harness": {r["harness"]: r.get("unwind") for r in recs},
            "bounds": cfg["bounds"],
            "functions_encoded": len(names),
            "functions_of_enumset_encoded": real[:400],
            "samples": [{"harness": r["harness"], "checks": sorted({p["description"].strip('"') for p in r["judge"]["checks"]
                        if cls(p) == "assertion"})[:8]} for r in recs[:3] if "judge" in r],
            "checker_cmd": "./check %s %s" % (pid, tier),
            "trusted_base": ["rustc and Kani's MIR-to-goto lowering", "CBMC 6.11 and CaDiCaL",
                             "the harness's reference model (harness/src/shapes.rs)"],
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    write_evidence(pid, ev)
    log("%s %s: %d harnesses, %d obligations, %d queries, solver %.1f s, codegen %.0f s, wall %.0f s" % (
        pid, tier, len(recs), obligations, ev["coverage"]["solver_queries"], ev["coverage"]["solver_seconds"],
        t_codegen, time.time() - t0))
    if os.environ.get("VH_TIMES"):  # development: remember the slow ones
        f = os.path.join(VERIF, "tool", "times.json")
        times = {k: v for k, v in json.load(open(f)).items() if not k.startswith(cfg["feature"] + "::")}
        times.update({r["harness"]: round(r["wall_s"]) for r in recs if r["wall_s"] > 3})
        json.dump(times, open(f, "w"), indent=0, sort_keys=True)
    if os.environ.get("VH_VERBOSE"):
        for r in sorted(recs, key=lambda r: -r["wall_s"])[:int(os.environ["VH_VERBOSE"])]:
            log("  %6.1f s  unwind %3s  %s %s" % (r["wall_s"], r.get("unwind"), r["harness"], r.get("error", "")))
    for r in unsolved:
        log("NOT-EXPLORED: %s: %s" % (r["harness"], r["unsolved"]))
    for n, d in unrepro:
        log("NOT-REPRODUCED: %s: %s" % (n, d))
    for n, e in errors:
        log("ERROR: %s: %s" % (n, e))
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        known = known_findings()
        fresh = 0
        for rec, c, hits in violations:
            key = finding(rec, c)
            if (pid, key) in known:
                log("KNOWN-FINDING: property=%s %s" % (pid, key))
                continue
            fresh += 1
            path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"\W+", "_", rec["harness"])))
            json.dump({"property": pid, "harness": rec["harness"], "features": features, "values": c["values"],
                       "description": c["description"], "class": c["class"], "at": c["location"],
                       "in": c["function"], "reproduced": hits,
                       "how": "tool/run.py --replay " + path}, open(path, "w"), indent=1)
            log("  %s: %s" % (rec["harness"], c["description"]))
            for prof, what in hits:
                log("    reproduced (%s): %s" % (prof, what))
            log("VIOLATION property=%s replay=%s" % (pid, path))
        if fresh:
            return 1
    if errors or unrepro:
        return 2
    return 0


def known_findings():
    """Lines `known: property=<id> <harness>: <check>` of KNOWN_FINDINGS; `fixed:` lines suppress nothing."""
    out = set()
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)$", l.strip())
            if m:
                out.add((m.group(1), m.group(2)))
    return out


def do_replay(path):
    r = json.load(open(path))
    bad = False
    if r["harness"] is None:
        if r.get("definitions"):
            why = "\n".join("%s: %s" % (d, verdict(d, ok)) for d, ok in r["definitions"] if verdict(d, ok))
        else:
            why = locked(lambda: rustc_rejects(r["features"]))
        log(why or "everything compiles")
        return 1 if why else 0
    for profile in ("dev", "release"):
        exe = native(r["features"], profile)
        rc, out = run_native(exe, r["harness"], r["values"])
        os.unlink(exe)
        log("[%s] exit %s\n%s" % (profile, rc, out))
        bad |= rc not in (0, 77, 78)
    if any(p == "miri" for p, _ in r["reproduced"]):
        ub = miri(r["features"], r["harness"], r["values"])
        log("[miri] %s" % ub)
        bad |= bool(ub)
    return 1 if bad else 0


def setup():
    kani_home()
    work = tempfile.mkdtemp(prefix="work-setup-", dir=os.makedirs(BUILD, exist_ok=True) or BUILD)
    try:
        codegen(["c01"], work)
        for p in ("dev", "release"):
            os.unlink(native(["c01"], p))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main(a):
    try:
        if a and a[0] == "--setup":
            return setup()
        if len(a) == 2 and a[0] == "--replay":
            return do_replay(a[1])
        if not a or a[0] not in PROPS:
            log(__doc__)
            return 2
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except CheckError as e:
        log("ERROR: %s" % e)
        return 2
    except Exception:  # a defect of this tool is not a verdict
        log("ERROR: internal\n" + traceback.format_exc())
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
