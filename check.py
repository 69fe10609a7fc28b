#!/usr/bin/env python3
"""check.py ID: decides one property on the current tree of /repo.

1. the functions of /repo are extracted with their contracts and given to Verus (proof part);
2. the conformance harness searches for an input of the real code that breaks the property
   (replay of failed obligations; bounded stand-in for what is not under contract).

exit 0: holds on everything explored; exit 1 + VIOLATION line: broken.
"""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.normpath(os.path.join(VERIF, "..", "repo"))
BUILD = os.path.join(VERIF, "build")
T0 = time.time()
HARD = float(os.environ.get("CHECK_HARD_LIMIT", "820"))

ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
PROPS = json.load(open(f"{VERIF}/contracts/props.json"))
P = PROPS[ID]
WORKERS = 6
SECONDS = {"quick": P.get("quick_s", 20), "thorough": P.get("thorough_s", 300)}[TIER]
WORK = f"{BUILD}/work/{ID}-{os.getpid()}"
NOTES = []


def note(s):
    NOTES.append(s)
    print(f"note: {s}", flush=True)


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def left():
    return HARD - (time.time() - T0)


def run(cmd, cwd=VERIF, e=None, timeout=None):
    """(rc, stdout, stderr); rc None on a timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, er = p.communicate(timeout=max(1, min(timeout or 1e9, left())))
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, er = p.communicate()
        return None, o, er


# ---------------------------------------------------------------------------------------------
# builds

def build_extractor():
    rc, o, e = run(["cargo", "build", "--offline", "--release", "-q"], cwd=f"{VERIF}/tools/extract",
                   e=env(CARGO_TARGET_DIR=f"{BUILD}/extract"), timeout=400)
    return rc == 0, e


def build_harness():
    rc, o, e = run(["cargo", "build", "--offline", "-q"], cwd=f"{VERIF}/harness",
                   e=env(CARGO_TARGET_DIR=f"{BUILD}/harness", RUSTFLAGS="--cfg ginko_verif"), timeout=500)
    return rc == 0, e


def build_bins():
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--bins"], cwd=REPO,
                   e=env(CARGO_TARGET_DIR=f"{BUILD}/bins"), timeout=500)
    return rc == 0, e


# ---------------------------------------------------------------------------------------------
# proof part

class Proof:
    def __init__(self):
        self.ok = False           # Verus accepted the file and generated obligations
        self.undecided = None     # reason
        self.stubbed = []
        self.failed = {}          # key -> message
        self.rlimit = []
        self.functions = {}       # gen path -> success
        self.smt_ms = 0.0
        self.verified = 0
        self.errors = 0
        self.map = {}
        self.canary = None
        self.stderr = ""
        self.lost = []


def extract(stubs, extra=None):
    a = [f"{BUILD}/extract/release/extract", "--repo", REPO, "--contracts", f"{VERIF}/contracts",
         "--out", f"{WORK}/gen.rs", "--map", f"{WORK}/map.json"]
    for s in stubs:
        a += ["--stub", s]
    e = env()
    e.pop("EXTRACT_CANARY", None)
    if extra:
        e.update(extra)
    return run(a, e=e, timeout=120)


# the modules whose functions a module calls (their contracts are assumed in it, so they are proved along with it)
NEEDS = {
    "spec": [], "dts::data": ["spec"], "dts::reader": ["dts::data"], "dts::tokens::token": ["dts::data"],
    "lex": ["dts::tokens::token"], "dts::tokens::lexer": ["lex", "dts::reader", "dts::diagnostics"],
    "dts::error_codes": ["spec"], "dts::diagnostics": ["dts::error_codes", "dts::data"],
    "fmt": ["spec"], "dts::ast": ["dts::tokens::token", "lex", "fmt"], "gram": ["lex", "dts::ast"],
    "dts::parser": ["gram", "dts::tokens::lexer", "dts::ast", "dts::diagnostics"],
    "dts::import_guard": ["spec"], "tree": ["lex", "dts::ast"], "dts::visitor": ["tree", "dts::data", "dts::ast"],
    "host": ["spec", "dts::ast"], "anal": ["host", "tree"], "aview": ["anal", "gram", "dts::import_guard"],
    "dts::analysis": ["aview", "dts::ast", "dts::diagnostics", "dts::import_guard"],
    "okay": ["gram", "tree"], "proj": ["anal", "okay"], "hist": ["proj"],
    "dts::project": ["hist", "dts::analysis", "dts::visitor", "dts::parser"],
    "lsp": ["host"], "ls::server": ["lsp", "dts::project"],
}
SMT = ["--smt-option", "smt.case_split=1", "--smt-option", "smt.phase_selection=0"]


def modules():
    """the modules this property's proof takes in; none: all of them"""
    todo = sorted({p.split("/")[0] for p in P.get("own", [])})
    got = []
    while todo:
        m = todo.pop()
        if m not in NEEDS:
            return []
        if m not in got:
            got.append(m)
            todo += NEEDS[m]
    return sorted(got)


def verus(args, timeout=500):
    for m in modules():
        args = args + ["--verify-only-module", m]
    rc, o, e = run(["verus", "gen.rs", "--output-json", "--time-expanded", "--num-threads", "8"] + SMT + args,
                   cwd=WORK, timeout=timeout)
    j = None
    i = o.find("{\n")
    if i >= 0:
        try:
            j = json.loads(o[i:])
        except ValueError:
            j = None
    return rc, j, e


def errors_of(stderr, spans):
    """[(message, [lines], block)] of the error messages"""
    out = []
    blocks = re.split(r"\n(?=error|warning|note: )", "\n" + stderr)
    for b in blocks:
        b = b.strip("\n")
        if not b.startswith("error"):
            continue
        first = b.split("\n")[0]
        if first.startswith("error: aborting"):
            continue
        lines = [int(x) for x in re.findall(r"-->\s+\S*gen\.rs:(\d+):", b)]
        out.append((first, lines, b))
    return out


def key_at(spans, line):
    for s in spans:
        if s["start"] <= line <= s["end"] and s["key"]:
            return s
    return None


def breakdown(j):
    fs, smt = {}, 0.0
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            ok = f.get("success", False)
            fs[f["function"]] = fs.get(f["function"], True) and ok
            smt += f.get("time-micros", 0) / 1000.0
    return fs, smt


def prove(pr):
    ok, e = build_extractor()
    if not ok:
        pr.undecided = "the extractor does not build: " + e[-500:]
        return
    for rnd in range(8):
        rc, o, e = extract(pr.stubbed)
        if rc != 0:
            pr.undecided = "extraction failed: " + e[-500:]
            return
        pr.map = json.load(open(f"{WORK}/map.json"))
        pr.lost = pr.map.get("lost", []) + pr.map.get("missing", [])
        rc, j, err = verus([], timeout=300)
        pr.stderr = err
        if rc is None:
            pr.undecided = "Verus timed out"
            return
        res = (j or {}).get("verification-results", {})
        errs = errors_of(err, pr.map["spans"])
        if res and not res.get("encountered-vir-error", True) and res.get("verified", 0) > 0:
            pr.ok = True
            pr.verified, pr.errors = res.get("verified", 0), res.get("errors", 0)
            pr.functions, pr.smt_ms = breakdown(j)
            collect(pr, errs)
            break
        # the code is outside of what Verus understands: leave the functions concerned out
        new = []
        for first, lines, b in errs:
            for l in lines[:1]:
                s = key_at(pr.map["spans"], l)
                if s and s["kind"] in ("fn", "free") and s["key"] not in pr.stubbed and s["key"] not in new:
                    new.append(s["key"])
        if not new:
            pr.undecided = "Verus rejects the extracted code: " + (errs[0][2][:600] if errs else err[-600:])
            return
        note(f"outside of the verifier's reach in this tree: {', '.join(new)}")
        pr.stubbed += new
    else:
        pr.undecided = "Verus rejects the extracted code"
        return
    if pr.failed or pr.rlimit:
        # a second look with more resources and another seed before anything is called a failure
        rc, j, err = verus(["--rlimit", "80"], timeout=250)
        res = (j or {}).get("verification-results", {})
        if rc is not None and res.get("verified", 0) > 0:
            pr.failed, pr.rlimit = {}, []
            pr.verified, pr.errors = res.get("verified", 0), res.get("errors", 0)
            pr.functions, ms = breakdown(j)
            pr.smt_ms += ms
            pr.stderr = err
            collect(pr, errors_of(err, pr.map["spans"]))
    if not pr.failed and not pr.rlimit and TIER == "thorough":
        canary(pr)


def collect(pr, errs):
    for first, lines, b in errs:
        s = key_at(pr.map["spans"], lines[0]) if lines else None
        key = s["key"] if s else "?"
        if "rlimit" in first or "Resource limit" in b:
            pr.rlimit.append(key)
        else:
            # the first location of a failed precondition is the call, of a postcondition the ensures clause
            for l in lines:
                s2 = key_at(pr.map["spans"], l)
                if s2 and s2["kind"] in ("fn", "free"):
                    key = s2["key"]
                    break
            pr.failed.setdefault(key, []).append(b)


def canary(pr):
    """every function under contract must reach its body: with `assert(false)` in front each one fails"""
    rc, o, e = extract(pr.stubbed, {"EXTRACT_CANARY": "1"})
    if rc != 0:
        return
    m = json.load(open(f"{WORK}/map.json"))
    rc, j, err = verus([], timeout=300)
    if not j:
        return
    hit = set()
    for first, lines, b in errors_of(err, m["spans"]):
        for l in lines:
            s = key_at(m["spans"], l)
            if s:
                hit.add(s["key"])
    want = {s["key"] for s in m["spans"] if s["kind"] == "fn" and s["key"] in m["calls"]}
    dead = sorted(want - hit)
    pr.canary = {"functions": len(want), "reachable": len(want) - len(dead), "vacuous": dead}
    if dead:
        note("vacuous contracts: " + ", ".join(dead))
    extract(pr.stubbed)


def mine(key, pats):
    return any(fnmatch.fnmatchcase(key, p) for p in pats)


def closure(pr, pats):
    """the functions the property's own functions call, transitively (by name)"""
    by_name = {}
    for k in pr.map.get("calls", {}):
        by_name.setdefault(re.split(r"::|/", k)[-1], []).append(k)
    todo = [k for k in pr.map.get("calls", {}) if mine(k, pats)]
    seen = set(todo)
    while todo:
        k = todo.pop()
        for c in pr.map["calls"].get(k, []):
            for t in by_name.get(c, []):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
    return seen


# ---------------------------------------------------------------------------------------------
# search part

class Search:
    def __init__(self):
        self.built = False
        self.why = ""
        self.found = None         # dict(what, case, cmd)
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.known = []


def conform(args):
    return [f"{BUILD}/harness/debug/conform"] + args


def henv():
    return env(CONFORM_GINKO=f"{BUILD}/bins/debug/ginko", CONFORM_LSP=f"{BUILD}/bins/debug/ginko_ls",
               TMPDIR=WORK)


def search(sr):
    ok, e = build_harness()
    if not ok:
        sr.why = "the harness does not build against this tree: " + e[-800:]
        return
    if P.get("bins"):
        ok, e = build_bins()
        if not ok:
            sr.why = "the programs do not build: " + e[-800:]
            return
    sr.built = True
    procs = []
    for w in range(WORKERS):
        seed = SEED * 1000 + w
        st = f"{WORK}/state{w}"
        open(st, "w").close()
        out = open(f"{WORK}/out{w}", "w")
        p = subprocess.Popen(conform(["run", ID, str(seed), str(SECONDS), st]), cwd=WORK, env=henv(),
                             stdout=out, stderr=subprocess.DEVNULL, start_new_session=True)
        procs.append({"p": p, "seed": seed, "st": st, "out": f"{WORK}/out{w}", "last": "", "t": time.time(), "done": False})
    stall = P.get("stall_s", 40)
    while any(not x["done"] for x in procs):
        time.sleep(0.2)
        for x in procs:
            if x["done"]:
                continue
            rc = x["p"].poll()
            if rc is None:
                cur = open(x["st"]).read().strip()
                if cur != x["last"]:
                    x["last"], x["t"] = cur, time.time()
                elif time.time() - x["t"] > stall:
                    kill(x["p"])
                    x["done"] = True
                    confirm(sr, x, f"does not come to an end within {stall} s")
                continue
            x["done"] = True
            line = open(x["out"]).read().strip().split("\n")[-1]
            try:
                j = json.loads(line)
            except ValueError:
                j = None
            if rc == 0 and j:
                sr.evaluations += j["evaluations"]
                sr.distinct += j["distinct"]
                sr.samples += j["samples"][:1]
            elif rc == 1 and j:
                sr.evaluations += j["fail"] + 1
                report(sr, x["seed"], j["fail"], j["what"], j["case"])
            else:
                confirm(sr, x, f"ends the process (status {rc})")
        if sr.found:
            for x in procs:
                if not x["done"]:
                    kill(x["p"])
                    x["done"] = True
    for k in P.get("known", []):
        known(sr, k)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def report(sr, seed, index, what, case):
    if not sr.found:
        sr.found = {"seed": seed, "index": index, "what": what, "case": case,
                    "cmd": f"conform one {ID} {seed} {index}"}


def confirm(sr, x, how):
    """a case that ended or blocked the worker: once more on its own"""
    n = open(x["st"]).read().strip() or "0"
    rc, o, e = run(conform(["one", ID, str(x["seed"]), n]), cwd=WORK, e=henv(), timeout=60)
    if rc == 0:
        note(f"case {n} of seed {x['seed']} was interrupted ({how}) but passes on its own")
        return
    if rc == 1:
        report(sr, x["seed"], int(n), o[-2000:], o)
        return
    # twice is no accident
    rc, o, e = run(conform(["one", ID, str(x["seed"]), n]), cwd=WORK, e=henv(), timeout=60)
    if rc not in (0, 1):
        report(sr, x["seed"], int(n), f"the code under test {how}", o + e)


def known(sr, k):
    """a listed finding: still there, or not"""
    rc, o, e = run(conform(["known", k["id"]]), cwd=WORK, e=henv(), timeout=60)
    if rc != 0:
        print(f"KNOWN-FINDING: property={ID} {k['what']}", flush=True)
        sr.known.append(k["id"])


# ---------------------------------------------------------------------------------------------

def main():
    os.makedirs(WORK, exist_ok=True)
    pr, sr = Proof(), Search()
    crash = []

    def guard(f, x):
        try:
            f(x)
        except Exception as ex:  # an error of the machinery decides nothing
            crash.append(f"{f.__name__}: {type(ex).__name__}: {ex}")

    own = P.get("own", [])
    a = threading.Thread(target=guard, args=(prove, pr)) if own else None
    b = threading.Thread(target=guard, args=(search, sr))
    for t in (a, b):
        if t:
            t.start()
    for t in (a, b):
        if t:
            t.join()
    for c in crash:
        note("machinery: " + c)
    verdict(pr, sr, own, crash)


def verdict(pr, sr, own, crash):
    failed_own, failed_dep, undecided = {}, {}, []
    if own:
        if pr.undecided:
            undecided.append(pr.undecided)
        uncontracted = set(re.split(r"::|/", k)[-1] for k in pr.map.get("uncontracted", []))
        deps = closure(pr, own) if pr.map else set()
        for k, msgs in pr.failed.items():
            if k == "?" or k in pr.map.get("uncontracted", []):
                undecided.append(f"{k}: an obligation of a function without contract fails")
                continue
            calls = pr.map.get("calls", {}).get(k, [])
            fresh = [c for c in calls if c in uncontracted]
            lost = [l for l in pr.lost if l.startswith(k + ":")]
            if fresh:
                undecided.append(f"{k}: calls {', '.join(fresh)}, for which there is no contract")
            elif lost:
                undecided.append(f"{k}: an anchor of its proof was lost")
            elif mine(k, own):
                failed_own[k] = msgs
            elif k in deps:
                failed_dep[k] = msgs
        for l in pr.lost:
            if ": derive(" in l:
                undecided.append(f"{l} is relied on and is gone")
        for k in pr.rlimit:
            undecided.append(f"{k}: resource limit")
        for k in pr.stubbed:
            if mine(k, own) or k in deps:
                undecided.append(f"{k}: outside of the verifier's reach in this tree")
        for u in undecided:
            note("undecided: " + u.replace("\n", " ")[:300])
        for k in failed_dep:
            note(f"an obligation of {k}, on which this property depends, fails")
    if not sr.built:
        note("no search: " + sr.why[:600])
    violation = None
    if sr.found:
        violation = write_replay(pr, sr, failed_own or failed_dep)
        line = f"VIOLATION property={ID} replay={violation}"
    elif failed_own:
        violation = write_replay(pr, sr, failed_own)
        line = f"VIOLATION property={ID} replay={violation} no-failing-input-found"
    evidence(pr, sr, own, undecided, failed_own, failed_dep, violation, crash)
    shutil.rmtree(WORK, ignore_errors=True)
    if violation:
        if sr.found:
            print(sr.found["what"][:3000])
        for k in failed_own:
            print(f"failed obligation: {k}: {pr.failed[k][0].splitlines()[0]}")
        print(line, flush=True)
        sys.exit(1)
    n = sum(1 for f in pr.functions.values() if f)
    print(f"{ID}: no violation; {n} of {len(pr.functions)} proof obligations discharged, {sr.evaluations} cases, {time.time()-T0:.0f} s", flush=True)
    sys.exit(0)


def write_replay(pr, sr, failed):
    d = f"{VERIF}/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{ID}-{SEED}-{int(time.time())}.txt"
    with open(path, "w") as f:
        f.write(f"property {ID}\n\n")
        if sr.found:
            x = sr.found
            f.write(f"repeat with: cd {VERIF} && CONFORM_GINKO={BUILD}/bins/debug/ginko CONFORM_LSP={BUILD}/bins/debug/ginko_ls "
                    f"{BUILD}/harness/debug/{x['cmd']}\n\nwhat fails:\n{x['what']}\n\ncase:\n{x['case']}\n\n")
        else:
            f.write("no failing input was found; failed obligations:\n\n")
        for k, msgs in failed.items():
            f.write(f"obligation of {k} (contract in contracts/, code in /repo):\n")
            for m in msgs:
                f.write(m + "\n\n")
    return path


def gen_name(key):
    mod, _, item = key.partition("/")
    m = re.match(r"<(\w+)(?:<.*>)? as (\w+)(?:<.*>)?>::(\w+)$", item)
    if m:
        return None, mod, m.group(3)
    return f"gen::{mod}::{item}", mod, item.split("::")[-1]


def trusted_base(pr):
    out = [f"trusted contract: {t}" for t in pr.map.get("trusted", [])]
    out += [f"not extracted: {t}" for t in pr.map.get("drops", [])]
    out += [f"rewritten: {t}" for t in pr.map.get("rewrites", [])]
    out += [f"stub: {t}" for t in pr.stubbed]
    # mechanical scan for assumptions in the contracts
    n = 0
    for root, _, files in os.walk(f"{VERIF}/contracts"):
        for fn in sorted(files):
            if not fn.endswith((".rs", ".vc")):
                continue
            text = open(f"{root}/{fn}").read()
            for m in re.finditer(r"\b(admit\(|assume\(|assume_specification|external_body|axiom fn|external_type_specification|external_fn_specification|uninterp)\b[^\n]*", text):
                n += 1
                out.append(f"assumption in {fn}: {m.group(0).strip()[:140]}")
    out += ["Verus 0.2026.09.13 and vstd, Z3; rustc; the extractor tools/extract"]
    return out


def evidence(pr, sr, own, undecided, failed_own, failed_dep, violation, crash):
    level = P["level"]
    deps = closure(pr, own) if own and pr.map else set()
    fns = sorted(k for k in deps if k in pr.map.get("contracted", []))
    own_fns = sorted(k for k in fns if mine(k, own))
    cov = {
        "evaluations": sr.evaluations,
        "distinct_nontrivial": sr.distinct,
        "rule": P.get("rule", "generated by the grammar-based generators of harness/src/gen.rs from VERIF_SEED; non-trivial: the input has at least 8 characters (texts) or one file (projects) and differs from the others of this run"),
        "samples": sr.samples[:3] or ["none"],
    }
    if own:
        cov.update({
            "obligations": len(pr.functions),
            "discharged": sum(1 for v in pr.functions.values() if v),
            "checker_cmd": "verus gen.rs --output-json --time-expanded --num-threads 8 --smt-option smt.case_split=1 (gen.rs: tools/extract --repo /repo --contracts contracts)",
            "trusted_base": trusted_base(pr),
            "back_end": "Verus / Z3",
            "solver_ms": round(pr.smt_ms),
            "functions_under_contract_for_this_property": own_fns,
            "functions_under_contract_it_depends_on": [k for k in fns if k not in own_fns],
            "failed": sorted(failed_own) + sorted(failed_dep),
            "undecided": undecided,
            "bounded_stand_in": P.get("bounded", ""),
        })
        if pr.canary:
            cov["vacuity"] = pr.canary
    else:
        cov["explanation"] = P.get("bounded", "")
    ev = {
        "property": ID, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
        "coverage": cov,
        "assumptions": P.get("assumptions", []) + NOTES,
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if violation else 0,
    }
    if sr.known:
        ev["coverage"]["known_findings"] = sr.known
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    tmp = f"{VERIF}/evidence/.{ID}.{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{VERIF}/evidence/{ID}.json")


main()
