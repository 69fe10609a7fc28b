#!/usr/bin/env python3
"""plant.py [names...]: makes seeded/<name>/ from the definitions in tools/bugs/*.py and tries them out
in scratch copies (/tmp/w/repo, /tmp/w/verif): build, tests, demo with and without, and the check."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, textwrap

V = "/verif"
W = os.environ.get("W", "/tmp/w")
REPO = f"{W}/repo"
bugs = {}


def bug(name, prop, file, old, new, needs, breaks, demo, more=()):
    bugs[name] = dict(prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo)


HEAD = """#!/bin/bash
# exit 0: the program behaves as it should
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR
R="$PWD"
D=$(mktemp -d) || exit 1
trap 'rm -rf "$D"' EXIT
"""


def cli(files, args, want, status=None, absent=()):
    """run the command line program in a scratch directory; every string of `want` has to be in its output"""
    s = HEAD + "cargo build -q --offline --bin ginko || exit 1\ncd \"$D\" || exit 1\n"
    for n, t in files.items():
        if "/" in n:
            s += f'mkdir -p "{os.path.dirname(n)}"\n'
        s += f"cat > '{n}' <<'EOT'\n{t}" + ("" if t.endswith("\n") else "\n") + "EOT\n"
    s += f'timeout 60 "$R/target/debug/ginko" {args} > out.txt 2> err.txt\nrc=$?\ncat out.txt\n'
    if status is not None:
        s += f'[ $rc -eq {status} ] || {{ echo "status $rc"; exit 1; }}\n'
    s += "[ $rc -le 1 ] || { echo \"status $rc\"; exit 1; }\n"
    for w in want:
        s += f"grep -qF -- '{w}' out.txt || {{ echo 'missing: {w}'; exit 1; }}\n"
    for w in absent:
        s += f"! grep -qF -- '{w}' out.txt || {{ echo 'unexpected: {w}'; exit 1; }}\n"
    return {"demo.sh": s + "exit 0\n"}


def rust(code):
    """a program against the library; ends with a panic when something is wrong"""
    s = HEAD + """mkdir -p "$D/src"
cp "$(dirname "$0")/main.rs" "$D/src/main.rs" || exit 1
cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ginko = { path = "$R/ginko" }
EOT
cd "$D" && CARGO_TARGET_DIR="$D/target" timeout 280 cargo run -q --offline
rc=$?
[ $rc -eq 0 ] || exit 1
exit 0
"""
    return {"demo.sh": s, "main.rs": textwrap.dedent(code)}


def lsp(code):
    """a python program that talks to the language server"""
    s = HEAD + """cargo build -q --offline --bin ginko_ls || exit 1
HERE=$(cd "$(dirname "$0")" && pwd)
timeout 120 python3 "$HERE/client.py" "$R/target/debug/ginko_ls" "$D" || exit 1
exit 0
"""
    lib = '''import json, subprocess, sys, os, threading, queue
class S:
    def __init__(self, init={}):
        self.p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue(); self.n = 0; self.diags = {}; self.count = 0
        threading.Thread(target=self.reader, daemon=True).start()
        self.request("initialize", {"capabilities": {}, "initializationOptions": init})
        self.notify("initialized", {})
    def reader(self):
        o = self.p.stdout
        while True:
            n = 0
            while True:
                l = o.readline()
                if not l: self.q.put(None); return
                l = l.strip()
                if not l: break
                if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
            self.q.put(json.loads(o.read(n)))
    def send(self, v):
        b = json.dumps(v).encode()
        self.p.stdin.write(b"Content-Length: %d\\r\\n\\r\\n" % len(b) + b); self.p.stdin.flush()
    def notify(self, m, p): self.send({"jsonrpc": "2.0", "method": m, "params": p})
    def recv(self):
        v = self.q.get(timeout=30)
        assert v is not None, "the server ended"
        if v.get("method") == "textDocument/publishDiagnostics":
            self.diags[v["params"]["uri"]] = v["params"]["diagnostics"]; self.count += 1
        return v
    def request(self, m, p):
        self.n += 1
        n = self.n
        self.send({"jsonrpc": "2.0", "id": n, "method": m, "params": p})
        while True:
            v = self.recv()
            if v.get("id") == n: return v.get("result")
    def wait(self, n):
        while self.count < n: self.recv()
    def open(self, name, text, n=1):
        c = self.count
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri(name), "languageId": "dts", "version": 1, "text": text}})
        self.wait(c + n)
    def change(self, name, texts, n=1):
        c = self.count
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri(name), "version": 2}, "contentChanges": [{"text": t} for t in texts]})
        self.wait(c + n)
def uri(name): return "file://" + os.path.join(os.path.realpath(sys.argv[2]), name)
'''
    return {"demo.sh": s, "client.py": lib + textwrap.dedent(code)}


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def envc():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", VERIF_SEED="1", VERIF_TIER="quick")
    e.pop("RUSTFLAGS", None)
    return e


def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(REPO):
        subprocess.run(["cp", "-a", "/repo", REPO], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", REPO)
    sh(f"mkdir -p {W}/verif && rsync -a --delete --exclude replay --exclude .git --exclude evidence --exclude build/work {V}/ {W}/verif/ || cp -a {V} {W}/", "/")


def blame_ok(name, b):
    """every changed line has to be one of the original repository"""
    ok = True
    base = sh("git rev-list --max-parents=0 HEAD", REPO).stdout.split()[0]
    for f in {e[0] for e in b["edits"]}:
        d = sh(f"git diff -U0 -- {f}", REPO).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            l, n = int(m.group(1)), int(m.group(2) or 1)
            if n:
                o = sh(f"git blame -s -l HEAD -L {l},{l+n-1} -- {f}", REPO).stdout
                if any(not x.lstrip("^").startswith(base[:39]) for x in o.splitlines()):
                    ok = False
    return ok


def make(name):
    b = bugs[name]
    d = f"{V}/seeded/{name}"
    sh("git checkout -q -- .", REPO)
    for f, old, new in b["edits"]:
        p = f"{REPO}/{f}"
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return f"{name}: the text to change occurs {n} times in {f}"
        open(p, "w").write(s.replace(old, new))
    if not blame_ok(name, b):
        sh("git checkout -q -- .", REPO)
        return f"{name}: changes lines that are not original"
    patch = sh("git diff", REPO).stdout
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/patch.diff", "w").write(patch)
    for n, t in b["demo"].items():
        open(f"{d}/{n}", "w").write(t)
        os.chmod(f"{d}/{n}", 0o755 if n == "demo.sh" else 0o644)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # with the change
    r = sh("cargo test --workspace --no-fail-fast --offline -q 2>&1", REPO, env=envc())
    if r.returncode != 0:
        open(f"{W}/{name}.log", "w").write(r.stdout)
        shutil.rmtree(d)
        sh("git checkout -q -- .", REPO)
        return f"{name}: NOT KEPT, tests or build fail ({W}/{name}.log)"
    r = sh(f"bash {d}/demo.sh", REPO, env=envc())
    if r.returncode == 0:
        shutil.rmtree(d)
        return f"{name}: NOT KEPT, the demo does not fail: {r.stdout[-800:]} {r.stderr[-300:]}"
    why = (r.stdout + r.stderr)[-200:]
    sh("git checkout -q -- .", REPO)
    r = sh(f"bash {d}/demo.sh", REPO, env=envc())
    if r.returncode != 0:
        return f"{name}: BAD DEMO, fails on the unchanged tree: {r.stdout[-800:]} {r.stderr[-800:]}"
    return None


def check(name, props=None):
    d = f"{V}/seeded/{name}"
    meta = json.load(open(f"{d}/meta.json"))
    out = []
    sh("git checkout -q -- .", REPO)
    r = sh(f"git apply {d}/patch.diff", REPO)
    if r.returncode:
        return f"{name}: the patch does not apply"
    for p in props or [meta["property"]]:
        r = sh(f"python3 check.py {p}", f"{W}/verif", env=envc())
        last = (r.stdout.strip().splitlines() or [""])[-1]
        how = "MISSED" if r.returncode == 0 else "caught" if r.returncode == 1 and "VIOLATION" in last else f"ERROR {r.returncode} {r.stderr[-300:]}"
        if how == "caught" and last.endswith("no-failing-input-found"):
            how = "caught (proof only)"
        fo = [l for l in r.stdout.splitlines() if l.startswith("failed obligation")]
        out.append(f"{p} {how}" + (f" [{fo[0][18:90]}]" if fo else ""))
    sh("git checkout -q -- .", REPO)
    return f"{name}: " + ", ".join(out)


def main():
    for f in sorted(glob.glob(f"{V}/tools/bugs/*.py")):
        exec(compile(open(f).read(), f, "exec"), globals())
    a = sys.argv[1:]
    only_check = "--check" in a
    only_make = "--make" in a
    a = [x for x in a if not x.startswith("--")]
    names = a or [n for n in bugs if not os.path.isdir(f"{V}/seeded/{n}")]
    if only_check and not a:
        names = sorted(os.listdir(f"{V}/seeded"))
    setup()
    for n in names:
        if not only_check:
            e = make(n)
            if e:
                print(e, flush=True)
                continue
        if only_make:
            print(f"{n}: made", flush=True)
        else:
            print(check(n), flush=True)


main()
