#!/usr/bin/env python3
"""Makes a planted bug: mkseed.make(id, property, [(file, old, new)...], needs, breaks, demo.rs, deps).
Confirms it in /repo (applied, built, tested, demonstrated, undone)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# Builds the program beside this file against /repo's sources and runs it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here"/demo.rs "$work/src/main.rs"
cp "$here"/Demo.toml "$work/Cargo.toml"
cd "$work"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
if ! cargo build -q --offline 2> "$work/log"; then cat "$work/log"; exit 3; fi
exec_rc=0
timeout 120 "$work/target/debug/demo" || exec_rc=$?
exit $exec_rc
'''
DEPS = {"lsp-server": '"0.7"', "lsp-types": '"0.95"', "crossbeam": '"0.8"', "anyhow": '"1.0"', "tracing": '"0.1"',
        "serde": '{ version = "1.0", features = ["derive"] }', "serde_json": '"1.0"',
        "regex": '{ version = "1.11.1", default-features = false, features = ["std"] }',
        "path-absolutize": '{ version = "3.1.1", features = ["once_cell_cache"] }',
        "tracing-subscriber": '"0.3.20"', "zed_extension_api": '"0.2.0"'}


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def make(id, prop, edits, needs, breaks, demo, deps=(), extra=None, demo_sh=None, force=False):
    d = f"{V}/seeded/{id}"
    if os.path.exists(d + "/meta.json") and not force:
        return
    os.makedirs(d, exist_ok=True)
    if extra:
        for n, t in extra.items():
            open(f"{d}/{n}", "w").write(t)
    open(d + "/demo.sh", "w").write(demo_sh or DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    if demo:
        open(d + "/demo.rs", "w").write(demo)
        open(d + "/Demo.toml", "w").write(
            '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n'
            + "".join(f"{x} = {DEPS[x]}\n" for x in deps))
    assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == ""
    ok = True
    r = sh("bash", d + "/demo.sh", cwd="/repo")
    if r.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN", r.returncode, r.stdout[-1500:], r.stderr[-1500:]); ok = False
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "pattern count", s.count(old), f); return
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh("bash", "/opt/vp/build.sh")
        if b.returncode != 0:
            print(id, "BUILD", b.stdout[-1500:], b.stderr[-1500:]); ok = False
        else:
            sh("bash", "/opt/vp/test.sh", "/tmp/o.json")
            o = json.load(open("/tmp/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            failed = o.get("failed", o)
            if isinstance(failed, list) and failed:
                print(id, "TESTS FAIL", failed); ok = False
            r = sh("bash", d + "/demo.sh", cwd="/repo")
            if r.returncode in (0, 3):
                print(id, "DEMO DOES NOT FAIL", r.returncode, r.stdout[-1500:], r.stderr[-800:]); ok = False
            c = sh("./check", prop, "quick", cwd=V)
            caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
            print(id, prop, "caught" if caught else f"MISSED rc={c.returncode}", "|", r.stdout.strip()[-120:], r.stderr.strip()[-160:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    if ok:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    else:
        print(id, "NOT KEPT")


DEMO_CLI = '''#!/bin/bash
# Builds jarl from /repo's sources with the small stand-ins (beside this file)
# for the crates that are not available offline, and runs demo.py with it in a
# scratch directory.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/b" "$work/run"
tar xzf "$here/bundle.tgz" -C "$work/b"
cd "$work/b"
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true
if ! cargo build -q --offline -p jarl --bin jarl 2> "$work/log"; then tail -50 "$work/log"; exit 3; fi
export JARL="$work/target/debug/jarl" HOME="$work/run/home" NO_COLOR=1
unset XDG_CONFIG_HOME || true
mkdir "$HOME" "$work/run/p"
cp "$here/demo.py" "$work/run/demo.py"
cd "$work/run/p"
rc=0
timeout 100 python3 ../demo.py || rc=$?
exit $rc
'''
PRELUDE = '''import json, os, subprocess, sys
def write(path, text):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(text)
def read(path):
    with open(path, newline="") as f:
        return f.read()
def jarl(*args):
    return subprocess.run([os.environ["JARL"], "check", *args], capture_output=True, text=True)
def lint(*args):
    """(file, line, column, rule) of everything that is reported."""
    r = jarl(*args, "--output-format", "json")
    d = json.loads(r.stdout)["diagnostics"]
    return sorted((x["filename"], x["location"]["row"], x["location"]["column"], x["message"]["name"]) for x in d)
def expect(got, want):
    if got != want:
        sys.exit(f"got {got!r} instead of {want!r}")
class Server:
    def __init__(self, encodings=("utf-16",)):
        self.p = subprocess.Popen([os.environ["JARL"], "server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.n = 0
        self.request("initialize", {"processId": None, "rootUri": None, "capabilities": {"general": {"positionEncodings": list(encodings)}}})
        self.send({"method": "initialized", "params": {}})
    def send(self, m):
        b = json.dumps({"jsonrpc": "2.0", **m}).encode()
        self.p.stdin.write(b"Content-Length: %d\\r\\n\\r\\n" % len(b) + b)
        self.p.stdin.flush()
    def receive(self):
        n = 0
        while True:
            l = self.p.stdout.readline().strip()
            if not l:
                break
            if l.lower().startswith(b"content-length:"):
                n = int(l.split(b":")[1])
        return json.loads(self.p.stdout.read(n))
    def until(self, want):
        while True:
            m = self.receive()
            if want(m):
                return m
    def request(self, method, params):
        self.n += 1
        n = self.n
        self.send({"id": n, "method": method, "params": params})
        return self.until(lambda m: m.get("id") == n and "method" not in m).get("result")
    def open(self, path, text):
        uri = "file://" + os.path.abspath(path)
        self.send({"method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri, "languageId": "r", "version": 1, "text": text}}})
        self.send({"method": "textDocument/didSave", "params": {"textDocument": {"uri": uri}}})
        return uri, self.until(lambda m: m.get("method") == "textDocument/publishDiagnostics" and m["params"]["uri"] == uri)["params"]["diagnostics"]
    def end(self):
        self.request("shutdown", None)
        self.send({"method": "exit"})
        self.p.wait(20)
'''


def make_cli(id, prop, edits, needs, breaks, script, force=False):
    d = f"{V}/seeded/{id}"
    if os.path.exists(d + "/meta.json") and not force:
        return
    os.makedirs(d, exist_ok=True)
    shutil.copy("/tmp/demo/bundle.tgz", d + "/bundle.tgz")
    make(id, prop, edits, needs, breaks, None, extra={"demo.py": PRELUDE + script}, demo_sh=DEMO_CLI, force=True)
