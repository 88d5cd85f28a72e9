#!/usr/bin/env python3
"""Mirror the parts of /repo's working tree that the harness compiles into
harness/gen/ (ignored by git). A file is rewritten only when its content differs,
so cargo rebuilds exactly what changed in /repo, whatever the files' times say.

  gen/repo/...   verbatim copies
  gen/sub/...    copies in which `std::` reads `mcstd::` (controlled scheduler,
                 virtual clock, in-memory file system)
"""
import os, re, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
GEN = os.path.join(HERE, "harness", "gen")

COPY = ["crates", "editors/zed/src", "editors/code/src", "xtask/src", "docs/rules.qmd", "dist-workspace.toml"]
SUBST = {
    "editors/zed/src/lib.rs": "fakestd",
}
# whole crates
SUBST_DIRS = {"crates/jarl-lsp/src": "mcstd"}


def put(path, data, seen):
    seen.add(path)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def substitute(text, name):
    text = re.sub(r"(?<![\w:])(?:::)?std::", f"::{name}::", text)
    text = re.sub(r"(?<![\w:])(?:::)?core::sync::", f"::{name}::sync::", text)
    if name == "mcstd":
        text = re.sub(r"(?<![\w:])e?println!", f"::{name}::quiet!", text)
    return text


def main():
    seen = set()
    for c in COPY:
        src = os.path.join(REPO, c)
        files = []
        if os.path.isfile(src):
            files.append(src)
        for d, dirs, names in os.walk(src):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "node_modules", ".git"))
            files += [os.path.join(d, n) for n in sorted(names)]
        for f in files:
            if os.path.islink(f) or not os.path.isfile(f):
                continue
            with open(f, "rb") as h:
                put(os.path.join(GEN, "repo", os.path.relpath(f, REPO)), h.read(), seen)
    subst = dict(SUBST)
    for rel, name in SUBST_DIRS.items():
        for d, dirs, names in os.walk(os.path.join(REPO, rel)):
            subst.update((os.path.relpath(os.path.join(d, n), REPO), name) for n in names if n.endswith(".rs"))
    for rel, name in sorted(subst.items()):
        p = os.path.join(REPO, rel)
        if os.path.isfile(p):
            with open(p, encoding="utf-8") as h:
                put(os.path.join(GEN, "sub", rel), substitute(h.read(), name).encode(), seen)
    for d, dirs, names in os.walk(GEN):
        for n in names:
            p = os.path.join(d, n)
            if p not in seen:
                os.remove(p)


if __name__ == "__main__":
    main()
