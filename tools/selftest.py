#!/usr/bin/env python3
"""Developer self-test: applies small source edits to a scratch copy and runs the checks on it.

tools/mutants.txt: blocks   @@ NAME EXPECT FILE   (EXPECT: property id, or 'quiet')
                            old text
                            ==>
                            new text
usage: selftest.py [name-prefix ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    for b in re.split(r"^@@ ", open(os.path.join(HERE, "tools", "mutants.txt")).read(), flags=re.M)[1:]:
        head, body = b.split("\n", 1)
        name, exp, f = head.split()
        edits = []
        for part in re.split(r"^&&\n", body, flags=re.M):
            old, new = part.split("\n==>\n") if "\n==>\n" in part else (part.split("==>\n")[0], part.split("==>\n")[1])
            edits.append((old.strip("\n"), new.rstrip("\n").lstrip("\n") if new.strip() else ""))
        out.append((name, exp, f, edits))
    return out


def run(m):
    name, exp, f, edits = m
    d = tempfile.mkdtemp(prefix="vmut")
    try:
        shutil.copytree(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, "src/litdata", f)
        s = open(p).read()
        for old, new in edits:
            if s.count(old) < 1:
                return f"BAD-EDIT {name}: text not found: {old[:60]!r}"
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return f"BAD-EDIT {name}: {e}"
        ids = [exp] if exp != "quiet" else sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, "rules")) if re.match(r"c\d\d\.py", x))
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, "ev"))
        res = []
        for i in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), i], env=env, capture_output=True, text=True)
            if exp == "quiet":
                if r.returncode != 0:
                    res.append(f"{i} rc={r.returncode} " + " / ".join(r.stdout.strip().splitlines()[1:4])[:400] + r.stderr[-200:])
            else:
                if r.returncode != 1:
                    res.append(f"{i} rc={r.returncode} {r.stdout[-200:]} {r.stderr[-200:]}")
        return f"{'ok  ' if not res else 'MISS' if exp != 'quiet' else 'NOISE'} {name} {exp} {res if res else ''}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ms = [m for m in load() if not sys.argv[1:] or any(m[0].startswith(a) or m[1] == a for a in sys.argv[1:])]
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(run, ms))
    for r in rs:
        if not r.startswith("ok"):
            print(r)
    print(sum(r.startswith("ok") for r in rs), "of", len(rs), "as expected")
