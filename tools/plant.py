#!/usr/bin/env python3
"""Development aid: plant changes described on stdin as /verif/seeded/<id>/ after confirming them in a scratch copy.

blocks separated by a line '@@@@':
ID C07-a
PROPERTY C07
NEEDS ...
BREAKS ...
FILE rebulk/x.py
<<<<
old text
====
new text
>>>>
DEMO
python program (exits nonzero when the property is broken)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=300):
    e = {k: v for k, v in os.environ.items() if k not in ("REBULK_REGEX_ENABLED", "REBULK_CHECK_DECLARED_KEYS")}
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def tests(copy):
    base = dict(PYTHONPATH=copy, PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PYTHONDONTWRITEBYTECODE="1")
    jobs = []
    for extra, args in (({}, []), ({"REBULK_REGEX_ENABLED": "1"}, []),
                        ({"REBULK_CHECK_DECLARED_KEYS": "1"}, ["--ignore=README.md"])):
        e = {k: v for k, v in os.environ.items() if not k.startswith("REBULK")}
        e.update(base)
        e.update(extra)
        jobs.append(subprocess.Popen([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout",
                                      "--timeout=120", "-x", *args], cwd=copy, env=e, stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT, text=True))
    out = []
    for j in jobs:
        try:
            o, _ = j.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            j.kill()
            out.append("no end within 200 s")
            continue
        if j.returncode:
            out.append("\n".join(x for x in o.splitlines() if "FAILED" in x or "Error" in x)[:600] or o[-600:])
    return out


def plant(text):
    head, _, demo = text.partition("\nDEMO\n")
    meta = dict(re.findall(r"^(ID|PROPERTY|NEEDS|BREAKS) (.*)$", head, re.M))
    copy = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", copy + "/r"], check=True)
        r = copy + "/r"
        for part in re.split(r"^FILE ", head, flags=re.M)[1:]:
            file, _, rest = part.partition("\n")
            p = os.path.join(r, file.strip())
            s = open(p, encoding="utf-8").read()
            for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", rest, re.S):
                if s.count(old) != 1:
                    return meta, f"old text found {s.count(old)} times: {old[:80]!r}"
                s = s.replace(old, new)
            open(p, "w", encoding="utf-8").write(s)
        diff = sh(["git", "diff"], r).stdout
        if not diff:
            return meta, "no change"
        d = os.path.join(copy, "seed")
        os.makedirs(d)
        open(d + "/demo.py", "w").write(demo.strip("\n") + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 60 '
                                        '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        good = sh(["bash", d + "/demo.sh"], "/repo")
        if good.returncode:
            return meta, "demo fails on the unchanged tree\n" + good.stdout[-500:] + good.stderr[-800:]
        bad = sh(["bash", d + "/demo.sh"], r)
        if bad.returncode == 0:
            return meta, "demo passes with the change\n" + bad.stdout[-500:]
        fails = tests(r)
        if fails:
            return meta, "existing tests fail\n" + "\n".join(fails)
        dest = os.path.join(ROOT, "seeded", meta["ID"])
        os.makedirs(dest, exist_ok=True)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(d, f), os.path.join(dest, f))
        open(dest + "/patch.diff", "w").write(diff)
        json.dump({"property": meta["PROPERTY"], "needs": meta["NEEDS"], "what_it_breaks": meta["BREAKS"]},
                  open(dest + "/meta.json", "w"), indent=1)
        c = sh([sys.executable, "-m", "sa", meta["PROPERTY"]], ROOT, {"SA_REPO": r}, 900)
        return meta, ("CAUGHT" if c.returncode == 1 else f"missed rc={c.returncode}") + " | " + \
            " ".join(x.strip() for x in c.stdout.splitlines() if x.startswith("  "))[:200]
    finally:
        shutil.rmtree(copy)


def main():
    for block in sys.stdin.read().split("\n@@@@\n"):
        if block.strip():
            meta, msg = plant(block.strip("\n"))
            print(meta.get("ID"), msg, flush=True)


main()
