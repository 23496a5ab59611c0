#!/usr/bin/env python3
"""Development aid: one-edit changes of the package and the property each should break.
usage: mutants.py [PROPERTY...]   (scratch copies under /tmp; the registered checks always analyse /repo)"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load():
    out = []
    with open(os.path.join(HERE, "mutants.txt"), encoding="utf-8") as f:
        for block in f.read().split("\n====\n"):
            if not block.strip():
                continue
            head, _, body = block.strip("\n").partition("\n")
            props, file = head.rsplit(" ", 1)
            old, _, new = body.partition("\n----\n")
            out.append((props.split(), file, old, new))
    return out


def main():
    want = sys.argv[1:]
    missed = 0
    for props, file, old, new in load():
        for p in props:
            if want and p not in want:
                continue
            d = tempfile.mkdtemp(prefix="mut")
            try:
                shutil.copytree("/repo/rebulk", os.path.join(d, "rebulk"))
                path = os.path.join(d, "rebulk", file)
                with open(path, encoding="utf-8") as f:
                    s = f.read()
                if old not in s:
                    print("NOT-FOUND", p, file, repr(old[:60]))
                    continue
                with open(path, "w", encoding="utf-8") as f:
                    f.write(s.replace(old, new, 1))
                r = subprocess.run([sys.executable, "-m", "sa", p], cwd=ROOT, env=dict(os.environ, SA_REPO=d),
                                   capture_output=True, text=True)
                ok = r.returncode == 1
                missed += not ok
                last = [x for x in r.stdout.splitlines() if x.startswith("  ")][:1] or [r.stdout[-200:] + r.stderr[-200:]]
                print("caught" if ok else f"MISSED rc={r.returncode}", p, file, repr(new[:50]), "|", last[0][:170], flush=True)
            finally:
                shutil.rmtree(d)
    print("missed", missed)


main()
