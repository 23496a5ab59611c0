#!/usr/bin/env python3
"""Development aid: behaviour-preserving edits.  Every check must stay quiet on each batch, with as much decided.
usage: refactor.py BATCH [PROPERTY...]     BATCH is a file of tools/refactors"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    batch, want = sys.argv[1], sys.argv[2:]
    d = tempfile.mkdtemp(prefix="ref")
    try:
        shutil.copytree("/repo", os.path.join(d, "r"), ignore=shutil.ignore_patterns(".git"))
        d2 = os.path.join(d, "r")
        with open(os.path.join(HERE, "refactors", batch), encoding="utf-8") as f:
            blocks = [b for b in f.read().split("\n====\n") if b.strip()]
        bad = 0
        for b in blocks:
            file, _, body = b.strip("\n").partition("\n")
            old, _, new = body.partition("\n----\n")
            path = os.path.join(d2, "rebulk", file)
            with open(path, encoding="utf-8") as f:
                s = f.read()
            if s.count(old) < 1:
                print("NOT FOUND", file, repr(old[:80]))
                bad += 1
                continue
            with open(path, "w", encoding="utf-8") as f:
                f.write(s.replace(old, new, 1))
        print(len(blocks), "edits,", bad, "not found")
        env = dict(os.environ, PYTHONPATH=d2)
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d2, env=env,
                           capture_output=True, text=True)
        print(r.stdout[-400:])
        if not want:
            sys.path.insert(0, ROOT)
            from sa.registry import PROPS
            want = list(PROPS)

        def one(p):
            r = subprocess.run([sys.executable, "-m", "sa", p], cwd=ROOT,
                               env=dict(os.environ, SA_REPO=d2, SA_EVIDENCE=os.path.join(d, "ev")), capture_output=True, text=True)
            return p, r

        with ThreadPoolExecutor(2) as pool:
            for p, r in pool.map(one, want):
                lines = r.stdout.strip().splitlines()
                print(p, "rc", r.returncode, lines[-1][:200] if lines else r.stderr[-300:], flush=True)
                if r.returncode:
                    for x in [x for x in lines if x.startswith("  ")][:3]:
                        print("   ", x[:300])
    finally:
        shutil.rmtree(d)


main()
