"""Completes /verif/seeded/ID: copies the demo kit and writes demo.sh.   usage: mkseed.py ID CRATE FILE"""
import os
import shutil
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(id, crate, file, feats=""):
    d = os.path.join(ROOT, "seeded", id)
    kit = os.path.join(d, "kit")
    shutil.rmtree(kit, ignore_errors=True)
    os.makedirs(kit + "/tools")
    shutil.copy(ROOT + "/tools/mkws.py", kit + "/tools/mkws.py")
    shutil.copy(ROOT + "/tools/seedkit/run.sh", kit + "/run.sh")
    shutil.copytree(ROOT + "/shims", kit + "/shims", ignore=shutil.ignore_patterns("target"))
    with open(d + "/demo.sh", "w") as f:
        f.write(f'#!/bin/bash\nexec bash "$(dirname "$0")/kit/run.sh" {crate} {file} {feats}\n')
    os.chmod(d + "/demo.sh", 0o755)


main(*sys.argv[1:])
