#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness and replays one violation, verbosely."""
import os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from config import CHECKS
path = sys.argv[1]
text = open(path).read()
if text.startswith("property") and " scenario " in text.splitlines()[0]:
    prop = text.split()[1]
    for p in CHECKS[prop]["parts"]:
        if p["kind"] != "sched": continue
        exe, err = check.build(p)
        if err: sys.exit(err)
        r = subprocess.run([exe, "replay", path, "-v"])
        if r.returncode in (0, 1): sys.exit(r.returncode)
    sys.exit(3)
m = re.match(r"property (\S+) part (\S+) tier (\S+) unit (\d+)", text)
for p in CHECKS[m.group(1)]["parts"]:
    if p["name"] == m.group(2):
        exe, err = check.build(p)
        if err: sys.exit(err)
        env = dict(os.environ); env.update(p.get("env", {}))
        sys.exit(subprocess.run([exe, "unit", m.group(4), "--tier", m.group(3)], env=env).returncode)
