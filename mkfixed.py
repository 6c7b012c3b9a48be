#!/usr/bin/env python3
"""Refresh the `fixed` list of known_findings.json from the fix: commits in /repo (run by hand)."""
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "known_findings.json")
data = json.load(open(path))
PROPS = """e32b111:C01 f279c4c:C05 d16530d:C04 671d271:C08 365777b:C08 1f44e0b:C04 627ca56:C08 8d2368d:C06 fbb8163:C15
0ea4edb:C09 104e2e2:C09 9af7d69:C11 e5f42e3:C14 43f4324:C14 f7ab892:C11 b2e370a:C07 96179f2:C17 d5e98b5:C10 869e539:C15 d0e3204:C07
d9f8275:C14 bf2b4c8:C17 b9890f8:C18 1b23a8b:C15 abddc0a:C15 3aaa646:C25 6421ae0:C15 e0c6d44:C17 75ec8b9:C12 6eb1f2c:C12 505d85e:C16 ed637df:C12"""
PROPS = dict(item.split(":") for item in PROPS.split())
extra = os.path.join(here, "fixprops.txt")
if os.path.exists(extra):
    PROPS.update(item.split(":") for item in open(extra).read().split())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep", "^fix:"], text=True)
have = {line.split()[2]: line for line in data["fixed"]}
out = []
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    if commit in have:
        out.append(have[commit])
    elif commit in PROPS:
        out.append(f"fixed: property={PROPS[commit]} {commit} defect repaired by \"{subject[5:]}\"")
    else:
        print("no property for", line)
data["fixed"] = out
json.dump(data, open(path, "w"), indent=1)
print(len(out))
