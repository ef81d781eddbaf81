#!/usr/bin/env python3
"""mkseed.py <id> <property> <needs> <breaks> : makes seeded/<id>/patch.diff from the edits in the scratch worktree given by SEED_TREE
(default /tmp/t/w, a worktree of /repo), then reverts the scratch tree.  seedtest.sh applies and tests it."""
import subprocess, sys, os, json
w = os.environ.get("SEED_TREE", "/tmp/t/w")
i, p, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", w, "diff", "--binary"], capture_output=True, check=True).stdout
assert diff, "no change in " + w
open(d + "/patch.diff", "wb").write(diff)
json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
