#!/usr/bin/env python3
"""selftest/c.py good|bad [name ...]: applies an edit set to a scratch copy of /repo and runs checks on it.
good sets keep the behaviour (confirmed by known answers): every check must stay quiet."""
import importlib.util, os, shutil, subprocess, sys, glob
here = os.path.dirname(os.path.abspath(__file__))

def load(f):
    s = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m

def apply(edits, tree, only=None):
    for n, (f, old, new, cnt) in enumerate(edits):
        if only is not None and n not in only: continue
        p = os.path.join(tree, f)
        t = open(p, newline="").read().replace("\r\n", "\n")
        if isinstance(old, tuple):
            i = t.index(old[0]); j = t.index(old[1], i) if old[1] else len(t)
            t = t[:i] + new + t[j:]
        else:
            assert old in t, (n, f, old)
            t = t.replace(old, new) if cnt == 0 else t.replace(old, new, cnt)
        open(p, "w", newline="").write(t)

def tree(name, edits, only=None, base="/tmp/selftest-c"):
    d = os.path.join(base, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
    shutil.copytree(os.environ.get("SELFTEST_BASE", "/repo"), d, ignore=shutil.ignore_patterns("_build", ".git", "*.o", "*.a"))
    apply(edits, d, only)
    return d

if __name__ == "__main__":
    m = load(os.path.join(here, "c", sys.argv[1] + ".py"))
    only = set(int(x) for x in sys.argv[2].split(",")) if len(sys.argv) > 2 else None
    print(tree(sys.argv[1], m.E, only))
