#!/usr/bin/env python3
"""Run checks against the planted changes in seeded/ (development only; no
check uses this).

  seedrun.py [--all] [ID-PREFIX...]   apply each to /repo, run its property's
                                      check (--all: every check), undo it, and
                                      record the outcome in tools/seed_results.json
  seedrun.py --table                  rewrite the table at the end of DESIGN.md
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, RES = "/repo", os.path.join(HERE, "tools", "seed_results.json")
SEEDS = os.path.join(HERE, "seeded")

def load():
    return json.load(open(RES)) if os.path.exists(RES) else {}

def ids():
    return sorted(d for d in os.listdir(SEEDS) if os.path.exists(f"{SEEDS}/{d}/meta.json"))

def meta(i):
    return json.load(open(f"{SEEDS}/{i}/meta.json"))

def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True)

def run(i, props):
    assert not git("status", "--porcelain").stdout.strip(), "/repo is not clean"
    r = git("apply", f"{SEEDS}/{i}/patch.diff")
    if r.returncode:
        print(i, "does not apply:", r.stderr)
        return None
    out = {}
    try:
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, f"{HERE}/check.py", p], cwd=HERE, capture_output=True,
                               text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            viol = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={p} ")]
            out[p] = "caught" if r.returncode == 1 and viol else "missed" if r.returncode == 0 else f"exit {r.returncode}"
            print(f"{i:28} {p} {out[p]:8} {time.time() - t:5.1f} s", flush=True)
            if out[p].startswith("exit"):
                print(r.stdout[-600:], r.stderr[-1500:])
    finally:
        git("checkout", "--", ".")
    return out

def table():
    res = load()
    rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    for i in ids():
        m, r = meta(i), res.get(i, {})
        by = ", ".join(p for p in sorted(r) if r[p] == "caught") or "-"
        rows.append(f"| {i} | {m['property']} | {m['needs']} | {by} |")
    p = f"{HERE}/DESIGN.md"
    s = open(p).read()
    mark = "<!-- seeds -->"
    s = s[: s.index(mark)] if mark in s else s.rstrip() + "\n\n"
    open(p, "w").write(s + mark + "\n\n" + "\n".join(rows) + "\n")

def main():
    a = sys.argv[1:]
    if a == ["--table"]:
        return table()
    every = "--all" in a
    a = [x for x in a if not x.startswith("--")]
    allp = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
    for i in ids():
        if a and not any(i.startswith(x) for x in a):
            continue
        own = meta(i)["property"]
        out = run(i, allp if every else [own])
        if out is not None:
            res = load()
            res[i] = {**res.get(i, {}), **out}
            json.dump(res, open(RES, "w"), indent=1, sort_keys=True)

main()
