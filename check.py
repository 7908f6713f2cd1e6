#!/usr/bin/env python3
"""Check one property: build the harness against /repo, run its case
generators on all cores, merge the counts, write the evidence file.

exit 0: the property held on everything explored
exit 1: a violation, with a line VIOLATION property=<id> replay=<path>
exit 2: the check could not be carried out
"""
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
HARNESS = os.path.join(HERE, "harness")
CORES = os.cpu_count() or 8

# seconds of coverage-guided search per property: quick, thorough
GUIDED = (16, 400)
# seconds of generation per property: quick, thorough
BUDGET = {"default": (60, 600)}
# how many times the base number of random cases
SCALE = {"C01": 4, "C03": 1, "C04": 1, "C05": 3, "C19": 1, "C23": 1, "C24": 1, "C25": 1, "default": 8}
MEM = 8 << 30
# properties of the update tool
NEED_UPDATE = ("C23", "C24")


ASSUME = {
    "all": ["the oracle in /verif/harness (written independently of the code under test) states the property correctly"],
}


def die(msg):
    print(f"CHECK-ERROR: {msg}", flush=True)
    sys.exit(2)


PROFILE = {"A": "checked", "B": "release", "G": "guided"}


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["RUST_MIN_STACK"] = str(8 << 20)
    return e


def source_stamp():
    h = hashlib.sha256()
    for top in ("src", "update/src"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    for f in ("Cargo.toml", "update/Cargo.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def run_build(args, what, extra=None):
    e = env()
    e.update(extra or {})
    r = subprocess.run(args, cwd=HARNESS, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:] + r.stderr[-8000:])
        die(f"building {what} failed")


def build(variants):
    """Build what is needed from the working tree; returns {variant: binary}."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = source_stamp()
        bins = {}
        for v in variants:
            prof = PROFILE[v]
            mark = os.path.join(TARGET, f"stamp.{v}")
            old = open(mark).read() if os.path.exists(mark) else ""
            if old != stamp:
                # cargo goes by modification times; we go by content
                subprocess.run(
                    ["cargo", "clean", "--offline", "--profile", prof, "-p", "cfg-expr", "-p", "cfgprop"],
                    cwd=HARNESS, env=env(), capture_output=True)
            cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", prof]
            if v != "B":
                cmd += ["--features", "targets"]
            # coverage counters come in through the wrapper
            wrap = {"RUSTC_WRAPPER": os.path.join(HERE, "tools", "covwrap")} if v == "G" else {}
            run_build(cmd, f"the harness ({prof})", wrap)
            with open(mark, "w") as f:
                f.write(stamp)
            # a copy of its own: a later build for another tree must not replace a running check
            src = os.path.join(TARGET, prof, "cfgprop")
            dst = os.path.join(TARGET, f"cfgprop-{v}-{stamp[:16]}")
            if not os.path.exists(dst) or old != stamp or os.path.getmtime(dst) < os.path.getmtime(src):
                for f in os.listdir(TARGET):
                    if f.startswith(f"cfgprop-{v}-") and f != os.path.basename(dst):
                        os.unlink(os.path.join(TARGET, f))
                tmp = dst + ".tmp"
                shutil.copy2(src, tmp)
                os.replace(tmp, dst)
            bins[v] = dst
        return bins, stamp


def build_update():
    """The update tool, from the working tree; returns its path."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = source_stamp()
        dst = os.path.join(TARGET, f"update-{stamp[:16]}")
        if not os.path.exists(dst):
            for f in os.listdir(TARGET):
                if f.startswith("update-"):
                    os.unlink(os.path.join(TARGET, f))
            ed = "2021"
            m = re.search(r'^edition\s*=\s*"(\d+)"', open(os.path.join(REPO, "update/Cargo.toml")).read(), re.M)
            if m:
                ed = m.group(1)
            run_build(["rustc", "--edition", ed, "--crate-name", "update", "--crate-type", "bin", "-Copt-level=1",
                       "-Cdebug-assertions=yes", "--cap-lints", "allow", "-o", dst + ".tmp",
                       os.path.join(REPO, "update/src/main.rs")], "the update tool")
            os.replace(dst + ".tmp", dst)
        return dst


# ---- the words, characters and numbers of the sources under test, for the generators

LIT = re.compile(
    r"""//[^\n]*|/\*.*?\*/"""
    r"""|b?r(#*)"(?P<raw>.*?)"\1"""
    r"""|b?"(?P<str>(?:[^"\\]|\\.)*)\""""
    r"""|b?'(?P<chr>(?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)))'"""
    r"""|(?<![\w.])(?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.]*\w)""",
    re.S)
ESC = re.compile(r"\\(u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|\n\s*|(.))", re.S)


def unescape(t):
    def f(m):
        if m.group(2):
            n = int(m.group(2).replace("_", ""), 16)
            return chr(n) if n < 0x110000 and not 0xD800 <= n < 0xE000 else ""
        if m.group(3):
            return chr(int(m.group(3), 16))
        if m.group(4):
            return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(4), m.group(4))
        return ""
    return ESC.sub(f, t)


def dictionary():
    """One line per entry: kind (s text, w word, c character, n number) and the entry in hex."""
    texts, words, chars, nums = set(), set(), set(), set()
    for top in ("src", "update/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(".rs") or f == "builtins.rs":
                    continue
                with open(os.path.join(d, f), encoding="utf-8", errors="replace") as fh:
                    src = fh.read()
                words.update(re.findall(r"\b(?:Abi|Arch|Env|Family|Os|Panic|Vendor)::([a-z_]\w*)", src))
                for m in LIT.finditer(src):
                    t = m.group("raw") if m.group("raw") is not None else None
                    if m.group("str") is not None:
                        t = unescape(m.group("str"))
                    if t is not None:
                        if 0 < len(t) <= 80:
                            texts.add(t)
                        words.update(w for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", t) if len(w) <= 40)
                    elif m.group("chr") is not None:
                        chars.add(unescape(m.group("chr")))
                    elif m.group("num") is not None:
                        n = m.group("num").replace("_", "")
                        try:
                            v = int(n, 0) if n.startswith(("0x", "0b", "0o")) else int(n)
                        except ValueError:
                            continue
                        if 2 < v <= 70000:
                            nums.add(v)
    lines = [("s", t) for t in sorted(texts)] + [("w", t) for t in sorted(words)] + \
            [("c", t) for t in sorted(chars) if len(t) == 1] + [("n", str(v)) for v in sorted(nums)]
    return "".join(f"{k} {t.encode().hex()}\n" for k, t in lines)


def write_dictionary(path):
    tmp = f"{path}.{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        f.write(dictionary())
    os.replace(tmp, path)
    return path


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def one(binary, prop, sub, data, timeout=60):
    """Run one case by itself: (fails, message, case)."""
    try:
        r = subprocess.run([binary, "one", prop, sub], input=data.hex(), env=env(), text=True,
                           capture_output=True, timeout=timeout, preexec_fn=limits, errors="replace")
    except subprocess.TimeoutExpired:
        return True, f"no answer within {timeout} s", ""
    m = re.search(r"^case: (.*?)(?=^holds|^FAILS|\Z)", r.stdout, re.M | re.S)
    case = m.group(1).strip() if m else ""
    if r.returncode == 0:
        return False, "", case
    if r.returncode == 1:
        m = re.search(r"^FAILS: (.*)", r.stdout, re.M | re.S)
        return True, (m.group(1).strip() if m else "failed"), case
    if r.returncode < 0 or r.returncode in (101, 134, 139):
        tail = (r.stderr.strip().splitlines() or [""])[-1]
        how = f"signal {-r.returncode}" if r.returncode < 0 else f"status {r.returncode}"
        return True, f"the process ended by {how}: {tail[:300]}", case
    die(f"one {prop} {sub}: status {r.returncode}: {r.stderr[-2000:]}")


def shrink_out(binary, prop, sub, data, seconds):
    """Shrink a case which takes its process down, one process per attempt."""
    t0 = time.time()
    cur = data
    size = max(1, len(cur) // 2)
    while size >= 1 and time.time() - t0 < seconds:
        i = 0
        while i < len(cur) and time.time() - t0 < seconds:
            c = cur[:i] + cur[i + size:]
            if one(binary, prop, sub, c, 10)[0]:
                cur = c
            else:
                i += size
        size //= 2
    for i in range(len(cur)):
        if time.time() - t0 > seconds:
            break
        if cur[i]:
            c = cur[:i] + b"\0" + cur[i + 1:]
            if one(binary, prop, sub, c, 10)[0]:
                cur = c
    return cur


def write_replay(path, prop, sub, variant, data, case, msg):
    with open(path, "w") as f:
        json.dump({"property": prop, "sub": sub, "variant": variant, "bytes": data.hex(),
                   "case": case[:4000], "message": msg[:4000]}, f, indent=1, ensure_ascii=False)
        f.write("\n")


def complete_replay(src, dst, dic):
    """The choices mean the same only with the same dictionary."""
    v = json.load(open(src))
    v["dictionary"] = open(dic).read()
    with open(dst, "w") as f:
        json.dump(v, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return v


def known_findings():
    """Lines `KNOWN property=<id> key=<key> <text>` of the known-findings file."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN property=(C\d+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    bins, stamp = build(["A", "B"])
    subs, enum_of, guided = [], {}, False
    r = subprocess.run([bins["A"], "list"], capture_output=True, text=True, env=env())
    for line in r.stdout.splitlines():
        p, name, both, kind, guide = line.split("\t")
        if p == prop:
            guided |= guide == "true"
            enum_of[name] = kind == "enum"
            subs.append((name, both == "true"))
    if not subs:
        die(f"no generator for {prop}")
    if prop in NEED_UPDATE:
        os.environ["CFGPROP_UPDATE"] = build_update()
    guided_s = float(os.environ.get("CFGPROP_GUIDED", GUIDED[thorough]))
    guided = guided and guided_s > 0
    if guided:
        bins.update(build(["G"])[0])
    build_s = time.time() - t0
    quick_s, thorough_s = BUDGET.get(prop, BUDGET["default"])
    deadline = thorough_s if thorough else quick_s
    if os.environ.get("CFGPROP_DEADLINE"):
        deadline = float(os.environ["CFGPROP_DEADLINE"])
    if any(b for _, b in subs):
        nb = max(1, CORES * 3 // 8)
        plan = [("A", i, max(1, CORES - nb)) for i in range(max(1, CORES - nb))] + \
               [("B", i, nb) for i in range(nb)]
    else:
        plan = [("A", i, CORES) for i in range(CORES)]
    out = os.path.join(OUT, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    e = env()
    e["CFGPROP_OUT"] = out
    e["CFGPROP_VERIF"] = HERE
    e["CFGPROP_REPO"] = REPO
    e["CFGPROP_DICT"] = write_dictionary(os.path.join(out, "dictionary"))
    e["CFGPROP_KNOWN"] = ";".join(k for p, k, _ in known_findings() if p == prop)
    procs = []

    def start(v, i, n, extra):
        cmd = [bins[v], "worker", "--prop", prop, "--variant", v, "--shard", str(i), "--shards", str(n),
               "--seed", str(seed), "--out", out, "--scale", str(SCALE.get(prop, SCALE["default"]))] + extra
        if thorough:
            cmd.append("--thorough")
        err = open(os.path.join(out, f"{v}{i}.stderr"), "w")
        procs.append({"tag": f"{v}{i}", "variant": v, "err": err, "last": None, "at": time.time(),
                      "p": subprocess.Popen(cmd, env=e, stdout=err, stderr=err, preexec_fn=limits)})

    def place(w):
        try:
            with open(os.path.join(out, w["tag"] + ".progress")) as f:
                return f.read().split()
        except OSError:
            return None

    def case_at(w, here):
        """The generator and the choices a worker was at."""
        if w["variant"] == "G":
            with open(os.path.join(out, w["tag"] + ".bytes"), "rb") as f:
                d = f.read()
            return here[0], d[4:4 + int.from_bytes(d[:4], "little")]
        r = subprocess.run([bins[w["variant"]], "bytes", "--prop", prop, "--variant", w["variant"],
                            "--index", here[0], "--seed", str(seed), "--case", here[1].rstrip("s")],
                           capture_output=True, text=True, env=env())
        name, hx = (r.stdout.split() + [""])[:2]
        return name, bytes.fromhex(hx)

    own = {k: e[k] for k in ("CFGPROP_OUT", "CFGPROP_VERIF", "CFGPROP_REPO", "CFGPROP_KNOWN", "CFGPROP_DICT")}

    def watch():
        """Until all workers are through: (violation file, what went wrong)."""
        hang = 90
        live = [w for w in procs if w["p"].poll() is None or w["last"] is None]
        while live:
            time.sleep(0.05)
            for w in list(live):
                rc = w["p"].poll()
                here = place(w)
                if here != w["last"]:
                    w["last"], w["at"] = here, time.time()
                hung = rc is None and time.time() - w["at"] > hang
                if rc is None and not hung:
                    continue
                live.remove(w)
                if rc == 0:
                    continue
                vio = os.path.join(out, w["tag"] + ".violation")
                if rc == 1 and os.path.exists(vio):
                    return vio, None
                # the process died or does not come back: which case was it?
                if hung:
                    w["p"].kill()
                    w["p"].wait()
                if not here:
                    return None, f"worker {w['tag']} ended with {rc}"
                name, data = case_at(w, here)
                b = bins[w["variant"]]
                os.environ.update(own)
                bad, msg, case = one(b, prop, name, data, 45)
                if not bad:
                    return None, (f"worker {w['tag']} ended with {'a hang' if hung else rc} at {name} {here}, "
                                  "which passes by itself")
                small = shrink_out(b, prop, name, data, 60) if not enum_of.get(name) else data
                bad, msg2, case2 = one(b, prop, name, small, 45)
                if bad:
                    data, msg, case = small, msg2, case2
                write_replay(vio, prop, name, w["variant"], data, case, msg)
                return vio, None
        return None, None

    for v, i, n in plan:
        start(v, i, n, ["--deadline", str(deadline)])
    violation, broken = watch()
    if guided and not violation and not broken:
        for i in range(CORES):
            start("G", i, CORES, ["--guided", "--deadline", str(guided_s)])
        violation, broken = watch()
        if violation:
            # the same choices mean the same to the build without counters
            v = json.load(open(violation))
            os.environ.update(own)
            bad, msg, case = one(bins["A"], prop, v["sub"], bytes.fromhex(v["bytes"]), 45)
            if bad:
                write_replay(violation, prop, v["sub"], "A", bytes.fromhex(v["bytes"]), case, msg)
    for w in procs:
        if w["p"].poll() is None:
            w["p"].kill()
            w["p"].wait()
        w["err"].close()
    if broken:
        for w in procs:
            with open(os.path.join(out, w["tag"] + ".stderr")) as f:
                sys.stdout.write(f.read()[-1500:])
        die(broken)

    # merge
    per = {}
    for w in procs:
        p = os.path.join(out, w["tag"] + ".stats")
        if not os.path.exists(p):
            continue
        for st in json.load(open(p)):
            d = per.setdefault(st["sub"], {"cases": 0, "rule": st["rule"], "kind": st["kind"], "skipped": 0,
                                           "comparisons": 0, "labels": {}, "samples": [], "seen": [],
                                           "planned": {}})
            d["cases"] += st["cases"]
            d["skipped"] += st["skipped"]
            d["comparisons"] += st["compared"]
            d["planned"][w["tag"] if w["variant"] == "G" else w["variant"]] = st["total"]
            for k, n in st["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + n
            d["samples"] += st["samples"]
            d["seen"].append(os.path.join(out, f"{w['tag']}.{st['sub']}.seen"))
    for d in per.values():
        r = subprocess.run([bins["A"], "distinct"] + d["seen"], capture_output=True, text=True, env=env())
        d["distinct"] = int(r.stdout)
        for f in d["seen"]:
            os.unlink(f)
    total = sum(d["cases"] for d in per.values())
    distinct = sum(d["distinct"] for d in per.values())
    groups, samples, rules = [], [], []
    for name, d in per.items():
        planned = sum(d["planned"].values())
        groups.append({"generator": name, "kind": d["kind"], "cases": d["cases"], "planned": planned,
                       "complete": d["cases"] >= planned, "distinct_nontrivial": d["distinct"],
                       "outside_domain": d["skipped"], "oracle_comparisons": d["comparisons"],
                       "labels": d["labels"], "rule": d["rule"], "samples": d["samples"][:6]})
        rules.append(f"{name}: {d['rule']}")
        samples += [f"[{name}] {s}" for s in d["samples"][:4]]
    evidence(prop, tier, seed, total, distinct, groups, samples, rules, violation, time.time() - t0, build_s, stamp)
    for name, d in sorted(per.items()):
        print(f"{prop} {name}: {d['cases']} cases, {d['distinct']} distinct non-trivial, {d['labels']}")
    print(f"{prop}: {total} cases, {distinct} distinct non-trivial, {time.time() - t0:.1f} s (build {build_s:.1f} s)")
    if violation:
        rep = os.path.join(OUT, f"replay-{prop}.json")
        v = complete_replay(violation, rep, e["CFGPROP_DICT"])
        print(f"case: {v['case'][:1500]}\nmessage: {v['message'][:1500]}")
        print(f"VIOLATION property={prop} replay={rep}", flush=True)
        return 1
    for p, k, text in known_findings():
        if p == prop:
            print(f"KNOWN-FINDING: property={p} {text}")
    # generators which decided nothing would be a check that cannot fail
    for name, _ in subs:
        if name not in per or not per[name]["distinct"]:
            die(f"{prop} {name} produced no non-trivial case")
    if guided and not any(d["kind"] == "guided" and d["distinct"] for d in per.values()):
        die(f"{prop}: the guided search produced no non-trivial case")
    return 0


def evidence(prop, tier, seed, total, distinct, groups, samples, rules, violation, secs, build_s, stamp):
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": distinct,
            "rule": "; ".join(rules),
            "samples": samples,
            "exhaustive": bool(groups) and all(g["kind"] == "enum" and g["complete"] for g in groups),
            "generators": groups,
            "build_seconds": round(build_s, 2),
            "source_sha256": stamp,
        },
        "assumptions": ASSUME.get(prop, []) + ASSUME["all"],
        "wall_s": round(secs, 2),
        "violations": 1 if violation else 0,
    }
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))


def replay(path):
    v = json.load(open(path))
    bins, _ = build([v["variant"]])
    if v["property"] in NEED_UPDATE:
        os.environ["CFGPROP_UPDATE"] = build_update()
    os.environ["CFGPROP_VERIF"] = HERE
    os.environ["CFGPROP_REPO"] = REPO
    os.environ["CFGPROP_OUT"] = os.path.join(OUT, "replay")
    os.environ["CFGPROP_KNOWN"] = ";".join(k for p, k, _ in known_findings() if p == v["property"])
    os.makedirs(os.environ["CFGPROP_OUT"], exist_ok=True)
    if "dictionary" in v:
        dic = os.path.join(os.environ["CFGPROP_OUT"], f"dictionary.{os.getpid()}")
        with open(dic, "w") as f:
            f.write(v["dictionary"])
        os.environ["CFGPROP_DICT"] = dic
    bad, msg, case = one(bins[v["variant"]], v["property"], v["sub"], bytes.fromhex(v["bytes"]), 300)
    print(f"case: {case}\n{'FAILS: ' + msg if bad else 'holds'}")
    if bad:
        print(f"VIOLATION property={v['property']} replay={path}")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        build(["A", "B", "G"])
        build_update()
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if not a:
        die("usage: check.py PROP [quick|thorough] | replay FILE | build")
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
