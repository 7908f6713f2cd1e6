#!/usr/bin/env python3
"""Writes harness/data/rustc-1.86.0.tsv: what rustc 1.86.0 reports for each of its targets.

Source: `rustc --print cfg --target T` of the installed rustc (1.99.1), corrected by the
changes rustc made to these targets between 1.86.0 and 1.99.1 (DRIFT), plus the targets
which that range removed (REMOVED). The list of triples is the one of 1.86.0: the installed
list less the targets added since, which LIST names by their count and hash.
Run it once; the result is committed. Not used by any check.
"""
import os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "../harness/data/rustc-1.86.0.tsv")
env = dict(os.environ)

# target_env was empty for these until `macabi` and `sim` moved there
DRIFT = {t: {"env": ""} for t in """aarch64-apple-ios-macabi aarch64-apple-ios-sim aarch64-apple-tvos-sim
aarch64-apple-visionos-sim aarch64-apple-watchos-sim i386-apple-ios x86_64-apple-ios
x86_64-apple-ios-macabi x86_64-apple-tvos x86_64-apple-watchos-sim""".split()}
# target_abi was empty for these until elfv1/elfv2 were reported
for t in """powerpc64-unknown-freebsd powerpc64-unknown-linux-gnu powerpc64-unknown-linux-musl
powerpc64-unknown-openbsd powerpc64-wrs-vxworks powerpc64le-unknown-freebsd
powerpc64le-unknown-linux-gnu powerpc64le-unknown-linux-musl""".split():
    DRIFT[t] = {"abi": ""}
DRIFT["mips64-openwrt-linux-musl"] = {"vendor": "unknown"}
DRIFT["x86_64-unknown-fuchsia"] = {"atomics": "8,16,32,64,ptr"}

# os, abi, arch, env, vendor, families, width, endian, atomics, panic
REMOVED = {
    "aarch64-unknown-nto-qnx800": ("nto", "", "aarch64", "nto80", "unknown", "unix", "64", "little", "8,16,32,64,128,ptr", "unwind"),
    "avr-unknown-gnu-atmega328": ("none", "", "avr", "gnu", "unknown", "", "16", "little", "", "unwind"),
    "i586-pc-nto-qnx700": ("nto", "", "x86", "nto70", "pc", "unix", "32", "little", "8,16,32,64,ptr", "unwind"),
    "i586-pc-windows-msvc": ("windows", "", "x86", "msvc", "pc", "windows", "32", "little", "8,16,32,64,ptr", "unwind"),
    "x86_64-pc-nto-qnx800": ("nto", "", "x86_64", "nto80", "pc", "unix", "64", "little", "8,16,32,64,ptr", "unwind"),
}

def triples():
    src = open("/repo/src/targets/builtins.rs").read()
    return re.findall(r'triple: Triple::new_const\("(.*?)"\)', src)

def facts(t):
    if t in REMOVED:
        return dict(zip("os abi arch env vendor families width endian atomics panic".split(), REMOVED[t]))
    out = subprocess.run(["rustc", "--print", "cfg", "--target", t], env=env, capture_output=True, text=True, check=True).stdout
    d = {"os": None, "abi": "", "env": "", "vendor": "", "families": [], "atomics": []}
    for l in out.splitlines():
        if "=" not in l:
            continue
        k, v = l.split("=", 1)
        v = v.strip('"')
        m = {"target_os": "os", "target_abi": "abi", "target_arch": "arch", "target_env": "env", "target_vendor": "vendor",
             "target_pointer_width": "width", "target_endian": "endian", "panic": "panic"}.get(k)
        if m:
            d[m] = v
        elif k == "target_family":
            d["families"].append(v)
        elif k == "target_has_atomic":
            d["atomics"].append(v)
    d["families"] = ",".join(sorted(d["families"]))
    d["atomics"] = ",".join(sorted(d["atomics"], key=lambda x: 99999 if x == "ptr" else int(x)))
    d.update(DRIFT.get(t, {}))
    return d

rows = []
for t in triples():
    d = facts(t)
    drift = "drift" if t in DRIFT else "removed" if t in REMOVED else "same"
    rows.append("\t".join([t] + [d[k] for k in "os abi arch env vendor families width endian atomics panic".split()] + [drift]))
open(OUT, "w").write("\n".join(rows) + "\n")
print(len(rows))
