#!/usr/bin/env python3
"""Runs one check: compiles its harness against /repo's working tree and explores the bounded space.

usage: check.py <property id>     (tier and seed from VERIF_TIER / VERIF_SEED)
       check.py --build           compile every harness (setup)

exit 0: the property held on everything explored; exit 1 + VIOLATION line: it did not; anything else: no answer.
"""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, ".build")
EVIDENCE = os.path.join(HERE, "evidence")

ASAN = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
FAST = ["-O2", "-D_GLIBCXX_ASSERTIONS"]

# harness file (without .cpp) -> (flags, properties it decides)
HARNESSES = {
    "manifest": (ASAN, ["M01", "M02", "M03", "M04", "M05", "M06"]),
    "huang_lu": (ASAN, ["H01"]),
    "lookup_files": (ASAN, ["L01", "L02"]),
    "sparse": (ASAN, ["S01", "S02", "P01"]),
    "opcodes": (ASAN, ["O01"]),
    "table": (FAST, ["C01", "C03", "C04", "C05"]),
    "verdicts": (FAST, ["C02", "C08"]),
    "library": (FAST, ["C11", "C12"]),
    "batch": (FAST, ["C06"]),
    "proxies": (FAST, ["C07"]),
    "stretch": (FAST, ["C09", "C10"]),
    "nonnative": (FAST, ["N01", "N02"]),
    "poseidon": (FAST, ["K01"]),
    "sha": (FAST, ["K02", "K03", "K04"]),
    "curves": (FAST, ["E01", "E02", "E03"]),
    "fields": (FAST, ["F01", "F02", "F03"]),
    "compare": (FAST, ["F04"]),
    "flexible": (FAST, ["F05", "F06"]),
    "placeholder": (FAST, ["F07"]),
    "expressions": (FAST, ["F08"]),
    "announce": (FAST, ["G01", "G02", "G03"]),
    "zkevm": (FAST, ["Z01", "Z02", "Z03", "Z04", "Z05"]),
    "bytecode": (FAST, ["Z06"]),
}


def tree_files(root):
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            yield os.path.join(d, f)


def digest(harness, flags):
    h = hashlib.sha256()
    h.update(repr(flags).encode())
    roots = [os.path.join(REPO, "include"), os.path.join(HERE, "lib"), os.path.join(HERE, "shim")]
    files = [f for r in roots if os.path.isdir(r) for f in tree_files(r)]
    files.append(os.path.join(HERE, "harness", harness + ".cpp"))
    files += sorted(glob.glob(os.path.join(HERE, "harness", "*.inc")))
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build(harness):
    """The binary is named after the content of every source it can include, so it is never stale."""
    flags, _ = HARNESSES[harness]
    os.makedirs(BUILD, exist_ok=True)
    binary = os.path.join(BUILD, harness + "-" + digest(harness, flags))
    lock = open(os.path.join(BUILD, harness + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(binary):
        return binary
    for f in os.listdir(BUILD):
        if f.startswith(harness + "-"):
            os.unlink(os.path.join(BUILD, f))
    includes = ["-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(REPO, "include")]
    if os.path.isdir(os.path.join(HERE, "shim")):
        includes.append("-I" + os.path.join(HERE, "shim"))
    cmd = (["g++", "-std=c++17", "-g0", "-w", "-pipe"] + flags + includes +
           [os.path.join(HERE, "harness", harness + ".cpp"), "-o", binary + ".part"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[:20000])
        sys.stderr.write("\ncheck: the harness %s does not compile against this tree\n" % harness)
        return None
    os.rename(binary + ".part", binary)
    return binary


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        with ThreadPoolExecutor(4) as pool:
            results = list(pool.map(build, HARNESSES))
        sys.exit(0 if all(results) else 2)
    prop = sys.argv[1]
    harness = [h for h, (_, ids) in HARNESSES.items() if prop in ids]
    if len(harness) != 1:
        sys.exit("check: no harness for " + prop)
    binary = build(harness[0])
    if binary is None:
        sys.exit(2)
    os.makedirs(EVIDENCE, exist_ok=True)
    for f in (prop + ".json", prop + ".violation.txt"):
        if os.path.exists(os.path.join(EVIDENCE, f)):
            os.unlink(os.path.join(EVIDENCE, f))
    r = subprocess.run([binary, "--id", prop, "--tier", os.environ.get("VERIF_TIER", "quick"),
                        "--seed", os.environ.get("VERIF_SEED", "1"), "--out", EVIDENCE,
                        "--known", os.path.join(HERE, "known_findings.txt")])
    sys.exit(r.returncode if r.returncode in (0, 1) else 2)


main()
