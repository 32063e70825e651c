#!/usr/bin/env python3
"""Confirms planted changes in a scratch copy: python3 tools/seedcheck.py [ID...] [--catch]

patch applies, builds, passes the stable tests, changes lines of the original
repository, demo exits 0 without it and nonzero with it; with --catch also runs
the property's check against the scratch copy."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedcheck"
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    os.makedirs(S, exist_ok=True)
    sh(f"rsync -rlpc --delete --exclude _build --exclude .git /repo/ {S}/repo/")
    sh(f"mkdir -p {S}/harness && cp /opt/vp/harness/* {S}/harness/ && sed -i 's#set(REPO /repo)#set(REPO {S}/repo)#' {S}/harness/CMakeLists.txt")


def tests():
    b = f"{S}/build"
    r = sh(f"cmake -S {S}/harness -B {b} -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C {b} -j8 -k 0", env=dict(os.environ, CC="gcc", CXX="g++"))
    if r.returncode:
        return "build failed\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l)[:1500]
    r = sh(f"python3 {S}/harness/run.py {b} > {b}/results.txt; python3 /opt/vp/results.py {S}/out.json lines:{b}/results.txt")
    got = json.load(open(f"{S}/out.json"))
    want = json.load(open("/opt/vp/BASELINE.json"))
    want = want.get("passed") or want.get("stable") or want.get("tests") or want
    missing = set(want) - set(got["passed"])
    return "tests fail: " + ", ".join(sorted(missing)[:5]) if missing else None


def original_lines(patch):
    """the old lines a patch removes (or sits between) come from the base commit"""
    bad = 0
    n = 0
    f = None
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            base = set(sh(["git", "-C", "/repo", "show", f"{BASE}:{f}"]).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:].strip() and l[1:] not in base:
                bad += 1
    return n, bad


def one(i, catch):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    patch = open(f"{d}/patch.diff").read()
    n, bad = original_lines(patch)
    note = f"removes {n} lines, {bad} not original"
    prepare()
    r = sh(f"bash {d}/demo.sh", cwd=f"{S}/repo", timeout=300)
    if r.returncode:
        return f"FAIL demo fails on the unchanged tree: {r.stdout[-1500:]}"
    r = sh(["patch", "-p1", "-s", "-i", f"{d}/patch.diff"], cwd=f"{S}/repo")
    if r.returncode or sh(["git", "-C", "/repo", "apply", "--check", f"{d}/patch.diff"]).returncode:
        return f"FAIL does not apply {r.stdout}"
    t = tests()
    if t:
        return f"FAIL {t}"
    r = sh(f"bash {d}/demo.sh", cwd=f"{S}/repo", timeout=300)
    if not r.returncode:
        return "FAIL demo passes with the change"
    res = f"ok ({note}; demo: {r.stdout.strip().splitlines()[-1][:100] if r.stdout.strip() else r.returncode})"
    if catch:
        for p in [meta["property"]]:
            r = sh([f"{V}/check", p], env=dict(os.environ, VERIF_REPO=f"{S}/repo", VERIF_BUILD=f"{S}/vb", VERIF_SEED="1", VERIF_TIER="quick"))
            m = re.search(r"^VIOLATION.*$", r.stdout, re.M)
            secs = re.findall(r"\[\w+ ([\d.]+)s\]", r.stdout)
            what = re.findall(r"class[ :]+(\S+)", r.stdout)
            res += f" | {p}: {'caught' if r.returncode == 1 and m else 'MISSED rc=%d' % r.returncode} {what[:1]} {secs[-1] if secs else ''}s"
    return res


args = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in args or sorted(os.listdir(f"{V}/seeded")):
    print(i, one(i, "--catch" in sys.argv), flush=True)
shutil.rmtree(S, ignore_errors=True)
