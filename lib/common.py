"""Shared parts of the checks: building, running in parallel, replay files, evidence, known findings."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
CXX = os.path.join(VERIF, "cxx")


class CheckError(Exception):
    """The check itself could not do its work: neither a pass nor a violation."""


class Violation:
    def __init__(self, what, replay, extra=""):
        self.what, self.replay, self.extra = what, replay, extra  # replay: text of the replay file


class Scratch:
    """A scratch directory, removed at the end."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif.")
        return self.path

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


def sh(cmd, cwd=None, timeout=600, env=None, check=True, stdin=None):
    e = dict(os.environ, LC_ALL="C")
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           stdin=subprocess.DEVNULL if stdin is None else stdin)
    except subprocess.TimeoutExpired:
        raise CheckError("%s: timed out after %s s" % (" ".join(cmd), timeout))
    r.out, r.err = r.stdout.decode("latin-1"), r.stderr.decode("latin-1")
    if check and r.returncode:
        raise CheckError("%s: exit %d\n%s" % (" ".join(cmd), r.returncode, (r.err or r.out)[-4000:]))
    return r


def link(cmd):
    """Links; None, or what the linker found wrong with the program (two definitions of one thing, or none)."""
    r = sh(cmd, check=False)
    if r.returncode == 0:
        return None
    m = re.search(r"multiple definition of [^\n;]*|undefined reference to [^\n]*", r.err)
    if not m:
        raise CheckError("%s: exit %d\n%s" % (" ".join(cmd), r.returncode, r.err[-2000:]))
    return "the program does not link: " + m.group(0)[:300]


def pmap(fn, items, jobs=None):
    items = list(items)
    with ThreadPoolExecutor(max(1, jobs or JOBS)) as ex:
        return list(ex.map(fn, items))


def ddmin(items, fails):
    """The classic: a sublist on which fails() still holds, 1-minimal up to the budget fails() enforces."""
    n = 2
    items = list(items)
    if items and fails([]):
        return []
    while len(items) >= 2:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if fails(rest):
                items, n = rest, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def known_findings(prop):
    """Lines 'finding: property=<id> key=<what the check prints as key> <text>' of known_findings.txt."""
    res = []
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2].strip()
                key, text = rest.split(" ", 1)
                res.append((key[len("key="):], text))
    return res


def write_replay(prop, text):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    i = 1
    while os.path.exists(os.path.join(d, "%s-%d.txt" % (prop, i))):
        i += 1
    fn = os.path.join(d, "%s-%d.txt" % (prop, i))
    with open(fn, "w", encoding="latin-1") as f:
        f.write(text)
    return fn


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage, assumptions=list(assumptions),
              wall_s=round(wall, 2), violations=violations)
    fn = os.path.join(VERIF, "evidence", prop + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.rename(fn + ".tmp", fn)


def header(text):
    """The key/value lines at the top of a replay file."""
    res = {}
    for l in text.split("\n"):
        if l.startswith("@"):
            k, _, v = l[1:].partition(" ")
            res[k] = v
    return res


def main(engines):
    """engines: property id -> module with run(prop, tier, seed) -> (violations, coverage, assumptions), replay(text) -> (bool, what, hash)."""
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        text = open(a[1], encoding="latin-1").read()
        h = header(text)
        viol, what, hsh = engines[h["property"]].replay(text)
        print("replay of %s: %s hash=%s" % (h["property"], "VIOLATION reproduced" if viol else "no violation", hsh))
        if viol:
            print(what)
            print("VIOLATION property=%s replay=%s" % (h["property"], os.path.abspath(a[1])))
        return 1 if viol else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        tier = "thorough"
    if "--quick" in a:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    eng = engines[prop]
    try:
        viols, cov, assum = eng.run(prop, tier, seed)
        new, found = [], []
        kf = known_findings(prop)
        for v in viols:
            k = [t for key, t in kf if getattr(v, "key", None) == key]
            if k:
                found.append(k[0])
            else:
                new.append(v)
        for t in sorted(set(found)):
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        for v in new:
            # gate: the replay file, executed twice in fresh processes, reproduces the violation with the same event log
            r = [eng.replay(v.replay) for _ in range(2)]
            if not (r[0][0] and r[1][0]) or r[0][2] != r[1][2]:
                raise CheckError("a violation did not reproduce exactly: %s\n%r\n%s" % (v.what, r, v.replay))
            v.hash = r[0][2]
    except CheckError as e:
        print("ERROR: %s" % e)
        return 3
    wall = time.time() - t0
    cov["runs_per_hour"] = int(cov.get("evaluations", 0) * 3600 / max(wall, 0.01))
    write_evidence(prop, tier, seed, cov, wall, len(new), assum)
    print("%s %s seed=%d: %d runs, %d distinct, %.1f s" % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], wall))
    for v in new:
        fn = write_replay(prop, v.replay)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
    return 1 if new else 0
