"""C01-C03: run-time texts under allocation faults, thread schedules and locale changes (cxx/simcore.cpp)."""
import hashlib
import os
import re

import gen_texts
from common import CXX, REPO, CheckError, Scratch, Violation, ddmin, header, pmap, sh

STDS = [["98", "11", "14", "17"], ["98", "11", "20", "23"]]  # in turn
LOCALES = ["de_DE.UTF-8", "hi_IN.UTF-8", "fr_FR.UTF-8", "de_DE.ISO-8859-1"]


def prepare(d):
    os.makedirs(d + "/loc")

    def one(x):
        if x is None:
            sh(["g++", "-std=c++17", "-O2", "-fno-builtin", "-U_FORTIFY_SOURCE", "-I" + CXX, "-c", CXX + "/simcore.cpp", "-o", d + "/simcore.o"])
        else:
            lang, cs = x.split(".")
            sh(["localedef", "-i", lang, "-f", cs, "%s/loc/%s" % (d, x)], check=False)
            if not os.path.isdir("%s/loc/%s" % (d, x)):
                raise CheckError("localedef could not build " + x)
    pmap(one, [None] + LOCALES)


def build(d, gseed, std):
    exe = "%s/sim-%s-%s" % (d, gseed, std)
    with open(exe + ".cpp", "w", encoding="latin-1") as f:
        f.write(gen_texts.source(gseed, std == "98"))
    sh(["g++", "-std=c++" + std, "-w", "-O0", "-fsanitize=thread", "-ftemplate-depth=4000", "-I" + REPO + "/include", "-I" + CXX,
        "-c", exe + ".cpp", "-o", exe + ".o"])
    sh(["g++", exe + ".o", d + "/simcore.o", "-o", exe, "-pthread", "-ldl"])
    return exe


def call(d, exe, *args):
    r = sh([exe] + [str(x) for x in args], env={"LOCPATH": d + "/loc"}, check=False, timeout=3000)
    if r.returncode:
        raise CheckError("simulator: exit %d %s %s" % (r.returncode, args, r.err[-500:]))
    return r.out


def exec_trace(d, exe, lines):
    fn = "%s/trace.%d" % (d, os.getpid())
    with open(fn, "w", encoding="latin-1") as f:
        f.write("\n".join(lines) + "\n")
    out = call(d, exe, "replay", fn)
    m = re.match(r"(OK|VIOL) hash=(\w+)", out)
    if not m:
        raise CheckError("replay gave " + out)
    w = re.search(r"^what (.*)", out, re.M)
    return m.group(1) == "VIOL", w.group(1) if w else "", m.group(2)


def drop_op(lines, t, k):
    """The trace without operation k of thread t; faults of later operations move along."""
    res, n = [], -1
    for l in lines:
        p = l.split()
        if p[0] == "op" and int(p[1]) == t:
            n += 1
            if n == k:
                continue
        if p[0] == "fault" and int(p[1]) == t:
            o = int(p[2])
            if o == k:
                continue
            if o > k:
                l = "fault %s %d %s %s" % (p[1], o - 1, p[3], p[4])
        res.append(l)
    return res


def minimise(d, exe, lines, subject):
    budget = [600]

    def fails(ls):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        v, w, _ = exec_trace(d, exe, ls)
        return v and w.split(" ")[0] == subject

    for _ in range(3):
        before = len(lines)
        for kind in ("fault", "switch"):
            part = [l for l in lines if l.startswith(kind + " ")]
            rest = [l for l in lines if not l.startswith(kind + " ")]
            keep = ddmin(part, lambda p: fails(rest + list(p)))
            cand = rest + keep
            lines = cand
        for t in range(8):
            n = sum(1 for l in lines if l.startswith("op %d " % t))
            for k in range(n - 1, -1, -1):
                c = drop_op(lines, t, k)
                if fails(c):
                    lines = c
        if len(lines) == before:
            break
    return lines


COUNTS = {"quick": {"C01": 6000, "C02": 9000, "C03": 6000}, "thorough": {"C01": 90000, "C02": 120000, "C03": 60000}}


def run(prop, tier, seed):
    nseeds = 1 if tier == "quick" else 20
    per = COUNTS[tier][prop]
    chunk = 1500
    with Scratch() as d:
        prepare(d)
        builds = [("%d.%d.%s" % (seed, k, s), s) for k in range(nseeds) for s in STDS[k % 2]]
        exes = dict(zip(builds, pmap(lambda b: build(d, *b), builds)))
        # determinism of the simulator itself, on a sample of this run's executions
        differ = [b for b in builds[:2] if call(d, exes[b], "hash", prop, seed, 0, 150) != call(d, exes[b], "hash", prop, seed, 0, 150)]
        jobs = [(b, i * chunk) for i in range(per // nseeds // chunk) for b in builds]
        stop = []

        def one(j):
            if stop:
                return None
            out = call(d, exes[j[0]], "run", prop, seed, j[1], chunk)
            if "VIOL index" in out:
                stop.append(1)
            return j[0], out
        tot, viols, distinct, log = {}, [], set(), hashlib.sha256()
        for r in pmap(one, jobs):
            if not r:
                continue
            b, out = r
            log.update(out.encode("latin-1"))
            for k, v in re.findall(r"(\w+)=(\d+)", re.search(r"^STATS (.*)", out, re.M).group(1)):
                tot[k] = tot.get(k, 0) + int(v)
            distinct.update(b[0] + " " + h for h in re.search(r"^HASHES(.*)", out, re.M).group(1).split())
            if "VIOL index" in out:
                viols.append((b, out))
        res = []
        if differ and not viols:
            raise CheckError("two executions of the same seeds differ")
        for n, (b, out) in enumerate(viols):
            if res:
                break
            lines = out.split("\n")
            i = next(k for k, l in enumerate(lines) if l.startswith("VIOL index"))
            what = lines[i + 1][5:]
            trace = lines[i + 2:lines.index("end")]
            v, w, h = exec_trace(d, exes[b], trace)
            if not v or "hash=" + h not in lines[i]:
                if n + 1 < len(viols):
                    continue
                raise CheckError("the recorded schedule does not reproduce the run: %s\n%s" % (what, "\n".join(trace)))
            trace = minimise(d, exes[b], trace, what.split(" ")[0])
            v, w, h = exec_trace(d, exes[b], trace)
            res.append(Violation(w, "\n".join(["@property " + prop, "@engine texts", "@table " + b[0], "@std " + b[1],
                                               "@found " + lines[i], "@what " + w] + trace) + "\n"))
        e = exes[builds[0]]
        names = call(d, e, "list").split("\n")
        cov = dict(evaluations=tot["runs"], distinct_nontrivial=len(distinct),
                   rule="One run is one seeded execution in a fresh process: threads calling for texts, their schedule, the failing "
                        "allocations and locale changes all follow from the seed. Distinct by the hash of its event log (scheduling "
                        "points, switches, faults, texts); non-trivial: at least one %s." %
                        ("allocation failed" if prop == "C01" else "preemption"),
                   samples=[dict(table=builds[0][0], index=k, trace=call(d, e, "show", prop, seed, k).split("\n")[:40]) for k in (0, 1, 2)],
                   seeds=len(jobs), faults={"allocation failures": tot["faults"], "preemptions": tot["switches"],
                                            "locale and stream changes": tot["ambient"]},
                   log_hash=log.hexdigest(), simulated_steps=tot["steps"], simulated_time="scheduling points; no clock is involved",
                   calls=tot["texts"], calls_that_threw=tot["threw"], allocations=tot["allocs"], messages_per_table=len(names) - 1,
                   components=dict(real=["the library's headers, compiled from /repo for C++98, 11, 14, 17, 20 and 23", "libstdc++", "glibc locales"],
                                   stub=["allocator entry points", "mutexes, once, static guards", "ThreadSanitizer run-time (yield points)"]))
        return res, cov, ["libstdc++'s own code is preempted only at allocations and locks",
                          "sequentially consistent interleavings; no weak memory reordering"]


def replay(text):
    h = header(text)
    with Scratch() as d:
        prepare(d)
        exe = build(d, h["table"], h["std"])
        return exec_trace(d, exe, [l for l in text.split("\n") if l and not l.startswith("@")])
