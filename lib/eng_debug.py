"""C04, C05: the debugging utility under output faults, allocation faults, kills and crashing exit handlers (cxx/simdbg.cpp)."""
import hashlib
import re

import gen_debug
from common import CXX, REPO, CheckError, Scratch, Violation, header, pmap, sh

STDS = [["98", "11", "14", "17"], ["98", "11", "20", "23"]]  # in turn
SCENARIOS = 80


def prepare(d):
    sh(["g++", "-std=c++17", "-O1", "-w", "-I" + CXX, "-c", CXX + "/simdbg.cpp", "-o", d + "/simdbg.o"])


def build(d, gseed, std, cxx="g++"):
    exe = "%s/dbg-%s-%s-%s" % (d, gseed, std, cxx.replace("+", "x"))
    with open(exe + ".cpp", "w", encoding="latin-1") as f:
        f.write(gen_debug.source(gseed, std == "98", SCENARIOS))
    sh([cxx, "-std=c++" + std, "-w", "-O0", "-ftemplate-depth=9000", "-I" + REPO + "/include", "-I" + CXX, "-c", exe + ".cpp", "-o", exe + ".o"])
    sh([cxx, exe + ".o", d + "/simdbg.o", "-o", exe, "-pthread", "-ldl"])
    return exe


def call(exe, *args):
    r = sh([exe] + [str(a) for a in args], check=False, timeout=3000)
    if r.returncode:
        raise CheckError("simulator: exit %d %s %s" % (r.returncode, args, r.err[-500:]))
    return r.out


def exec_params(exe, prop, params):
    out = call(exe, "replay", prop, params)
    m = re.match(r"(OK|VIOL) hash=(\w+)", out)
    if not m:
        raise CheckError("replay gave " + out)
    w = re.search(r"^what (.*)", out, re.M)
    return m.group(1) == "VIOL", w.group(1) if w else "", m.group(2)


SIMPLEST = [("ctx", "0"), ("form", "0"), ("kill", "-1"), ("alloc", "-1"), ("sticky", "0"), ("exc", "0"), ("handler", "0"), ("limit", "-1"),
            ("mode", "0"), ("bufsize", "0"), ("dead", "1"), ("again", "-1")]


def minimise(exe, prop, params):
    head, _, sc = params.partition(" sc=")
    kv = dict(x.split("=", 1) for x in head.split())

    def text(k):
        return " ".join("%s=%s" % i for i in k.items()) + " sc=" + sc

    def fails(k):
        return exec_params(exe, prop, text(k))[0]
    for _ in range(2):
        outs = [o for o in kv["out"].split(",") if o]
        for o in list(outs):
            c = dict(kv, out="".join(x + "," for x in outs if x != o))
            if fails(c):
                outs.remove(o)
                kv = c
        for key, val in SIMPLEST:
            c = dict(kv, **{key: val})
            if kv.get(key, val) != val and fails(c):
                kv = c
    return text(kv)


def run(prop, tier, seed):
    quick = tier == "quick"
    builds = [("%d.%d.%s" % (seed, k, s), s, "g++") for k in range(2 if quick else 30) for s in STDS[k % 2]]
    if not quick:
        builds += [("%d.c%d.%s" % (seed, k, s), s, "clang++") for k in range(8) for s in STDS[k % 2]]
    per, chunk = (3000 if quick else 12000), 1000
    with Scratch() as d:
        prepare(d)
        exes = dict(zip(builds, pmap(lambda b: build(d, *b), builds)))
        if call(exes[builds[0]], "hash", prop, seed, 0, 150) != call(exes[builds[0]], "hash", prop, seed, 0, 150):
            raise CheckError("two executions of the same seeds differ")
        stop = []

        def one(j):
            if stop:
                return None
            out = call(exes[j[0]], "run", prop, seed, j[1], chunk)
            if "VIOL index" in out:
                stop.append(1)
            return j[0], out
        tot, distinct, res, log = {}, set(), [], hashlib.sha256()
        for r in pmap(one, [(b, i * chunk) for i in range(per // chunk) for b in builds]):
            if not r:
                continue
            b, out = r
            log.update(out.encode("latin-1"))
            for k, v in re.findall(r"(\w+)=(\d+)", re.search(r"^STATS(.*)", out, re.M).group(1)):
                tot[k] = tot.get(k, 0) + int(v)
            distinct.update(b[0] + h for h in re.search(r"^HASHES(.*)", out, re.M).group(1).split())
            if "VIOL index" in out and not res:
                params = re.search(r"^params (.*)", out, re.M).group(1)
                v, w, h = exec_params(exes[b], prop, params)
                if not v or "hash=" + h not in out:
                    raise CheckError("the run does not reproduce: " + params)
                params = minimise(exes[b], prop, params)
                v, w, h = exec_params(exes[b], prop, params)
                res.append(Violation(w, "\n".join(["@property " + prop, "@engine debug", "@table " + b[0], "@std " + b[1], "@cxx " + b[2],
                                                   "@what " + w, "@run " + params]) + "\n"))
        cov = dict(evaluations=tot["runs"], distinct_nontrivial=len(distinct),
                   rule="One run creates one debug_parsing_error object in a fresh process; the parser and input come from a seeded table, "
                        "the output device, faults, kill point, exit handler and calling context from the run's seed. Distinct by delivered "
                        "bytes, outcome and environment; non-trivial: a fault, kill or crashing handler took effect.",
                   samples=[call(exes[builds[0]], "show", prop, seed, k).strip() for k in range(3)],
                   seeds=len(builds), parsers_and_inputs=len(builds) * SCENARIOS,
                   faults={"output calls failing, short or throwing": tot["out_faults"], "output file size limits": tot["limit_faults"],
                           "allocation failures": tot["alloc_faults"], "kills": tot["kills"],
                           "crashing or abrupt exit handlers": tot["handler_crashes"]},
                   exceptions_seen_by_creator=tot["exceptions"], created_again_after_exception=tot["second_creations"], deliveries=tot["deliveries"], bytes_delivered=tot["bytes"],
                   contexts={"second thread": tot["ctx_thread"], "static initialisation": tot["ctx_static"]},
                   log_hash=log.hexdigest(), simulated_time="output deliveries; no clock is involved",
                   components=dict(real=["debug_parsing_error and the parsers, compiled from /repo", "libstdc++ streams", "exit processing"],
                                   stub=["output device (stream buffer, write/writev, size-limited file)", "allocator entry points"]))
        return res, cov, ["formatting flags and locale of std::cout itself are the defaults"]


def replay(text):
    h = header(text)
    with Scratch() as d:
        prepare(d)
        return exec_params(build(d, h["table"], h["std"], h["cxx"]), h["property"], h["run"])
