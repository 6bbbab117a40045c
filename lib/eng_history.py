"""C07: the outcome of a parse under seeded include orders, instantiation histories, limit redefinitions and link orders."""
import json
import os
import random
import re
import subprocess
import urllib.parse

import gen_history as gh
from common import CXX, REPO, CheckError, Scratch, Violation, ddmin, header, link, pmap, sh

STDS = [["98", "11", "14", "17"], ["98", "11", "20", "23"]]  # in turn


def compile_tu(d, name, src, cfg):
    cxx, std, opt = cfg
    fn = "%s/%s" % (d, name)
    with open(fn + ".cpp", "w", encoding="latin-1") as f:
        f.write(src)
    r = sh([cxx, "-std=c++" + std, "-w", opt, "-ftemplate-depth=4000", "-I" + REPO + "/include", "-I" + CXX, "-c", fn + ".cpp", "-o", fn + ".o"],
           check=False)
    if r.returncode == 0:
        return None
    if "internal compiler error" in r.err or "Killed" in r.err or "virtual memory" in r.err or not re.search(r"\berror: ", r.err):
        raise CheckError("the compiler failed: " + r.err[-1500:])
    m = re.search(r"[^\n]*\berror: [^\n]*", r.err)
    return m.group(0)[:400]


def link_run(d, objs, order_seed, tag):
    exe = "%s/prog%s" % (d, tag)
    e = link(["g++"] + objs + ["-o", exe])
    if e:
        r = subprocess.CompletedProcess([], 97)
        r.out = "LINK " + e
        return r
    r = sh([exe, str(order_seed)], check=False)
    os.unlink(exe)
    return r


def judge(r, expect):
    """expect: query number -> text. What went wrong, or None."""
    if r.out.startswith("LINK "):
        return r.out[5:]
    if r.returncode:
        return "the program ended with status %d" % r.returncode
    n = 0
    for l in r.out.split("\n"):
        if l:
            n += 1
            name, _, v = l.partition(" ")
            v = urllib.parse.unquote(v, encoding="latin-1")
            e = expect[name.split(".")[2]]
            if v != e:
                return "query %s gave %r instead of %r" % (name, v, e)
    if not n:
        return "no query answered"
    return None


def expected(qs):
    return {k: v for q in qs for k, v in q.expected().items()}


def prepare(d):
    sh(["g++", "-std=c++17", "-O1", "-I" + CXX, "-c", CXX + "/histmain.cpp", "-o", d + "/main.o"])


def run(prop, tier, seed):
    quick = tier == "quick"
    rnd = random.Random("hist-%d" % seed)
    with Scratch() as d:
        prepare(d)
        units = []
        pools = {}
        for k in range(2 if quick else 10):
            for std in STDS[k % 2]:
                c98 = std == "98"
                pl = pools.setdefault((k, c98), gh.pool("%d.%d" % (seed, k), c98))
                for j in range(36):
                    cfg = (rnd.choice(["g++", "g++", "clang++"]), std, rnd.choice(["-O0", "-O0", "-O1"]))
                    units.append(dict(name="u%d_%s_%d" % (k, std, j), group=(k, std), cfg=cfg, pool=pl,
                                      items=gh.tu_items("%d.%d.%s" % (seed, k, std), j, c98, *pl, small=j >= 14)))
        res = []

        def comp(u):
            if res:
                return
            e = compile_tu(d, u["name"], gh.source(u["items"]), u["cfg"])
            u["err"] = e
            if e:
                res.append(u)
        pmap(comp, units)
        viol, progs, distinct, queries, log = [], 0, set(), 0, []
        if res:
            u = res[0]
            viol.append(compile_violation(d, prop, u))
        else:
            jobs = []
            groups = sorted({u["group"] for u in units})
            for i in range(len(groups) * (40 if quick else 120)):
                us = [u for u in units if u["group"] == groups[i % len(groups)]]
                sel = rnd.sample(us, rnd.choice([1, 2, 2, 3, 4, 6, 10]))
                jobs.append((i, sel, rnd.randrange(1 << 30)))

            def one(j):
                i, sel, os_ = j
                objs = ["%s/%s.o" % (d, u["name"]) for u in sel]
                main = d + "/main.o"
                r = link_run(d, objs + [main] if os_ % 2 else [main] + objs, os_, i)
                return j, judge(r, expected(sel[0]["pool"][1])), r.out
            for j, bad, out in pmap(one, jobs):
                progs, n = progs + 1, out.count("\n")
                log.append(out)
                queries += n
                distinct.add((tuple(u["name"] for u in j[1]), j[2]))
                if bad and not viol:
                    viol.append(link_violation(d, prop, j, bad))
        cov = dict(evaluations=progs, distinct_nontrivial=len({a for a, _ in distinct if len(a) > 1}),
                   rule="One run links translation units, each with its own seeded include order, history of instantiations and limit "
                        "redefinitions, in a seeded order and asks all their queries in a seeded order. Distinct by the sequence of units "
                        "linked; non-trivial: more than one unit.",
                   samples=[dict(unit=u["name"], config=u["cfg"], items=[t for _, t in u["items"] if not t.startswith("#include <boost/mpl/string")][:60]) for u in units[:2]],
                   seeds=len(units), translation_units=len(units), queries_answered=queries,
                   faults={"limit redefinitions": sum(t.count("#undef") for u in units for _, t in u["items"]),
                           "foreign instantiations": sum(1 for u in units for _, t in u["items"] if "touch<" in t or "template struct ask_n<" in t),
                           "include permutations": len(units)},
                   log_hash=hash_of(log), simulated_time="position in the translation unit; no clock is involved",
                   components=dict(real=["the whole library, compiled by g++ and clang++ as C++98, 11, 14, 17, 20 and 23", "linker"], stub=[]))
        return viol, cov, ["translation units of one program use one language standard"]


def replay_text(prop, what, spec):
    return "@property %s\n@engine history\n@what %s\n@spec %s\n" % (prop, what, json.dumps(spec))


def compile_violation(d, prop, u):
    fixed = [x for x in u["items"]]
    budget = [40]

    def fails(keep):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        ks = set(keep)
        return compile_tu(d, "min", gh.source([x for i, x in enumerate(fixed) if x[0] == "fix" or i in ks]), u["cfg"]) is not None
    idx = [i for i, x in enumerate(fixed) if x[0] != "fix"]
    keep = set(ddmin(idx, fails))
    src = gh.source([x for i, x in enumerate(fixed) if x[0] == "fix" or i in keep])
    e = compile_tu(d, "min", src, u["cfg"])
    if e is None:
        src = gh.source(fixed)
        e = compile_tu(d, "min", src, u["cfg"])
    what = "a translation unit that is valid does not compile: %s" % re.sub(r"^\S*/", "", e or "")
    return Violation(what, replay_text(prop, what, dict(kind="compile", units=[dict(cfg=u["cfg"], src=src)])))


def link_violation(d, prop, j, bad):
    i, sel, os_ = j
    expect = expected(sel[0]["pool"][1])

    def attempt(us):
        return judge(link_run(d, [d + "/main.o"] * 1 + ["%s/%s.o" % (d, u["name"]) for u in us] if not os_ % 2 else
                              ["%s/%s.o" % (d, u["name"]) for u in us] + [d + "/main.o"], os_, "min"), expect)
    us = ddmin(sel, lambda x: bool(x) and attempt(x) is not None)
    bad = attempt(us)
    # reduce the units themselves
    m = re.match(r"query (\S+) gave", bad or "")
    budget = [30]
    final = []
    for n, u in enumerate(us):
        items = list(u["items"])

        def fails(keep):
            if budget[0] <= 0:
                return False
            budget[0] -= 1
            ks = set(keep)
            its = [x for q, x in enumerate(items) if x[0] == "fix" or q in ks]
            if compile_tu(d, "min%d" % n, gh.source(its), u["cfg"]):
                return False
            names = ["%s/%s.o" % (d, v["name"]) for v in us]
            names[n] = "%s/min%d.o" % (d, n)
            r = link_run(d, names + [d + "/main.o"] if os_ % 2 else [d + "/main.o"] + names, os_, "min")
            b = judge(r, expect)
            return b is not None and b.split(" ")[0] == bad.split(" ")[0]
        keep = set(ddmin([q for q, x in enumerate(items) if x[0] != "fix"], fails))
        its = [x for q, x in enumerate(items) if x[0] == "fix" or q in keep]
        if fails([q for q, x in enumerate(items) if x[0] != "fix" and q in keep]) or budget[0] <= 0:
            u["items"] = its
        compile_tu(d, u["name"], gh.source(u["items"]), u["cfg"])
        final.append(dict(cfg=u["cfg"], src=gh.source(u["items"])))
    b = attempt(us)
    if b is None:
        raise CheckError("the reduced program no longer fails: " + str(bad))
    return Violation(b, replay_text(prop, b, dict(kind="link", units=final, order=os_, expect=expect)))


def replay(text):
    spec = json.loads(header(text)["spec"])
    with Scratch() as d:
        prepare(d)
        errs = pmap(lambda x: compile_tu(d, "r%d" % x[0], x[1]["src"], x[1]["cfg"]), list(enumerate(spec["units"])))
        if spec["kind"] == "compile":
            e = [re.sub(r"^\S*/", "", x) for x in errs if x]
            return bool(e), e[0] if e else "", str(hash_of(e))
        if any(errs):
            return True, "does not compile: %s" % [x for x in errs if x][0], hash_of(errs)
        objs = ["%s/r%d.o" % (d, i) for i in range(len(errs))]
        r = link_run(d, objs + [d + "/main.o"] if spec["order"] % 2 else [d + "/main.o"] + objs, spec["order"], "r")
        b = judge(r, spec["expect"])
        return b is not None, b or "", hash_of([r.out])


def hash_of(x):
    import hashlib
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:16]
