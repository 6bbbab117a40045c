"""C06: values in every phase of a program, for seeded link orders, library kinds and ways to end."""
import hashlib
import json
import os
import random
import re
import urllib.parse

import gen_phases as gp
from common import CXX, REPO, CheckError, Scratch, Violation, ddmin, header, link, pmap, sh

STDS = [["98", "11", "14", "17"], ["98", "11", "20", "23"]]  # in turn


def prepare(d):
    sh(["g++", "-std=c++11", "-w", "-O0", "-I" + CXX, "-c", CXX + "/phasemain.cpp", "-o", d + "/main.o"])


def compile_unit(d, u):
    src, _ = gp.unit(u["gseed"], u["k"], u["std"] == "98", *gp.values(u["gseed"], u["std"] == "98"))
    fn = "%s/%s" % (d, u["name"])
    with open(fn + ".cpp", "w", encoding="latin-1") as f:
        f.write(src)
    sh([u["cxx"], "-std=c++" + u["std"], "-w", u["opt"], "-fPIC", "-ftemplate-depth=4000", "-I" + REPO + "/include", "-I" + CXX, "-c",
        fn + ".cpp", "-o", fn + ".o"])


def execute(d, spec, tag):
    """spec: units [[name, kind]], exit, how. Links and runs; (what or None, hash, phases run)."""
    w = "%s/run%s" % (d, tag)
    os.makedirs(w, exist_ok=True)
    args, dl = [], []
    for name, kind in spec["units"]:
        o = "%s/%s.o" % (d, name)
        if kind == "obj":
            args.append(o)
        else:
            so = "%s/%s.%s.so" % (w, "close" if kind == "dlclose" else "lib", name)
            sh(["g++", "-shared", o, "-o", so])
            if kind == "so":
                args.append(so)
            else:
                dl.append(so)
    args.insert(spec["main_at"] % (len(args) + 1), d + "/main.o")
    e = link(["g++", "-rdynamic"] + args + ["-o", w + "/prog", "-pthread", "-ldl", "-Wl,-rpath," + w])
    if e:
        sh(["rm", "-rf", w])
        return e, hashlib.sha256(e.encode()).hexdigest()[:16], []
    # addresses, and so what a dangling reference shows, are the same in every execution
    r = sh(["setarch", "-R", w + "/prog", ":".join(dl), spec["how"]], env={"VERIF_PHASE_EXIT": spec["exit"]}, check=False, timeout=120)
    sh(["rm", "-rf", w])
    log = re.sub(r"(?m)^(F \S+ \S+ \S+) .*", r"\1", r.out)
    h = hashlib.sha256((log + str(r.returncode)).encode("latin-1")).hexdigest()[:16]
    if r.returncode in (98, 99):
        raise CheckError("the program could not run: " + r.err)
    lines = [l.split(" ") for l in r.out.split("\n") if l]
    for l in lines:
        if l[0] == "F":
            return "unit %s in phase %s: %s is %r" % (l[1], l[2], l[3], urllib.parse.unquote(l[4], encoding="latin-1")), h, lines
    exited = any(l[1] + "." + l[2] == spec["exit"] for l in lines)
    if r.returncode != (7 if exited else 0):
        return "the program ended with status %d after %s" % (r.returncode, lines[-1:]), h, lines
    return None, h, lines


def run(prop, tier, seed):
    quick = tier == "quick"
    rnd = random.Random("phases-%d" % seed)
    with Scratch() as d:
        prepare(d)
        units = []
        for g in range(1 if quick else 15):
            for std in STDS[g % 2]:
                for k in range(8):
                    units.append(dict(name="p%d_%s_%d" % (g, std, k), gseed="%d.%d" % (seed, g), k=k, std=std,
                                      cxx=rnd.choice(["g++", "g++", "clang++"]), opt=rnd.choice(["-O0", "-O2"])))
        pmap(lambda u: compile_unit(d, u), units)
        groups = sorted({(u["gseed"], u["std"]) for u in units})
        specs = []
        for i in range(len(groups) * (60 if quick else 250)):
            us = [u for u in units if (u["gseed"], u["std"]) == groups[i % len(groups)]]
            sel = rnd.sample(us, rnd.choice([1, 2, 3, 4, 5]))
            kinds = [rnd.choice(["obj", "obj", "obj", "so", "dl", "dlclose"]) for _ in sel]
            u = rnd.choice(sel)
            ex = "u%d.%s" % (u["k"], rnd.choice(gp.PHASES[:4] + ["main", "thread", "late-static"])) if rnd.random() < 0.3 else ""
            specs.append(dict(units=[[u["name"], k] for u, k in zip(sel, kinds)], main_at=rnd.randrange(6), exit=ex,
                              how="quick" if rnd.random() < 0.1 else "normal"))
        stop = []

        def one(x):
            if stop:
                return None
            w, h, lines = execute(d, x[1], x[0])
            if w:
                stop.append(1)
            return x[1], w, h, lines
        viol, runs, distinct, phases, reads, log = [], 0, set(), {}, 0, hashlib.sha256()
        byname = {u["name"]: u for u in units}
        for r in pmap(one, list(enumerate(specs))):
            if not r:
                continue
            spec, w, h, lines = r
            runs += 1
            log.update(h.encode())
            for l in lines:
                if l[0] == "P":
                    phases[l[2]] = phases.get(l[2], 0) + 1
                    reads += int(l[3])
            if len(spec["units"]) > 1 or spec["exit"]:
                distinct.add(json.dumps(spec))
            if w and not viol:
                keep = ddmin(spec["units"], lambda us: bool(us) and execute(d, dict(spec, units=us), "m")[0] is not None)
                spec = dict(spec, units=keep)
                for k, v in (("exit", ""), ("how", "normal"), ("main_at", 0)):
                    if execute(d, dict(spec, **{k: v}), "m")[0]:
                        spec[k] = v
                w, h, _ = execute(d, spec, "m")
                viol.append(Violation(w, "@property %s\n@engine phases\n@what %s\n@spec %s\n" % (prop, w, json.dumps(
                    dict(spec, build=[byname[n] for n, _ in spec["units"]])))))
        cov = dict(evaluations=runs, distinct_nontrivial=len(distinct),
                   rule="One run links a seeded selection of translation units in a seeded order, each as object, linked or dlopen'ed library, "
                        "and lets the program end in a seeded way; every unit reads its values in up to twelve phases. Distinct by that "
                        "specification; non-trivial: several units or an early exit.",
                   samples=specs[:3], seeds=len(units), translation_units=len(units), phases=phases, values_read=reads,
                   faults={"early exits": sum(1 for s in specs if s["exit"]), "libraries unloaded": sum(1 for s in specs for u in s["units"] if u[1] == "dlclose"),
                           "quick exits": sum(1 for s in specs if s["how"] == "quick")},
                   log_hash=log.hexdigest(), simulated_time="program phases; no clock is involved",
                   components=dict(real=["the library compiled by g++ and clang++ as C++98, 11, 14, 17, 20 and 23", "linker, loader, exit processing"], stub=[]))
        return viol, cov, ["translation units of one program use one language standard"]


def replay(text):
    spec = json.loads(header(text)["spec"])
    with Scratch() as d:
        prepare(d)
        pmap(lambda u: compile_unit(d, u), spec["build"])
        w, h, _ = execute(d, spec, "r")
        return w is not None, w or "", h
