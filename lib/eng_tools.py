"""C08-C14: the repository's tools under the file-system and git seams (simtools), seeded fault schedules, oracles per property."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import tempfile
import time

import simtools
from common import JOBS, REPO, CheckError, Scratch, Violation, ddmin, header, sh
from simtools import HARD, Git, Host, World, hard
import gen_tools

HERE = os.path.dirname(os.path.abspath(__file__))


class Ctx:
    """What one worker needs: a host, a world, caches."""

    def __init__(self, base, so, git):
        self.base, self.host, self.gitbin = base, Host(so), git
        self.world = World(tempfile.mkdtemp(prefix="w", dir=base))
        os.chmod(self.world.root, 0o755)
        self.world2 = World(tempfile.mkdtemp(prefix="v", dir=base))
        os.chmod(self.world2.root, 0o755)
        self.ref = {}
        self.hosts = [self.host]
        self.stats = collections.Counter()
        self.reach = set()

    def note(self, o):
        self.stats["runs"] += 1
        self.stats["events"] += len(o.events)
        for f in o.faults:
            self.stats["fault " + f[1] + " in " + f[2]] += 1
        if o.signal:
            self.stats["runs killed"] += 1
        elif o.status:
            self.stats["runs failed"] += 1
        else:
            self.stats["runs succeeded"] += 1

    def close(self):
        for h in self.hosts:
            h.close()


def sched(l):
    return {n: (k, a) for n, k, a in l}


def pick(rng, events, git=False, allow=("kill", "error", "short", "interrupt", "full")):
    """A schedule for a run whose undisturbed events are given: mostly one to three faults."""
    if not events:
        return [], None
    res, full = [], None
    by = collections.defaultdict(list)
    for i, (k, ev) in enumerate(events):
        by[k].append(i)
    last_writes = [i for i, (k, _) in enumerate(events) if k in ("write", "rename", "close w", "open w", "truncate", "unlink")]
    for _ in range(rng.choice([1, 1, 1, 1, 2, 2, 3])):
        kind = rng.choice([a for a in allow for _ in range(3 if a in ("kill", "error") else 1)] + (["git"] * 4 if "git" in by else []))
        if kind == "git":
            i = rng.choice(by["git"])
            res.append([i, rng.choice(["gitfail", "gitfail", "gitkill", "gitpart", "gitlate", "gitgone", "killtool"]), rng.choice([1, 1, 128, 255, 2])])
        elif kind == "full":
            tot = sum(ev[1] for k, ev in events if k == "write")
            if tot:
                full = rng.choice([0, 1, tot - 1, rng.randrange(tot), rng.randrange(tot)])
        elif kind == "error":
            ks = [k for k in by if k in HARD]
            if ks:
                k = rng.choice(ks)
                res.append([rng.choice(by[k]), "error", rng.choice(HARD[k])])
        elif kind == "short":
            ks = [k for k in ("write", "write", "read") if by.get(k)]
            if ks:
                res.append([rng.choice(by[rng.choice(ks)]), "short", rng.choice([1, 2, 0.5, rng.random()])])
        else:
            i = rng.choice(last_writes) if last_writes and rng.random() < .5 else rng.choice(by[rng.choice(sorted(by))])
            if rng.random() < .3:
                i += 1
            res.append([i, kind, 0])
            if kind == "kill" and rng.random() < .5:  # a write cut short just before
                w = [j for j in by.get("write", []) if j < i]
                if w:
                    res.append([w[-1], "short", rng.random()])
    d = {}
    for f in res:
        d.setdefault(f[0], f)
    return sorted(d.values()), full


# ---------------------------------------------------------------- C08, C09
class Env:
    tool = "build_environment.py"

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, ctx):
        s = gen_tools.env(rng, "update" if self.prop == "C08" else "checkout")
        plain = self.simulate(ctx, dict(s, runs=[dict(s["runs"][0], faults=[], full=None)]), profile=True)
        nruns = rng.choice([1, 1, 2, 3])
        runs = []
        for i in range(nruns):
            r = dict(s["runs"][0])
            r["dict_seed"] = rng.randrange(1 << 30)
            if rng.random() < .12:
                r["faults"], r["full"] = [], None
            else:
                r["faults"], r["full"] = pick(rng, plain, git=True)
            runs.append(r)
        runs.append(dict(s["runs"][0], dict_seed=rng.randrange(1 << 30), faults=[], full=None))
        s["runs"] = runs
        return s

    def simulate(self, ctx, s, profile=False):
        w, dep = ctx.world, s["dep"]
        old = s["text"].encode("latin-1")
        w.reset({dep: old, "doc/other.txt": b"other\n"}, dirs=[s["cwd"]])
        deps = json.loads(s["text"])
        h = hashlib.sha256()
        for i, r in enumerate(s["runs"]):
            git = Git(w, ctx.gitbin, s["git"])
            git.listen()
            git.begin(i)
            out = "%s%d" % (s["out"], i)
            argv = ["--dep_json", os.path.join(w.root, dep) if s["abs"] else os.path.relpath(dep, s["cwd"]), "--git", git.bin,
                    "--out", os.path.join(w.root, out) if s["abs"] else out, "--action", s["action"], "--boost_repository", s["git"]["url"]]
            if s["ref"] != "origin/master" or s["abs"]:
                argv += ["--ref", s["ref"]]

            def new_set():
                """The complete new set of pins, as far as git has reported it in this run: module -> acceptable commits."""
                return {m: {c for ref, c, f in git.reported.get(m, []) if ref == s["ref"] and f} for m in deps}

            def is_new(t):
                try:
                    d = json.loads(t)
                except ValueError:
                    return False
                n = new_set()
                return isinstance(d, dict) and set(d) == set(n) and all(d[m] in n[m] for m in n)

            def obs(ev):
                t = w.get(dep)
                if s["action"] == "checkout":
                    if t != old:
                        return "a checkout changed the dependency file to %r" % (t,)
                    return None
                if t is None:
                    return "the dependency file is gone"
                if t != old and not is_new(t):
                    return "the dependency file holds neither its previous content nor the complete new set of pins: %r" % (t[:300],)
                return None

            try:
                o = ctx.host.run(w, self.tool, argv, s["cwd"], sched(r["faults"]), obs, r["dict_seed"], 1, git, r.get("full"))
            finally:
                git.close()
            ctx.note(o)
            h.update(o.hash.encode())
            if profile:
                return o.events
            v = o.viol
            ok = o.status == 0 and not o.signal
            if not v and ok and s["action"] == "update":
                t = w.get(dep)
                if not is_new(t):
                    v = "the tool exits successfully but the dependency file does not hold the new pins: %r, reported by git: %r" % (t[:300], new_set())
            if not v and ok and s["action"] == "checkout":
                bad = {m: git.head.get(m) for m in deps if git.head.get(m) != deps[m] or (m and m not in git.pop)}
                if bad:
                    v = "the tool exits successfully but these modules are not at their pins %r: %r" % ({m: deps[m] for m in bad}, bad)
            if not v and s["action"] == "checkout" and git.after_failure:
                v = "after %r failed, the tool goes on with %r" % (git.failed, git.after_failure[:3])
            if not v and ok and git.failed is not None:
                v = "git %r failed, but the tool exits successfully" % (git.failed,)
            if not v and ok and any(f[2] != "unlink" for f in hard(o)):
                v = "the tool met %r, but exits successfully" % (hard(o),)
            if not v and not r["faults"] and r.get("full") is None and not ok:
                v = "an undisturbed run fails: status %d\n%s" % (o.status, o.output)
            if v:
                return "run %d of the history: %s" % (i + 1, v), h.hexdigest()
            old = w.get(dep) or old
            deps = json.loads(old)
            if s["action"] == "update":
                s = dict(s, git=dict(s["git"], pins={}))
            ctx.reach.add((o.status, o.signal != 0, tuple((k, a, x) for n, k, a, x in o.faults if k != "short")[:2] and tuple(sorted({(k, a) for n, k, a, x in o.faults})), len(o.events)))
        return None, h.hexdigest()

    def simpler(self, s):
        deps = json.loads(s["text"])
        for m in sorted(deps):
            if len(deps) > 1:
                d = {k: v for k, v in deps.items() if k != m}
                yield dict(s, text=json.dumps(d, indent=2, sort_keys=True))
        if s["git"]["moves"]:
            yield dict(s, git=dict(s["git"], moves=[]))


# ---------------------------------------------------------------- C10
HDR = "metaparse/v1/cpp11/impl/string.hpp"


class Header:
    tool = "string_headers.py"

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, ctx):
        s = gen_tools.header(rng)
        for r in s["runs"]:
            ev = self.reference(ctx, r["args"])[1]
            if r.pop("disturb"):
                r["faults"], r["full"] = pick(rng, ev)
            else:
                r["faults"], r["full"] = [], None
        return s

    def reference(self, ctx, args):
        """What an undisturbed run with these arguments in a tree of its own gives: (header or None, events)."""
        k = tuple(args)
        if k not in ctx.ref:
            w = ctx.world
            w.reset({"include/boost/" + HDR: b"before\n"}, dirs=["run"])
            o = ctx.host.run(w, self.tool, ["--boost_dir", w.root + "/include/boost"] + list(args), "run", {}, lambda ev: None)
            ctx.ref[k] = (w.get("include/boost/" + HDR) if o.status == 0 else None, o.events)
        return ctx.ref[k]

    def simulate(self, ctx, s):
        for r in s["runs"]:
            self.reference(ctx, r["args"])
        w, h = ctx.world, hashlib.sha256()
        hdr = ("include" if s["dir"] == "default" else "other") + "/boost/" + HDR
        files = {"include/boost/metaparse/string.hpp": b"other header\n"}
        if s["before"] is not None:
            files[hdr] = s["before"].encode("latin-1")
        w.reset(files, dirs=["run", os.path.dirname(hdr)] if s["dir"] != "nodir" else ["run", "other/boost"])
        for i, r in enumerate(s["runs"]):
            old = w.get(hdr)
            new = self.reference_cached(ctx, r["args"])

            def obs(ev):
                t = w.get(hdr)
                if t != old and (new is None or t != new):
                    if new is None:
                        return "the limits are not valid, but the header has changed"
                    return "the header holds neither its previous content nor the complete new header: %s" % (
                        "it is gone" if t is None else "%d bytes, expected %d (new) or %s (previous)" % (len(t), len(new), "none" if old is None else len(old)))
                return None

            argv = [] if s["dir"] == "default" else ["--boost_dir", w.root + "/other/boost"]
            o = ctx.host.run(w, self.tool, argv + r["args"], "run", sched(r["faults"]), obs, full_after=r.get("full"))
            ctx.note(o)
            h.update(o.hash.encode())
            ok, v = o.status == 0 and not o.signal, o.viol
            if not v and ok and (new is None or w.get(hdr) != new):
                v = "the generator exits successfully, but the complete new header is not in place"
            if not v and ok and any(f[2] != "unlink" for f in hard(o)):
                v = "the generator met %r, but exits successfully" % (hard(o),)
            valid = all(x.isdigit() and int(x) > 0 for x in r["args"][1::2]) and len(r["args"]) % 2 == 0 and "--unknown" not in r["args"]
            if not v and not ok and not r["faults"] and r.get("full") is None and (new is not None or valid) and s["dir"] != "nodir":
                v = "an undisturbed run fails: status %d\n%s" % (o.status, o.output)
            if v:
                return "run %d of the history (%s): %s" % (i + 1, " ".join(r["args"]), v), h.hexdigest()
            ctx.reach.add((o.status, tuple(sorted({(k, a) for n, k, a, x in o.faults})), len(o.events)))
        return None, h.hexdigest()

    def reference_cached(self, ctx, args):
        return ctx.ref[tuple(args)][0]

    def simpler(self, s):
        if s["before"] and len(s["before"]) > 4:
            yield dict(s, before="old\n")
        for i, r in enumerate(s["runs"]):
            for a in (["--max_length_limit", "16", "--length_limit_step", "8"],):
                if r["args"] != a:
                    yield dict(s, runs=s["runs"][:i] + [dict(r, args=a)] + s["runs"][i + 1:])

    def prelude(self, seed, tier, base, ctx):
        """The reference headers are whole: they compile, and a string of the maximum length works with them."""
        rng = random.Random("C10 prelude %d" % seed)
        res = []
        for _ in range(4 if tier == "quick" else 30):
            step = rng.choice([1, 3, 4, 8, 16, 32, 64])
            mx = step * rng.randint(1, 4) + rng.choice([0, 0, 1, -1]) if rng.random() < .7 else rng.randint(1, 80)
            mx = max(mx, 1)
            args = ["--max_length_limit", str(mx), "--length_limit_step", str(step)]
            new = self.reference(ctx, args)[0]
            if new is None:
                spec = dict(before=None, dir="default", runs=[dict(args=args, faults=[], full=None)])
                res.append((spec, "an undisturbed run with valid limits (%s) fails" % " ".join(args)))
                continue
            d = tempfile.mkdtemp(dir=base)
            p = os.path.join(d, "boost/metaparse/v1/cpp11/impl")
            os.makedirs(p)
            with open(os.path.join(p, "string.hpp"), "wb") as f:
                f.write(new)
            with open(os.path.join(d, "t.cpp"), "w") as f:
                f.write("#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n#include <boost/metaparse/string.hpp>\n#include <boost/mpl/size.hpp>\n" % mx)
                for n in sorted({0, 1, mx // 2, mx}):
                    f.write("static_assert(boost::mpl::size<BOOST_METAPARSE_STRING(\"%s\")>::type::value == %d, \"\");\n" % ("x" * n, n))
            r = sh(["g++", "-std=c++11", "-fsyntax-only", "-I", d, "-I", os.path.join(REPO, "include"), os.path.join(d, "t.cpp")], check=False)
            shutil.rmtree(d)
            if r.returncode:
                spec = dict(before=None, dir="default", runs=[dict(args=args, faults=[], full=None)], whole=r.err[-1500:])
                res.append((spec, "the header an undisturbed run generates for %s is not a whole header: it does not work\n%s" % (" ".join(args), r.err[-1500:])))
        return res


# ---------------------------------------------------------------- C11, C12, C13
NOTE = "[note Note that you can find everything that has been included and defined so far [link before_"


def handwritten(text):
    """The lines of a guide that the generator does not make (empty ones, which it adds and drops, left out)."""
    out, inside = [], None
    for l in text.split("\n"):
        if inside:
            if inside in l if inside == "endsect" else l.strip() == inside:
                inside = None
                out.append(l)
        elif l.startswith(NOTE) or "copy-paste friendly version" in l or not l.strip():
            pass
        else:
            out.append(l)
            if l.strip() == "[section Definitions before each section]":
                inside = "[endsect]"
            elif "[section Copy-paste friendly code examples]" in l:
                inside = "endsect"
    return out


class Guide:
    tool = "generate_all.py"

    def __init__(self, prop):
        self.prop = prop

    def layout(self, s):
        src = {"doc": "doc/getting_started.qbk", "cwd": "doc/guide.qbk", "abs": "doc/getting_started.qbk", "txt": "doc/guide.txt"}[s["layout"]]
        return src, "example/getting_started"

    def argv(self, w, s):
        src, dst = self.layout(s)
        if s["layout"] == "abs":
            return ["--src", w.root + "/" + src, "--dst", w.root + "/" + dst], "run"
        if s["layout"] == "cwd":
            return ["--src", os.path.basename(src), "--dst", "../" + dst], "doc"
        return (["--src", src, "--dst", dst] if s["layout"] != "doc" else []), ""

    def gen(self, rng, ctx):
        s = gen_tools.guide(rng)
        if not gen_tools.in_domain(s["guide"]):
            return None
        ref = self.reference(ctx, s)
        if ref is None:
            return None
        for n, t in sorted(list(ref["headers"].items()) + list(ref["docs"].items())):
            if rng.random() < .25:
                s["stale"][n] = gen_tools.outdated(rng, t.decode("latin-1"))
        for r in s["runs"]:
            if r.pop("disturb"):
                r["faults"], r["full"] = pick(rng, ref["events"])
                if self.prop == "C11" and rng.random() < .3:
                    reads = [i for i, (k, ev) in enumerate(ref["events"]) if k in ("read", "open r")]
                    if reads:
                        r["faults"] = [[rng.choice(reads), "error", "EIO"]]
            else:
                r["faults"], r["full"] = [], None
        return s

    def after(self, ctx, s, text):
        """The guide after an undisturbed run on the given text."""
        self.world(ctx, s, False, ctx.world2, text)
        argv, cwd = self.argv(ctx.world2, s)
        o = ctx.host.run(ctx.world2, self.tool, argv, cwd, {}, lambda ev: None)
        return ctx.world2.get(self.layout(s)[0]) if o.status == 0 else text

    def world(self, ctx, s, stale, world=None, text=None):
        src, dst = self.layout(s)
        files = {src: s["guide"].encode("latin-1") if text is None else text}
        for n, t in s["unowned"].items():
            files[n] = t.encode("latin-1")
        if stale:
            for n, t in s["stale"].items():
                files[n] = t.encode("latin-1")
        (world or ctx.world).reset(files, dirs=["run", dst, "doc"], mtimes=s.get("mtimes"))

    def owned_doc(self, s, name):
        """Documents the tool generates for the guide: before_<section>.qbk and <guide>_<number>.qbk."""
        base = os.path.basename(self.layout(s)[0])
        base = base[:-4] if base.endswith(".qbk") else base
        for pre in ("before_", base + "_"):
            if name.startswith(pre) and name.endswith(".qbk") and name[len(pre):-4].replace("_", "").isdigit():
                return True
        return False

    def reference(self, ctx, s):
        """The result of one undisturbed run on the original guide."""
        w = ctx.world
        src, dst = self.layout(s)
        self.world(ctx, s, False)
        argv, cwd = self.argv(w, s)
        o = ctx.host.run(w, self.tool, argv, cwd, {}, lambda ev: None)
        if o.status and self.prop != "C12":
            return None
        f = w.files()
        return dict(events=o.events, guide=f.get(src), failed="an undisturbed run fails: status %d\n%s" % (o.status, o.output) if o.status else None, headers={k: v for k, v in f.items() if os.path.dirname(k) == dst and k.endswith(".hpp")},
                    docs={k: v for k, v in f.items() if os.path.dirname(k) == "doc" and self.owned_doc(s, os.path.basename(k))})

    def simulate(self, ctx, s):
        w, h = ctx.world, hashlib.sha256()
        src, dst = self.layout(s)
        ref = self.reference(ctx, s)
        if ref is None:
            return None, ""
        if ref["failed"] and self.prop == "C12":
            return "run 1 of the history: " + ref["failed"], ""
        if self.prop == "C11":
            was, now = handwritten(s["guide"]), handwritten(ref["guide"].decode("latin-1"))
            if was != now:
                i = next((i for i, (a, b) in enumerate(zip(was, now)) if a != b), min(len(was), len(now)))
                return "run 1 of the history: an undisturbed run changes the hand-written text: %r became %r" % (was[i:i + 2], now[i:i + 2]), ""
        self.world(ctx, s, True)
        argv, cwd = self.argv(w, s)
        orig = s["guide"].encode("latin-1")
        unowned = {n: t.encode("latin-1") for n, t in s["unowned"].items()}
        sigs = {}

        def stat(n):
            st = os.lstat(os.path.join(w.root, n))
            return st.st_ino, st.st_size, st.st_mtime_ns

        def intact():
            for n, t in unowned.items():
                try:
                    sg = stat(n)
                except OSError:
                    return "%s, which the tool does not own, is gone" % n
                if sigs.get(n) != sg:
                    if w.get(n) != t:
                        return "%s, which the tool does not own, has changed" % n
                    sigs[n] = sg
            return None

        succeeded = False
        for i, r in enumerate(s["runs"]):
            before = w.get(src)
            start = w.files() if self.prop == "C11" else None
            odd = {}

            def obs(ev):
                if self.prop == "C13":
                    return intact()
                if self.prop == "C11":
                    t = w.get(src)
                    if t != before and t != ref["guide"] and t not in odd:
                        odd[t] = "the guide holds neither its previous text nor the complete new text: %s" % (
                            "it is gone" if t is None else "%d bytes of %d (previous) or %d (new)" % (len(t), len(before), len(ref["guide"])))
                return None

            o = ctx.host.run(w, self.tool, argv, cwd, sched(r["faults"]), obs, r["dict_seed"], r["list_seed"], None, r.get("full"))
            ctx.note(o)
            h.update(o.hash.encode())
            ok, v = o.status == 0 and not o.signal, o.viol
            if not v and odd:
                v = next((x for t, x in odd.items() if t != self.after(ctx, s, before)), None)
            if not v and self.prop == "C11":
                unread = [f for f in o.faults if f[1] == "error" and f[2] in ("open r", "read") and f[3] == os.path.join(w.root, src)]
                if unread and w.files() != start:
                    end = w.files()
                    v = "the guide could not be read, but this changed: %s" % sorted(k for k in set(end) | set(start) if end.get(k) != start.get(k))[:5]
                if not v and unread and ok:
                    v = "the guide could not be read, but the tool exits successfully"
            if not v and self.prop == "C12":
                if ok:
                    f = w.files()
                    hd = {k: x for k, x in f.items() if os.path.dirname(k) == dst and k.endswith(".hpp")}
                    if f.get(src) != ref["guide"]:
                        v = "the guide is not what one undisturbed run on the original guide gives" + (" (an undisturbed run again changes it)" if succeeded else "")
                    elif hd != ref["headers"]:
                        v = "the headers are not what one undisturbed run on the original guide gives: %s" % sorted(k for k in set(hd) | set(ref["headers"]) if hd.get(k) != ref["headers"].get(k))[:5]
                    else:
                        bad = sorted(k for k in ref["docs"] if f.get(k) != ref["docs"][k])
                        if bad:
                            v = "the included documents are not what one undisturbed run on the original guide gives: %s" % bad[:5]
                    succeeded = True
                    own = [x for x in hard(o) if x[2] not in ("unlink", "mkdir", "rmdir") or x[3] in (os.path.join(w.root, src),) or x[3].endswith(".hpp")]
                    if not v and own:
                        v = "the tool met %r, but exits successfully" % (own,)
                elif not r["faults"] and r.get("full") is None:
                    v = "an undisturbed run fails: status %d\n%s" % (o.status, o.output)
            if not v and self.prop == "C13" and ok:
                # nothing new but what the tool owns
                extra = [k for k in w.files() if k != src and k not in unowned and k not in s["stale"] and not (os.path.dirname(k) == dst and k.endswith(".hpp"))
                         and not (os.path.dirname(k) == "doc" and self.owned_doc(s, os.path.basename(k))) and os.path.dirname(k) not in ("doc", dst)]
                if extra:
                    v = "new files outside of the two directories: %s" % extra[:5]
            if v:
                return "run %d of the history: %s" % (i + 1, v), h.hexdigest()
            ctx.reach.add((o.status, tuple(sorted({(k, a) for n, k, a, x in o.faults})), len(o.events), len(r["faults"]) and r["faults"][0][0]))
        return None, h.hexdigest()

    def simpler(self, s):
        if s["stale"]:
            yield dict(s, stale={})
            for n in sorted(s["stale"]):
                yield dict(s, stale={k: v for k, v in s["stale"].items() if k != n})
        if s.get("mtimes") is not None:
            yield dict(s, mtimes=None)
        for n in sorted(s["unowned"]):
            yield dict(s, unowned={k: v for k, v in s["unowned"].items() if k != n})
        ls = s["guide"].split("\n")
        size = len(ls) // 2
        while size >= 1:
            for i in range(0, len(ls), size):
                g = "\n".join(ls[:i] + ls[i + size:])
                if gen_tools.in_domain(g):
                    yield dict(s, guide=g)
            size //= 2


# ---------------------------------------------------------------- C14
class Bench:
    tool = "benchmark/generate.py"

    def __init__(self, prop):
        self.prop = prop

    def gen(self, rng, ctx):
        s = gen_tools.bench(rng)
        ref = self.reference(ctx, s)
        if ref is None:
            return None
        for r in s["runs"]:
            if r.pop("disturb"):
                r["faults"], r["full"] = pick(rng, ref["events"])
            else:
                r["faults"], r["full"] = [], None
        return s

    def world(self, ctx, s):
        ctx.world.reset({"src/" + n: t.encode("latin-1") for n, t in s["templates"].items()}, dirs=["run", "src"])

    def argv(self, w, s, out):
        return ["--src", w.root + "/src", "--out", w.root + "/" + out] + (["--seed", str(s["seed"])] if s["seed"] is not None else [])

    def reference(self, ctx, s):
        w = ctx.world
        self.world(ctx, s)
        o = ctx.host.run(w, self.tool, self.argv(w, s, "out"), "run", {}, lambda ev: None, 0, 1)
        if o.status:
            return None
        return dict(events=o.events, out=self.out(w, "out"))

    @staticmethod
    def out(w, d):
        return {k[len(d) + 1:]: v for k, v in w.files(d).items()}

    def simulate(self, ctx, s):
        w, h = ctx.world, hashlib.sha256()
        ref = self.reference(ctx, s)
        if ref is None:
            return None, ""
        self.world(ctx, s)
        for i, r in enumerate(s["runs"]):
            out = "out%d" % r["out"]
            o = ctx.host.run(w, self.tool, self.argv(w, s, out), "run", sched(r["faults"]), lambda ev: None, r["dict_seed"], r["list_seed"], None, r.get("full"))
            ctx.note(o)
            h.update(o.hash.encode())
            ok, v = o.status == 0 and not o.signal, o.viol
            if not v and ok:
                f = self.out(w, out)
                bad = sorted(k for k in set(f) | set(ref["out"]) if f.get(k) != ref["out"].get(k) and not (k not in ref["out"] and not k.endswith((".cpp", ".json"))))
                if bad:
                    v = "regenerated from the same templates and seed, these files differ: %s" % bad[:5]
                    if r["list_seed"] != 1 and r["dict_seed"] == 0:
                        v = "[listing-order] " + v
                    elif r["list_seed"] == 1 and r["dict_seed"] != 0:
                        v = "[dictionary-order] " + v
                own = [x for x in hard(o) if x[2] not in ("unlink",)]
                if not v and own:
                    v = "the generator met %r, but exits successfully" % (own,)
                    if all(x[2] == "mkdir" for x in own):
                        v = "[mkdir-ignored] " + v
            if not v and not ok and not r["faults"] and r.get("full") is None:
                v = "an undisturbed run fails: status %d\n%s" % (o.status, o.output)
            if v:
                return "run %d of the history: %s" % (i + 1, v), h.hexdigest()
            ctx.reach.add((o.status, tuple(sorted({(k, a) for n, k, a, x in o.faults})), len(o.events), r["list_seed"] % 50))
        return None, h.hexdigest()

    def simpler(self, s):
        for n in sorted(s["templates"]):
            if len(s["templates"]) > 1:
                yield dict(s, templates={k: v for k, v in s["templates"].items() if k != n})


# ---------------------------------------------------------------- C15
class Together:
    """Several runs of a tool on the same files at the same time. A schedule is a list of [event number, run to go on with],
    the events of all runs counted together; between switches the same run goes on."""

    def __init__(self, prop):
        self.prop = prop
        self.header, self.guide = Header(prop), Guide("C12")

    tool = "build_environment.py, string_headers.py and generate_all.py"

    def gen(self, rng, ctx):
        kind = rng.choice(["header", "header", "guide", "guide", "guide", "env", "env"])
        n = rng.choice([2, 2, 2, 3, 4])
        seeds = lambda: dict(dict_seed=rng.randrange(1 << 30), list_seed=rng.randrange(1, 1 << 30))
        if kind == "header":
            s = gen_tools.header(rng)
            while True:
                args = [r["args"] for r in s["runs"]]
                if len(args) >= n or rng.random() < .3:
                    break
                s["runs"] += gen_tools.header(rng)["runs"]
            if rng.random() < .4:  # all the same
                args = [args[0]] * n
            s = dict(kind=kind, before=s["before"], dir="other" if s["dir"] == "nodir" else s["dir"], runs=[dict(seeds(), args=a) for a in args[:n]])
            plain = [self.header.reference(ctx, r["args"])[1] for r in s["runs"]]
        elif kind == "guide":
            g = gen_tools.guide(rng)
            if not gen_tools.in_domain(g["guide"]) or len(g["guide"]) > 20000:
                return None
            ref = self.guide.reference(ctx, g)
            if ref is None:
                return None
            s = dict(g, kind=kind, runs=[seeds() for _ in range(n)])
            plain = [ref["events"]] * n
        else:
            g = gen_tools.env(rng, "update")
            s = dict(g, kind=kind, runs=[dict(seeds(), action="update" if i == 0 or rng.random() < .6 else "checkout", out="boost%d" % i if rng.random() < .85 else "boost0") for i in range(n)])
            ev = Env("C08").simulate(ctx, dict(g, runs=[dict(g["runs"][0], faults=[], full=None)]), profile=True)
            plain = [ev] * n
        for r, ev in zip(s["runs"], plain):
            r["faults"], r["full"] = pick(rng, ev) if rng.random() < .25 else ([], None)
        total = sum(len(e) for e in plain) + 4 * n
        k = rng.random()
        if k < .3:  # few switches, at the operations that matter
            at = sorted(rng.sample(range(total), min(total, rng.randint(1, 6))))
        elif k < .8:
            p = rng.choice([.03, .1, .3])
            at = [i for i in range(total) if rng.random() < p]
        else:
            at = list(range(total))
        s["switches"] = [[i, rng.randrange(n)] for i in at]
        if rng.random() < .35:  # one after another they come to about the same point, and go on together from there
            back = rng.choice([rng.randint(0, 8), rng.randint(0, total // n)])
            i, s["switches"] = 0, []
            for j, ev in enumerate(plain):
                s["switches"].append([i, j])
                i += max(1, len(ev) - back - rng.randint(-1, 3))
            s["switches"] += [[k, rng.randrange(n)] for k in range(i, i + rng.choice([6, 12, 30]) * n)]
        return s

    def interleave(self, ctx, s, w, starts):
        """starts: generators. -> outcomes"""
        outs, alive, cur, n = {}, {}, 0, 0
        sw = {i: p for i, p in s["switches"]}

        def go(i):
            try:
                next(starts[i])
                alive[i] = True
            except StopIteration as e:
                outs[i] = e.value
                alive.pop(i, None)
        for i in range(len(starts)):
            go(i)
        switches = 0
        while alive:
            p = sw.get(n)
            if p is not None and p in alive and p != cur:
                cur = p
                switches += 1
            if cur not in alive:
                cur = min(alive)
            n += 1
            go(cur)
        ctx.stats["switches between runs"] += switches
        return [outs[i] for i in range(len(starts))]

    def hosts(self, ctx, n):
        while len(ctx.hosts) < n:
            ctx.hosts.append(Host(ctx.host.so))
        return ctx.hosts

    def simulate(self, ctx, s):
        v, h, outs = getattr(self, "sim_" + s["kind"])(ctx, s)
        for o in outs:
            ctx.note(o)
        ctx.reach.add((s["kind"], tuple((o.status, tuple(sorted({(k, a) for n, k, a, x in o.faults}))) for o in outs)))
        return v, h

    @staticmethod
    def first(outs):
        return next(("run %s: %s" % ("abcdef"[i], o.viol) for i, o in enumerate(outs) if o.viol), None)

    @staticmethod
    def ok(o):
        return o.status == 0 and not o.signal

    @staticmethod
    def calm(r):
        return not r["faults"] and r.get("full") is None

    def end(self, w, outs):
        h = hashlib.sha256("".join(o.hash for o in outs).encode())
        h.update("\n".join(w.trace).encode())
        return h.hexdigest()

    def sim_header(self, ctx, s):
        for r in s["runs"]:
            self.header.reference(ctx, r["args"])
        w = ctx.world
        hdr = ("include" if s["dir"] == "default" else "other") + "/boost/" + HDR
        files = {"include/boost/metaparse/string.hpp": b"other header\n"}
        if s["before"] is not None:
            files[hdr] = s["before"].encode("latin-1")
        w.reset(files, dirs=["run", os.path.dirname(hdr)])
        old = w.get(hdr)
        new = [ctx.ref[tuple(r["args"])][0] for r in s["runs"]]
        whole = {old} | {x for x in new if x is not None}

        def obs(ev):
            t = w.get(hdr)
            return None if t in whole else "the header is neither its previous content nor the complete header of one of the runs: %s" % (
                "it is gone" if t is None else "%d bytes, expected one of %s" % (len(t), sorted(len(x) for x in whole if x is not None)))
        argv = [] if s["dir"] == "default" else ["--boost_dir", w.root + "/other/boost"]
        names, hosts = {}, self.hosts(ctx, len(s["runs"]))
        outs = self.interleave(ctx, s, w, [hosts[i].steps(w, "string_headers.py", argv + r["args"], "run", sched(r["faults"]), obs, r["dict_seed"], r["list_seed"], None, r.get("full"), names, "abcdef"[i])
                                            for i, r in enumerate(s["runs"])])
        v = self.first(outs)
        for r, o, x in zip(s["runs"], outs, new):
            if not v and self.calm(r) and x is not None and not self.ok(o):
                v = "an undisturbed run fails because of another one: status %d\n%s" % (o.status, o.output)
            if not v and self.ok(o) and (x is None or w.get(hdr) not in new):
                v = "a run exits successfully, but none of the new headers is in place"
        return v, self.end(w, outs), outs

    def sim_guide(self, ctx, s):
        g, w = self.guide, ctx.world
        src, dst = g.layout(s)
        ref = g.reference(ctx, s)
        if ref is None:
            return None, "", []
        g.world(ctx, s, True)
        argv, cwd = g.argv(w, s)
        orig = s["guide"].encode("latin-1")
        before = w.files()

        def obs(ev):
            t = w.get(src)
            return None if t in (orig, ref["guide"]) else "the guide holds neither its previous text nor the complete new text: %s" % (
                "it is gone" if t is None else "%d bytes of %d (previous) or %d (new)" % (len(t), len(orig), len(ref["guide"])))
        names, hosts = {}, self.hosts(ctx, len(s["runs"]))
        outs = self.interleave(ctx, s, w, [hosts[i].steps(w, "generate_all.py", argv, cwd, sched(r["faults"]), obs, r["dict_seed"], r["list_seed"], None, r.get("full"), names, "abcdef"[i])
                                            for i, r in enumerate(s["runs"])])
        v = self.first(outs)
        made = dict(ref["headers"], **ref["docs"])

        def differs():
            f = w.files()
            f = {k: x for k, x in f.items() if k == src or k in ref["docs"] or (os.path.dirname(k) == dst and k.endswith(".hpp"))}
            want = dict(made, **{src: ref["guide"]})
            return sorted(k for k in set(f) | set(want) if f.get(k) != want.get(k))
        if not v:
            f = w.files()
            torn = sorted(k for k in made if k in f and f[k] != made[k] and f[k] != before.get(k))
            if torn:
                v = "when all runs have ended, these files are neither as before nor complete: %s" % torn[:5]
        if not v and all(self.ok(o) for o in outs) and differs():
            v = "all runs succeed, but together they leave something else than one run alone: %s" % differs()[:5]
        if not v:  # once nothing else runs, a run puts everything right
            o = hosts[0].run(w, "generate_all.py", argv, cwd, {}, obs, names=names)
            outs.append(o)
            if o.viol or not self.ok(o):
                v = "a run alone afterwards fails: %s" % (o.viol or o.output)
            elif differs():
                v = "a run alone afterwards does not give what one run on the original guide gives: %s" % differs()[:5]
        return v, self.end(w, outs), outs

    def sim_env(self, ctx, s):
        w, dep = ctx.world, s["dep"]
        old = s["text"].encode("latin-1")
        w.reset({dep: old, "doc/other.txt": b"other\n"}, dirs=[s["cwd"]])
        deps = json.loads(s["text"])
        gits, peers = [], []
        for i, r in enumerate(s["runs"]):
            git = Git(w, ctx.gitbin, s["git"], "gitbin%d" % i, peers)
            git.listen()
            git.begin(i)
            gits.append(git)
            peers.append(git)

        def sets():
            """The complete sets of pins there may be: what git has reported to each of the updates."""
            return [{m: {c for ref, c, f in g.reported.get(m, []) if ref == s["ref"] and f} for m in deps} for g, r in zip(gits, s["runs"]) if r["action"] == "update"]

        def is_new(t):
            try:
                d = json.loads(t)
            except ValueError:
                return False
            return isinstance(d, dict) and set(d) == set(deps) and any(all(d[m] in n[m] for m in n) for n in sets())

        def obs(ev):
            t = w.get(dep)
            if t is None:
                return "the dependency file is gone"
            if t != old and not is_new(t):
                return "the dependency file holds neither its previous content nor the complete new set of pins of one of the runs: %r" % (t[:300],)
            return None
        names, hosts, starts = {}, self.hosts(ctx, len(s["runs"])), []
        for i, r in enumerate(s["runs"]):
            argv = ["--dep_json", os.path.join(w.root, dep) if s["abs"] else os.path.relpath(dep, s["cwd"]), "--git", gits[i].bin,
                    "--out", os.path.join(w.root, r["out"]) if s["abs"] else r["out"], "--action", r["action"], "--boost_repository", s["git"]["url"], "--ref", s["ref"]]
            starts.append(hosts[i].steps(w, "build_environment.py", argv, s["cwd"], sched(r["faults"]), obs, r["dict_seed"], 1, gits[i], r.get("full"), names, "abcdef"[i]))
        try:
            outs = self.interleave(ctx, s, w, starts)
        finally:
            for g in gits:
                g.close()
        v = self.first(outs)
        t = w.get(dep)
        for r, o, g in zip(s["runs"], outs, gits):
            alone = len([x for x in s["runs"] if x["out"] == r["out"]]) == 1
            if not v and self.calm(r) and alone and g.failed is None and not self.ok(o):
                v = "an undisturbed run fails because of another one: status %d\n%s" % (o.status, o.output)
            if not v and self.ok(o) and g.failed is not None:
                v = "git %r failed, but the tool exits successfully" % (g.failed,)
            if not v and self.ok(o) and r["action"] == "update" and not is_new(t):
                v = "an update exits successfully, but the dependency file does not hold a new set of pins: %r" % (t[:300],)
            if not v and self.ok(o) and r["action"] == "checkout":
                at = {m: g.head.get(m) for m in deps}
                if not (at == deps or any(all(at[m] in n[m] for m in n) for n in sets())):
                    v = "a checkout exits successfully, but the modules are at the pins of no complete dependency file: %r" % (at,)
        return v, self.end(w, outs), outs

    def simpler(self, s):
        n = len(s["switches"])
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(s, switches=s["switches"][:i] + s["switches"][i + size:])
            size //= 2
        if s["kind"] == "guide":
            for t in self.guide.simpler(s):
                yield t
        elif s["kind"] == "header":
            if s["before"] and len(s["before"]) > 4:
                yield dict(s, before="old\n")
        elif s["kind"] == "env":
            for t in Env("C08").simpler(s):
                yield t


CASES = {"C08": Env, "C09": Env, "C10": Header, "C11": Guide, "C12": Guide, "C13": Guide, "C14": Bench, "C15": Together}
RUNS = {"C08": 1500, "C09": 1500, "C10": 900, "C11": 900, "C12": 900, "C13": 900, "C14": 700, "C15": 1800}
DEEP = 25


def known_key(v):
    m = re.match(r"(run \d+ of the history: )?\[([a-z-]+)\]", v)
    return m.group(2) if m else None


def vclass(v):
    """What kind of violation, without its particulars."""
    v = re.sub(r"^run \d+ of the history[^:]*: ", "", v.split("\n")[0])
    if known_key(v):
        return known_key(v)
    v = re.sub(r"[0-9a-f]{40}", "", v)
    v = re.sub(r"^(before )?event \d+ ?(\(.*?\))?: ", "", v)
    return re.sub(r"[^a-z ]+", "", v)[:32]


def minimise(case, ctx, s):
    budget = [200]
    cls = vclass(case.simulate(ctx, s)[0])

    def fails(x):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        try:
            v = case.simulate(ctx, x)[0]
            return v is not None and vclass(v) == cls
        except CheckError:
            return False

    # fewer runs in the history, fewer faults, a simpler world
    runs = ddmin(s["runs"], lambda l: bool(l) and fails(dict(s, runs=l)))
    if fails(dict(s, runs=runs)):
        s = dict(s, runs=runs)
    for i in range(len(s["runs"])):
        def put(f):
            return dict(s, runs=s["runs"][:i] + [dict(s["runs"][i], faults=f)] + s["runs"][i + 1:])
        f = ddmin(s["runs"][i]["faults"], lambda l: fails(put(l)))
        if fails(put(f)):
            s = put(f)
        if s["runs"][i].get("full") is not None:
            t = dict(s, runs=s["runs"][:i] + [dict(s["runs"][i], full=None)] + s["runs"][i + 1:])
            if fails(t):
                s = t
    again = True
    while again and budget[0] > 0:
        again = False
        for t in case.simpler(s):
            if fails(t):
                s, again = t, True
                break
    return s


def replay_text(prop, seed, s, what, trace):
    return "@property %s\n@seed %s\n@spec %s\n# %s\n# the run that shows it:\n%s\n" % (
        prop, seed, json.dumps(s, sort_keys=True), what.replace("\n", "\n# "), "\n".join("#   " + t for t in trace[-120:]))


def worker(args):
    prop, seed, lo, hi, base, so, git = args
    ctx = Ctx(base, so, git)
    case = CASES[prop](prop)
    viols, seen, hashes, log = [], set(), set(), hashlib.sha256()
    try:
        for i in range(lo, hi):
            rng = random.Random("%s %d %d" % (prop, seed, i))
            s = case.gen(rng, ctx)
            if s is None:
                ctx.stats["worlds without a reference run"] += 1
                continue
            v, h = case.simulate(ctx, s)
            ctx.stats["histories"] += 1
            hashes.add(h)
            log.update(h.encode())
            if v:
                cls = vclass(v)
                if cls in seen:
                    continue
                seen.add(cls)
                if not known_key(v):
                    full, w = s, v
                    try:
                        s = minimise(case, ctx, s)
                        v, h = case.simulate(ctx, s)
                    except (AttributeError, CheckError):  # it does not show itself in every execution
                        v = None
                    if not v:
                        s, v = full, w
                if v:
                    viols.append((v, replay_text(prop, "%d/%d" % (seed, i), s, v, ctx.world.trace)))
                if len([x for x in viols if not known_key(x[0])]) >= 2:
                    break
    except CheckError as e:
        return str(e), [], {}, 0, set(), lo, ""
    finally:
        ctx.close()
    return None, viols, dict(ctx.stats), len(hashes), ctx.reach, lo, log.hexdigest()


def base_dir():
    d = "/dev/shm"
    try:
        return tempfile.mkdtemp(prefix="verif.", dir=d)
    except OSError:
        return tempfile.mkdtemp(prefix="verif.")


def run(prop, tier, seed):
    t0 = time.time()
    base = base_dir()
    os.chmod(base, 0o755)
    try:
        so, git = simtools.build(base)
        case = CASES[prop](prop)
        total = RUNS[prop] * (DEEP if tier == "thorough" else 1)
        viols = []
        if hasattr(case, "prelude"):
            ctx = Ctx(base, so, git)
            for s, v in case.prelude(seed, tier, base, ctx):
                viols.append((v, replay_text(prop, str(seed), s, v, [])))
            ctx.close()
        n = min(32, total)
        jobs = [(prop, seed, total * i // n, total * (i + 1) // n, base, so, git) for i in range(n)]
        stats, distinct, reach, logs = collections.Counter(), 0, set(), {}
        with multiprocessing.get_context("fork").Pool(JOBS) as pool:
            for err, vs, st, d, rc, lo, lh in pool.imap_unordered(worker, jobs):
                if err:
                    raise CheckError(err)
                viols += vs
                stats.update(st)
                distinct += d
                reach |= rc
                logs[lo] = lh
    finally:
        shutil.rmtree(base, ignore_errors=True)
    viols.sort()
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault ")}
    cov = dict(
        evaluations=stats["runs"], distinct_nontrivial=distinct,
        rare_behaviours=faults, histories=stats["histories"], simulated_events=stats["events"],
        simulated_time="%d file and git events simulated, on a simulated clock that may be set back or forth between runs" % stats["events"],
        distinct_measure="distinct event logs (every operation, answer and final state) of histories; outcome classes (status, fault kinds, length): %d" % len(reach),
        log_hash=hashlib.sha256("".join(logs[k] for k in sorted(logs)).encode()).hexdigest(),
        switches_between_runs=stats["switches between runs"],
        runs_by_end={k: stats[k] for k in ("runs succeeded", "runs failed", "runs killed")},
        skipped_worlds=stats["worlds without a reference run"],
        real_code="tools/%s of the working tree, run as Python 3 after a mechanical translation (lib/py2.py); the real kernel file system in a scratch directory" % case.tool,
        stubs="git (a model of clone, submodule, fetch, show-ref, checkout)" if prop in ("C08", "C09", "C15") else "Cheetah (the subset the templates use)" if prop == "C14" else "none",
    )
    out, kinds = [], set()
    for v, r in viols:
        k = vclass(v)
        if k not in kinds:
            kinds.add(k)
            out.append(Violation(v, r))
            out[-1].key = known_key(v)
    out = [v for v in out if v.key] + [v for v in out if not v.key][:4]
    return out, cov, ["the tools behave under Python 2 as their translation does under Python 3, with dict order decided by the simulator",
                          "what a killed process has written is in the file system (no loss of power)"]


def replay(text):
    h = header(text)
    base = base_dir()
    os.chmod(base, 0o755)
    try:
        so, git = simtools.build(base)
        ctx = Ctx(base, so, git)
        try:
            case = CASES[h["property"]](h["property"])
            s = json.loads(h["spec"])
            if "whole" in s:
                v = [x for x in case.prelude(int(h["seed"]), "thorough", base, ctx) if x[0]["runs"] == s["runs"]]
                return (True, v[0][1], hashlib.sha256(v[0][1].encode()).hexdigest()) if v else (False, "", "")
            v, hs = case.simulate(ctx, s)
            return v is not None, (v or "") + "\n" + "\n".join("  " + t for t in ctx.world.trace[-40:]), hs
        finally:
            ctx.close()
    finally:
        shutil.rmtree(base, ignore_errors=True)
