"""Generators of the worlds the tools are simulated in."""
import hashlib
import json
import os

from common import REPO


def sha(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()


NAMES = ["libs/mpl", "libs/config", "libs/core", "libs/numeric/conversion", "libs/test", "tools/build", "tools/quickbook", "libs/wave", "libs/a", "libs/a_b"]


def env(rng, action):
    mods = rng.sample(NAMES, rng.randint(1, 6))
    alln = sorted(set(mods) | set(rng.sample(NAMES, rng.randint(0, 3))) | {""})
    if rng.random() < .8:
        mods.append("")
    pins = {m: sha("pin", m, rng.randrange(100)) for m in mods}
    for m in mods:  # a pin that looks like the commit the top-level module records, or is that of another module
        r = rng.random()
        if r < .12:
            other = sha("recorded", m) if m else sha("tip", m, "origin/master", 1)
            k = rng.choice([4, 7, 8, 10, 12, 39, 40])
            pins[m] = other[:k] + (sha("near", m, rng.randrange(100)) if k < 39 else "0" if other[39:] != "0" else "1")[:40 - k].ljust(40 - k, "0")
        elif r < .16:
            pins[m] = pins[rng.choice(mods)]
    fmt = rng.choice([dict(indent=2, sort_keys=True), dict(indent=2), dict(), dict(indent=4)])
    text = json.dumps(pins, **fmt) + rng.choice(["", "\n", "\n"])
    refs = ["origin/master", "origin/develop"]
    ref = rng.choice(refs + ["origin/master"] * 2)
    ncmd = 3 + 2 * len(mods)
    moves = [[rng.randrange(ncmd), rng.choice(alln)] for _ in range(rng.randint(0, 6))]
    return dict(action=action, text=text, dep=rng.choice(["conf/deps.json", "run/deps.json"]), cwd="run", out=rng.choice(["boost", "env/boost"]), abs=rng.random() < .4, ref=ref,
                git=dict(all=alln, pins=pins, refs=refs, default_ref="origin/master", url=rng.choice(["https://example.org/boost.git", "/srv/boost.git"]), moves=moves,
                         many_refs=rng.random() < .2, noisy=rng.random() < .3),
                runs=[dict(faults=[], full=None, dict_seed=rng.randrange(1 << 30))])


def header(rng):
    def args():
        r = rng.random()
        if r < .12:
            return rng.choice([["--max_length_limit", "0"], ["--max_length_limit", "-3"], ["--length_limit_step", "0"], ["--max_length_limit", "many"], ["--unknown"],
                               ["--max_length_limit"]])
        step = rng.choice([1, 2, 3, 4, 8, 16, 32, 100])
        mx = step * rng.randint(1, 4) + (rng.choice([0, 0, 0, -1, 1, 2]) if step > 3 else 0) if rng.random() < .8 else rng.randint(1, 60)
        if r < .16:
            return []
        return ["--max_length_limit", str(max(mx, 1)), "--length_limit_step", str(step)]
    runs = [dict(args=args(), disturb=rng.random() < .85) for _ in range(rng.choice([1, 1, 2, 3]))]
    runs.append(dict(args=args(), disturb=False))
    before = rng.choice([None, "// an older header\n", "x" * rng.randint(1, 20000), ""])
    return dict(before=before, dir=rng.choice(["default", "other", "other", "other"] + (["nodir"] if rng.random() < .3 else [])), runs=runs)


def guide(rng):
    if rng.random() < .02 and os.path.exists(os.path.join(REPO, "doc/getting_started.qbk")):
        text = open(os.path.join(REPO, "doc/getting_started.qbk"), encoding="latin-1").read()
    else:
        text = guide_text(rng)
    layout = rng.choice(["doc", "doc", "cwd", "abs", "txt"])
    base = {"doc": "getting_started", "abs": "getting_started", "cwd": "guide", "txt": "guide.txt"}[layout]
    dst = "example/getting_started/"
    unowned = {}
    for n in [dst + "main.cpp", dst + "Jamfile.v2", dst + "old.hpp.bak", dst + "hpp", dst + "sub/kept.hpp", dst + "notes.qbk", "doc/design.qbk", "doc/before_you_start.qbk",
              "doc/" + base + "_old.qbk", "doc/" + base + "_notes.txt", "doc/Jamfile.v2", "doc/kept.hpp", "example/kept.hpp", "example/other/1.hpp", "doc/before_.qbk", "doc/sub/before_1.qbk",
              "doc/doc/before_1.qbk", "LICENSE", "kept.hpp", "example/getting_started.qbk", "doc/1.hpp", dst + "README", "doc/other.tmp", "doc/other.qbk.tmp", dst + "other.tmp", dst + "1.hpp.in",
              "doc/" + base + "_advanced_1.qbk", "doc/" + base + "2_0.qbk", "doc/" + base + "_.qbk", "doc/before_1a.qbk", "doc/x_before_1.qbk", "doc/not_" + base + "_0.qbk", "doc/" + base + "_0.qbk.in",
              "doc/" + base + "s.qbk", "doc/tmp", "doc/.hidden", dst + ".hpp.d", dst + "1.h", dst + "1.HPP", "tmp.hpp", "other/getting_started/1.hpp", "example/getting_started2/1.hpp"]:
        if rng.random() < .3:
            unowned[n] = "%s %d\n" % (n, rng.randrange(1000))
    stale = {}
    for n in [dst + "1.hpp", dst + "1_1.hpp", dst + "99.hpp", dst + "zzz.hpp", "doc/before_1.qbk", "doc/before_2_1.qbk", "doc/" + base + "_0.qbk", "doc/" + base + "_7.qbk"]:
        if rng.random() < .4:
            stale[n] = "stale %s\n" % n * rng.randint(0, 3)
    mtimes = rng.choice([None, rng.randrange(1 << 30)])
    runs = [dict(disturb=rng.random() < .8, dict_seed=rng.randrange(1 << 30), list_seed=rng.randrange(1, 1 << 30)) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    runs += [dict(disturb=False, dict_seed=rng.randrange(1 << 30), list_seed=rng.randrange(1, 1 << 30)) for _ in range(2)]
    return dict(guide=text, layout=layout, unowned=unowned, stale=stale, runs=runs, mtimes=mtimes)


def outdated(rng, new):
    """What an older version of a generated file may hold: new with something changed, of the same or another size."""
    k = rng.choice(["byte", "byte", "cut", "more", "empty", "same", "swap"])
    if k == "byte" and new:
        i = rng.randrange(len(new))
        return new[:i] + ("x" if new[i] != "x" else "y") + new[i + 1:]
    if k == "cut" and new:
        return new[:rng.randrange(len(new))]
    if k == "swap" and new:
        ls = new.split("\n")
        i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
        ls[i], ls[j] = ls[j], ls[i]
        return "\n".join(ls)
    return "" if k == "empty" else new + "more\n" if k == "more" else new


def in_domain(text):
    """No section starts directly after an indented line (what the property asks of a guide)."""
    ls = text.split("\n")
    return not any(a.startswith("  ") and b.startswith("[section") for a, b in zip(ls, ls[1:]))


WORDS = "parser input digit the result of a sequence template apply type error message build \xe9t\xe9 `foo` [link x y]".split()


OTHER = ["\t", " ", "\ttab", " one space", "[section Unnumbered]", "[endsect]", "endsect in text", "[include other.qbk]", "> quoted", "...> quoted", "text   ", "[heading X]",
         "1. One", "[/ comment]", "[section:id Named]", "[section 3 no dot]", "[section 2.]", "\\", "[note A note]", "[section 1.1. Again]",
         " [note Note that you can find everything that has been included and defined so far [link before_1 here].]", "You can find everything that has been included and defined so far [link before_1 here].",
         "[note Note that you can find everything]", "A copy/paste friendly version", "The Copy-Paste Friendly Version", "[link getting_started_0 here]", "[include getting_started_1.qbk]", "[endsect] ",
         "Definitions before each section", "Copy-paste friendly code examples", "form\x0cfeed", "a\rb", "line one\x0bline two", "\x1c", "[#before_1]"]


def guide_text(rng):
    out = ["[#getting_started]", "[section Getting started]", ""]
    special = [["[section Definitions before each section]", "", "[include before_1.qbk]", "", "[endsect]", ""],
               ["[section Copy-paste friendly code examples]", "", "[include x_0.qbk]", "", "[endsect]", ""]]

    def blank():
        out.extend([""] * rng.choice([1, 1, 1, 1, 2, 3]))

    def para():
        for _ in range(rng.randint(1, 3)):
            out.append(" ".join(rng.choice(WORDS) for _ in range(rng.randint(2, 8))))

    n = [0]

    def snippet():
        k = rng.random()
        if k < .2:
            for _ in range(rng.randint(1, 3)):
                out.append("  " + rng.choice(["$ metashell -I x", "int main() {", "  return 0;", "}", "using x = y;"]))
            return
        for _ in range(rng.randint(1, 3)):
            n[0] += 1
            q = rng.random()
            if q < .25:
                out.append("  > #include <boost/metaparse/h%d.hpp>" % n[0])
            elif q < .35:
                out.append("  > #include <metashell/formatter.hpp>")
            elif q < .55:
                out.append("  > using t%d = int;" % n[0])
            elif q < .75:
                out.extend(["  > using p%d = \\" % n[0], "  ...>   foo<\\", "  ...>     bar%d>;" % n[0]])
            elif q < .9:
                out.extend(["  > p%d::apply<BOOST_METAPARSE_STRING(\"13\")>::type" % n[0], "  mpl_::integral_c<int, %d>" % n[0]])
            else:
                out.extend(["  > template <class T> \\", "  ...> struct s%d;" % n[0]])

    def section(num, depth):
        if out[-1].startswith("  "):
            out.append("")
        out.append("[section %s. %s]" % (".".join(map(str, num)), rng.choice(["Intro", "Using it", "More"])))
        if rng.random() < .9:
            blank()
        for _ in range(rng.randint(0, 3)):
            k = rng.choice([para, snippet, snippet])
            k()
            if rng.random() < .9:
                blank()
        if depth < 2:
            for i in range(rng.randint(0, 2)):
                section(num + [i + 1], depth + 1)
        out.append("[endsect]")
        if rng.random() < .8:
            blank()

    for i in range(rng.randint(1, 4)):
        section([i + 1 if rng.random() < .95 else i + 10], 0)
    if out[-1].startswith("  "):
        out.append("")
    for sp in rng.sample(special, rng.randint(0, 2)):
        out.extend(sp)
    out.append("[endsect]")
    for _ in range(rng.choice([0, 0, 1, 3, 6])):  # lines of other kinds, anywhere before the generated sections
        lim = min([j for j, l in enumerate(out) if l.startswith(("[section Def", "[section Copy"))] + [len(out)])
        i, l = rng.randrange(lim + 1), rng.choice(OTHER)
        prev, nxt = out[i - 1] if i else "", out[i] if i < len(out) else ""
        if not (prev.startswith("  ") and (l.startswith("[section") or nxt.startswith("  "))):
            out.insert(i, l)
    text = "\n".join(out) + rng.choice(["\n", "\n", "\n\n", ""])
    return text.replace("\n", "\r\n") if rng.random() < .05 else text


def bench(rng):
    t = {}
    for n in rng.sample(["length128", "max_length", "number", "alpha", "Beta", "z"], rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4])):
        lo = rng.choice([0, 0, 1])
        hi = lo + rng.randint(1, 9)
        modes = rng.choice(["BOOST_METAPARSE_STRING, manual", "BOOST_METAPARSE_STRING", "manual, BOOST_METAPARSE_STRING"])
        body = "".join(rng.choice([
            "#for j in range(0, %d)\nTEST_STRING($random_string($n))\n#end for\n" % rng.randint(1, 4),
            "#for j in range(0, $n)\nTEST_STRING($random_string(%d))\n#end for\n" % rng.randint(0, 20),
            "TEST_STRING(BOOST_METAPARSE_STRING(\"\\x0$n\"))\n"]) for _ in range(rng.randint(1, 3)))
        t[n + ".cpp"] = ("// n in [%d..%d), step %d\n// x_axis_label: Length %s\n// desc: Strings of %s.\n// modes: %s\n\n\\#define BOOST_METAPARSE_LIMIT_STRING_SIZE $n\n\n"
                         "\\#include <benchmark_util.hpp>\n\n%s\n" % (lo, hi, rng.randint(1, 3), n, n, modes, body))
    for n in ["README.txt", "x.cpp.orig", "cpp"]:
        if rng.random() < .2:
            t[n] = "not a template\n"
    # the orders are those of the reference run (0 and 1) in most histories: that they matter is a known finding, which would hide others
    vary = rng.choice(["", "", "", "dict_seed", "list_seed"])

    def run(out, disturb):
        o = dict(dict_seed=0, list_seed=1)
        if vary:
            o[vary] = rng.randrange(2, 1 << 30)
        return dict(o, out=out, disturb=disturb)
    runs = [run(rng.randint(0, 1), rng.random() < .4) for _ in range(rng.randint(1, 3))] + [run(0, False)]
    return dict(templates=t, seed=rng.choice([None, 13, 1, 99]), runs=runs)
