"""Scenarios for the debugging utility: parser, input and the report the reference model predicts."""
import random
import re

import gen_parsers as g
from gen_texts import Msg, cstr, literal, index, unpaired, string_type, SIMPLE, INTS

USER = ["", "short", "a message that is longer than any small string buffer would be", "100% %s {} \\", "x" * 300]


def build(seed, cpp98, count):
    r = random.Random("debug-%s" % seed)
    decl, msgs = [], [g.simple(n) for n in SIMPLE]
    for i, u in enumerate(USER):
        decl.append("BOOST_METAPARSE_DEFINE_ERROR(user_error_%d, %s);" % (i, cstr(u)))
        msgs.append(Msg("user_error_%d" % i, u, "user_error_%d" % i))
    msgs += [literal(ord(c)) for c in "(x"]
    for _ in range(4):
        msgs.append(index(*[r.choice(INTS) for _ in range(3)]))
        msgs.append(unpaired(abs(r.choice(INTS)), abs(r.choice(INTS)), r.choice(msgs)))
    rows, n = [], 0
    limit = 30 if cpp98 else 60
    fails = 0
    wide = [] if cpp98 else [r.randint(100, 140), r.randint(250, 320), r.randint(500, 1030)]
    while len(rows) < count:
        p = g.parser(r, cpp98, r.choice([0, 1, 2, 2, 3]), msgs)
        if len(p.type) > 900:
            continue
        s = g.text_input(r, p, limit)
        if not cpp98 and r.random() < 0.1:
            s += "".join(chr(r.randrange(32, 127)) for _ in range(r.choice([40, 128, 300])))
        if r.random() < 0.15:  # long and many-lined inputs
            pre = "".join(r.choice("a \n") for _ in range(r.randint(5, limit - 8)))
            q = g.sequence([g.rep(g.one_of([g.lit("a"), g.lit(" "), g.lit("\n")], cpp98), "foldl"), p])
            p, s = q, (pre + s)[:limit]
        if wide:  # lines and columns beyond the first hundreds
            n, cs = wide.pop(), r.choice(["a", "ab", "\n", "\t\n", "a" * 200 + "\n"])
            pre = "".join(r.choice(cs) for _ in range(n))
            p = g.sequence([g.rep(g.one_of_c(sorted(set(cs)), cpp98) if len(set(cs)) > 1 else g.lit(cs[0]), "foldl"), r.choice([g.digit(), p])])
            s = pre + r.choice([s[:20], "", "?", "7"])
        if re.search("[0-9]{9}", s):  # int_ would overflow
            continue
        x = p.f(s, 0, g.START)
        if x[0] == "ok" and len(rows) - fails > count * 0.4:
            continue
        report = "Compile-time parsing results\n----------------------------\nInput text:\n%s\n\n" % s
        if x[0] == "err":
            fails += 1
            report += "Parsing failed:\nline %d, col %d: %s\n" % (x[1][0], x[1][1], x[2].text)
        else:
            report += "Parsing was successful. Remaining string is:\n%s\n" % s[x[1]:]
        built = r.random() < 0.1
        rows.append((len(rows), p, s, report, built))
    return decl, rows


NEED, CODE = g.split(set(g.ALL) | {"decl:" + d for d in g.DECLS})
HEADERS = sorted(NEED | set("""debug_parsing_error build_parser define_error error/index_out_of_range error/unpaired
error/literal_expected error/digit_expected error/end_of_input_expected error/letter_expected
error/none_of_the_expected_cases_found error/unexpected_character error/unexpected_end_of_input error/whitespace_expected
v1/error/expected_to_fail""".split()))


def source(seed, cpp98, count):
    decl, rows = build(seed, cpp98, count)
    out = ["#include <boost/metaparse/%s.hpp>" % h for h in HEADERS]
    out += ['#include "dbgiface.h"', g.PRELUDE, "using namespace boost::metaparse;", CODE] + decl
    out += ["template <class D> struct derived : D { int x; };",
            "template <class D> void make(int form) {",
            "  switch (form) {",
            "    case 0: { D d; dbg_after(); break; }",
            "    case 1: { D(); dbg_after(); break; }",
            "    case 2: { D* d = new D; dbg_after(); delete d; break; }",
            "    case 3: { derived<D> d; dbg_after(); (void)d; break; }",
            "    default: { D d[2]; dbg_after(); (void)d; break; }",
            "  } }"]
    tab = []
    for i, p, s, report, built in rows:
        t = "build_parser<%s >" % p.type if built else p.type
        lit = not cpp98 and len(s) < 32 and i % 2
        out.append("typedef debug_parsing_error<%s, %s > dbg_%d;" % (t, "BOOST_METAPARSE_STRING(%s)" % cstr(s) if lit else string_type(s), i))
        tab.append("  {%s, &make<dbg_%d>, %s, %d}," % (cstr("%d:%s" % (i, s.encode("latin-1").hex())), i, cstr(report), len(report)))
    out += ['extern "C" const dbg_scenario dbg_scenarios[] = {'] + tab + ["};", 'extern "C" const int dbg_scenario_count = %d;' % len(tab)]
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    print(source(sys.argv[1], sys.argv[2] == "98", int(sys.argv[3])))
