"""Translation units that read string arrays, integral results and error texts in every phase of a program."""
import random
import re

import gen_parsers as g
import gen_texts
from gen_texts import SIMPLE, cstr, string_type

NEED, CODE = g.split(set(g.ALL) | {"decl:" + d for d in g.DECLS})
HEADERS = sorted(NEED | set(gen_texts.INCLUDES) | {"get_result", "get_remaining", "string_value"})


def values(seed, cpp98):
    """The pool of values all units of a program draw from."""
    r = random.Random("phases-%s-%s" % (seed, cpp98))
    decl, msgs, strings = gen_texts.build("ph%s" % seed, cpp98)
    vals = []
    for m in msgs:
        vals.append(("text", m.name, m.type, m.text))
    for m in strings:
        vals.append(("string", m.name, m.type, m.text))
        if not cpp98 and len(m.text) < 32 and "\0" not in m.text:
            vals.append(("string", m.name + "L", "BOOST_METAPARSE_STRING(%s)" % cstr(m.text), m.text))
            vals.append(("string", m.name + "V", "decltype(BOOST_METAPARSE_STRING_VALUE(%s))" % cstr(m.text), m.text))
    pm = [g.simple(n) for n in SIMPLE]
    n = 0
    while n < 25:
        p = g.parser(r, cpp98, r.choice([0, 1, 2]), pm)
        s = g.text_input(r, p, 25)
        if len(p.type) > 500 or re.search("[0-9]{9}", s):
            continue
        x = p.f(s, 0, g.START)
        if x[0] == "ok":
            t = "%s::apply<%s, start>" % (p.type, string_type(s))
            vals.append(("string", "remaining:%d" % n, "get_remaining<%s >::type" % t, s[x[1]:]))
            if p.kind == "int":
                vals.append(("int", "result:%d" % n, "get_result<%s >::type" % t, x[3]))
            n += 1
    return decl, vals


PHASES = ["ctor101", "prio102", "static", "thread-in-static", "atexit", "dtor", "dtor101", "tls-dtor", "late-static"]


def unit(seed, k, cpp98, decl, vals):
    r = random.Random("phase-unit-%s-%s-%s" % (seed, k, cpp98))
    chosen = r.sample(vals, 100)
    name = "u%s" % k
    out = ["#include <boost/metaparse/%s.hpp>" % h for h in HEADERS + ["v1/error/expected_to_fail"]]
    out += ["#include <boost/mpl/string.hpp>", '#include "phaseiface.h"', "using namespace boost::metaparse;"]
    # all of it in headers in real programs, hence the same in every unit
    out += [g.PRELUDE, CODE] + decl
    phases = [p for p in PHASES if r.random() < 0.75] or ["static"]
    body = []
    early = ["static void check_%s(const char* phase);" % name]
    if "ctor101" in phases:
        early.append("__attribute__((constructor(101))) static void c101() { check_%s(\"ctor101\"); }" % name)
    if "prio102" in phases:
        early.append("struct prio { prio() { check_%s(\"prio102\"); } ~prio() { check_%s(\"prio102-dtor\"); } }; static prio prio_ __attribute__((init_priority(102)));" % (name, name))
    if "static" in phases:
        early.append("struct st { st() { check_%s(\"static\"); } }; static st st_;" % name)
    if "atexit" in phases:
        early.append("static void at_ex() { check_%s(\"atexit\"); } struct ae { ae() { std::atexit(at_ex); } }; static ae ae_;" % name)
    if "dtor" in phases:
        early.append("struct dt { ~dt() { check_%s(\"dtor\"); } }; static dt dt_;" % name)
    if "dtor101" in phases:
        early.append("__attribute__((destructor(101))) static void d101() { check_%s(\"dtor101\"); }" % name)
    if "thread-in-static" in phases:
        early.append("static void* thr(void*) { check_%s(\"thread-in-static\"); return 0; } struct ts { ts() { pthread_t t; if (!std::getenv(\"VERIF_PHASE_DL\") && !pthread_create(&t, 0, thr, 0)) pthread_join(t, 0); } }; static ts ts_;" % name)
    if "tls-dtor" in phases and not cpp98:
        early.append("struct tl { int x; ~tl() { check_%s(\"tls-dtor\"); } }; static thread_local tl tl_; static void touch_tls() { tl_.x = 1; }" % name)
    else:
        early.append("static void touch_tls() {}")
    r.shuffle(early)
    early.sort(key=lambda l: not l.startswith("static void check_"))
    rows = []
    for i, (kind, vn, t, want) in enumerate(chosen):
        if kind == "text":
            body.append("typedef %s t%d; static std::string g%d() { return t%d::get_value(); }" % (t, i, i, i))
            rows.append((vn, i, want))
        elif kind == "string":
            body.append("typedef %s t%d; static std::string g%d() { typedef boost::mpl::c_str<t%d>::type a; const char* volatile p = a::value;"
                        " return std::string(p); }" % (t, i, i, i))
            rows.append((vn, i, want))
            if r.random() < 0.4:  # copied by a dynamic initialiser of the unit
                body.append("static const std::string copy%d = boost::mpl::c_str<t%d>::type::value;" % (i, i))
                body.append("struct cc%d { cc%d() { if (copy%d != std::string(%s, %d)) phase_line(\"F\", \"%s\", \"copy\", %s, copy%d); } }; static cc%d cc%d_;" %
                            (i, i, i, cstr(want), len(want), name, cstr(vn), i, i, i))
        else:
            body.append("typedef %s t%d; static std::string g%d() { char b[32]; static const long v = t%d::value; std::sprintf(b, \"%%ld\", (long)t%d::value + (v - (long)t%d::value)); return b; }" % (t, i, i, i, i, i))
            rows.append((vn, i, str(want)))
    table = ["static const phase_value vals[] = {"] + ["  {%s, &g%d, %s, %d}," % (cstr(n), i, cstr(w), len(w)) for n, i, w in rows] + ["};"]
    tail = ["static void check_%s(const char* phase) { phase_check(\"%s\", phase, vals, %d); }" % (name, name, len(rows)),
            "static void main_%s(const char* p) { touch_tls(); check_%s(p); }" % (name, name),
            'extern "C" phase_fn phase_main_%s __attribute__((section("phase_main"), used)); phase_fn phase_main_%s = &main_%s;' % (name, name, name)]
    if "late-static" in phases:
        tail.append("struct ls { ls() { check_%s(\"late-static\"); } ~ls() { check_%s(\"late-dtor\"); } }; static ls ls_;" % (name, name))
    # the unit's own classes are not those of another unit
    out.append("namespace ns_%s {" % name)
    return "\n".join(out + early + body + table + tail + ["}"]) + "\n", [name, phases]
