"""Translation units with seeded include orders, instantiation histories and limit redefinitions, all asking for the
outcomes of parses out of one pool, whose reference model is gen_parsers.py."""
import glob
import os
import random
import re

import gen_parsers as g
from common import REPO
from gen_texts import SIMPLE, INTS, Msg, cstr, index, literal, string_type, unpaired

OUTCOME = r'''
#include "histiface.h"
#include <sstream>
#include <boost/mpl/fold.hpp>
#include <boost/mpl/int.hpp>
namespace {
std::string num(long n) { std::ostringstream s; s.imbue(std::locale::classic()); s << n; return s.str(); }
}
'''
# the ways of asking: for everything, only whether the input is accepted, only for the result of the built parser
FULL = r'''
namespace {
struct qmix { typedef qmix type; template <class S, class X> struct apply : boost::mpl::int_<(((S::type::value * 31) ^ X::type::value) & 0xffff)> {}; };
template <class R, int Int> struct res { static std::string get() { return num(get_result<R>::type::value); } };
template <class R> struct res<R, 0> { static std::string get() { return "-"; } };
template <class R> struct res<R, 2> { static std::string get() { return "seq" + num(boost::mpl::fold<typename get_result<R>::type, boost::mpl::int_<5>, qmix>::type::value); } };
template <class R, bool Err, int Int> struct outcome {
  static std::string get() {
    return "rejected at " + num(get_line<get_position<R> >::type::value) + ":" + num(get_col<get_position<R> >::type::value) + " after " +
      num(get_prev_char<get_position<R> >::type::value) + " " +
      get_message<R>::type::get_value(); } };
template <class R, int Int> struct outcome<R, false, Int> {
  static std::string get() {
    typedef typename get_remaining<R>::type rem;
    return "accepted to " + num(get_line<get_position<R> >::type::value) + ":" + num(get_col<get_position<R> >::type::value) +
      " after " + num(get_prev_char<get_position<R> >::type::value) + " result " + res<R, Int>::get() + " remaining " + boost::mpl::c_str<rem>::type::value; } };
template <class P, class S, int Int> struct ask {
  typedef typename P::template apply<S, start> r;
  static std::string get() { return outcome<r, is_error<r>::type::value, Int>::get(); } };
template <class P, class S, int N> struct ask_n { static std::string get() { return ask<P, S, 0>::get(); } };
}
'''
BARE = r'''
namespace {
template <class P, class S, int Int> struct ask { static std::string get() { return is_error<typename P::template apply<S, start> >::type::value ? "rejected" : "accepted"; } };
template <class P, class S, int N> struct ask_n { static std::string get() { return ask<P, S, 0>::get(); } };
}
'''
BUILT = r'''
namespace {
template <class P, class S, int Int> struct ask { static std::string get() { return num(build_parser<P>::template apply<S>::type::value); } };
}
'''
FORMS = {"": (FULL, "is_error get_result get_remaining get_position get_message get_line get_col get_prev_char start string define_error".split()),
         "b": (BARE, "is_error start string define_error".split()), "r": (BUILT, "build_parser string define_error".split())}
TOUCH = "namespace { template <class P, class S> struct touch { typedef typename P::template apply<S, start>::type type; enum { value = is_error<type>::type::value }; }; }\n"
ERRS = ["error/" + n for n in list(SIMPLE) + ["index_out_of_range", "unpaired", "literal_expected"] if n != "expected_to_fail"] + ["v1/error/expected_to_fail"]
LIMITS = [30, 31, 32, 33, 40, 64, 100, 127, 128, 129, 200, 255, 256, 257]
BIG = [500, 512, 513, 1000, 1024, 1025, 2000, 2047, 2048]


def public_headers():
    base = REPO + "/include/boost/metaparse/"
    return sorted(os.path.relpath(h, base)[:-4] for p in ("*.hpp", "error/*.hpp", "util/*.hpp") for h in glob.glob(base + p))


class Query:
    def expected(self):
        """What each way of asking gives."""
        res = {str(self.n): self.expect, "%db" % self.n: self.expect.split(" ")[0]}
        if self.integral:
            res["%dr" % self.n] = self.expect.split(" result ")[1].split(" ")[0]
        return res

    def __init__(self, n, parser, text, literal_ok):
        self.n, self.p, self.text, self.literal_ok = n, parser, text, literal_ok
        self.headers = {"v1/error/expected_to_fail" if e == "expected_to_fail" else "error/" + e for e in re.findall(r"\berror::(\w+)", parser.type)}
        x = parser.f(text, 0, g.START)
        self.integral = x[0] == "ok" and parser.kind == "int"
        self.shape = 0 if x[0] == "err" else {"int": 1, "ints": 2, None: 0}[parser.kind]
        if x[0] == "err":
            self.expect = "rejected at %d:%d after %d %s" % (x[1][0], x[1][1], g.scode(x[1][2]), x[2].text)
        else:
            self.expect = "accepted to %d:%d after %d result %s remaining %s" % (x[2][0], x[2][1], g.scode(x[2][2]), x[3] if self.integral else "seq%d" % g.foldl(5)(x[3]) if self.shape == 2 else "-", text[x[1]:])


def internals(cpp98):
    """Compositions the library's own parsers are made of: a user may have them too."""
    res = [g.rep(a(), n) for a in (g.space, g.digit, g.letter, g.one_char) for n in ("repeated", "repeated1")]
    res += [g.one_of([g.letter(), g.digit()], cpp98), g.rep(g.digit_val(), "foldl1"), g.rep(g.digit(), "foldr1")]
    res += [g.accept_when(g.one_char(), p, g.simple(m)) for p, m in
            (("util::is_digit<>", "digit_expected"), ("util::is_letter<>", "letter_expected"), ("util::is_whitespace<>", "whitespace_expected"))]
    res += [g.sequence([g.lit("a"), g.rep(g.space(), "repeated")], "first_of", pick=0), g.sequence([g.digit(), g.rep(g.space(), "repeated")]),
            g.sequence([g.lit("("), g.digit(), g.lit(")")]), g.iterate_c(g.digit(), 2), g.change_msg(g.one_char(), g.simple("unexpected_character")),
            g.token(g.one_char()), g.keyword("if", 12)]
    return res


def simple_composition(r, cpp98):
    a = lambda: g.atom(r, cpp98)
    k = r.randrange(5)
    if k < 3:
        return g.rep(a(), r.choice(["repeated", "repeated1", "repeated_reject_incomplete", "repeated_reject_incomplete1", "foldl", "foldl1",
                                    "foldl_reject_incomplete", "foldl_reject_incomplete1", "foldr", "foldr1", "foldr_reject_incomplete",
                                    "foldr_reject_incomplete1"]))
    return g.sequence([a(), a()]) if k == 3 else g.one_of([a(), a()], cpp98)


def pool(seed, cpp98, count=160):
    r = random.Random("pool-%s-%s" % (seed, cpp98))
    decl, msgs = [], [g.simple(n) for n in SIMPLE]
    for i, u in enumerate(["short", "a message that is longer than any small string buffer would be"]):
        decl.append("BOOST_METAPARSE_DEFINE_ERROR(user_error_%d, %s);" % (i, cstr(u)))
        msgs.append(Msg("user_error_%d" % i, u, "user_error_%d" % i))
    msgs += [literal(ord(c)) for c in "(x"]
    for _ in range(3):
        msgs.append(index(*[r.choice(INTS) for _ in range(3)]))
        msgs.append(unpaired(abs(r.choice(INTS)), abs(r.choice(INTS)), r.choice(msgs)))
    msgs.append(index(-2147483647, 2147483647, -2147483646))
    msgs.append(unpaired(2147483647, 2147483646, r.choice(msgs)))
    qs = []
    basic = [(p, p.gen) for m in msgs if m.type[-1] == ">" for p in (g.fail(m), g.change_msg(g.lit("a"), m))] + [(p, p.gen) for p in internals(cpp98) + [simple_composition(r, cpp98) for _ in range(30)]] + g.basics(r, cpp98, msgs)
    nbasic = 0
    while len(qs) < nbasic + count or basic:
        simple = bool(basic)
        p, gen = basic.pop() if basic else (g.parser(r, cpp98, r.choice([0, 1, 2, 2, 3]), msgs), None)
        if len(p.type) > 700:
            continue
        for _ in range(r.choice([3, 4, 5] if simple else [1, 1, 2, 3])):  # the same parser on several inputs
            s = g.text_input(r, p, 31, gen)  # C++98 strings of the full length cannot be parsed
            if not cpp98 and r.random() < 0.2:  # longer than the default limit
                s += "".join(r.choice("ab01 \n(xyz)") for _ in range(r.choice([5, 40, 90, 120, 230])))
            if not re.search("[0-9]{9}", s):
                qs.append(Query(len(qs), p, s, not cpp98))
                nbasic += simple
    return decl, qs, nbasic


def tu_items(seed, k, cpp98, decl, qs, nbasic, small=False):
    """A translation unit as a list of items (lines of source), any of which but the fixed ones may be left out.
    Small ones include hardly more than the headers of the parsers they use, so that each inclusion counts."""
    r = random.Random("tu-%s-%s-%s" % (seed, k, cpp98))
    form = r.choice(["", "b", "r"]) if small else ""
    ok = lambda l: [q for q in l if q.integral] if form == "r" else l
    simple, other = ok(qs[:nbasic]), ok(qs[nbasic:])
    if small:
        chosen = [r.choice(r.choice([simple, other])) for _ in range(r.randint(1, 3))]
    else:
        chosen = [r.choice(other) for _ in range(r.randint(8, 16))] + [r.choice(simple) for _ in range(r.choice([30, 60, 90]))]
    for q in list(chosen):
        if r.random() < 0.3:
            chosen.append(q)  # asked again later in the same unit
    need = set(FORMS[form][1]) | set(r.sample(ERRS, 2) if small else ERRS)
    if not cpp98 and r.random() < 0.3:
        need.add("string_value")
    for q in chosen:
        need |= q.headers
    for q in chosen:
        need |= q.p.headers
    have = set(need)
    free = [q for q in simple + other if q.headers | q.p.headers <= have]  # what these headers are enough for
    chosen += r.sample(free, min(len(free), r.randint(0, 12)))
    r.shuffle(chosen)
    need, code = g.split(need)
    extra = [h for h in public_headers() if h not in need]
    inc = sorted(need) + r.sample(extra, r.choice([0, 0, 1] if small else [3, 10, len(extra), len(extra)]))
    r.shuffle(inc)
    late = []
    items = []
    if r.random() < 0.6:
        lim = r.choice(LIMITS if not cpp98 else [32, 33, 40, 64])
        items.append(("opt", "#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % lim))
    if r.random() < 0.3:
        items.append(("opt", "#define BOOST_METAPARSE_LIMIT_ONE_OF_SIZE %d" % r.choice([8, 12, 20])))
    if r.random() < 0.2:
        items.append(("opt", "#include <%s>" % r.choice(["iostream", "string", "boost/mpl/string.hpp", "boost/mpl/vector.hpp", "sstream"])))
    for h in inc:
        line = "#include <boost/metaparse/%s.hpp>" % h
        if h not in need:
            if r.random() < 0.3:
                late.append(line)
                continue
            items.append(("opt", line))
        else:
            items.append(("fix", line))
            if r.random() < 0.1:
                items.append(("opt", line))
    items.append(("fix", "#include <boost/mpl/string.hpp>\nusing namespace boost::metaparse;\n%s" % (OUTCOME + FORMS[form][0] + ("" if form == "r" else TOUCH))))
    items.append(("fix", g.PRELUDE + "namespace {\n" + code + "\n".join(decl) + "\n}"))
    rows = []
    for j, q in enumerate(chosen):
        while late and r.random() < 0.3:
            items.append(("opt", late.pop()))
        if not cpp98 and r.random() < 0.45:
            lim = r.choice(BIG) if r.random() < 0.1 else r.choice(LIMITS)
            items.append(("opt", "#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % lim))
        for _ in range(r.choice([0, 0, 1, 2])):
            # something else was parsed or instantiated before
            o = r.choice(qs)
            if o.p.headers | o.headers <= have:
                x = r.randrange(3) if form != "r" else 2
                t = r.choice([o.text, q.text])
                if re.search("[0-9]{9}", t):
                    continue
                if x == 0:
                    items.append(("opt", "enum { touch_%d_%d = touch<%s, %s >::value };" % (j, len(items), o.p.type, string_type(t))))
                elif x == 1:
                    items.append(("opt", "namespace { template struct ask_n<%s, %s, %d>; }" % (o.p.type, string_type(t), len(items))))
                elif not cpp98 and len(t) <= 30:
                    items.append(("opt", "typedef BOOST_METAPARSE_STRING(%s) text_%d_%d;" % (cstr(t), j, len(items))))
        s, pt, pre = string_type(q.text), q.p.type, ""
        if not cpp98 and r.random() < 0.7:
            value = "string_value" in have and r.random() < 0.3
            s = ("decltype(BOOST_METAPARSE_STRING_VALUE(%s))" if value else "BOOST_METAPARSE_STRING(%s)") % cstr(q.text)
            if len(q.text) > 30:
                lim = r.choice([l for l in LIMITS + BIG[:4] if l >= len(q.text)] + [len(q.text)])
                pre = "#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d\n" % lim
        scope = r.randrange(8)
        if scope == 0:  # where names of the program look like those of the library
            pre += ("namespace hist_%d { struct string; struct start; struct impl; struct type; namespace metaparse { struct v1; } namespace mpl {} namespace boost { namespace metaparse { struct string; } }\n"
                    "  typedef %s text; }\n" % (j, s if "BOOST_METAPARSE_STRING" in s else "::" + s))
            s = "hist_%d::text" % j
        elif scope == 1:  # in a class template
            pre += "namespace { template <class T> struct hist_%d { typedef %s text; typedef %s parser; }; }\n" % (j, s, pt)
            s, pt = "hist_%d<char>::text" % j, "hist_%d<char>::parser" % j
        elif scope == 2:  # in a function
            pre += "namespace { struct hist_%d { static std::string get() { typedef %s text; typedef %s parser; return ask<parser, text, %d>::get(); } }; }\n" % (
                j, s, pt, q.shape)
        fn = "hist_%d::get" % j if scope == 2 else "ask<%s, %s, %d>::get" % (pt, s, q.shape)
        items.append(("query", pre + 'extern "C" hist_row row_%s_%d __attribute__((section("hist_rows"), used));\nhist_row row_%s_%d = {"%s.%d.%d%s", &%s};' %
                      (k, j, k, j, k, j, q.n, form, fn)))
        if "LIMIT_STRING_SIZE" in pre and r.random() < 0.3:
            items.append(("opt", "#undef BOOST_METAPARSE_LIMIT_STRING_SIZE\n#define BOOST_METAPARSE_LIMIT_STRING_SIZE %d" % r.choice(LIMITS)))
    items += [("opt", l) for l in late]
    return items


def source(items):
    return "\n".join(t for _, t in items) + "\n"
