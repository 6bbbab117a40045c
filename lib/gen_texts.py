"""Generates the table of run-time texts (error messages, string arrays) with their reference texts."""
import random

SIMPLE = {
    "digit_expected": "Digit expected",
    "end_of_input_expected": "End of input expected",
    "expected_to_fail": "Parser expected to fail",
    "letter_expected": "Letter expected",
    "none_of_the_expected_cases_found": "None of the expected cases found",
    "unexpected_character": "Unexpected character",
    "unexpected_end_of_input": "Unexpected end of input",
    "whitespace_expected": "Whitespace expected",
}
INTS = [0, 1, -1, 9, 10, 31, 999, 1000, 1001, 12345, 65536, 1000000, 2147483647, -1000, -12345, -2147483647]


def cstr(s):
    """A C string literal for bytes-like str (latin-1)."""
    out = ""
    for ch in s:
        o = ord(ch)
        if ch in '"\\?':
            out += "\\" + ch
        elif 32 <= o < 127:
            out += ch
        else:
            out += "\\%03o" % o
    return '"%s"' % out


def cchar(o):
    if o > 127:
        return "(char)(%d)" % (o - 256)
    if chr(o).isalnum():
        return "'%s'" % chr(o)
    return "(char)(%d)" % o


class Msg:
    def __init__(self, type_, text, name):
        self.type, self.text, self.name = type_, text, name


def literal(o):
    return Msg("error::literal_expected<%s>" % cchar(o), "Expected: " + chr(o), "literal_expected<%d>" % o)


def index(a, b, n):
    return Msg("error::index_out_of_range<%d, %d, %d>" % (a, b, n), "index (%d) out of range [%d-%d]" % (n, a, b),
               "index_out_of_range<%d,%d,%d>" % (a, b, n))


def unpaired(l, c, m, curried=False):
    t = "error::unpaired<%d, %d>::apply<%s >" % (l, c, m.type) if curried else "error::unpaired<%d, %d, %s >" % (l, c, m.type)
    return Msg(t, "%s (see %d:%d)" % (m.text, l, c), "%sunpaired<%d,%d,%s>" % ("curried_" if curried else "", l, c, m.name))


def string_type(s):
    return "boost::metaparse::string<%s>" % ",".join(cchar(ord(ch)) for ch in s)


def build(seed, cpp98=True):
    r = random.Random("texts-%s" % seed)
    msgs = [Msg(("boost::metaparse::v1::error::" if n == "expected_to_fail" else "error::") + n, t, n) for n, t in SIMPLE.items()]
    decl = []
    user = ["", "x", "short", "exactly15 chars", "exactly 16 chars", "100% %d %s %n {0}", 'quote " and \\ back',
            "line one\nline two\ttab", "caf\xc3\xa9 \xff\x80", "A" * 200, "lorem ipsum " * 120, " leading and trailing "]
    for _ in range(4):
        user.append("".join(chr(r.choice(list(range(32, 127)))) for _ in range(r.choice([3, 14, 15, 16, 17, 31, 64, 513]))))
    for i, u in enumerate(user):
        decl.append("BOOST_METAPARSE_DEFINE_ERROR(user_error_%d, %s);" % (i, cstr(u)))
        msgs.append(Msg("user_error_%d" % i, u, "user_error_%d" % i))
    base = list(msgs)
    for o in [0x21, 0x28, 0x29, ord("x"), ord("0"), ord(" "), ord('"'), 0x5c, 9, 10, 127, 128, 255, 0] + [r.randrange(1, 256) for _ in range(6)]:
        if all(m.name != "literal_expected<%d>" % o for m in msgs):
            msgs.append(literal(o))
    lits = msgs[len(base):]
    seen = set()
    for t in [(0, 1000, 12345), (1, 2, 3), (-5, 5, 6), (0, 2147483647, -2147483647), (1000, 2000, 999), (0, 0, -1)] + \
             [tuple(r.choice(INTS) for _ in range(3)) for _ in range(10)]:
        if t not in seen:
            seen.add(t)
            msgs.append(index(*t))
    idx = [m for m in msgs if m.name.startswith("index")]
    names = {m.name for m in msgs}

    def add(m):
        if m.name not in names:
            names.add(m.name)
            msgs.append(m)
        return m
    for l, c in [(1, 1), (1000, 2000), (3, 1234567), (2147483647, 12)]:
        add(unpaired(l, c, r.choice(base)))
        add(unpaired(l, c, r.choice(lits)))
    for _ in range(24):
        m = r.choice(base + lits + idx)
        for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
            m = unpaired(abs(r.choice(INTS)), abs(r.choice(INTS)), m, r.random() < 0.3)
        add(m)
    # texts of errors that parses really produce
    P = []

    def parse(name, parser, inp, text):
        P.append(Msg("get_message<%s::apply<%s, start> >::type" % (parser, string_type(inp)), text, "parse:" + name))
    parse("digit", "digit", "x", "Digit expected")
    parse("digit_eof", "digit", "", "Digit expected")
    parse("letter", "letter", "1", "Letter expected")
    parse("lit", "lit_c<'('>", "x", "Expected: (")
    parse("space", "space", "x", "Whitespace expected")
    parse("int", "int_", "x", "Digit expected")
    parse("entire", "entire_input<digit>", "12", "End of input expected")
    parse("seq", "sequence<lit_c<'a'>, lit_c<'b'> >", "ac", "Expected: b")
    parse("one_of", "one_of<sequence<lit_c<'a'>, lit_c<'b'> >, lit_c<'c'> >", "ax", "Expected: b")
    parse("one_char", "one_char", "", "Unexpected end of input")
    parse("except", "one_char_except_c<'x'>", "x", "Unexpected character")
    parse("keyword", "keyword<%s >" % string_type("if"), "iz", "Expected: f")
    strings = []
    for s in ["", "a", "ab", "hello world", "x" * 31, "tab\tnl\n", "\x01\x02\x7f", "caf\xc3\xa9"] + \
             ["".join(chr(r.choice(list(range(32, 127)))) for _ in range(r.randrange(1, 31))) for _ in range(6)]:
        strings.append(Msg(string_type(s), s, "string:%d:%s" % (len(strings), s.encode("latin-1").hex())))
    for n in range(1, 33):  # every length up to the default limit
        s = "".join(chr(r.randrange(33, 127)) for _ in range(n))
        strings.append(Msg(string_type(s), s, "string:%d:%s" % (len(strings), s.encode("latin-1").hex())))
    if not cpp98:
        for n in (33, 64, 200):
            s = "".join(chr(r.randrange(1, 256)) for _ in range(n))
            strings.append(Msg(string_type(s), s, "string:%d:%s" % (len(strings), s.encode("latin-1").hex())))
    return decl, msgs + P, strings


INCLUDES = ["define_error", "error/index_out_of_range", "error/unpaired", "error/literal_expected", "error/digit_expected",
            "error/end_of_input_expected", "error/letter_expected",
            "error/none_of_the_expected_cases_found", "error/unexpected_character", "error/unexpected_end_of_input",
            "error/whitespace_expected", "string", "start", "get_message", "digit", "letter", "lit_c", "space", "int_",
            "entire_input", "sequence", "one_of", "one_char", "one_char_except_c", "keyword"]


def source(seed, cpp98=True):
    decl, msgs, strings = build(seed, cpp98)
    out = ["#include <boost/metaparse/%s.hpp>" % i for i in INCLUDES + ["v1/error/expected_to_fail"]]
    out += ["#include <boost/mpl/string.hpp>", '#include "simiface.h"', "using namespace boost::metaparse;"]
    out += decl
    rows = []
    for i, m in enumerate(msgs):
        out.append("typedef %s msg_%d;" % (m.type, i))
        rows.append((m.name, "&msg_%d::get_value" % i, m.text))
    for i, m in enumerate(strings):
        out.append("static std::string str_%d() { typedef %s s; return std::string(boost::mpl::c_str<s>::type::value,"
                   " sizeof(boost::mpl::c_str<s>::type::value) - 1) + boost::mpl::c_str<s>::type::value; }" % (i, m.type))
        rows.append((m.name, "&str_%d" % i, m.text + m.text))
    out.append('extern "C" const sim_text sim_texts[] = {')
    for name, fn, text in rows:
        out.append("  {%s, %s, %s, %d}," % (cstr(name), fn, cstr(text), len(text)))
    out.append("};")
    out.append('extern "C" const int sim_text_count = sizeof(sim_texts) / sizeof(sim_texts[0]);')
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    print(source(sys.argv[1]))
