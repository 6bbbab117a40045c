"""Random parsers with an executable reference model: what parsing an input gives (accepted or rejected, remaining input,
position, message, result). Written from the reference documentation; the tie-break of one_of is the one place where the C++98
and the later implementations are documented by their behaviour only."""
import re

from gen_texts import cchar, cstr, literal, string_type, unpaired, Msg

SP = " \t\n\r"


def adv(pos, ch):
    line, col, prev = pos
    if ch == "\r" or (ch == "\n" and prev != "\r"):
        return (line + 1, 1, ch)
    return (line, col + 1, ch)


def scode(ch):
    o = ord(ch) if ch else 0
    return o - 256 if o > 127 else o


def key(pos):
    return (pos[0], pos[1], scode(pos[2]))


def simple(n):
    from gen_texts import SIMPLE
    return Msg(("boost::metaparse::v1::error::" if n == "expected_to_fail" else "error::") + n, SIMPLE[n], n)


START = (1, 1, "")


class P:
    """type: the C++ type; f(s, i, pos) -> ("ok", i, pos, result) or ("err", pos, Msg); gen(r): an input it probably accepts;
    kind: "int" (the result is an integral constant whenever it accepts), "ints" (a sequence of them) or None (not looked at).
    headers: what to include; "decl:x" stands for DECLS[x]."""

    def __init__(self, type_, f, gen, nullable, headers, kind=None):
        self.type, self.f, self.gen, self.nullable, self.headers, self.kind = type_, f, gen, nullable, set(headers), kind


def char_parser(type_, pred, msg, eof_msg, gen, headers):
    def f(s, i, pos):
        if i >= len(s):
            return ("err", pos, eof_msg)
        if not pred(s[i]):
            return ("err", pos, msg)
        return ("ok", i + 1, adv(pos, s[i]), scode(s[i]))
    return P(type_, f, gen, False, headers, "int")


EOI = simple("unexpected_end_of_input")


def digit():
    d = simple("digit_expected")
    return char_parser("digit", str_isdigit, d, d, lambda r: r.choice("0123456789"), ["digit"])


def str_isdigit(c):
    return c in "0123456789"


def isletter(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def letter():
    return char_parser("letter", isletter, simple("letter_expected"), EOI, lambda r: r.choice("abcxyzABZ"), ["letter"])


def space():
    return char_parser("space", lambda c: c in SP, simple("whitespace_expected"), EOI, lambda r: r.choice(" \t\n"), ["space"])


def one_char():
    return char_parser("one_char", lambda c: True, EOI, EOI, lambda r: r.choice("ab01() \n"), ["one_char"])


def boxed(c):
    return "boost::mpl::char_<%s>" % cchar(ord(c))


def lit(c, box=False):
    m = literal(ord(c))
    return char_parser("lit<%s >" % boxed(c) if box else "lit_c<%s>" % cchar(ord(c)), lambda x: x == c, m, m, lambda r: c,
                       ["lit" if box else "lit_c"])


def one_char_except(cs, box=False):
    m = simple("unexpected_character")
    return char_parser("one_char_except<%s >" % ", ".join(map(boxed, cs)) if box else
                       "one_char_except_c<%s>" % ",".join(cchar(ord(c)) for c in cs), lambda x: x not in cs, m, EOI,
                       lambda r: r.choice([c for c in "abcdef01+-" if c not in cs]), ["one_char_except" if box else "one_char_except_c"])


def range_c(a, b, box=False):
    m = simple("unexpected_character")
    return char_parser("range<%s, %s >" % (boxed(a), boxed(b)) if box else "range_c<%s,%s>" % (cchar(ord(a)), cchar(ord(b))),
                       lambda x: a <= x <= b, m, EOI, lambda r: chr(r.randint(ord(a), ord(b))), ["range" if box else "range_c"])


def digit_val():
    d = simple("digit_expected")
    q = char_parser("digit_val", str_isdigit, d, d, lambda r: r.choice("0123456789"), ["digit_val"])
    return P(q.type, then(q.f, lambda v: v - 48), q.gen, False, q.headers, "int")


def then(f, g):
    """The outcome of f with the result changed by g."""
    def h(s, i, pos):
        r = f(s, i, pos)
        return r if r[0] == "err" else r[:3] + (g(r[3]),)
    return h


def one_of_c(cs, cpp98):
    if cpp98:
        q = one_of([lit(c) for c in cs], True)
        return P("one_of_c<%s>" % ",".join(cchar(ord(c)) for c in cs), q.f, q.gen, False, ["one_of_c"], "int")
    m = simple("none_of_the_expected_cases_found")
    return char_parser("one_of_c<%s>" % ",".join(cchar(ord(c)) for c in cs), lambda x: x in cs, m, EOI, lambda r: r.choice(cs),
                       ["one_of_c"])


def hdrs(*ps):
    h = set()
    for p in ps:
        h |= p.headers
    return h


def ints(ps):
    return "ints" if all(p.kind == "int" for p in ps) else None


def seq_f(ps, pick=None):
    def f(s, i, pos):
        res = []
        for p in ps:
            r = p.f(s, i, pos)
            if r[0] == "err":
                return r
            _, i, pos, v = r
            res.append(v)
        return ("ok", i, pos, tuple(res) if pick is None else res[pick])
    return f


def sequence(ps, name="sequence", pre="", pick=None):
    return P("%s<%s%s >" % (name, pre, ", ".join(p.type for p in ps)), seq_f(ps, pick), lambda r: "".join(p.gen(r) for p in ps),
             all(p.nullable for p in ps), hdrs(*ps) | {name}, ints(ps) if pick is None else ps[pick].kind)


def app(vs):
    x = 7
    for v in vs:
        x = mix(x, v)
    return x


def mix(s, x):
    return ((s * 31) ^ x) & 0xffff


def sequence_apply(ps):
    n = len(ps)
    return P("sequence_apply%d<app%d, %s >" % (n, n, ", ".join(p.type for p in ps)), then(seq_f(ps), app),
             lambda r: "".join(p.gen(r) for p in ps), all(p.nullable for p in ps), hdrs(*ps) | {"sequence_apply"}, "int")


def middle_of(a, b, c):
    def f(s, i, pos):
        r = seq_f([a, b], 1)(s, i, pos)
        if r[0] == "err":
            return r
        q = c.f(s, r[1], r[2])
        if q[0] == "err":
            return ("err", q[1], unpaired(pos[0], pos[1], q[2]))
        return ("ok", q[1], q[2], r[3])
    return P("middle_of<%s, %s, %s >" % (a.type, b.type, c.type), f, lambda r: a.gen(r) + b.gen(r) + c.gen(r),
             a.nullable and b.nullable and c.nullable, hdrs(a, b, c) | {"middle_of"}, b.kind)


def one_of_f(ps, cpp98):
    none = simple("none_of_the_expected_cases_found")

    def f(s, i, pos):
        errs = []
        for p in ps:
            r = p.f(s, i, pos)
            if r[0] == "ok":
                return r
            errs.append(r)
        nn = ("err", pos, none)
        errs = [nn] + errs if cpp98 else errs + [nn]
        best = errs[0]
        for e in errs[1:]:
            if not key(e[1]) < key(best[1]):
                best = e
        return best
    return f


def one_of(ps, cpp98):
    return P("one_of<%s >" % ", ".join(p.type for p in ps), one_of_f(ps, cpp98), lambda r: r.choice(ps).gen(r),
             any(p.nullable for p in ps), hdrs(*ps) | {"one_of"}, same(ps))


def same(ps):
    k = {p.kind for p in ps}
    return k.pop() if len(k) == 1 else None



def rep_f(p, least1, strict, end=tuple):
    def f(s, i, pos):
        res = []
        while True:
            r = p.f(s, i, pos)
            if r[0] == "err":
                if not res and least1:
                    return r
                if strict and key(r[1]) != key(pos):
                    return r
                return ("ok", i, pos, end(res))
            _, i, pos, v = r
            res.append(v)
    return f


def foldl(state):
    def f(vs):
        x = state
        for v in vs:
            x = mix(x, v)
        return x
    return f


def foldr(state):
    return lambda vs: foldl(state)(list(reversed(vs)))


def rep(p, name):
    least1, strict = name.endswith("1"), "reject_incomplete" in name
    end, kind = tuple, "ints" if p.kind == "int" else None
    if name.startswith("fold"):
        if p.kind == "int":
            t, end, kind = "%s<%s, boost::mpl::int_<9>, hmix>" % (name, p.type), (foldl if name[4] == "l" else foldr)(9), "int"
        else:
            t, end = "%s<%s, int_state, keep_state>" % (name, p.type), lambda vs: None
    else:
        t = "%s<%s >" % (name, p.type)
    return P(t, rep_f(p, least1, strict, end), lambda r: "".join(p.gen(r) for _ in range(r.randint(1 if least1 else 0, 3))), not least1,
             p.headers | {name}, kind)


def start_with(p, st, name):
    """foldl_start_with_parser and its variants; both parsers have integral results."""
    left, strict = name[4] == "l", "reject_incomplete" in name

    def f(s, i, pos):
        if left:
            r = st.f(s, i, pos)
            if r[0] == "err":
                return r
            return rep_f(p, False, strict, foldl(r[3]))(s, r[1], r[2])
        q = rep_f(p, False, strict)(s, i, pos)
        r = st.f(s, q[1], q[2])
        return r if r[0] == "err" else r[:3] + (foldr(r[3])(q[3]),)

    def gen(r):
        x = "".join(p.gen(r) for _ in range(r.randint(0, 3)))
        return st.gen(r) + x if left else x + st.gen(r)
    return P("%s<%s, %s, hmix>" % (name, p.type, st.type), f, gen, st.nullable, hdrs(p, st) | {name}, "int")


def repeated_one_of(ps, cpp98, one):
    q = one_of(ps, cpp98)
    n = "repeated_one_of1" if one else "repeated_one_of"
    return P("%s<%s >" % (n, ", ".join(p.type for p in ps)), rep_f(q, one, False),
             lambda r: "".join(q.gen(r) for _ in range(r.randint(1 if one else 0, 3))), not one, hdrs(*ps) | {n},
             "ints" if q.kind == "int" else None)


def int_():
    p = rep(digit(), "repeated1")

    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "err" else r[:3] + (int(s[i:r[1]]),)
    return P("int_", f, lambda r: str(r.randint(0, 9999)), False, ["int_"], "int")


def spaces():
    p = rep(space(), "repeated1")
    return P("spaces", then(p.f, lambda v: None), p.gen, False, ["spaces"])


def alphanum(cpp98):
    q = one_of([letter(), digit()], cpp98)
    return P("alphanum", q.f, q.gen, False, ["alphanum"], "int")


def entire_input(p, msg=None):
    m = msg or simple("end_of_input_expected")

    def f(s, i, pos):
        r = p.f(s, i, pos)
        if r[0] == "ok" and r[1] < len(s):
            return ("err", r[2], m)
        return r
    return P("entire_input<%s%s >" % (p.type, ", " + msg.type if msg else ""), f, p.gen, p.nullable, p.headers | {"entire_input"}, p.kind)


def token(p):
    q = seq_f([p, rep(space(), "repeated")], 0)
    return P("token<%s >" % p.type, q, lambda r: p.gen(r) + r.choice(["", " ", "\n", " \t"]), p.nullable, p.headers | {"token"}, p.kind)


def keyword(w, val=None):
    return P("keyword<%s%s >" % (string_type(w), "" if val is None else ", boost::mpl::int_<%d>" % val),
             then(seq_f([lit(c) for c in w]), lambda v: val), lambda r: w, not w, ["keyword", "string"], None if val is None else "int")


def look_ahead(p):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "err" else ("ok", i, pos, r[3])
    return P("look_ahead<%s >" % p.type, f, lambda r: "", True, p.headers | {"look_ahead"}, p.kind)


def except_(p, msg):
    def f(s, i, pos):
        return ("ok", i, pos, 66) if p.f(s, i, pos)[0] == "err" else ("err", pos, msg)
    return P("except<%s, boost::mpl::int_<66>, %s >" % (p.type, msg.type), f, lambda r: "", True, p.headers | {"except"}, "int")


def if_(p):
    return P("if_<%s, boost::mpl::int_<11>, boost::mpl::int_<22> >" % p.type, lambda s, i, pos: ("ok", i, pos, 11 if p.f(s, i, pos)[0] == "ok" else 22), lambda r: "", True, p.headers | {"if_"}, "int")


def optional(p):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "ok" else ("ok", i, pos, 33)
    return P("optional<%s, boost::mpl::int_<33> >" % p.type, f, lambda r: r.choice(["", p.gen(r)]), True, p.headers | {"optional"},
             "int" if p.kind == "int" else None)


def empty():
    m = simple("end_of_input_expected")
    return P("empty<boost::mpl::int_<88> >", lambda s, i, pos: ("ok", i, pos, 88) if i >= len(s) else ("err", pos, m), lambda r: "", True, ["empty"], "int")


def fail(msg):
    return P("fail<%s >" % msg.type, lambda s, i, pos: ("err", pos, msg), lambda r: "", True, ["fail"])


def return_():
    return P("return_<boost::mpl::int_<44> >", lambda s, i, pos: ("ok", i, pos, 44), lambda r: "", True, ["return_"], "int")


def change_msg(p, msg):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "ok" else ("err", pos, msg)
    return P("change_error_message<%s, %s >" % (p.type, msg.type), f, p.gen, p.nullable, p.headers | {"change_error_message"}, p.kind)


def fail_first(p):
    m = simple("expected_to_fail")

    def f(s, i, pos):
        r = p.f(s, i, pos)
        if r[0] == "ok":
            return ("err", pos, m)
        return ("ok", i, pos, None) if key(r[1]) == key(pos) else r
    return P("fail_at_first_char_expected<%s >" % p.type, f, lambda r: "", True, p.headers | {"fail_at_first_char_expected"})


def iterate_c(p, n, box=False):
    return P(("iterate<%s, boost::mpl::int_<%d> >" if box else "iterate_c<%s, %d>") % (p.type, n), seq_f([p] * n),
             lambda r: "".join(p.gen(r) for _ in range(n)), p.nullable or n == 0, p.headers | {"iterate" if box else "iterate_c"},
             "ints" if p.kind == "int" else None)


def always(p):
    return P("always<%s, boost::mpl::int_<55> >" % p.type, then(p.f, lambda v: 55), p.gen, p.nullable, p.headers | {"always"}, "int")


def always_c(c):
    q = lit(c)
    return P("always_c<%s, boost::mpl::int_<56> >" % cchar(ord(c)), then(q.f, lambda v: 56), q.gen, False, ["always_c"], "int")


def transform(p):
    t, g = {"int": ("twist", lambda v: (v * 3 + 1) & 0xffff), "ints": ("hash_of", foldl(5)), None: ("make_77", lambda v: 77)}[p.kind]
    return P("transform<%s, %s>" % (p.type, t), then(p.f, g), p.gen, p.nullable, p.headers | {"transform", "decl:transform"}, "int")


def transform_digit(p, back):
    """p gives a digit."""
    t = "transform<%s, util::digit_to_int<> >" % p.type
    hd = p.headers | {"transform", "util/digit_to_int"}
    if back:
        t, hd = "transform<%s, util::int_to_digit<> >" % t, hd | {"util/int_to_digit"}
    return P(t, then(p.f, lambda v: v if back else v - 48), p.gen, p.nullable, hd, "int")


def rep_swapped(p, name):
    """A fold whose operation has its arguments swapped; p has an integral result."""
    def end(vs):
        x = 9
        for v in (vs if name[4] == "l" else reversed(vs)):
            x = mix(v, x)
        return x
    q = rep(p, name)
    return P("%s<%s, boost::mpl::int_<9>, boost::metaparse::v1::swap<hmix> >" % (name, p.type), rep_f(p, name.endswith("1"), "reject_incomplete" in name, end), q.gen,
             q.nullable, q.headers | {"v1/swap"}, "int")


def transform_error(p, msg, at_start):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "ok" else ("err", START if at_start else r[1], msg)
    return P("transform_error<%s, re_reject<%s, %s> >" % (p.type, msg.type, "true" if at_start else "false"), f, p.gen, p.nullable,
             p.headers | {"transform_error", "decl:re_reject"}, p.kind)


def transform_msg(p, line, col):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return r if r[0] == "ok" else ("err", r[1], unpaired(line, col, r[2]))
    return P("transform_error_message<%s, wrap_msg<%d, %d> >" % (p.type, line, col), f, p.gen, p.nullable,
             p.headers | {"transform_error_message", "decl:wrap_msg"}, p.kind)


PREDS = {"util::is_digit<>": str_isdigit, "util::is_letter<>": isletter, "util::is_lcase_letter<>": lambda c: "a" <= c <= "z",
         "util::is_ucase_letter<>": lambda c: "A" <= c <= "Z", "util::is_whitespace<>": lambda c: c in SP,
         "util::in_range<boost::mpl::char_<'a'>, boost::mpl::char_<'c'> >": lambda c: c in "abc",
         "util::in_range_c<char, '0', '5'>": lambda c: c in "012345"}


def accept_when(p, pred, msg):
    def f(s, i, pos):
        r = p.f(s, i, pos)
        return ("err", pos, msg) if r[0] == "ok" and not PREDS[pred](chr(r[3] & 255)) else r
    return P("accept_when<%s, %s, %s >" % (p.type, pred, msg.type), f, p.gen, p.nullable,
             p.headers | {"accept_when", re.match(r"util::\w+", pred).group().replace("::", "/")}, "int")


def user_char(line):
    """A parser written by the user: any character, the position moved on by next_char or next_line."""
    def f(s, i, pos):
        if i >= len(s):
            return ("err", pos, EOI)
        return ("ok", i + 1, (pos[0] + 1, 1, s[i]) if line else (pos[0], pos[1] + 1, s[i]), scode(s[i]))
    return P("user_char<%s>" % ("true" if line else "false"), f, lambda r: r.choice("ab01"), False, {"decl:user_char"}, "int")


def user_twice(p):
    return P("user_twice<%s >" % p.type, seq_f([p, p], 1), lambda r: p.gen(r) + p.gen(r), p.nullable, p.headers | {"decl:user_twice"}, p.kind)


def grammar(r, cpp98, sub):
    """A grammar of a few rules over imported parsers, without recursion: names may only refer to what was defined before."""
    names, steps, hd = {}, "", {"grammar", "string"}
    start = r.choice(["S", "S", "top", "a_1"])
    dot = "::type"  # without it, compilers may take a second ::rule for the name of the constructor
    for k in range(r.randint(0, 2)):
        n = "p%d" % k
        names[n] = sub()
        hd |= names[n].headers
        steps += "::import<%s, %s >%s" % (string_type(n), names[n].type, dot)

    def expr(d):
        def name_e():
            x = r.random()
            if x < 0.45 or not names and x < 0.7:
                c = r.choice("ab01+\n'\\")
                return lit(c), "'%s'" % {"\n": "\\n", "'": "\\'", "\\": "\\\\"}.get(c, c)
            if x < 0.8 and names:
                n = r.choice(sorted(names))
                return names[n], n
            if d > 0:
                p, t = expr(d - 1)
                return p, "(%s)" % t if r.random() < 0.5 else "( %s )" % t
            return lit("z"), "'z'"

        def rep_e():
            p, t = name_e()
            if not p.nullable and r.random() < 0.35:
                o = r.choice("*+")
                p, t = rep(p, "repeated" if o == "*" else "repeated1"), t + r.choice(["", " "]) + o
            return p, t

        def seq_e():
            p, t = rep_e()
            for _ in range(r.choice([0, 0, 1, 2])):
                q, u = rep_e()
                p, t = sequence([p, q]), t + " " + u
            return p, t
        p, t = seq_e()
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            q, u = seq_e()
            p, t = one_of([p, q], cpp98), t + r.choice(["|", " | "]) + u
        return p, t
    rules = ["r%d" % k for k in range(r.randint(0, 2))] + [start]
    for n in rules:
        p, t = expr(1)
        act = r.random() < 0.3 or n == start
        if act:
            q = transform(p)
            hd |= q.headers
            a = ", %s" % {"int": "twist", "ints": "hash_of", None: "make_77"}[p.kind]
        else:
            q, a = p, ""
        names[n] = q
        text = "%s ::= %s" % (n, t)
        if len(text) > 30:
            return None
        steps += "::rule<%s%s >%s" % (string_type(text), a, dot)
        hd |= p.headers
    p = names[start]
    return P("grammar<%s>%s" % ("" if start == "S" else string_type(start) + " ", steps), p.f, p.gen, p.nullable, hd, p.kind)


def calc(cpp98):
    """The recursive calculator of the documentation, without multiplication (to stay clear of overflow)."""
    tok_int, plus, minus = token(int_()), token(lit("+")), token(lit("-"))

    def primary(s, i, pos):
        return alt(s, i, pos)
    prim = P("calc_primary", primary, None, False, ())
    paren = middle_of(token(lit("(")), P("calc_expr", lambda s, i, pos: ex(s, i, pos), None, False, (), "int"), token(lit(")")))
    alts = {}

    def alt(s, i, pos):
        return one_of_f([tok_int, paren], cpp98)(s, i, pos)

    def ex(s, i, pos):
        r = prim.f(s, i, pos)
        if r[0] == "err":
            return r
        while True:
            _, i, pos, v = r
            o = one_of_f([plus, minus], cpp98)(s, i, pos)
            if o[0] == "err":
                return r
            q = prim.f(s, o[1], o[2])
            if q[0] == "err":
                return r
            r = q[:3] + (v + (q[3] if o[3] == 43 else -q[3]),)

    def gen(r, d=3):
        def pr():
            return "(" + gen(r, d - 1) + ")" if d > 0 and r.random() < 0.35 else str(r.randint(0, 999))
        return pr() + "".join(r.choice([" + ", "-", "+", " -\n"]) + pr() for _ in range(r.choice([0, 1, 1, 2])))
    return P("calc_expr", ex, gen, False, {"decl:calc"}, "int")




def atom(r, cpp98):
    k = r.randrange(13)
    box = r.random() < 0.3
    if k < 4:
        return lit(r.choice("ab()+01 \n"), box)
    return [digit, letter, space, one_char, int_, lambda: one_char_except(r.sample("ab()1", r.randint(1, 3)), box),
            lambda: range_c(*r.choice(["az", "09", "AF", "!/"]), box), lambda: one_of_c(r.sample("ab+-01x", r.randint(2, 4)), cpp98),
            digit_val][k - 4]()


def parser(r, cpp98, depth, msgs):
    if depth == 0 or r.random() < 0.08:
        k = r.randrange(14)
        if k == 0:
            return keyword("".join(r.choice("abif") for _ in range(r.randint(0, 4))), r.choice([None, 12]))
        if k == 1:
            return spaces()
        if k == 2:
            return alphanum(cpp98)
        if k == 3:
            return r.choice([empty, return_])()
        if k == 4:
            return fail(r.choice(msgs))
        if k == 5:
            return always_c(r.choice("ab0\n"))
        if k == 6:
            p = atom(r, cpp98)
            return accept_when(p if p.type != "int_" and r.random() < 0.4 else one_char(), r.choice(sorted(PREDS)), r.choice(msgs))
        return atom(r, cpp98)

    def sub(nn=False, kind=None):
        for _ in range(20):
            p = parser(r, cpp98, depth - 1, msgs)
            if not (nn and p.nullable) and (kind is None or p.kind == kind):
                return p
        return atom(r, cpp98)

    def subs(a, b, nn=False, kind=None):
        return [sub(nn, kind) for _ in range(r.randint(a, b))]
    k = r.randrange(34)
    if k < 4:
        return sequence(subs(1, 4))
    if k < 7:
        return one_of(subs(1, 4), cpp98)
    if k < 9:
        return rep(sub(True), r.choice(["repeated", "repeated1", "repeated_reject_incomplete", "repeated_reject_incomplete1"]))
    if k < 11:
        return rep(sub(True), r.choice(["foldl", "foldl1", "foldl_reject_incomplete", "foldl_reject_incomplete1", "foldr", "foldr1",
                                        "foldr_reject_incomplete", "foldr_reject_incomplete1"]))
    if k == 11:
        return repeated_one_of(subs(1, 3, True), cpp98, r.random() < 0.5)
    if k == 12:
        return sequence(subs(1, 3), "first_of", pick=0)
    if k == 13:
        ps = subs(1, 3)
        return sequence(ps, "last_of", pick=len(ps) - 1)
    if k == 14:
        ps = subs(1, 3)
        n = r.randrange(len(ps))
        return sequence(ps, "nth_of_c", "%d, " % n, n) if r.random() < 0.6 else sequence(ps, "nth_of", "boost::mpl::int_<%d>, " % n, n)
    if k < 17:
        return middle_of(lit("("), sub(), lit(")")) if r.random() < 0.6 else middle_of(sub(), sub(), sub())
    if k == 17:
        return entire_input(sub(), r.choice([None, None, r.choice(msgs)]))
    if k == 18:
        return token(sub())
    if k == 19:
        return r.choice([look_ahead, optional, if_, always, fail_first])(sub())
    if k == 20:
        return except_(sub(), r.choice(msgs))
    if k == 21:
        return change_msg(sub(), r.choice(msgs))
    if k == 22:
        return iterate_c(sub(True), r.randint(0, 3), r.random() < 0.3)
    if k < 25:
        return transform(sub())
    if k == 25:
        return sequence_apply(subs(1, 4, kind="int"))
    if k == 26:
        return start_with(sub(True, "int"), sub(kind="int"), r.choice(["foldl_start_with_parser", "foldr_start_with_parser",
                                                                        "foldl_reject_incomplete_start_with_parser"]))
    if k == 27:
        return transform_error(sub(), r.choice(msgs), r.random() < 0.3)
    if k == 28:
        return transform_msg(sub(), r.randint(0, 99), r.randint(0, 9999))
    if k == 30:
        g = grammar(r, cpp98, sub)
        if g:
            return g
    if k == 29:
        return calc(cpp98)
    if k == 32:
        return user_twice(sub())
    if k == 33:
        return user_char(r.random() < 0.5)
    return sequence([token(keyword(r.choice(["if", "let", "ab"]))), sub()])


FOLDS = [a + b + c for a in ("foldl", "foldr") for b in ("", "_reject_incomplete") for c in ("", "1")]
REPEATS = ["repeated", "repeated1", "repeated_reject_incomplete", "repeated_reject_incomplete1"]


def basics(r, cpp98, msgs):
    """Every parser of the library at least once, directly over simple ones: (parser, a text that matters to it)."""
    m = lambda: r.choice(msgs)

    def a():
        """A simple parser; half of them may fail after their first character."""
        return r.choice([late, lambda: atom(r, cpp98)])()

    def late():
        c, d = r.choice(["ab", "ba", "01", "(x", "a\n"])
        return r.choice([lambda: sequence([lit(c), lit(d)], "last_of", pick=1), lambda: sequence([lit(c), digit()], "first_of", pick=0),
                         lambda: keyword(c + d, 12)])()
    two = lambda: [a(), a()]
    three = lambda: [a(), a(), a()]
    res = [digit(), letter(), space(), one_char(), lit("a"), lit("b", True), one_char_except("ab"), one_char_except("1x", True), range_c("a", "c"),
           range_c("0", "5", True), digit_val(), one_of_c("ab+", cpp98), int_(), spaces(), alphanum(cpp98), keyword("if"), keyword("ab", 12),
           keyword("", 13), empty(), return_(), fail(m()), always_c("a"), user_char(True), user_char(False), calc(cpp98)]
    res += [accept_when(one_char(), p, m()) for p in sorted(PREDS)]
    res += [transform_digit(digit(), True), transform_digit(range_c("0", "9"), False)]
    res = [(p, p.gen) for p in res]

    def over(q, f):
        p = f(q)
        some = lambda r: "".join(q.gen(r) for _ in range(r.randint(0, 3)))
        res.append((p, lambda r: r.choice([p.gen(r), some(r), some(r) + q.gen(r)[:-1]])))
    for n in REPEATS + FOLDS:
        over(late() if "reject" in n else a(), lambda q: rep(q, n))
    for n in r.sample(FOLDS, 4):
        over(a(), lambda q: rep_swapped(q if q.type != "int_" else digit_val(), n))  # clear of overflow
    for f in (look_ahead, optional, if_, always, fail_first, user_twice, entire_input, token, transform, lambda q: entire_input(q, m()),
              lambda q: except_(q, m()), lambda q: change_msg(q, m()), lambda q: iterate_c(q, 2), lambda q: iterate_c(q, 3, True), lambda q: iterate_c(q, 1),
              lambda q: transform_error(q, m(), False), lambda q: transform_error(q, m(), True), lambda q: transform_msg(q, 3, 40),
              lambda q: middle_of(lit("("), q, lit(")")), lambda q: sequence([look_ahead(q), one_char()]), lambda q: sequence([fail_first(q), one_char()]),
              lambda q: transform(sequence([q, q])), lambda q: sequence([except_(q, m()), one_char()], "last_of", pick=1)):
        over(a(), f)
    for n in ("foldl_start_with_parser", "foldr_start_with_parser", "foldl_reject_incomplete_start_with_parser"):
        st = a()
        over(a(), lambda q: start_with(q, st, n))
    many = [sequence(two()), sequence(three()), one_of(two(), cpp98), one_of(three(), cpp98), repeated_one_of(two(), cpp98, False),
            repeated_one_of(two(), cpp98, True), sequence(two(), "first_of", pick=0), sequence(three(), "first_of", pick=0),
            sequence(three(), "last_of", pick=2), sequence(two(), "last_of", pick=1), sequence(three(), "nth_of_c", "1, ", 1),
            sequence(three(), "nth_of_c", "0, ", 0), sequence(three(), "nth_of", "boost::mpl::int_<2>, ", 2), middle_of(*three())]
    many += [sequence_apply([a() for _ in range(n)]) for n in (1, 2, 3, 4)]
    many += [g for g in (grammar(r, cpp98, a) for _ in range(4)) if g]
    return res + [(p, p.gen) for p in many]


def text_input(r, p, limit, gen=None):
    s = (gen or p.gen)(r)
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        k = r.randrange(6)
        i = r.randint(0, len(s))
        if k < 2:
            s = s[:i] + r.choice("ab01()+ \n\tx\r") + s[i:]
        elif k == 2:
            s = s[:i] + s[i + 1:]
        elif k == 3:
            s += r.choice(["", "a", "ab", "\n", " rest", "\xe9", ")"])
        elif k == 4:
            s = s[:i]
        else:
            s = r.choice(["", "x", "\n\n", " "]) + s
    # the column after a CR LF pair is one too high in the library (see DESIGN.md, C24); not judged here
    return s.replace("\r\n", "\n")[:limit]


PRELUDE = """
#include <boost/mpl/at.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/fold.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/empty.hpp>
"""
COMMON = """struct int_state { typedef int_state type; };
struct keep_state { typedef keep_state type; template <class S, class X> struct apply { typedef int_state type; }; };
struct hmix { typedef hmix type; template <class S, class X> struct apply : boost::mpl::int_<(((S::type::value * 31) ^ X::type::value) & 0xffff)> {}; };
""" + "".join("""template <%s> struct app%d : boost::mpl::int_<%s> {};
""" % (", ".join("class A%d" % i for i in range(n)), n, "".join("((31 * " for i in range(n)) + "7" + "".join(" ^ A%d::type::value) & 0xffff)" % i for i in range(n)))
              for n in (1, 2, 3, 4))
DECLS = {
    "transform": ((), """struct twist { typedef twist type; template <class X> struct apply : boost::mpl::int_<((X::type::value * 3 + 1) & 0xffff)> {}; };
struct hash_of { typedef hash_of type; template <class X> struct apply : boost::mpl::fold<X, boost::mpl::int_<5>, hmix> {}; };
struct make_77 { typedef make_77 type; template <class X> struct apply : boost::mpl::int_<77> {}; };
"""),
    "re_reject": (("reject", "get_position", "start"), """template <class M, bool AtStart> struct re_reject { typedef re_reject type;
  template <class R> struct apply : reject<M, typename get_position<R>::type> {}; };
template <class M> struct re_reject<M, true> { typedef re_reject type; template <class R> struct apply : reject<M, start> {}; };
"""),
    "wrap_msg": (("error/unpaired",), """template <int L, int C> struct wrap_msg { typedef wrap_msg type; template <class M> struct apply { typedef error::unpaired<L, C, M> type; }; };
"""),
    "user_char": (("accept", "reject", "next_char", "next_line", "error/unexpected_end_of_input"), """template <class S, class Pos, bool Line, bool Empty> struct user_char_impl :
  accept<typename boost::mpl::front<S>::type, typename boost::mpl::pop_front<S>::type, next_char<Pos, typename boost::mpl::front<S>::type> > {};
template <class S, class Pos> struct user_char_impl<S, Pos, true, false> :
  accept<typename boost::mpl::front<S>::type, typename boost::mpl::pop_front<S>::type, next_line<Pos, typename boost::mpl::front<S>::type> > {};
template <class S, class Pos, bool Line> struct user_char_impl<S, Pos, Line, true> : reject<error::unexpected_end_of_input, Pos> {};
template <bool Line> struct user_char { typedef user_char type; template <class S, class Pos> struct apply : user_char_impl<typename S::type, typename Pos::type, Line, boost::mpl::empty<typename S::type>::type::value> {}; };
"""),
    "user_twice": (("unless_error", "get_remaining", "get_position"), """template <class P, class S, class Pos> struct user_twice_impl :
  P::template apply<typename get_remaining<typename P::template apply<S, Pos> >::type, typename get_position<typename P::template apply<S, Pos> >::type> {};
template <class P> struct user_twice { typedef user_twice type; template <class S, class Pos> struct apply : unless_error<typename P::template apply<S, Pos>, user_twice_impl<P, S, Pos> > {}; };
"""),
    "calc": (("token", "int_", "lit_c", "one_of", "middle_of", "foldl_start_with_parser", "sequence"), """struct calc_expr;
typedef one_of<token<int_>, middle_of<token<lit_c<'('> >, calc_expr, token<lit_c<')'> > > > calc_primary;
template <char Op> struct calc_op;
template <> struct calc_op<'+'> { template <class A, class B> struct apply : boost::mpl::int_<A::type::value + B::type::value> {}; };
template <> struct calc_op<'-'> { template <class A, class B> struct apply : boost::mpl::int_<A::type::value - B::type::value> {}; };
struct calc_step { typedef calc_step type; template <class A, class S> struct apply :
  calc_op<boost::mpl::at_c<S, 0>::type::type::value>::template apply<A, typename boost::mpl::at_c<S, 1>::type> {}; };
struct calc_expr : foldl_start_with_parser<sequence<one_of<token<lit_c<'+'> >, token<lit_c<'-'> > >, calc_primary>, calc_primary, calc_step> {};
"""),
}


def split(headers):
    """Headers to include and declarations to put after them."""
    hs, ds = set(), []
    for h in sorted(headers):
        if h.startswith("decl:"):
            n, d = DECLS[h[5:]]
            hs |= set(n)
            ds.append(d)
        else:
            hs.add(h)
    return hs, COMMON + "".join(ds)


ALL = """digit letter space spaces alphanum one_char lit_c one_char_except_c range_c one_of_c sequence first_of last_of nth_of_c
middle_of one_of repeated repeated1 repeated_reject_incomplete repeated_reject_incomplete1 foldl foldl1 foldl_reject_incomplete
foldl_reject_incomplete1 foldr foldr1 foldr_reject_incomplete foldr_reject_incomplete1 repeated_one_of repeated_one_of1 int_
entire_input token keyword look_ahead except if_ optional empty fail return_ change_error_message fail_at_first_char_expected
iterate_c always lit one_char_except range iterate nth_of digit_val always_c transform transform_error transform_error_message
accept_when sequence_apply foldl_start_with_parser foldr_start_with_parser foldl_reject_incomplete_start_with_parser grammar string
util/is_digit util/is_letter util/is_lcase_letter util/is_ucase_letter util/is_whitespace util/in_range util/in_range_c""".split()
