"""Runs the repository's Python 2 tools under Python 3, with what Python 2 leaves open (dict order) decided by a seed.

Strings are byte strings in Python 2: here they are str with one character per byte (latin-1) throughout, and files,
pipes and json are adapted to that."""
import ast
import builtins
import functools
import hashlib
import io
import re
import sys
import tokenize
import types

DICT_SEED = 0
ROOT = None  # where the simulated world lies, which nothing may depend on


def order_key(k):
    r = repr(k)
    return hashlib.sha256(("%d|%s" % (DICT_SEED, r.replace(ROOT, "") if ROOT else r)).encode()).digest()


def p2iter(x):
    """Iterating a dict or a set: an order of its own, the same while the keys are the same."""
    if type(x) is dict or isinstance(x, (set, frozenset)):
        return sorted(x, key=order_key)
    return x


def p2sort(x, cmp=None, key=None, reverse=False):
    if cmp is not None:
        c = functools.cmp_to_key(cmp)
        key = (lambda v, k=key: c(k(v))) if key else c
    return sorted(p2iter(x), key=key, reverse=reverse)


def p2method(name, obj, *a, **k):
    if name == "sort" and isinstance(obj, list):
        obj[:] = p2sort(obj, *a, **k)
        return None
    if name == "next" and not a and not k and not hasattr(obj, "next"):
        return next(obj)
    if isinstance(obj, dict):
        if name in ("keys", "iterkeys", "viewkeys"):
            r = list(p2iter(obj))
        elif name in ("values", "itervalues", "viewvalues"):
            r = [obj[i] for i in p2iter(obj)]
        elif name in ("items", "iteritems", "viewitems"):
            r = [(i, obj[i]) for i in p2iter(obj)]
        elif name == "has_key":
            return a[0] in obj
        else:
            return getattr(obj, name)(*a, **k)
        return iter(r) if name.startswith("iter") else r
    if isinstance(obj, str):
        if name == "decode":
            return obj.encode("latin-1").decode(*a, **k)
        if name == "encode":
            return obj.encode(*a, **k).decode("latin-1")
        if name == "join":
            return obj.join(p2iter(a[0]))
    return getattr(obj, name)(*a, **k)


def p2div(a, b):
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b


METHODS = {"keys", "iterkeys", "viewkeys", "values", "itervalues", "viewvalues", "items", "iteritems", "viewitems", "has_key",
           "decode", "encode", "join", "sort", "next"}
ITERATING = {"list", "tuple", "iter", "enumerate", "map", "filter", "zip", "reduce"}


class Fix(ast.NodeTransformer):
    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.call("_p2iter", n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.call("_p2iter", n.iter)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        return self.call("_p2div", n.left, n.right) if isinstance(n.op, ast.Div) else n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], self.call("_p2div", ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            return ast.Call(ast.Name("_p2method", ast.Load()), [ast.Constant(n.func.attr), n.func.value] + n.args, n.keywords)
        if isinstance(n.func, ast.Name) and n.func.id in ITERATING:
            n.args = [a if isinstance(a, ast.Starred) else self.call("_p2iter", a) for a in n.args]
        return n


def _statements(toks):
    """Logical lines, split at ';' outside of brackets and after the ':' of a compound statement."""
    depth, cur = 0, []
    for t in toks:
        if t.type == tokenize.OP:
            depth += t.string in "([{"
            depth -= t.string in ")]}"
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER) or (t.string == ";" and not depth):
            yield cur, t
            cur = []
        elif t.type in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT, tokenize.DEDENT):
            continue
        else:
            cur.append(t)


def translate(src):
    """Python 2 text to Python 3 text."""
    src = src.replace("\r\n", "\n").expandtabs(8)
    src = re.sub(r"(?m)^(#.*coding[:=]).*$", r"#", src)
    lines = src.split("\n")
    edits = []  # (row, col, delete, insert), from the last to the first
    body = []

    def at(pos, insert, delete=0):
        edits.append((pos[0], pos[1], delete, insert))

    src = _lambdas(src)
    lines = src.split("\n")
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    except (tokenize.TokenError, SyntaxError) as e:
        raise SyntaxError("cannot tokenize: %s" % e)
    for st, end in _statements(toks):
        if not st:
            continue
        # a statement on the line of its compound statement: look behind the colon too
        starts, depth = [0], 0
        for i, t in enumerate(st):
            depth += t.string in "([{" if t.type == tokenize.OP else 0
            depth -= t.string in ")]}" if t.type == tokenize.OP else 0
            if t.string == ":" and not depth and i + 1 < len(st):
                starts.append(i + 1)
        for b in starts:
            s = st[b:]
            if s[0].string == "print" and (len(s) == 1 or s[1].string not in ("=", ".")):
                if len(s) > 1 and s[1].string == "(" and _closes(s, 1) == len(s) - 1:
                    continue
                a = s[1:]
                at(s[0].start, "_p2print(", 5)
                if a and a[0].string == ">>":
                    at(a[0].start, "_to=", 2)
                    rest = _top_commas(a)
                    at(s[-1].end, ")")
                    if rest:  # destination first: f, x -> _to=f must come as keyword; calls allow positional after it not
                        dest = "".join(lines[a[1].start[0] - 1][a[1].start[1]:a[rest[0]].start[1]])
                        edits[:] = [e for e in edits if not (e[0] == a[0].start[0] and e[1] == a[0].start[1])]
                        edits.append((a[0].start[0], a[0].start[1], a[rest[0]].end[1] - a[0].start[1], ""))
                        edits[:] = [e for e in edits if not (e[3] == ")" and (e[0], e[1]) == s[-1].end)]
                        at(s[-1].end, ", _to=%s)" % dest)
                elif a and a[-1].string == ",":
                    at(a[-1].start, ", _end=' ')", 1)
                else:
                    at(s[-1].end, ")")
            elif s[0].string == "except":
                c = _top_commas(s[:-1] if s[-1].string == ":" else s)
                if c:
                    at(s[c[0]].start, " as", 1)
            elif s[0].string == "raise":
                c = _top_commas(s)
                if c:
                    at(s[c[0]].start, "(", 1)
                    at(s[c[1]].start if len(c) > 1 else s[-1].end, ")")
                    if len(c) > 1:
                        a_, b_ = s[c[1]].start, s[-1].end
                        at(a_, "", b_[1] - a_[1])
            elif s[0].string in ("def",):
                o = 2
                e = _closes(s, o)
                i, k = o + 1, 0
                while i < e:
                    if s[i].string == "(" and s[i - 1].string in ("(", ",") and (i - 1 == o or True):
                        j = _closes(s, i)
                        if s[j + 1].string in (",", ")", "="):
                            row, c0, c1 = s[i].start[0], s[i].start[1], s[j].end[1]
                            if s[j].end[0] == row:
                                name = "_p2arg%d" % k
                                k += 1
                                body.append((end.start[0], lines[row - 1][c0:c1], name, s[0].start[1]))
                                at(s[i].start, name, c1 - c0)
                        i = j
                    i += 1
    for row, col, dele, ins in sorted(set(edits), key=lambda e: (e[0], e[1], -e[2]), reverse=True):
        l = lines[row - 1]
        lines[row - 1] = l[:col] + ins + l[col + dele:]
    for row, tup, name, indent in sorted(body, key=lambda x: -x[0]):
        nxt = next((l for l in lines[row:] if l.strip()), "")
        ind = len(nxt) - len(nxt.lstrip())
        lines.insert(row, " " * max(ind, indent + 1) + "%s = %s" % (tup, name))
    text = "\n".join(lines)
    return text.replace("<>", "!=") if "<>" in text and re.search(r"\w\s*<>\s*\w", text) else text


def _lambdas(src):
    """lambda z, (a, b): x  ->  lambda z, _p2l: (lambda a, b: x)(*_p2l); `x` -> repr(x); 10L -> 10."""
    n = 0
    while True:
        try:
            toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
        except (tokenize.TokenError, SyntaxError, IndentationError):
            return src
        ls, again = src.split("\n"), False
        for i, t in enumerate(toks):
            if t.string == "lambda":
                p, c = None, i + 1  # the first parameter that is a tuple, the colon
                while c < len(toks) and toks[c].string != ":":
                    if toks[c].string in ("(", "[", "{"):
                        if p is None and toks[c].string == "(" and toks[c - 1].string in ("lambda", ","):
                            p = c
                        c = _closes(toks, c)
                    c += 1
                if p is None:
                    continue
                q = _closes(toks, p)
                depth, e = 0, c + 1
                while e < len(toks) and not (depth == 0 and toks[e].string in (")", "]", "}", ",", ";")) and toks[e].type not in (tokenize.NEWLINE, tokenize.ENDMARKER, tokenize.COMMENT):
                    depth += toks[e].string in ("(", "[", "{")
                    depth -= toks[e].string in (")", "]", "}")
                    e += 1
                while toks[e - 1].type == tokenize.NL:
                    e -= 1
                n += 1
                (r1, c1), (r2, c2) = toks[c].end, toks[e - 1].end
                inner = " ".join(x.string for x in toks[p + 1:q] if x.type != tokenize.NL)
                ls[r2 - 1] = ls[r2 - 1][:c2] + ")(*_p2l%d)" % n + ls[r2 - 1][c2:]
                ls[r1 - 1] = ls[r1 - 1][:c1] + " (lambda " + inner + ":" + ls[r1 - 1][c1:]
                (r0, c0), (r1, c1) = toks[p].start, toks[q].end
                if r0 != r1:
                    continue
                ls[r0 - 1] = ls[r0 - 1][:c0] + "_p2l%d" % n + ls[r0 - 1][c1:]
                again = True
                break
            if t.string == "`" and t.type in (tokenize.OP, tokenize.ERRORTOKEN):
                m = next((x for x in toks[i + 1:] if x.string == "`" and x.start[0] == t.start[0]), None)
                if m:
                    r, (a, z) = t.start[0], (t.start[1], m.start[1])
                    ls[r - 1] = ls[r - 1][:a] + "repr(" + ls[r - 1][a + 1:z] + ")" + ls[r - 1][z + 1:]
                    again = True
                    break
            if t.type == tokenize.NUMBER and i + 1 < len(toks) and toks[i + 1].string in ("L", "l") and toks[i + 1].start == t.end:
                r, c = toks[i + 1].start
                ls[r - 1] = ls[r - 1][:c] + ls[r - 1][c + 1:]
                again = True
                break
        src = "\n".join(ls)
        if not again:
            return src


def _closes(s, o):
    depth = 0
    for i in range(o, len(s)):
        if s[i].type == tokenize.OP:
            depth += s[i].string in "([{"
            depth -= s[i].string in ")]}"
            if depth == 0:
                return i
    return len(s) - 1


def _top_commas(s):
    depth, r = 0, []
    for i, t in enumerate(s):
        if t.type == tokenize.OP:
            depth += t.string in "([{"
            depth -= t.string in ")]}"
            if t.string == "," and depth == 0:
                r.append(i)
    return r


CACHE = {}


def preload(d):
    """Compiles the sources in d before the fork."""
    import os
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if f.endswith(".py"):
            try:
                src = open(p, encoding="latin-1").read()
                if (p, src) not in CACHE:
                    CACHE[p, src] = compile_tool(src, p)
            except SyntaxError:
                pass


def compile_tool(src, fn):
    if (fn, src) in CACHE:
        return CACHE[fn, src]
    try:
        tree = ast.parse(src, fn)  # already valid Python 3
    except SyntaxError:
        try:
            tree = ast.parse(translate(src), fn)
        except SyntaxError:  # octal numbers
            tree = ast.parse(translate(re.sub(r"(?<![\w.'\"])0([0-7]+)(?![\w.'\"])", r"0o\1", src)), fn)
    # docstrings and __future__ imports stay first: only expressions are rewritten
    tree = ast.fix_missing_locations(Fix().visit(tree))
    tree.body = [n for n in tree.body if not (isinstance(n, ast.ImportFrom) and n.module == "__future__")]
    return compile(tree, fn, "exec")


# ---- the built-in names as Python 2 has them
class File(io.TextIOWrapper):
    def write(self, s):
        return super().write(s.decode("latin-1") if isinstance(s, (bytes, bytearray)) else s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)


def _wrap(raw, name, mode):
    f = File(raw, encoding="latin-1", newline=None if "U" in str(mode) else "\n")
    f.mode = mode
    return f


def p2open(name, mode="r", buffering=-1, **kw):
    m = mode.replace("U", "").replace("t", "")
    if kw.get("encoding") not in (None, "latin-1", "ascii"):
        return io.open(name, m, **kw)
    b = m if "b" in m else m + "b"
    return _wrap(io.open(name, b, -1 if buffering in (0, 1) else buffering), name, mode)


def p2print(*a, _to=None, _end="\n"):
    (sys.stdout if _to is None else _to).write(" ".join(str(x) for x in a) + _end)


class P2sys(types.ModuleType):
    maxint = sys.maxsize

    def __getattr__(self, n):
        return getattr(sys, n)

    def __setattr__(self, n, v):
        setattr(sys, n, v)


def proxy(mod, **over):
    m = types.ModuleType(mod.__name__)
    m.__dict__.update(mod.__dict__)
    m.__dict__.update(over)
    return m


def _proxies():
    import json
    import os
    import subprocess
    import tempfile
    import string
    import random
    import itertools

    def reordered(x):
        if isinstance(x, dict):
            return {k: reordered(x[k]) for k in p2iter(x)}
        if isinstance(x, (list, tuple)):
            return [reordered(i) for i in x]
        return x

    def dumps(x, *a, **k):
        return json.dumps(x if k.get("sort_keys") else reordered(x), *a, **k)

    def dump(x, f, *a, **k):
        for c in json.JSONEncoder(**{kk: v for kk, v in k.items() if kk in ("indent", "sort_keys", "separators")}).iterencode(x if k.get("sort_keys") else reordered(x)):
            f.write(c)

    class Popen(subprocess.Popen):
        def __init__(self, *a, **k):
            if not (k.get("text") or k.get("universal_newlines") or k.get("encoding")):
                k["encoding"] = "latin-1"
            super().__init__(*a, **k)

    sp = proxy(subprocess, Popen=Popen)
    for f in ("run", "call", "check_call", "check_output", "getoutput", "getstatusoutput"):
        g = getattr(subprocess, f)
        h = types.FunctionType(g.__code__, sp.__dict__, f, g.__defaults__, g.__closure__)
        h.__kwdefaults__ = g.__kwdefaults__
        setattr(sp, f, h)

    def fdopen(fd, mode="r", *a, **k):
        return _wrap(os.fdopen(fd, mode if "b" in mode else mode + "b"), fd, mode)

    def write(fd, s):
        return os.write(fd, s.encode("latin-1") if isinstance(s, str) else s)

    def read(fd, n):
        return os.read(fd, n).decode("latin-1")

    class Named:
        def __init__(self, t):
            self.t, self.f, self.name = t, _wrap(t.file, t.name, "w+b"), t.name

        def __getattr__(self, n):
            return getattr(self.f, n)

        def close(self):
            self.f.flush()
            self.t.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __iter__(self):
            return iter(self.f)

    def ntf(mode="w+b", bufsize=-1, suffix="", prefix="tmp", dir=None, delete=True, **k):
        return Named(tempfile.NamedTemporaryFile("w+b", -1, suffix=suffix, prefix=prefix, dir=dir, delete=delete))

    def ioopen(name, mode="r", *a, **k):
        return p2open(name, mode) if "b" in mode and isinstance(name, str) else io.open(name, mode, *a, **k)

    sio = types.ModuleType("StringIO")
    sio.StringIO = lambda v="": io.StringIO(v, newline="\n")
    return {
        "StringIO": sio, "cStringIO": sio,
        "json": proxy(json, dumps=dumps, dump=dump),
        "subprocess": sp,
        "os": proxy(os, fdopen=fdopen, write=write, read=read, getcwdu=os.getcwd,
                    popen=lambda c, *a: _wrap(Popen(c, shell=True, stdout=subprocess.PIPE).stdout.buffer, c, "r")),
        "sys": P2sys("sys"),
        "itertools": proxy(itertools, izip=zip, imap=map, ifilter=filter, izip_longest=itertools.zip_longest),
        "tempfile": proxy(tempfile, NamedTemporaryFile=ntf),
        "io": proxy(io, open=ioopen),
        "string": proxy(string, letters=string.ascii_letters, lowercase=string.ascii_lowercase, uppercase=string.ascii_uppercase,
                        join=lambda l, s=" ": s.join(l), replace=lambda s, a, b: s.replace(a, b)),
        "codecs": proxy(__import__("codecs"), open=lambda n, m="r", encoding=None, **k: p2open(n, m) if encoding is None else io.open(n, m.replace("b", ""), encoding=encoding, newline="\n")),
    }


def run(script, argv, modules):
    """Runs script as __main__. modules: extra modules (name -> module)."""
    import os
    over = _proxies()
    over.update(modules)
    here = os.path.dirname(script)
    loaded = {}
    real = builtins.__import__

    def namespace(name, fn):
        return {"__name__": name, "__file__": fn, "__builtins__": bi, "__doc__": None, "__package__": None,
                "_p2iter": p2iter, "_p2method": p2method, "_p2div": p2div, "_p2print": p2print}

    def imp(name, g=None, l=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if name in over or top in over:
            if top in over and not (fromlist and name in over):
                if "." in name and name not in over and top in ("os",):
                    real(name)
                return over[name] if fromlist and name in over else over[top]
            return over[name]
        if name in ("__builtin__", "builtins"):
            return bm
        fn = os.path.join(here, top + ".py")
        if os.path.isfile(fn):
            if top not in loaded:
                m = types.ModuleType(top)
                m.__dict__.update(namespace(top, fn))
                loaded[top] = m
                exec(compile_tool(open(fn, encoding="latin-1").read(), fn), m.__dict__)
            return loaded[top]
        return real(name, g, l, fromlist, level)

    bi = dict(builtins.__dict__)
    bi.update(open=p2open, file=p2open, xrange=range, unicode=str, basestring=str, long=int, unichr=chr, raw_input=input,
              reduce=functools.reduce, cmp=lambda a, b: (a > b) - (a < b), __import__=imp, sorted=p2sort, intern=sys.intern,
              apply=lambda f, a=(), k={}: f(*a, **k),
              map=lambda *a: list(map(*a)) if a[0] is not None else list(zip(*a[1:])), filter=lambda f, x: list(filter(f, x)),
              zip=lambda *a: list(zip(*a)), range=lambda *a: list(range(*a)), execfile=None)
    bm = types.ModuleType("__builtin__")
    bm.__dict__.update(bi)
    sys.argv = [script] + argv
    code = compile_tool(open(script, encoding="latin-1").read(), script)
    exec(code, namespace("__main__", script))
