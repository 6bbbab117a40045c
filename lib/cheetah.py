"""Stand-in for Cheetah (not installed here): the subset the benchmark templates use, with Cheetah's order of evaluation.

  #for x in expr ... #end for, #if/#else/#end if, #set $x = expr, ## comments, \\#, $name, $name(args), ${expr}"""
import re
import types


def _expr(s):
    return re.sub(r"\$\{?([A-Za-z_]\w*)\}?", r"\1", s)


class Template(object):
    def __init__(self, source=None, searchList=None, file=None, **_):
        self._src = source if source is not None else open(file).read()
        self._sl = searchList

    def _env(self):
        env = {}
        sl = self._sl if isinstance(self._sl, (list, tuple)) else [self._sl or {}]
        for d in reversed(list(sl)):
            env.update(d)
        env.update({k: v for k, v in self.__dict__.items() if not k.startswith("_")})
        return env

    def _line(self, line, env):
        out, i = [], 0
        while i < len(line):
            c = line[i]
            if c == "\\" and i + 1 < len(line) and line[i + 1] in "#$":
                out.append(line[i + 1])
                i += 2
                continue
            if c == "$":
                m = re.match(r"\$\{([^}]*)\}", line[i:])
                if m:
                    out.append(str(eval(_expr(m.group(1)), env)))
                    i += m.end()
                    continue
                m = re.match(r"\$([A-Za-z_][\w.]*)", line[i:])
                if m:
                    e, j = m.group(1), i + m.end()
                    if j < len(line) and line[j] == "(":
                        d, k = 0, j
                        while k < len(line):
                            d += line[k] == "("
                            d -= line[k] == ")"
                            k += 1
                            if d == 0:
                                break
                        e, j = e + _expr(line[j:k]), k
                    out.append(str(eval(e, env)))
                    i = j
                    continue
            out.append(c)
            i += 1
        return "".join(out)

    def _run(self, lines, i, env, out, live):
        """Lines from i to the matching #end; returns the index of it."""
        while i < len(lines):
            s = lines[i].strip()
            if s.startswith("#end") or s.startswith("#else"):
                return i
            m = re.match(r"#for\s+\$?(\w+)\s+in\s+(.*?):?$", s)
            if m:
                end = self._run(lines, i + 1, env, [], False)
                if live:
                    for v in eval(_expr(m.group(2)), env):
                        env[m.group(1)] = v
                        self._run(lines, i + 1, env, out, True)
                i = end + 1
                continue
            m = re.match(r"#if\s+(.*?):?$", s)
            if m:
                yes = live and bool(eval(_expr(m.group(1)), env))
                i = self._run(lines, i + 1, env, out, yes)
                if lines[i].strip().startswith("#else"):
                    i = self._run(lines, i + 1, env, out, live and not yes)
                i += 1
                continue
            m = re.match(r"#set\s+\$?(\w+)\s*=\s*(.*)$", s)
            if m:
                if live:
                    env[m.group(1)] = eval(_expr(m.group(2)), env)
            elif live and not s.startswith("##"):
                out.append(self._line(lines[i], env))
            i += 1
        return i

    def __str__(self):
        out, env = [], self._env()
        self._run(self._src.splitlines(True), 0, env, out, True)
        return "".join(out)

    respond = __str__


def modules():
    c, t = types.ModuleType("Cheetah"), types.ModuleType("Cheetah.Template")
    t.Template = Template
    c.Template = t
    return {"Cheetah": c, "Cheetah.Template": t}
