"""The simulator the repository's tools run in: one process per run, every file operation and git command of it announced to
the simulator, which checks the invariants, then decides what happens (carried out, failing, cut short, killed ...).

A run is a pure function of (tool, world, schedule); a schedule is a list of [event number, action, argument]."""
import array
import errno
import hashlib
import json
import os
import random
import select
import shutil
import signal
import socket
import subprocess
import sys

from common import CXX, REPO, CheckError

NOBODY = 65534
MAX_EVENTS = 20000
HARD = {  # operation -> errors a real system gives
    "open r": ["EIO", "EACCES", "EMFILE"], "open w": ["ENOSPC", "EACCES", "EROFS", "EMFILE", "EIO"],
    "write": ["ENOSPC", "EIO", "EDQUOT"], "read": ["EIO"], "close w": ["EIO", "ENOSPC", "EDQUOT"],
    "rename": ["EIO", "ENOSPC", "EACCES", "EBUSY"], "unlink": ["EACCES", "EIO", "EBUSY"], "list": ["EACCES", "EIO", "EMFILE"],
    "mkdir": ["EACCES", "ENOSPC"], "fsync": ["EIO"], "truncate": ["EIO"], "link": ["EACCES"], "symlink": ["EACCES"], "rmdir": ["EACCES"],
}


def build(scratch):
    """The seam libraries."""
    so, git = os.path.join(scratch, "fsshim.so"), os.path.join(scratch, "gitstub")
    for cmd in (["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(CXX, "fsshim.c"), "-ldl"],
                ["gcc", "-O1", "-static", "-o", git, os.path.join(CXX, "gitstub.c")]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError(r.stdout.decode())
    return so, git


def opkind(ev):
    op = ev[0]
    if op == "open":
        return "open w" if "w" in ev[1] else "open r"
    if op == "close":
        return "close w" if ev[1] == "w" else "close r"
    return op


class Outcome:
    __slots__ = ("status", "signal", "events", "faults", "hash", "viol", "output", "hung", "git")


class Host:
    """One toolhost process; used by one thread."""

    def __init__(self, so):
        self.so, self.p = so, None

    def start(self):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.p = subprocess.Popen([sys.executable, "-E", "-s", os.path.join(os.path.dirname(os.path.abspath(__file__)), "toolhost.py")],
                                  stdin=b.fileno(), env={"LD_PRELOAD": self.so, "PYTHONHASHSEED": "0", "PATH": "/usr/bin:/bin", "LC_ALL": "C"})
        b.close()
        self.s = a

    def close(self):
        if self.p:
            self.s.close()
            self.p.wait()
            self.p = None

    def run(self, *a, **k):
        g = self.steps(*a, **k)
        while True:
            try:
                next(g)
            except StopIteration as e:
                return e.value

    def steps(self, world, tool, argv, cwd, schedule, observer, dict_seed=0, list_seed=1, git=None, full_after=None, names=None, tag=""):
        """schedule: {event number: (action, argument)}; observer(event) -> None or what is violated, called before each event
        is carried out and once at the end (event None). A generator: it stops whenever the tool waits for the answer to an
        event, and goes on with deciding it."""
        if self.p is None:
            self.start()
        ctl, theirs = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        outf = os.memfd_create("out")
        # runs at the same time have different pids; one after another, often the same one (as in containers)
        clock = random.Random("clock %d %d" % (dict_seed, world.run_no))
        simpid = 300 + ("abcdef".index(tag) if tag else world.run_no if dict_seed % 3 == 1 else 0)
        if not tag:  # the clock may be set between runs
            world.clock += clock.choice([0, 1, 5, 3600, -3600])
        world.run_no += 1
        req = dict(pid=simpid, run=world.run_no, clock=world.clock, script=os.path.join(world.root, "tools", tool), argv=argv, cwd=os.path.join(world.root, cwd), root=world.root,
                   dict_seed=dict_seed, uid=NOBODY if os.geteuid() == 0 else 0)
        self.s.sendmsg([json.dumps(req).encode()], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [theirs.fileno(), outf]).tobytes())])
        theirs.close()
        pid = json.loads(self.s.recv(4096))["pid"]
        o = Outcome()
        o.events, o.faults, o.viol, o.hung, o.git = [], [], None, False, []
        names, h = {} if names is None else names, hashlib.sha256()
        n, written, killed = 0, 0, False
        touched = []

        def stamp():
            """What has just been changed has the time of the simulated clock."""
            while touched:
                try:
                    os.utime(touched.pop(), (world.clock, world.clock))
                except OSError:
                    pass

        def canon(p):
            r = os.path.relpath(p, world.root)
            if r in world.known or r.startswith(".."):
                return r
            if r not in names:
                names[r] = "<new %d>" % len(names)
            return names[r]

        try:
            while True:
                rd = [ctl] + ([git.sock] if git else [])
                ready = select.select(rd, [], [], 60)[0]
                if not ready or n > MAX_EVENTS:
                    o.hung = True
                    os.kill(pid, signal.SIGKILL)
                    break
                if ctl in ready:
                    try:
                        m = ctl.recv(1 << 16)
                    except ConnectionResetError:
                        m = b""
                    if not m:
                        break
                    ev = self.parse(m.decode("latin-1"))
                    if ev[0] in ("open", "read", "close", "list") and str(ev[-1]).startswith(world.root + "/tools/") and ev[1:2] != ("w",):
                        ctl.send(b"G")  # the tool's own sources
                        continue
                    stamp()
                    world.clock += clock.random() < .05
                    yield ev
                    ans = self.decide(n, ev, schedule, o, list_seed)
                    if full_after is not None and ev[0] == "write" and ans == "G":
                        room = full_after - written
                        if room <= 0:
                            ans = "E %d" % errno.ENOSPC
                            o.faults.append((n, "full", opkind(ev), ev[-1]))
                        elif room < ev[1]:
                            ans = "S %d" % room
                    if ev[0] == "write" and ans[0] in "GS":
                        written += ev[1] if ans == "G" else int(ans[2:])
                    line = "%s%d %s %s -> %s" % (tag, n, " ".join(str(x) for x in ev[:-1]), " ".join(canon(p) for p in (ev[-1] if isinstance(ev[-1], tuple) else (ev[-1],))), ans)
                    o.events.append((opkind(ev), ev))
                    if opkind(ev) in ("open w", "write", "close w", "truncate"):
                        touched.append(ev[-1])
                    h.update(line.encode() + b"\n")
                    world.trace.append(line)
                    if ev[0] == "escape" and not o.viol:
                        o.viol = "event %d: tries to change %s, outside of its directories" % (n, ev[-1])
                    if not o.viol:
                        v = observer(ev)
                        if v:
                            o.viol = "before event %s%d (%s): %s" % (tag, n, line[len(tag):].split(" ", 1)[1], v)
                    n += 1
                    ctl.send(ans.encode())
                else:
                    c, _ = git.sock.accept()
                    m = c.recv(1 << 16)
                    parts = m.split(b"\0")[:-1]
                    gcwd, args = parts[0].decode("latin-1"), [p.decode("latin-1") for p in parts[1:]]
                    act = schedule.get(n)
                    if act and not act[0].startswith(("git", "kill")):
                        act = None  # meant for a file operation
                    line = "%s%d git [%s] %s" % (tag, n, os.path.relpath(gcwd, world.root), " ".join(a.replace(world.root, "<root>") for a in args))
                    ev = ("git", gcwd, tuple(args))
                    yield ev
                    o.events.append(("git", ev))
                    if not o.viol:
                        v = observer(ev)
                        if v:
                            o.viol = "before event %s%d (%s): %s" % (tag, n, line, v)
                    code, out = git.command(n, gcwd, args, act)
                    if act:
                        o.faults.append((n, act[0], "git", args[0] if args else ""))
                    o.git.append((args, code))
                    line += " -> %s" % (act[0] if act else code)
                    h.update(line.encode() + b"\n")
                    world.trace.append(line)
                    n += 1
                    if code == "killtool":
                        os.kill(pid, signal.SIGKILL)
                        self.wait_dead(ctl)
                        c.send(b"X\0")
                    elif code == "kill":
                        c.send(b"K" + out.encode("latin-1"))
                    else:
                        c.send((b"W" if git.spec.get("noisy") else b"X") + bytes([code]) + out.encode("latin-1"))
                    c.close()
        finally:
            ctl.close()
        st = json.loads(self.s.recv(4096))["status"]
        stamp()
        o.signal = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        o.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -o.signal
        if o.status == 99:
            raise CheckError("the seam lost its simulator")
        os.lseek(outf, 0, 0)
        o.output = os.read(outf, 1 << 16).decode("latin-1")[-3000:]
        os.close(outf)
        if not o.viol and not o.hung:
            o.viol = observer(None)
        line = "%send: status %d%s" % (tag, o.status, " killed" if o.signal else "")
        h.update(line.encode())
        world.trace.append(line)
        h.update(repr(sorted((canon(os.path.join(world.root, k)), hashlib.sha256(v).hexdigest()) for k, v in world.files().items())).encode())
        o.hash = h.hexdigest()
        if o.hung and not o.viol:
            o.viol = "the tool does not end (%d events)" % n
        if "SyntaxError" in o.output and not o.events and o.status == 1:
            raise CheckError("the tool cannot be loaded:\n" + o.output)
        return o

    @staticmethod
    def wait_dead(ctl):
        try:
            while ctl.recv(1 << 16):
                pass
        except ConnectionResetError:
            pass

    @staticmethod
    def parse(m):
        op, _, rest = m.partition(" ")
        if op in ("rename", "link"):
            return (op, tuple(rest.split("\n")))
        if op in ("open", "close", "escape"):
            a, _, p = rest.partition(" ")
            return (op, a, p)
        if op in ("write", "truncate"):
            a, _, p = rest.partition(" ")
            return (op, int(a), p)
        return (op, rest)

    @staticmethod
    def decide(n, ev, schedule, o, list_seed):
        base = "D %d" % list_seed if ev[0] == "list" else "G"
        act = schedule.get(n)
        if not act or ev[0] == "escape":
            return base
        kind, arg = act
        k = opkind(ev)
        if kind == "kill":
            o.faults.append((n, "kill", k, ev[-1]))
            return "K"
        if kind == "interrupt":
            o.faults.append((n, "interrupt", k, ev[-1]))
            return "I" if ev[0] != "list" else base
        if kind == "short":
            if ev[0] == "write":
                o.faults.append((n, "short", k, ev[-1]))
                return "S %d" % max(1, int(ev[1] * arg) if isinstance(arg, float) else min(arg, ev[1]))
            if ev[0] == "read":
                o.faults.append((n, "short", k, ev[-1]))
                return "S %d" % max(1, int(4096 * arg) if isinstance(arg, float) else arg)
            return base
        if kind == "error" and k in HARD:
            if k == "mkdir" and os.path.exists(ev[-1]):
                return base  # fails by itself
            if k == "unlink" and not os.path.lexists(ev[-1]):
                return base
            if k == "open r" and not os.path.exists(ev[-1]):
                return base
            e = arg if arg in HARD[k] else HARD[k][0]
            o.faults.append((n, "error", k, ev[-1]))
            if k == "close w":
                return "F %d" % getattr(errno, e)
            if k == "list" and e == "EIO":
                return "F %d" % getattr(errno, e)
            return "E %d" % getattr(errno, e)
        return base


class World:
    """A scratch directory with the tools of the repository's working tree and the files of the simulated run."""

    def __init__(self, base):
        self.root = os.path.realpath(base)
        self.known, self.trace = set(), []
        self.run_no, self.clock = 0, 1700000000
        self.dirs = []

    def reset(self, files, dirs=(), mtimes=None):
        for d in os.listdir(self.root) if os.path.isdir(self.root) else []:
            if d != "tools":
                p = os.path.join(self.root, d)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        self.known = set(files)
        self.trace = []
        self.run_no, self.clock = 0, 1700000000
        os.makedirs(self.root, exist_ok=True)
        self.own(self.root)
        if not os.path.isdir(os.path.join(self.root, "tools")):
            shutil.copytree(os.path.join(REPO, "tools"), os.path.join(self.root, "tools"), ignore=shutil.ignore_patterns("*.pyc", "__pycache__"))
            for d, _, fs in os.walk(os.path.join(self.root, "tools")):
                for f in fs:
                    os.utime(os.path.join(d, f), (1, 1))
        for d in ["tmp"] + list(dirs):
            self.mkdir(os.path.join(self.root, d))
        for i, (f, c) in enumerate(files.items()):
            self.put(f, c)
            # all older than anything the run writes, in a seeded order
            t = 10 ** 9 + (i if mtimes is None else int(hashlib.sha256(("%d %s" % (mtimes, f)).encode()).hexdigest()[:6], 16))
            os.utime(os.path.join(self.root, f), (t, t))

    def own(self, p):
        if os.geteuid() == 0:
            os.chown(p, NOBODY, NOBODY)

    def mkdir(self, d):
        if not os.path.isdir(d):
            self.mkdir(os.path.dirname(d))
            os.mkdir(d)
            self.own(d)

    def put(self, f, c):
        p = os.path.join(self.root, f)
        self.mkdir(os.path.dirname(p))
        with open(p, "wb") as o:
            o.write(c)
        self.own(p)

    def get(self, f):
        try:
            with open(os.path.join(self.root, f), "rb") as i:
                return i.read()
        except FileNotFoundError:
            return None
        except IsADirectoryError:
            return b"<directory>"

    def files(self, under=""):
        r = {}
        top = os.path.join(self.root, under)
        for d, ds, fs in os.walk(top):
            rel = os.path.relpath(d, self.root)
            if rel == ".":
                ds[:] = [x for x in ds if x not in ("tools", "tmp")]
                rel = ""
            for f in fs:
                p = os.path.join(rel, f)
                if os.path.islink(os.path.join(self.root, p)):
                    r[p] = b"-> " + os.fsencode(os.readlink(os.path.join(self.root, p)))
                elif os.path.isfile(os.path.join(self.root, p)):
                    r[p] = self.get(p)
        return r


def hard(o):
    """Did the run meet an error (not counting kills, interrupts and transfers cut short, which the tool may survive)?"""
    return [f for f in o.faults if f[1] in ("error", "full")]


class Git:
    """The repositories as git sees them. Names: '' is the top-level one; the others are its submodules."""

    def __init__(self, world, path, spec, name="gitbin", peers=()):
        self.w, self.path = world, path
        self.dir = os.path.join(world.root, name)
        self.spec, self.peers = spec, peers
        self.sock = None

    def listen(self):
        self.w.mkdir(self.dir)
        self.bin = os.path.join(self.dir, "git")
        if not os.path.exists(self.bin):
            shutil.copy(self.path, self.bin)
            os.chmod(self.bin, 0o755)
        sp = os.path.join(self.dir, "s")
        if os.path.exists(sp):
            os.unlink(sp)
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.sock.bind(sp)
        os.chmod(sp, 0o777)
        self.sock.listen(8)

    def close(self):
        if self.sock:
            self.sock.close()
            self.sock = None

    @staticmethod
    def sha(*a):
        return hashlib.sha1(repr(a).encode()).hexdigest()

    def begin(self, run):
        """run: number of the tool run in the history. Upstream: module -> number of moves so far."""
        self.run = run
        self.clone = None
        self.init, self.pop, self.head, self.tracking, self.fetched, self.reported = set(), set(), {}, {}, set(), {}
        self.failed = None
        self.after_failure = []
        self.moves = {}
        self.ncmd = 0
        for at, mod in self.spec["moves"]:
            self.moves.setdefault(at, []).append(mod)
        self.up = {m: 1 + run for m in self.spec["all"]}

    def tip(self, m, ref):
        return self.sha("tip", m, ref, self.up[m])

    def known(self, m):
        """Commits of m that are in its local repository."""
        return self.have[m]

    def obtain(self, m):
        if not hasattr(self, "have"):
            self.have = {}
        self.have.setdefault(m, set()).update(self.tip(m, r) for r in self.spec["refs"])
        if m in self.spec["pins"]:
            self.have[m].add(self.spec["pins"][m])
        for p in self.peers:  # commits another run has got from the same place
            self.have[m].update(p.tracking.get(m, {}).values())
        self.have[m].add(self.sha("recorded", m))
        self.tracking[m] = {r: self.tip(m, r) for r in self.spec["refs"]}

    def command(self, n, cwd, args, act):
        """-> (exit status | 'kill' | 'killtool', output)"""
        for m in self.moves.get(self.ncmd, []):
            self.up[m] += 1
        self.ncmd += 1
        if self.failed is not None:
            self.after_failure.append(args)
        kind = act[0] if act else None
        if kind in ("kill", "killtool"):
            self.failed = args
            return "killtool", ""
        if kind == "gitfail":
            self.failed = args
            return act[1], ""
        if kind == "gitkill":
            self.failed = args
            return "kill", ""
        code, out = self.execute(cwd, args)
        if kind == "gitpart":  # killed while it writes its output
            self.failed = args
            return "kill", out[:int(len(out) * act[1] / 256)]
        if kind == "gitlate":  # does its work, then fails
            self.failed = args
            return act[1], out
        if kind == "gitgone":  # git is not there any more from now on
            if os.path.exists(self.bin):
                os.unlink(self.bin)
        if code:
            self.failed = args
        return code, out

    def where(self, cwd):
        """The repository a command run in cwd acts on: that of a populated submodule, or the top-level one."""
        if self.clone is None:
            return None
        rel = os.path.relpath(os.path.realpath(cwd), self.clone)
        if rel.startswith(".."):
            return None
        parts = [] if rel == "." else rel.split("/")
        for i in range(len(parts), 0, -1):
            m = "/".join(parts[:i])
            if m in self.pop:
                return m
        return ""

    def execute(self, cwd, args):
        a = list(args)
        while a and a[0].startswith("-"):
            if a[0] == "-C" and len(a) > 1:
                cwd = os.path.join(cwd, a[1])
                a = a[2:]
            elif a[0] == "-c":
                a = a[2:]
            else:
                a = a[1:]
        if not os.path.isdir(cwd):
            return 128, ""
        cmd, rest = (a[0], a[1:]) if a else ("", [])
        opts = [x for x in rest if x.startswith("-") and x != "--"]
        pos = [x for x in rest if not x.startswith("-")]
        if cmd == "clone":
            dst = os.path.join(cwd, pos[1] if len(pos) > 1 else os.path.basename(pos[0]).replace(".git", ""))
            if pos[0] != self.spec["url"] or (os.path.isdir(dst) and os.listdir(dst)) or os.path.isfile(dst):
                return 128, ""
            self.w.mkdir(dst)
            self.clone = os.path.realpath(dst)
            for m in self.spec["all"]:
                self.w.mkdir(os.path.join(dst, m))
            self.obtain("")
            self.head[""] = self.tip("", self.spec["default_ref"])
            if "--recursive" in opts or "--recurse-submodules" in opts:
                self.init = set(self.spec["all"]) - {""}
                self.populate(self.init)
            return 0, ""
        m = self.where(cwd)
        if m is None:
            return 128, ""
        if cmd == "submodule":
            sub = pos[0] if pos else "status"
            paths = [os.path.relpath(os.path.join(os.path.realpath(cwd), p), self.clone) for p in pos[1:]]
            if m != "" and sub in ("init", "update"):
                return 0, ""  # no submodules of its own
            if any(p not in self.spec["all"] for p in paths):
                return 1, ""
            todo = set(paths) or set(self.spec["all"]) - {""}
            if sub == "init":
                self.init |= todo
            elif sub == "update":
                if "--init" in opts:
                    self.init |= todo
                self.populate((todo if paths else self.init) & self.init)
            elif sub == "status":
                return 0, "".join("%s %s\n" % (self.head.get(x, "-" * 40), x) for x in sorted(self.init))
            else:
                raise CheckError("git stand-in: unknown command %r" % (args,))
            return 0, ""
        if cmd == "fetch":
            if "--dry-run" in opts:
                return 0, ""
            if len(pos) > 1:  # only the refs asked for
                was = dict(self.tracking[m])
                self.obtain(m)
                asked = ["origin/" + p.split(":")[0].lstrip("+").replace("refs/heads/", "").replace("origin/", "") for p in pos[1:]]
                if any(r not in self.spec["refs"] for r in asked):
                    self.tracking[m] = was
                    return 128, ""
                self.tracking[m] = {r: self.tracking[m][r] if r in asked else was[r] for r in was}
                self.fetched |= {(m, r) for r in asked}
                return 0, ""
            self.obtain(m)
            self.fetched |= {(m, r) for r in self.spec["refs"]}
            return 0, ""
        if cmd == "ls-remote":  # asks the repository it was cloned from
            ref = pos[-1] if pos else "HEAD"
            short = "origin/" + ref.split("/")[-1]
            return (0, "%s\trefs/heads/%s\n" % (self.tip(m, short), ref.split("/")[-1])) if short in self.spec["refs"] else (0, "")
        if cmd in ("cat-file", "merge-base"):
            known = all(p in self.have.get(m, ()) for p in [p.split("^")[0] for p in pos] if len(p) == 40)
            return (0, "") if known else (1, "")
        if cmd in ("show-ref", "rev-parse", "log", "rev-list", "show", "describe", "for-each-ref"):
            ref = pos[-1] if pos else "HEAD"
            if cmd in ("log", "rev-list", "show", "describe", "for-each-ref"):
                fmt = any("%H" in o or "objectname" in o for o in opts) or cmd == "rev-list"
                if not fmt:
                    raise CheckError("git stand-in: unknown command %r" % (args,))
                cmd = "rev-parse"
            if cmd == "rev-parse" and pos and ref in self.have.get(m, ()):
                return 0, ref + "\n"
            if cmd == "rev-parse" and "--is-inside-work-tree" in opts:
                return 0, "true\n"
            if cmd == "rev-parse" and "--show-toplevel" in opts:
                return 0, os.path.join(self.clone, m) + "\n"
            if "--short" in opts and ref == "HEAD":
                return 0, self.head[m][:7] + "\n"
            short = ref[len("refs/remotes/"):] if ref.startswith("refs/remotes/") else ref
            if ref == "HEAD":
                return 0, self.head[m] + (" HEAD\n" if cmd == "show-ref" else "\n")
            if short not in self.tracking[m]:
                return (1 if cmd == "show-ref" else 128), ""
            s = self.tracking[m][short]
            self.reported.setdefault(m, []).append((short, s, (m, short) in self.fetched))
            if cmd == "rev-parse" or "-s" in opts or "--hash" in opts:
                return 0, s + "\n"
            out = "%s refs/remotes/%s\n" % (s, short)
            if self.spec.get("many_refs"):
                out += "%s refs/remotes/mirror/%s\n" % (self.sha("mirror", m), short)
            return 0, out
        if cmd == "checkout":
            if "-b" in opts or "-B" in opts:
                pos = pos[1:]
            c = pos[0] if pos else self.head[m]
            if len(pos) > 1 or "--" in rest[:-1]:  # files of a commit: HEAD stays
                return (0 if c in self.have.get(m, ()) or c in self.tracking.get(m, {}) else 1), ""
            if c in self.tracking.get(m, {}):
                c = self.tracking[m][c]
            if c is None or c not in self.have.get(m, ()):
                return 1, ""
            self.head[m] = c
            return 0, ""
        if cmd in ("status", "--version", "version", "reset", "pull", "clean", "stash", "gc", "prune", "config", "remote", "branch", "tag", "diff", "diff-index", "update-index"):
            if cmd == "reset" and pos and pos[-1] in self.have.get(m, ()):
                self.head[m] = pos[-1]
                return 0, ""
            if cmd == "pull":
                self.obtain(m)
                self.fetched |= {(m, r) for r in self.spec["refs"]}
                self.head[m] = self.tip(m, self.spec["default_ref"])
            return 0, ""
        raise CheckError("git stand-in: unknown command %r" % (args,))

    def populate(self, mods):
        for x in mods:
            if x not in self.pop:
                self.pop.add(x)
                self.obtain(x)
            self.head[x] = self.sha("recorded", x)
