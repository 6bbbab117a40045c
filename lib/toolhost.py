"""The process tools run in: started once under the file-system seam (cxx/fsshim.c), it forks a fresh process per run.

Requests arrive on descriptor 0 as JSON datagrams, with the run's control socket attached. Answers: {"pid"} and, when the
process has ended, {"status"} (wait status)."""
import array
import ctypes
import json
import os
import signal
import socket
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
# everything a tool may want is loaded before the fork
import argparse, codecs, contextlib, errno, filecmp, fnmatch, glob, hashlib, io, itertools, locale, logging, math, operator, random  # noqa
import re, shutil, stat, string, subprocess, tempfile, textwrap, time, traceback, types  # noqa
import warnings
import cheetah
import py2

warnings.simplefilter("ignore")


def child(req, ctl):
    """Returns the exit status; the interpreter then ends normally."""
    shim = ctypes.CDLL(None)
    for i in (1, 2):
        os.dup2(req_out, i)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.chdir(req["cwd"])
    os.umask(0o022)
    if req.get("uid"):
        try:
            os.setgroups([])
            os.setgid(req["uid"])
            os.setuid(req["uid"])
        except OSError:
            pass
    os.environ.clear()
    os.environ.update({"PATH": "/usr/bin:/bin", "HOME": req["cwd"], "TMPDIR": req["root"] + "/tmp", "LC_ALL": "C"})
    tempfile.tempdir = req["root"] + "/tmp"
    py2.DICT_SEED = req["dict_seed"]
    py2.ROOT = req["root"]
    random.seed("%d %d %d" % (req["dict_seed"], req["pid"], req["run"]))
    pid, now = req["pid"], [float(req["clock"])]
    os.getpid = lambda: pid
    os.getppid = lambda: 200

    def clock():
        now[0] += .001
        return now[0]

    def sleep(t):
        now[0] += t
    time.time, time.sleep = clock, sleep
    tempfile._name_sequence = None
    status = 1
    try:
        shim.shim_on(ctl, req["root"].encode())
        py2.run(req["script"], req["argv"], cheetah.modules())
        status = 0
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
        status = 1
    return status & 255


if __name__ == "__main__":
    srv = socket.socket(fileno=os.dup(0))
    os.set_inheritable(srv.fileno(), False)
    req_out = os.open("/dev/null", os.O_WRONLY)
    os.dup2(req_out, 0)
    while True:
        try:
            msg, anc, _, _ = srv.recvmsg(1 << 20, socket.CMSG_SPACE(8))
        except OSError:
            sys.exit(0)
        if not msg:
            sys.exit(0)
        req = json.loads(msg)
        fds = array.array("i")
        for lv, ty, d in anc:
            if lv == socket.SOL_SOCKET and ty == socket.SCM_RIGHTS:
                fds.frombytes(d[:4 * (len(d) // 4)])
        ctl = fds[0]
        out = fds[1] if len(fds) > 1 else None
        try:
            py2.preload(os.path.dirname(req["script"]))
        except OSError:
            sys.exit(0)
        pid = os.fork()
        if pid == 0:
            srv.close()
            if out is not None:
                req_out = out
            os.set_inheritable(ctl, False)
            sys.exit(child(req, ctl))
        for f in fds:
            os.close(f)
        try:
            srv.send(json.dumps({"pid": pid}).encode())
            _, st = os.waitpid(pid, 0)
            srv.send(json.dumps({"status": st}).encode())
        except OSError:
            sys.exit(0)
