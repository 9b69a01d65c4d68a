"""A watched scratch world for code that works on files.

Everything the code under test opens, starts or connects to is reported by
the interpreter's audit events, and everything it makes or removes goes
through stand-ins of the functions of os; what lies outside of the folder it
may use is refused and recorded.  Where possible the process gives up its
rights first.
"""
from __future__ import unicode_literals

import builtins
import os
import pwd
import resource
import shutil
import signal
import sys
import sysconfig
import tempfile

from vp import core

READABLE = tuple(sorted({os.path.realpath(p) + "/" for p in (
    sys.prefix, sys.base_prefix, core.REPO, core.VERIF, "/usr/share/zoneinfo",
    "/usr/lib", "/usr/share/locale", "/etc/localtime",
    sysconfig.get_paths()["stdlib"],
    sysconfig.get_paths()["purelib"])}))
REFUSED = ("socket.", "subprocess.", "os.system", "os.exec", "os.posix_spawn",
           "os.spawn", "os.fork", "os.startfile", "ctypes.", "urllib.",
           "ftplib.", "http.", "pty.")
CHANGING = ("mkdir", "remove", "unlink", "rmdir", "rename", "replace",
            "symlink", "link", "truncate", "chmod", "utime", "makedirs",
            "mkfifo", "chown")


class Fault(OSError):
    pass


class World(object):
    """One per process."""

    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(
            prefix="vp-world-", dir=os.environ["TMPDIR"]))
        self.tmp = self.root + "/tmp"
        self.cwd = self.root + "/cwd"
        self.armed = False
        self.escapes = []
        self.counting = None       # kind of event that is counted
        self.count = 0
        self.fail_at = None
        self.error = Fault
        self.made = False
        self.kept = set()
        for d in (self.tmp, self.cwd):
            os.mkdir(d)
        sys.addaudithook(self.audit)
        for name in CHANGING:
            setattr(os, name, self.guarded(name, getattr(os, name)))

    def give_up_rights(self):
        """From now on an escaped call reaches nothing of others."""
        try:
            nobody = pwd.getpwnam("nobody")
            for base, dirs, files in os.walk(
                    os.path.dirname(self.root)):
                for f in [base] + [base + "/" + f for f in files]:
                    os.lchown(f, nobody.pw_uid, nobody.pw_gid)
            os.setgroups([])
            os.setresgid(nobody.pw_gid, nobody.pw_gid, nobody.pw_gid)
            os.setresuid(nobody.pw_uid, nobody.pw_uid, nobody.pw_uid)
        except (OSError, KeyError):
            pass

    # -- events

    def point(self, kind):
        """A place where the environment can fail."""
        if self.counting == kind:
            self.count += 1
            if self.count == self.fail_at:
                self.fail_at = None
                if not isinstance(self.error, type):
                    # another operation runs to its end meanwhile
                    self.counting = None
                    self.error()
                    return
                raise self.error("injected")

    def escape(self, *what):
        what = repr(what)
        self.escapes.append(what.replace(self.root, "<scratch>"))
        raise PermissionError("outside: " + what)

    def inside(self, path):
        """Is this in a file or folder that was not there before?"""
        path = os.path.normpath(os.path.join(self.cwd, path))
        top = path[len(self.tmp) + 1:].split("/")[0]
        return path.startswith(self.tmp + "/") and top not in self.kept

    def audit(self, event, args):
        if not self.armed:
            return
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None))[:3]
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if not isinstance(path, str):
                return
            reading = (not set(mode or "r") & set("wax+") and
                       not (flags or 0) & (os.O_WRONLY | os.O_RDWR |
                                           os.O_CREAT | os.O_TRUNC))
            if path in ("/dev/urandom", "/dev/random", "/dev/null"):
                return
            if self.inside(path):
                self.made = True
                self.point("open")
            elif not os.path.isabs(path):
                # folders in a folder that is being removed
                if not reading or os.path.lexists(
                        os.path.join(self.cwd, path)):
                    self.armed = False
                    try:
                        self.escape(event, path, mode)
                    finally:
                        self.armed = True
            elif not (reading and
                      (path.startswith(READABLE) or
                       os.path.realpath(path).startswith(READABLE))):
                if path.rstrip("/") == self.tmp and reading:
                    return
                self.escape(event, path, mode)
        elif event == "shutil.rmtree":
            if not self.inside(args[0]):
                self.escape(event, args[0])
            self.counting = None     # nobody can clean up without removing
        elif event.startswith(REFUSED):
            self.escape(event, args)

    def guarded(self, name, real):
        def stand_in(path, *args, **kw):
            if not self.armed:
                return real(path, *args, **kw)
            targets = [path] if name not in (
                "rename", "replace", "symlink", "link") else [path, args[0]]
            for p in targets:
                if isinstance(p, int):
                    continue
                p = os.fsdecode(p)
                if kw.get("dir_fd") is not None and ".." not in p.split("/"):
                    continue
                if not self.inside(p):
                    self.escape("os." + name, p)
            self.point("mkdir" if name in ("mkdir", "makedirs") else "change")
            return real(path, *args, **kw)
        return stand_in

    # -- life of an operation

    def snapshot(self):
        out = {}
        for base, dirs, files in os.walk(self.root):
            for d in dirs:
                out[base + "/" + d] = None
            for f in files:
                path = base + "/" + f
                with open(path, "rb") as g:
                    out[path] = g.read()
        return out

    def run(self, fn, counting=None, fail_at=None, error=Fault, limit=None):
        """(result or None, exception or None) of one operation."""
        self.escapes, self.made = [], False
        self.kept = set(os.listdir(self.tmp))
        self.counting, self.count, self.fail_at = counting, 0, fail_at
        self.error = error
        tempdir = tempfile.tempdir
        tempfile.tempdir = self.tmp
        env = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = self.tmp
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
            self.armed = True
            try:
                return fn(), None
            except core.Hang:
                raise
            except BaseException as e:
                return None, e
            finally:
                self.armed = False
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        finally:
            self.counting = None
            signal.signal(signal.SIGXFSZ, sig)
            tempfile.tempdir = tempdir
            if env is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = env

    def clean(self):
        """Remove what an operation left behind."""
        for name in os.listdir(self.tmp):
            if name not in self.kept:
                path = self.tmp + "/" + name
                if os.path.isdir(path) and not os.path.islink(path):
                    shutil.rmtree(path, ignore_errors=True)
                else:
                    os.remove(path)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


_world = []


def world(setup):
    """The world of this process, set up once by setup(world)."""
    if not _world:
        w = World()
        setup(w)
        os.chdir(w.cwd)
        w.give_up_rights()
        _world.append(w)
    return _world[0]
