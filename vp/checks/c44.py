"""C44 - results do not depend on the environment of the process."""
from __future__ import unicode_literals

import itertools
import json
import os
import subprocess
import sys
import tempfile

from vp import core
from vp.core import Violation, expect

# factor -> its levels; the first one is the reference
FACTORS = [
    ("locale", ["C.UTF-8", "C", "ascii"]),
    ("optimize", ["", "-O", "-OO"]),
    ("cwd", ["repo", "scratch"]),
    ("tmp", ["plain", "t [m]*\u00fcp'%s{}"]),
    ("zone", ["UTC", "Asia/Kathmandu"]),
    ("hash", ["0", "1"]),
    ("stdout", ["file", "closed"]),
    ("umask", ["022", "077"]),
    ("thread", ["main", "other"]),
]
LOCALES = {
    "C.UTF-8": {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"},
    "C": {"LC_ALL": "C", "LANG": "C"},
    # no UTF-8 mode and no coercion to one: text files are ASCII
    "ascii": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0",
              "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii:strict"},
}


def configurations(tier):
    """thorough: every combination; quick: every combination of two."""
    names = [n for n, _ in FACTORS]
    full = [dict(zip(names, c))
            for c in itertools.product(*[v for _, v in FACTORS])]
    if tier == "thorough":
        return full
    # every pair of levels of every pair of factors, chosen greedily
    pairs = {(a, x, b, y) for (a, xs), (b, ys) in
             itertools.combinations(FACTORS, 2) for x in xs for y in ys}
    out = [full[0]]
    covered = set()

    def of(c):
        return {(a, c[a], b, c[b]) for a, b in
                itertools.combinations(names, 2)}
    covered |= of(full[0])
    # and every single change of the reference
    for name, levels in FACTORS:
        for level in levels[1:]:
            c = dict(full[0])
            c[name] = level
            out.append(c)
            covered |= of(c)
    while pairs - covered:
        best = max(full, key=lambda c: len(of(c) - covered))
        out.append(best)
        covered |= of(best)
    return out


def bounds(tier):
    return {"factors": {n: [ascii(x) for x in v] for n, v in FACTORS},
            "configurations": "every combination" if tier == "thorough" else
            "every pair of levels of every two factors and every single "
            "change", "number": len(configurations(tier)),
            "documents": "of 20 formats of text, of 4 Office formats and of "
            "InDesign, with and without non-ASCII text, damaged ones among "
            "them"}


ASSUMPTIONS = ("InDesign runs on a stand-in of ucflib, which is not "
               "installed",)


def observe(c, tier):
    with tempfile.TemporaryDirectory() as scratch:
        tmp = os.path.join(scratch, c["tmp"])
        os.mkdir(tmp)
        cwd = core.REPO if c["cwd"] == "repo" else scratch
        out = os.path.join(scratch, "out.json")
        env = {"PATH": os.environ.get("PATH", ""), "TMPDIR": tmp,
               "TZ": c["zone"], "PYTHONHASHSEED": c["hash"],
               "PYTHONDONTWRITEBYTECODE": "1", "HOME": scratch}
        env.update(LOCALES[c["locale"]])
        args = [sys.executable] + ([c["optimize"]] if c["optimize"] else [])
        args += [os.path.join(core.VERIF, "vp", "envrun.py"), core.REPO,
                 core.VERIF, out, "1" if tier == "thorough" else "0",
                 c["thread"]]

        def prepare():
            os.umask(int(c["umask"], 8))
            if c["stdout"] == "closed":
                os.close(1)
        p = subprocess.Popen(
            args, env=env, cwd=cwd, preexec_fn=prepare,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            stdin=subprocess.DEVNULL)
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(out):
            raise Violation("handlers could not run", configuration=c,
                            error=err.decode("utf-8", "replace")[-1500:])
        left = os.listdir(tmp)
        if left:
            raise Violation("files left behind", configuration=c, files=left)
        with open(out, encoding="ascii") as f:
            return json.load(f)


_reference = {}


def trace(ctx, c):
    if not _reference:
        _reference.update(observe(configurations("quick")[0], ctx.tier))
    got = observe(c, ctx.tier)
    ctx.step(len(got))
    for name in sorted(set(got) | set(_reference)):
        ctx.outcome((name, got.get(name)))
        if got.get(name) != _reference.get(name):
            expect(got.get(name), _reference.get(name), "result depends on "
                   "the environment", operation=name, configuration=c)


def shards(tier):
    n = len(configurations(tier))
    return [list(range(i, n, 24)) for i in range(min(n, 24))]


def explore(ctx, shard):
    todo = configurations(ctx.tier)
    for i in shard:
        c = todo[i]
        ctx.distinct()
        ctx.scope("configurations")
        ctx.case(trace, ctx, c, replay=c)
