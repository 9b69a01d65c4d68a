"""C34 - handlers remember nothing: every reachable state of a handler."""
from __future__ import unicode_literals

import itertools
import re

from vp import corpus
from vp.core import expect
from vp.ops import Ops, canonical

MAX_STATES = {"quick": 300, "thorough": 600}


def bounds(tier):
    return {"formats": [f.name for f in corpus.FORMATS],
            "documents": "all units, all in reverse, with wide indentation, with "
            "Windows newlines, a truncated one and "
            "every single unit (thorough: every pair)",
            "operations": "parse, compile (unchanged, translated, to "
            "several lines, with a string missing), synchronise (all, fewer, other strings)",
            "states": "all reachable states of a handler, up to %d per "
            "format" % MAX_STATES[tier]}


def pool(f, tier):
    units = [u for u, _ in f.units]
    whole = f.doc(units)
    out = [whole, f.doc(units[::-1]), whole[:len(whole) * 2 // 3]]
    for n in (1, 2) if tier == "thorough" else (1,):
        out += [f.doc(u) for u in itertools.product(units, repeat=n)]
    # other indentation and newlines
    wide = re.sub("(?m)^( +)", r"\1\1\1", whole)
    out += [wide, whole.replace("\n", "\r\n")]
    return list(dict.fromkeys(out))


def at(f, path, ops):
    h = f.handler()
    for op in path:
        ops.run(op, h)
    return h


def step(ctx, f, ops, path, op, want):
    ctx.step(len(path) + 1)
    h = at(f, path, ops)
    seen, frozen = ops.run(op, h)
    det = dict(format=f.name, history=path, operation=op)
    expect(seen, want, "result after other operations", **det)
    if frozen:
        expect(frozen[1], frozen[0], "inputs of the operation", **det)
    ctx.outcome(seen)
    return h


def shards(tier):
    return [f.name for f in corpus.FORMATS]


def explore(ctx, shard):
    f = corpus.BY_NAME[shard]
    ops = Ops(f, pool(f, ctx.tier), True)
    todo = ops.ops()
    fresh = {op: ops.run(op, f.handler())[0] for op in todo}
    # breadth first over the states of one handler
    seen, queue = {canonical(f.handler())}, [()]
    ctx.distinct()
    for path in queue:
        for op in todo:
            h = ctx.case(step, ctx, f, ops, path, op, fresh[op],
                         replay=(f.name, path, op))
            if h is None:
                continue
            c = canonical(h)
            if c not in seen and len(seen) < MAX_STATES[ctx.tier]:
                seen.add(c)
                ctx.distinct()
                queue.append(path + (op,))
    # a handler that was just made is not affected by the others
    for op in todo:
        ctx.case(step, ctx, f, ops, (), op, fresh[op],
                 replay=(f.name, "again", op))
    ctx.scope("%s: %d states, %d operations%s" % (
        f.name, len(seen), len(todo),
        "" if len(seen) < MAX_STATES[ctx.tier] else " (bound reached)"))
