"""C43 - handlers that work at the same time do not disturb each other."""
from __future__ import unicode_literals

import itertools

from vp import corpus, sched
from vp.core import expect
from vp.ops import Ops

VISITS = {"quick": 2, "thorough": None}
CALLS = {"quick": 1, "thorough": 4}
PARTS = 4


def bounds(tier):
    return {"formats": [f.name for f in corpus.FORMATS],
            "operations": "parse, compile and synchronise of the first "
            "handler against those of the second",
            "one preemption": "at every line of openformats code" + (
                ", the first %d times it is visited" % VISITS[tier]
                if VISITS[tier] else ""),
            "two preemptions": "at every pair of function calls of "
            "operations on documents of one unit, the first %d of every "
            "function" % CALLS[tier]}


def docs(f, tier):
    units = [u for u, _ in f.units]
    return [f.doc(units if tier == "thorough" else units[:2]),
            f.doc(units[:1]), f.doc(units[1:2] or units)]


def one(ctx, f, ops, a, b, want, point):
    ctx.step(2)
    ga, gb = ops.inputs(a), ops.inputs(b)
    ha, hb = f.handler(), f.handler()
    first, second = sched.once(lambda: ops.run(a, ha, ga)[0],
                               lambda: ops.run(b, hb, gb)[0], *point)
    det = dict(format=f.name, first=a, second=b, place=name(point))
    ctx.outcome((first, second))
    expect(first, want[a], "operation that was interrupted", **det)
    expect(second, want[b], "operation that ran in between", **det)


def two(ctx, f, ops, a, b, want, stops):
    ctx.step(2)
    ga, gb = ops.inputs(a), ops.inputs(b)
    ha, hb = f.handler(), f.handler()
    first, second = sched.twice((lambda: ops.run(a, ha, ga)[0],
                                 lambda: ops.run(b, hb, gb)[0]), stops)
    det = dict(format=f.name, first=a, second=b, calls=stops)
    ctx.outcome((first, second))
    expect(first, want[a], "first operation of two", **det)
    expect(second, want[b], "second operation of two", **det)


def name(point):
    code, line, visit = point
    return "%s line %d of its file, visit %d" % (code.co_name, line, visit)


def selected(points, visits):
    """(number, (code, line, visit)) of the points to preempt at."""
    seen, out = {}, []
    for n, p in enumerate(points):
        seen[p] = seen.get(p, 0) + 1
        if not visits or seen[p] <= visits:
            out.append((n, p + (seen[p],)))
    return out


def shards(tier):
    out = []
    for f in corpus.FORMATS:
        kinds = ["parse", "compile"] + (["sync"] if f.sync else [])
        out += [(f.name, k, part) for k in kinds for part in range(PARTS)]
    return out


def explore(ctx, shard):
    f, kind, part = corpus.BY_NAME[shard[0]], shard[1], shard[2]
    ops = Ops(f, docs(f, ctx.tier))
    todo = ops.ops()
    want = {op: ops.run(op, f.handler())[0] for op in todo}
    firsts = [op for op in todo if op[0] == kind and op[1] == 0 and
              op[-1] in (0, "words", "all")]
    firsts += [op for op in todo if op[0] == kind == "sync" and op[1] == 1
               and op[-1] == "other"]
    seconds = [op for op in todo if op[1] == 2 and
               op[-1] in (2, "words", "other")]
    for a in firsts:
        given, h = ops.inputs(a), f.handler()
        points = selected(sched.trace_points(
            lambda: ops.run(a, h, given), "line"), VISITS[ctx.tier])
        for b in seconds:
            for _, point in points[part::PARTS]:
                ctx.distinct()
                ctx.case(one, ctx, f, ops, a, b, want, point,
                         replay=(f.name, a, b, name(point)))
        ctx.scope("one preemption")
    small = [op for op in todo if op[1] == 1 and op[0] == kind and
             op[-1] in (1, "words", "all")]
    for a in small:
        for b in seconds:
            calls = []
            for op in (a, b):
                given, h = ops.inputs(op), f.handler()
                calls.append([n for n, _ in selected(sched.trace_points(
                    lambda: ops.run(op, h, given), "call"), CALLS[ctx.tier])])
            for stops in itertools.islice(itertools.product(*calls), part,
                                          None, PARTS):
                ctx.distinct()
                ctx.case(two, ctx, f, ops, a, b, want, stops,
                         replay=(f.name, a, b, stops))
        ctx.scope("two preemptions")
