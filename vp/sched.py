"""Controlled interleaving of two operations of openformats.

``once`` runs one operation and, when it reaches a given visit of a line of
openformats code, runs another one to its end before it goes on: all schedules with one preemption.

``twice`` runs both in threads that hand a baton to each other: the first one
is preempted at a point, the second one too, then the first one finishes and
the second one finishes: all schedules with two preemptions.  Only one thread
runs at any time, so every schedule is reproducible.
"""
from __future__ import unicode_literals

import sys
import threading

MARK = "/openformats/"


def mine(frame):
    return MARK in frame.f_code.co_filename.replace("\\", "/")


def trace_points(fn, event):
    """The visits of lines (or functions) in order: (code, line)."""
    out = []

    def local(frame, ev, arg):
        if ev == "line":
            out.append((frame.f_code, frame.f_lineno))
        return local

    def glob(frame, ev, arg):
        if not mine(frame):
            return None
        if event == "call":
            out.append((frame.f_code, frame.f_lineno))
            return None
        return local
    sys.settrace(glob)
    try:
        fn()
    finally:
        sys.settrace(None)
    return out


def once(first, second, code, line, visit):
    """second runs before the given visit of a line."""
    state = {"n": 0, "second": None}

    def local(frame, ev, arg):
        if ev == "line" and frame.f_lineno == line:
            state["n"] += 1
            if state["n"] == visit:
                sys.settrace(None)
                state["second"] = second()
                return None
        return local

    def glob(frame, ev, arg):
        return (local if frame.f_code is code and state["n"] < visit
                else None)
    sys.settrace(glob)
    try:
        result = first()
    finally:
        sys.settrace(None)
    if state["second"] is None:
        # the line was not reached: the number of visits depends on the
        # order of sets and on caches
        state["second"] = second()
    return result, state["second"]


def twice(ops, stops):
    """Preempt ops[0] at call stops[0], then ops[1] at call stops[1]."""
    locks = [threading.Lock(), threading.Lock()]
    for lock in locks:
        lock.acquire()
    done, out = [False, False], [None, None]

    def body(me):
        other = 1 - me
        count = [-1]

        def glob(frame, ev, arg):
            if mine(frame):
                count[0] += 1
                if count[0] == stops[me] and not done[other]:
                    sys.settrace(None)
                    locks[other].release()
                    locks[me].acquire()
            return None
        locks[me].acquire()
        sys.settrace(glob)
        try:
            out[me] = ops[me]()
        finally:
            sys.settrace(None)
            done[me] = True
            if not done[other]:
                locks[other].release()
    threads = [threading.Thread(target=body, args=(i,)) for i in (0, 1)]
    for t in threads:
        t.daemon = True
        t.start()
    locks[0].release()
    for t in threads:
        t.join(60)
        if t.is_alive():
            raise RuntimeError("a schedule did not end")
    return out
