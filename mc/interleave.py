"""Controlled interleavings: runs code of /repo/src line by line under a scheduler

A step is one executed source line of the package.  `nested` runs a whole operation in the middle of another one,
`crash` raises an exception there, and `threads` switches between two threads at chosen steps.
"""
import sys
import threading

SRC = "/repo/src/openspace/"


class Interrupted(BaseException):
    """raised in the middle of an operation"""


def _traced(on_line):
    def local(frame, event, arg):
        if event == "line":
            on_line(frame)
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(SRC):
            return local
        return None

    return glob


def trace(fn):
    """list of the steps (file, line) of an operation, and its result"""
    steps = []
    sys.settrace(_traced(lambda f: steps.append((f.f_code.co_filename[len(SRC):], f.f_lineno))))
    try:
        res = fn()
    finally:
        sys.settrace(None)
    return steps, res


def outer(fn, depth):
    """indices of the steps in the outermost `depth` frames, at the first execution of each source line"""
    first = {}
    count = 0

    def on_line(frame):
        nonlocal count
        d, f = 0, frame
        while f is not None and f.f_code.co_filename.startswith(SRC):
            d, f = d + 1, f.f_back
        if d <= depth:
            first.setdefault((frame.f_code.co_filename, frame.f_lineno), count)
        count += 1

    sys.settrace(_traced(on_line))
    try:
        fn()
    finally:
        sys.settrace(None)
    return sorted(first.values())


def nested(fn, k, other):
    """run fn; before its k-th step, run other completely"""
    count = 0
    ran = False

    def on_line(_f):
        nonlocal count, ran
        if count == k:
            sys.settrace(None)
            other()
            ran = True
        count += 1

    sys.settrace(_traced(on_line))
    try:
        res = fn()
    finally:
        sys.settrace(None)
    return res, ran


def crash(fn, k):
    """run fn and interrupt it before its k-th step; false if it got there"""
    count = 0

    def on_line(_f):
        nonlocal count
        if count == k:
            sys.settrace(None)
            raise Interrupted()
        count += 1

    sys.settrace(_traced(on_line))
    try:
        fn()
    except Interrupted:
        return True
    finally:
        sys.settrace(None)
    return False


def threads(fa, fb, ka, kb):
    """A runs ka steps, B runs kb steps, A runs to its end, B runs to its end; results of both (or exceptions)"""
    turn = [threading.Semaphore(0), threading.Semaphore(0)]
    out = [None, None]
    done = [False, False]

    def body(me, fn, limit):
        count = 0

        def on_line(_f):
            nonlocal count
            if count == limit:
                sys.settrace(None)
                if not done[1 - me]:
                    turn[1 - me].release()
                    turn[me].acquire()
            count += 1

        turn[me].acquire()
        sys.settrace(_traced(on_line))
        try:
            out[me] = ("ok", fn())
        except Exception as ex:  # noqa: BLE001
            out[me] = ("raised", repr(ex))
        finally:
            sys.settrace(None)
            done[me] = True
            turn[1 - me].release()

    ts = [threading.Thread(target=body, args=(0, fa, ka), daemon=True), threading.Thread(target=body, args=(1, fb, kb), daemon=True)]
    for t in ts:
        t.start()
    turn[0].release()
    for t in ts:
        t.join(20)
        if t.is_alive():
            raise RuntimeError("schedule does not end")
    return out
