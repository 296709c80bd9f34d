"""Running a function in a forked copy of a pristine process.

Every simulated execution starts from the same process image: the module
state of the library (class attributes, module globals) that one run leaves
behind can never reach another run, and a replay starts from the same state.
"""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback


class Timeout(Exception):
    pass


class Died(Exception):
    pass


def fork_call(fn, *args, timeout=60.):
    """fn(*args) in a fork; its pickled result, or ('exc', traceback)"""
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            try:
                out = ("ok", fn(*args))
            except BaseException:
                out = ("exc", traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            data = struct.pack("<Q", len(data)) + data
            view = memoryview(data)
            while view:
                n = os.write(wr, view)
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wr)
    end = time.monotonic() + timeout
    buf = bytearray()
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise Timeout()
            ok, _, _ = select.select([rd], [], [], left)
            if not ok:
                raise Timeout()
            chunk = os.read(rd, 1 << 16)
            if not chunk:
                break
            buf += chunk
    except Timeout:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    if len(buf) < 8:
        raise Died("child died without an answer")
    n, = struct.unpack_from("<Q", buf)
    if len(buf) != n + 8:
        raise Died("child sent a short answer")
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "exc":
        raise RuntimeError("in forked run:\n" + val)
    return val


class LineBudget(BaseException):
    """the deterministic budget of executed lines is used up"""


def with_line_budget(fn, args, lines):
    """run fn with a deterministic bound on the lines executed inside the
    library and inside scipy/numpy python code; raises LineBudget"""
    left = [lines]

    def tracer(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            sys.settrace(None)
            raise LineBudget(f"{os.path.basename(frame.f_code.co_filename)}:"
                             f"{frame.f_code.co_name}")
        return tracer

    sys.settrace(tracer)
    try:
        return fn(*args)
    finally:
        sys.settrace(None)
