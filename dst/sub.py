"""Work done in a forked child of the run, its answer handed back: nothing it touches is seen by what follows."""
import os
import pickle
import traceback


class SubError(Exception):
    pass


def forked(f):
    """f() computed in a forked child"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, f()))
            except BaseException:
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise SubError("child ended with status %d" % status)
    ok, v = pickle.loads(data)
    if not ok:
        raise SubError(v)
    return v
