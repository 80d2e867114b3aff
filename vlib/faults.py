"""Control of the preloaded fault injector (native/faultfs.c)."""
import ctypes
import errno
import json
import os
import pickle
import sys

COUNT, FAIL, FAIL_FROM, SHORT_FAIL, CRASH_BEFORE, CRASH_AFTER, CRASH_HALF, SHORT, INTR = range(9)
NAMES = ('count', 'fail', 'fail-from', 'short-fail', 'crash-before', 'crash-after', 'crash-half', 'short', 'intr')
CRASHED = 77
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.fi_log.restype = ctypes.c_char_p
        _lib.fi_disarm.restype = ctypes.c_long
        _lib.fi_fired.restype = ctypes.c_long
        _lib.fi_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    return _lib


def arm(folder, k, mode, err=errno.ENOSPC):
    lib().fi_arm(os.fsencode(folder), k, mode, err)


def disarm():
    """Returns the number of operations seen."""
    return lib().fi_disarm()


def fired():
    return lib().fi_fired()


def oplog():
    return lib().fi_log().decode().split()


def in_child(func):
    """Run func() in a forked process. Returns ('result', value),
    ('crashed', None), ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(('result', func()))
            except BaseException:
                import traceback
                data = pickle.dumps(('error', traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    pid, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASHED:
        return ('crashed', None)
    if data:
        return pickle.loads(data)
    return ('died', status)
