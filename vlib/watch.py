"""Control of the preloaded recorder (native/watch.c) and Python's audit events."""
import ctypes
import os
import sys

_lib = None
_audit = None
AUDITED = {'subprocess.Popen': 'process', 'os.system': 'process', 'os.exec': 'process', 'os.fork': 'process',
           'os.posix_spawn': 'process', 'os.spawn': 'process', 'os.startfile': 'process',
           'socket.connect': 'network', 'socket.getaddrinfo': 'network', 'socket.gethostbyname': 'network',
           'urllib.Request': 'network', 'socket.bind': 'network',
           'os.remove': 'change', 'os.rename': 'change', 'os.mkdir': 'change', 'os.rmdir': 'change',
           'os.chmod': 'change', 'os.link': 'change', 'os.symlink': 'change', 'os.truncate': 'change',
           'ctypes.dlopen': 'library', 'exec.file': 'code'}


def hook(event, args):
    if _audit is not None and event in AUDITED:
        _audit.append((AUDITED[event], event, args))


def install():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.w_events.restype = ctypes.c_void_p
        _lib.w_size.restype = ctypes.c_long
        _lib.w_stop.restype = ctypes.c_long
        sys.addaudithook(hook)


def start():
    global _audit
    install()
    _audit = []
    _lib.w_start()


def stop():
    """List of (what, argument); what: open-read, open-write, network, process, change ..."""
    global _audit
    lost = _lib.w_stop()
    audit, _audit = _audit, None
    out = []
    for line in ctypes.string_at(_lib.w_events(), _lib.w_size()).split(b'\n'):
        if line:
            what, arg = line.split(b' ', 1)
            out.append((what.decode(), os.fsdecode(arg)))
    for what, event, args in audit:
        if what == 'change':
            for a in args[:2] if event in ('os.rename', 'os.link', 'os.symlink') else args[:1]:
                if isinstance(a, (str, bytes)):
                    out.append(('change', os.path.abspath(os.fsdecode(a))))
        else:
            out.append((what, '%s %r' % (event, args)))
    if lost:
        out.append(('lost', str(lost)))
    return out
