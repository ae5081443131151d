"""time.time() with an offset that checks can advance"""
import time

_real = time.time
offset = 0.0


def now():
    return _real() + offset


def install():
    time.time = now


def advance(seconds):
    global offset
    offset += seconds


def reset():
    global offset
    offset = 0.0


_gmtime = time.gmtime
gm = None


def fake_gmtime(secs=None):
    return _gmtime(gm if secs is None and gm is not None else secs)


def install_gm():
    """time.gmtime() that stands still; before devpi_server is imported"""
    global gm
    gm = 1700000000
    time.gmtime = fake_gmtime


def tick_gm():
    global gm
    gm += 1
