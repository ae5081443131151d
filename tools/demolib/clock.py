"""time.time() with an offset that checks can advance"""
import time

_real = time.time
offset = 0.0


def now():
    return _real() + offset


def install():
    time.time = now


def advance(seconds):
    global offset
    offset += seconds


def reset():
    global offset
    offset = 0.0
