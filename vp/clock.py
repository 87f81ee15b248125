"""One check has 900 s: everything after a first failure (repeating, shrinking) is fitted into what is left."""
import time

START = time.monotonic()
LIMIT = 800.0


def left():
    return START + LIMIT - time.monotonic()


def at_most(seconds, reserve=0):
    """as many of these seconds as the rest of the time permits (never none)"""
    return max(1.0, min(float(seconds), left() - reserve))
