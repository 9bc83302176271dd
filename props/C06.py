"""C06 an interrupted correlation stream resumes with the result of an uninterrupted run"""
import numpy as np
from skbeam.core import correlation as corr

from .common import *
from .C05 import LAB, compare, make_frames
from .C07 import compare_two

HARNESSES = Registry()
ASSUMPTIONS = ["pixel values are finite reals in [1/8,8] or whole NaN frames"]


@HARNESSES.each({"L1B2N5": (1, 2, 5, "two", ()), "L1B4N7": (1, 4, 7, "two", ()), "L2B2N6": (2, 2, 6, "swap", ()),
                 "L2B4N9": (2, 4, 9, "two", ()), "L3B2N9": (3, 2, 9, "one", ()), "L3B4N13": (3, 4, 13, "one", ()),
                 "bad.L2B2N5": (2, 2, 5, "one", range(5)), "bad.L1B4N5": (1, 4, 5, "two", (0, 1, 2, 4))},
                functions=["correlation.lazy_one_time", "correlation._one_time_process", "correlation._init_state_one_time"],
                bounds="stream cut at every one or two positions; levels/buffers/frames as named", quick_s=250, weight=2)
def one_time_resume(c, nlev, nb, n, lab, bad):
    labels = LAB[lab]
    frames = make_frames(c, n, labels, bad)
    la = c.arr(labels)
    k1 = c.choice("cut1", range(1, n))
    k2 = c.choice("cut2", [k1] + list(range(k1 + 1, n))) if n <= 6 and not bad else k1
    state = None
    r = None
    for part in (frames[:k1], frames[k1:k2], frames[k2:]):
        for r in corr.lazy_one_time(iter(part), nlev, nb, la, internal_state=state):
            pass
        state = r.internal_state
    compare(c, (r.g2, r.lag_steps), frames, labels, nlev, nb, "resumed")


@HARNESSES.each({"L1B4N5": (1, 4, 5, "two"), "L2B2N6": (2, 2, 6, "one"), "L2B4N9": (2, 4, 9, "swap"), "L3B2N8": (3, 2, 8, "one")},
                functions=["correlation.lazy_two_time", "correlation._two_time_process", "correlation.two_time_state_to_results"],
                bounds="stream cut at every position; optional look at the results at the cut", quick_s=250, weight=2)
def two_time_resume(c, nlev, nb, n, lab):
    labels = LAB[lab]
    frames = make_frames(c, n, labels)
    la = c.arr(labels)
    k1 = c.choice("cut1", range(1, n))
    peek = c.choice("peek", [False, True])
    state = None
    for part in (frames[:k1], frames[k1:]):
        for state in corr.lazy_two_time(la, iter(part), n, nb, nlev, two_time_internal_state=state):
            pass
        if peek:
            state = corr.two_time_state_to_results(state).internal_state
    res = corr.two_time_state_to_results(state)
    compare_two(c, res, frames, labels, n, nb, nlev, "resumed two-time")


@HARNESSES.each({"L2B2N4": (2, 2, 4)}, functions=["correlation.lazy_one_time", "correlation.lazy_two_time"],
                bounds="two independent streams interleaved in every order of 4+4 steps", quick_s=200)
def independent_streams(c, nlev, nb, n):
    """two generators started separately do not share state"""
    l1, l2 = LAB["one"], LAB["swap"]
    f1 = make_frames(c, n, l1)
    f2 = [c.reals("J%d" % t, np.asarray(l2).shape, 0.125, 8) for t in range(n)]
    g1 = corr.lazy_one_time(iter(f1), nlev, nb, c.arr(l1))
    g2 = corr.lazy_one_time(iter(f2), nlev, nb, c.arr(l2))
    i = j = 0
    r1 = r2 = None
    while i < n or j < n:
        if j == n or (i < n and c.choice("who%d" % (i + j), [True, False])):
            r1 = next(g1)
            i += 1
        else:
            r2 = next(g2)
            j += 1
    compare(c, (r1.g2, r1.lag_steps), f1, l1, nlev, nb, "stream 1")
    compare(c, (r2.g2, r2.lag_steps), f2, l2, nlev, nb, "stream 2")
