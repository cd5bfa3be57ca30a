import math


def sym(x):
    return False


def s_sum(xs, start=0):
    return sum(xs, start)


_m_fmod, _m_sqrt = math.fmod, math.sqrt
