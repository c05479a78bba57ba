"""The three functions of ROS's transformations.py (C. Gohlke) the code uses, with its conventions."""
import math
import numpy

_EPS = numpy.finfo(float).eps * 4.0


def quaternion_from_matrix(matrix):
    q = numpy.empty((4,), dtype=numpy.float64)
    M = numpy.array(matrix, dtype=numpy.float64)[:4, :4]
    t = numpy.trace(M)
    if t > M[3, 3]:
        q[3] = t
        q[2] = M[1, 0] - M[0, 1]
        q[1] = M[0, 2] - M[2, 0]
        q[0] = M[2, 1] - M[1, 2]
    else:
        i, j, k = 0, 1, 2
        if M[1, 1] > M[0, 0]:
            i, j, k = 1, 2, 0
        if M[2, 2] > M[i, i]:
            i, j, k = 2, 0, 1
        t = M[i, i] - (M[j, j] + M[k, k]) + M[3, 3]
        q[i] = t
        q[j] = M[i, j] + M[j, i]
        q[k] = M[k, i] + M[i, k]
        q[3] = M[k, j] - M[j, k]
    q *= 0.5 / math.sqrt(t * M[3, 3])
    return q


def quaternion_matrix(quaternion):
    q = numpy.array(quaternion[:4], dtype=numpy.float64, copy=True)
    nq = numpy.dot(q, q)
    if nq < _EPS:
        return numpy.identity(4)
    q *= math.sqrt(2.0 / nq)
    q = numpy.outer(q, q)
    return numpy.array((
        (1.0 - q[1, 1] - q[2, 2], q[0, 1] - q[2, 3], q[0, 2] + q[1, 3], 0.0),
        (q[0, 1] + q[2, 3], 1.0 - q[0, 0] - q[2, 2], q[1, 2] - q[0, 3], 0.0),
        (q[0, 2] - q[1, 3], q[1, 2] + q[0, 3], 1.0 - q[0, 0] - q[1, 1], 0.0),
        (0.0, 0.0, 0.0, 1.0)), dtype=numpy.float64)


def quaternion_from_euler(ai, aj, ak, axes="sxyz"):
    assert axes == "sxyz"
    ci, si, cj, sj, ck, sk = math.cos(ai / 2), math.sin(ai / 2), math.cos(aj / 2), math.sin(aj / 2), math.cos(ak / 2), math.sin(ak / 2)
    return numpy.array([cj * (si * ck) - sj * (ci * sk), cj * (si * sk) + sj * (ci * ck), cj * (ci * sk) - sj * (si * ck), cj * (ci * ck) + sj * (si * sk)])
