import numpy as np
from tf.transformations import quaternion_matrix


def numpify(m):
    n = type(m).__name__
    if n in ("Pose", "Transform"):
        t, q = (m.position, m.orientation) if n == "Pose" else (m.translation, m.rotation)
        o = quaternion_matrix([q.x, q.y, q.z, q.w])
        o[:3, 3] = t.x, t.y, t.z
        return o
    if n in ("Point", "Vector3"):
        return np.array([m.x, m.y, m.z])
    if n == "Quaternion":
        return np.array([m.x, m.y, m.z, m.w])
    raise ValueError(n)
