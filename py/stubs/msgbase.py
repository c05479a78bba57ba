"""Plain message classes: slots with default factories, keyword construction and field-wise equality, as genpy's."""
def msg(name, **fields):
    order = list(fields)

    class M(object):
        __slots__ = order

        def __init__(self, *a, **k):
            if a and len(a) != len(order):
                raise TypeError(f"Invalid number of arguments, args should be {order}")
            for n, v in zip(order, a):
                setattr(self, n, v)
            for n, v in k.items():
                if n not in order:
                    raise AttributeError(f"{n} is not an attribute of {name}")
                setattr(self, n, v)
            for n in order:
                if n not in k and not a:
                    d = fields[n]
                    setattr(self, n, d() if callable(d) else d)

        def __eq__(self, o):
            return isinstance(o, M) and all(getattr(self, n) == getattr(o, n) for n in order)

        __hash__ = None

        def __getstate__(self):
            return [getattr(self, n) for n in order]

        def __setstate__(self, s):
            for n, v in zip(order, s):
                setattr(self, n, v)

        def __repr__(self):
            return name + "(" + ", ".join(f"{n}={getattr(self, n)!r}" for n in order) + ")"

    M.__name__ = M.__qualname__ = name
    return M
