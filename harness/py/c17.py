"""C17: reading parts of arrays in Python, compared with NumPy."""
import warnings
import numpy as np
import vh
import pydm


def odd_expression(rng, shape):
    n = shape[0]
    kind = rng.randrange(8)
    if kind == 0:
        return [rng.randrange(n) for _ in range(rng.randint(1, len(shape)))]
    if kind == 1:
        return np.array([rng.randrange(n) for _ in range(rng.randint(1, len(shape)))])
    if kind == 2:
        return rng.choice((Ellipsis, None, (Ellipsis, 0), (0, Ellipsis), (None, 0)))
    if kind == 3:
        return rng.choice(("0", "v", b"0", ("0",)))
    if kind == 4:
        return rng.choice((0.0, 1.5, (0.5,), np.float32(0.7), (np.float32(0.2),), 1j, ({},), {}))
    if kind == 5:
        return tuple([0] * (len(shape) + rng.randint(1, 3)))
    if kind == 6:
        return (np.array([0]),)
    return np.int64(rng.randrange(n))


def body(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    dtype = rng.choice(pydm.DTYPES)
    box = pydm.Box(c, dtype)
    content = pydm.random_values(rng, box.dtype, box.shape)
    c.op("assign-all")
    array = box.find()
    array[:] = content
    c.check(array.dtype == content.dtype, "dtype", lambda: f"dtype is {array.dtype}, not {content.dtype}")
    c.check(tuple(array.shape) == content.shape, "shape", lambda: f"shape is {array.shape}, not {content.shape}")
    if c.chance(40):
        c.op("reopen")
        array = None
        array = box.find(True)
    keep = []
    for _ in range(25):
        which = rng.randrange(10)
        if which < 1:
            expression = pydm.random_int(rng, box.shape[0], 20)
        elif which < 3:
            expression = pydm.random_slice(rng, box.shape[0], 12)
        elif which < 9:
            expression = pydm.random_tuple(rng, box.shape)
        else:
            expression = odd_expression(rng, box.shape)
        kind = "int" if isinstance(expression, int) else "slice" if isinstance(expression, slice) else "tuple" if which < 9 else "odd"
        c.op("read-" + kind, repr(expression))
        must = pydm.supported(expression, box.shape)
        try:
            expected = content[expression]
        except Exception:
            expected = None
        try:
            observed = array[expression]
        except Exception as exception:
            c.check(not must, "refused-" + kind, lambda: f"{expression!r} on shape {box.shape}: {exception}")
            c.count("refused")
            continue
        c.check(expected is not None, "invalid-accepted-" + kind, lambda: f"{expression!r} on shape {box.shape} yields {observed!r:.300}")
        c.check(pydm.same(observed, expected), "values-" + kind,
                lambda: f"{expression!r} on {box.dtype} array with shape {box.shape}: observed {observed!r:.400}, expected {expected!r:.400}")
        c.count("reads.compared")
        c.count("elements.compared", int(np.asarray(expected).size))
        c.count("results.empty" if np.asarray(expected).size == 0 else "results.scalar" if np.asarray(expected).ndim == 0 else "results.array")
        c.nontrivial()
        if len(keep) < 5:
            keep.append((observed, np.array(expected)))
    # What was read does not depend on the array any longer
    array = None
    box.dataset = None
    for observed, expected in keep:
        c.check(pydm.same(observed, expected), "values-later", "an array that was read has changed after the dataset was closed")


vh.run(body)
