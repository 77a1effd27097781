"""C18: assigning to parts of arrays in Python, compared with NumPy."""
import warnings
import numpy as np
import lue.data_model as ldm
import vh
import pydm


def random_scalar(c, dtype):
    rng = c.rng
    kind = rng.choice(("int", "float", "numpy", "0d"))
    if kind == "int":
        value = rng.choice((0, 1, 100, pydm.random_values(rng, dtype, ()).item() if dtype.kind != "f" else rng.choice((-5, 12345, 2**40 + 1))))
    elif kind == "float":
        value = rng.choice((0.0, 1.0, 2.5, 100.75)) if dtype.kind != "f" else float(pydm.random_values(rng, dtype, ()))
    else:
        value = pydm.random_values(rng, dtype, ())
        value = value[()] if kind == "numpy" else value
    return kind, value


def expand(c):
    """IDs and shapes in any layout"""
    rng = c.rng
    dataset = ldm.create_dataset(c.path("e.lue"))
    rank = rng.randint(1, 3)
    value = dataset.add_phenomenon("p").add_property_set("s").add_property("v", rng.choice(pydm.DTYPES), rank).value
    expected = {}
    for _ in range(rng.randint(1, 3)):
        nr = rng.randint(1, 6)
        ids = np.array(rng.sample(range(1000 * len(expected), 1000 * len(expected) + 1000), nr), dtype=np.uint64)
        shapes = np.array([pydm.random_shape(rng, rank) for _ in range(nr)], dtype=np.uint64)
        layouts = [layout for layout in pydm.LAYOUTS if layout != "broadcast"]
        a = pydm.laid_out(rng, ids.astype(rng.choice(("uint64", "int64", "uint16", "int32"))), rng.choice(layouts))
        b = pydm.laid_out(rng, shapes.astype(rng.choice(("uint64", "int64", "uint8"))), rng.choice(layouts))
        if c.chance(20):
            a, b = a.tolist(), b.tolist()
        c.op("expand", f"{getattr(a, 'dtype', 'list')} {getattr(a, 'strides', '')} {getattr(b, 'dtype', 'list')} {getattr(b, 'strides', '')} {ids} {shapes}")
        value = value.expand(a, b)
        expected.update({int(i): tuple(int(n) for n in s) for i, s in zip(ids, shapes)})
        c.equal(len(value), len(expected), "expand-count", "number of objects")
        for id_, shape in expected.items():
            c.equal(tuple(value[id_].shape), shape, "expand-shape", f"shape of value of object {id_}")
    c.count("expansions")
    c.nontrivial()


def body(c):
    rng = c.rng
    warnings.simplefilter("ignore")
    if c.chance(8):
        return expand(c)
    dtype = rng.choice(pydm.DTYPES)
    box = pydm.Box(c, dtype)
    dtype = box.dtype
    content = pydm.random_values(rng, dtype, box.shape)
    array = box.find()
    array[:] = content

    def compare(key):
        observed = array[:]
        c.check(pydm.equal(observed, content), key,
                lambda: f"{dtype} {box.shape}: observed {observed.tolist()!r:.600}, expected {content.tolist()!r:.600}")
        c.count("elements.compared", content.size)

    compare("initial")
    for _ in range(14):
        expression = pydm.random_index(rng, box.shape)
        try:
            selected = content[expression]
        except Exception:
            selected = None
        must = pydm.supported(expression, box.shape)
        shape = np.shape(selected) if selected is not None else ()
        source = None
        what = rng.randrange(20)
        if what < 6:
            kind, value = random_scalar(c, dtype)
            # Scalars are expanded only if they are Python's
            must = must and (kind in ("int", "float") or shape == ())
            kind = "scalar-" + kind
        elif what < 14:
            kind = "array"
            other = dtype if c.chance(60) else rng.choice(pydm.DTYPES)
            values = pydm.representable(rng, other, dtype, shape)
            if c.chance(15) and values.ndim:
                # Same number of values
                values = values.reshape(rng.choice((-1, (1,) + shape)) if not c.chance(50) else shape[::-1])
                kind = "array-reshaped"
            layout = rng.choice(pydm.LAYOUTS)
            value = pydm.laid_out(rng, values, layout)
            kind += "-" + layout
            source = (value, np.array(value))
        elif what < 16:
            kind = "list"
            value = pydm.representable(rng, rng.choice((dtype, np.dtype("float64") if dtype.itemsize == 8 else dtype)), dtype, shape).tolist()
            must = must and shape != () and np.size(selected) > 0
            if isinstance(value, float) and dtype.kind != "f":
                must = False
        elif what < 18:
            kind = "other-size"
            count = int(np.prod(shape, dtype=np.int64))
            value = pydm.laid_out(rng, pydm.random_values(rng, dtype, (rng.choice((count + 1, max(0, count - 1), 2 * count, count // 2, 0)),)), rng.choice(pydm.LAYOUTS))
            if value.size == count or value.size == 1:
                continue
            must = False
        else:
            kind = "other-kind"
            value = rng.choice((None, "a", "1", b"1", {}, 1j, np.array([1j]), np.array(["a"]), np.array([b"1"]), object(), np.array([None]),
                                2**64, 2**70, -2**70, np.full(shape, 1j), np.full(shape, "12"), np.zeros(shape, "V3"), [1j], ["a"], np.zeros(shape, [("a", "i4")])))
            must = False
        c.op(f"assign-{kind}-{pydm.kind_of(expression)}", f"{expression!r} {getattr(value, 'dtype', type(value).__name__)} {getattr(value, 'shape', value)}")
        before = content.copy()
        try:
            if kind.startswith("array-reshaped"):
                content[expression] = np.asarray(value).reshape(shape)
            else:
                content[expression] = value
            possible = True
        except Exception:
            possible = False
            content = before
        try:
            array[expression] = value
            done = True
        except Exception as exception:
            done = False
            message = str(exception)
        if done:
            # NumPy broadcasts, LUE stores values of any shape if their number is right
            possible = possible or kind != "other-kind" and np.size(value) == np.size(selected)
            c.check(possible and kind != "other-size", "accepted-" + kind, lambda: f"{expression!r} = {value!r:.300} is accepted")
            c.count("assignments")
            c.nontrivial()
        else:
            c.check(not must, "refused-" + c.last, lambda: f"{expression!r} on {dtype} array with shape {box.shape} = {value!r:.300} is refused: {message:.300}")
            content = before
            c.count("refused")
        compare("values-" + ("refused-" if not done else "") + kind)
        if source:
            c.check(source[0].dtype == source[1].dtype and pydm.equal(np.array(source[0]), source[1]), "source", "the assigned array was changed")
    if c.chance(50):
        c.op("reopen")
        array = None
        array = box.find(True)
        compare("reopened")


vh.run(body)
