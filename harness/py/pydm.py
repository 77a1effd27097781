"""Random datasets, arrays and index expressions for the monitors of the Python API."""
import numpy as np
import lue.data_model as ldm

DTYPES = [np.dtype(t) for t in ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64")]


def random_values(rng, dtype, shape):
    """Values with random bit patterns, for integers often extremes"""
    shape = tuple(shape)
    n = int(np.prod(shape, dtype=np.int64))
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        special = [0.0, -0.0, 1.0, -1.5, np.inf, -np.inf, np.nan, np.finfo(dtype).max, np.finfo(dtype).tiny]
        values = [rng.choice(special) if rng.random() < 0.2 else rng.uniform(-1e6, 1e6) for _ in range(n)]
        return np.array(values, dtype=dtype).reshape(shape)
    info = np.iinfo(dtype)
    values = [rng.choice((info.min, info.max, 0, 1)) if rng.random() < 0.2 else rng.randint(info.min, info.max) for _ in range(n)]
    return np.array(values, dtype=dtype).reshape(shape)


def random_shape(rng, rank, limit=400):
    while True:
        shape = tuple(rng.choice((1, 1, 2, 3, 4, 5, 7, 10)) for _ in range(rank))
        if np.prod(shape, dtype=np.int64) <= limit:
            return shape


class Box:
    """An array in a new dataset. find() obtains it again, also from another dataset object"""

    def __init__(self, c, dtype, rank=None):
        rng = c.rng
        self.path = c.path("x.lue")
        self.dtype = np.dtype(dtype)
        self.kind = rng.choice(("same", "same", "same", "same-constant", "different", "different-constant", "space-point", "object-id"))
        rank = rng.choice((0, 1, 1, 2, 2, 3, 4)) if rank is None else rank
        nr = rng.choice((1, 2, 3, 5, 8))
        self.nr = nr
        dataset = ldm.create_dataset(self.path)
        phenomenon = dataset.add_phenomenon("p")
        if self.kind == "object-id":
            self.dtype = np.dtype("uint64")
            phenomenon.object_id.expand(nr)
            self.shape = (nr,)
        elif self.kind == "space-point":
            rank = max(1, rank)
            space = ldm.SpaceConfiguration(ldm.Mobility.stationary, ldm.SpaceDomainItemType.point)
            set_ = phenomenon.add_property_set("s", space, self.dtype, rank)
            set_.space_domain.value.expand(nr)
            self.shape = (nr, rank)
        elif self.kind in ("same", "different"):
            set_ = phenomenon.add_property_set("s")
            if self.kind == "same":
                shape = random_shape(rng, rank)
                set_.add_property("v", self.dtype, shape).value.expand(nr)
                self.shape = (nr,) + shape
            else:
                rank = max(1, rank)
                self.shape = random_shape(rng, rank)
                self.ids = np.array(rng.sample(range(100), nr), dtype=np.uint64)
                shapes = np.array([random_shape(rng, rank) for _ in range(nr)], dtype=np.uint64)
                self.id = int(self.ids[rng.randrange(nr)])
                shapes[list(self.ids).index(self.id)] = self.shape
                set_.add_property("v", self.dtype, rank).value.expand(self.ids, shapes)
        else:
            set_ = phenomenon.add_property_set("s", ldm.TimeConfiguration(ldm.TimeDomainItemType.point), ldm.Clock(ldm.Unit.day, 1))
            if self.kind == "same-constant":
                shape = random_shape(rng, rank)
                set_.add_property("v", self.dtype, shape, ldm.ValueVariability.variable).value.expand(nr)
                self.shape = (nr,) + shape
            else:
                shape = random_shape(rng, max(1, rank))
                value = set_.add_property("v", self.dtype, len(shape), ldm.ShapePerObject.different, ldm.ShapeVariability.constant).value
                value.expand(7, shape, nr)
                self.shape = (nr,) + shape
        c.op("array", f"{self.kind} {self.dtype} {self.shape}")
        self.dataset = dataset

    def find(self, reopen=False):
        if reopen:
            self.dataset = None
            self.dataset = ldm.open_dataset(self.path, "w")
        phenomenon = self.dataset.phenomena["p"]
        if self.kind == "object-id":
            return phenomenon.object_id
        set_ = phenomenon.property_sets["s"]
        if self.kind == "space-point":
            return set_.space_domain.value
        value = set_.properties["v"].value
        if self.kind == "different":
            return value[self.id]
        if self.kind == "different-constant":
            return value[7]
        return value


def random_slice(rng, n, negative=4):
    def bound():
        return None if rng.random() < 0.3 else rng.randint(-n - 2, n + 2) if rng.random() < 0.9 else rng.choice((-10**9, 10**9, 2**62, -2**62))
    step = None if rng.random() < 0.4 else rng.randint(1, n + 2) if rng.randrange(100) >= negative else rng.choice((-1, -2, 0))
    return slice(bound(), bound(), step)


def random_int(rng, n, invalid=4):
    if rng.randrange(100) < invalid:
        return rng.choice((-n - 1, n, n + 5, 2**31, -2**40, 2**63 - 1, 2**64, -2**70))
    return rng.randint(-n, n - 1)


def random_tuple(rng, shape, extra=3):
    length = rng.choice((len(shape), len(shape), rng.randint(0, len(shape)))) if rng.randrange(100) >= extra else len(shape) + 1
    items = []
    for i in range(length):
        n = shape[i] if i < len(shape) else 3
        if rng.random() < 0.45:
            item = random_int(rng, n)
            if rng.random() < 0.1 and -2**63 <= item < 2**63:
                item = np.int64(item)
        else:
            item = random_slice(rng, n)
        items.append(item)
    return tuple(items)


def supported(expression, shape):
    """The expression consists of valid indices and slices with positive steps, and is valid for the shape"""
    if type(expression) is not tuple:
        if isinstance(expression, np.integer):
            return False
        expression = (expression,)
    if len(expression) > len(shape):
        return False
    for item, n in zip(expression, shape):
        if isinstance(item, slice):
            if item.step is not None and item.step <= 0:
                return False
        elif isinstance(item, (int, np.integer)):
            if not -n <= item < n:
                return False
        else:
            return False
    return True


def same(a, b):
    """Equal in shape, type and bits"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def random_index(rng, shape):
    which = rng.randrange(10)
    if which < 2:
        return random_int(rng, shape[0])
    if which < 4:
        return random_slice(rng, shape[0])
    return random_tuple(rng, shape)


def kind_of(expression):
    return "int" if isinstance(expression, int) else "slice" if isinstance(expression, slice) else "tuple"


def equal(a, b):
    """Equal in shape, type and values, including signs of zero"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind != "f":
        return bool((a == b).all())
    nan = np.isnan(a)
    return bool((nan == np.isnan(b)).all() and ((a == b) | nan).all() and ((np.signbit(a) == np.signbit(b)) | nan).all())


def representable(rng, dtype, target, shape):
    """Values of one type, which another type can represent (up to rounding)"""
    n = int(np.prod(shape, dtype=np.int64))
    dtype, target = np.dtype(dtype), np.dtype(target)
    if dtype == target or target.kind == "f" and dtype.kind != "f":
        return random_values(rng, dtype, shape)
    if dtype.kind == "f" and target.kind == "f":
        return np.array([rng.choice((0.0, -0.0, np.inf, -np.inf, np.nan, rng.uniform(-1e6, 1e6))) for _ in range(n)], dtype=dtype).reshape(shape)
    if dtype.kind == "f":
        info = np.iinfo(target)
        low, high = max(info.min, -10**6), min(info.max, 10**6)
        return np.array([rng.choice((float(rng.randint(low, high)), rng.uniform(low, high))) for _ in range(n)], dtype=dtype).reshape(shape)
    low = max(np.iinfo(dtype).min, np.iinfo(target).min)
    high = min(np.iinfo(dtype).max, np.iinfo(target).max)
    return np.array([rng.choice((low, high, rng.randint(low, high))) for _ in range(n)], dtype=dtype).reshape(shape)


LAYOUTS = ("c", "c", "fortran", "strided", "reversed", "transposed", "swapped", "read-only", "broadcast", "unaligned", "offset")


def laid_out(rng, values, layout):
    """The same values in another layout of memory"""
    shape = values.shape
    if not shape and layout in ("fortran", "transposed"):
        return values
    if layout == "fortran":
        return np.asfortranarray(values)
    if layout == "strided" and values.ndim:
        big = np.full(tuple(2 * n + 1 for n in shape), 77, dtype=values.dtype)
        view = big[tuple(slice(1, 2 * n + 1, 2) for n in shape)]
        view[...] = values
        return view
    if layout == "reversed" and values.ndim:
        view = np.empty_like(values)[tuple(slice(None, None, -1) for _ in shape)]
        view[...] = values
        return view
    if layout == "transposed":
        return np.ascontiguousarray(values.T).T
    if layout == "swapped":
        return values.astype(values.dtype.newbyteorder("S"))
    if layout == "read-only":
        values = values.copy()
        values.flags.writeable = False
        return values
    if layout == "broadcast" and values.size:
        return np.broadcast_to(values.reshape(-1)[:1].reshape(()), shape)
    if layout == "unaligned":
        buffer = np.zeros(values.nbytes + 1, dtype=np.uint8)
        view = buffer[1:].view(values.dtype).reshape(shape)
        view[...] = values
        return view
    if layout == "offset" and values.ndim and shape[0]:
        big = np.full((shape[0] + 2,) + shape[1:], 55, dtype=values.dtype)
        big[1:-1] = values
        return big[1:-1]
    return values
