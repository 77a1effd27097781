"""C20: lifetimes of Python objects. Objects are obtained in all ways, used after others were dropped, in any order."""
import gc
import os
import numpy as np
import lue.data_model as ldm
import vh
import pydm


def array_content(a):
    return (tuple(a.shape), str(a.dtype), a[:].tobytes())


def fill(a):
    a[:] = np.arange(int(np.prod(a.shape)), dtype=a.dtype).reshape(tuple(a.shape))


def group(o):
    return (o.id.pathname, o.id.name, repr(o))


# What can be seen through an object of a kind, without changing anything
OBSERVE = {
    "dataset": lambda o: (repr(o), str(o), o.pathname, sorted(o.phenomena.names), sorted(o.universes.names), o.lue_version),
    "phenomena": lambda o: (o.id.pathname, sorted(o.names), len(o)),
    "universes": lambda o: (o.id.pathname, sorted(o.names), len(o)),
    "universe": lambda o: group(o) + (str(o), sorted(o.phenomena.names)),
    "phenomenon": lambda o: group(o) + (str(o), o.description, sorted(o.property_sets.names), sorted(o.collection_property_sets.names),
                                        array_content(o.object_id)),
    "property_sets": lambda o: (o.id.pathname, sorted(o.names), len(o)),
    "property_set": lambda o: group(o) + (str(o), o.has_time_domain, o.has_space_domain, sorted(o.properties.names)),
    "properties": lambda o: (o.id.pathname, sorted(o.names)),
    "property": lambda o: group(o) + (str(o), o.description, o.time_is_discretized, o.space_is_discretized, str(o.value.dtype)),
    "value-array": lambda o: (o.id.pathname, len(o) if hasattr(type(o), "__len__") else None,
                              tuple(o.array_shape) if hasattr(type(o), "array_shape") else None) + array_content(o),
    "array": lambda o: (o.id.pathname,) + array_content(o),
    "value-group": lambda o: (o.id.pathname, str(o.dtype)),
    "tracker": lambda o: (o.id.pathname, repr(o), str(o), array_content(o.active_set_index), array_content(o.active_object_id)),
    "time_domain": lambda o: group(o) + (str(o), repr(o.configuration), repr(o.clock), o.configuration.item_type),
    "space_domain": lambda o: group(o) + (str(o), repr(o.configuration), o.presence_is_discretized),
    "clock": lambda o: (repr(o), str(o), o.unit, o.nr_units, repr(o.epoch)),
    "epoch": lambda o: (repr(o), str(o), o.kind, o.origin, o.calendar),
    "configuration": lambda o: (repr(o), str(o), o.item_type),
    "identifier": lambda o: (o.pathname, o.name, o.reference_count > 0),
    "shape": lambda o: tuple(o),
    "file": lambda o: (o.pathname, o.id.pathname),
}


class World:
    """A dataset, and objects that belong to it"""

    def __init__(self, c):
        self.c = c
        self.held = []  # kind, object, observation, where
        self.path = c.path("w.lue")

    def hold(self, kind, o, where):
        self.c.count("held." + kind)
        try:
            seen = OBSERVE[kind](o)
        except Exception as exception:
            self.c.fail("unusable-" + kind, f"{where}: {exception}")
        self.held.append([kind, o, seen, where])
        return o


def build(w):
    """Create the content. What is made is held at random, and only what is held or needed in the expression is alive"""
    c, rng = w.c, w.c.rng
    keep = lambda kind, o, where: w.hold(kind, o, where) if c.chance(35) else o

    def phenomenon(parent, name):
        p = parent.add_phenomenon(name, "about " + name)
        p.object_id.expand(4)[:] = np.array(rng.sample(range(1000), 4), dtype=np.uint64)
        keep("phenomenon", p, "add_phenomenon")
        if c.chance(40):
            keep("array", p.object_id.expand(0), "object_id.expand")
        sets = []
        for i in range(rng.randint(1, 3)):
            sets.append(property_set(p, f"s{i}", sets))

    def property_set(p, name, others):
        kind = rng.randrange(4)
        time = ldm.TimeConfiguration(rng.choice((ldm.TimeDomainItemType.point, ldm.TimeDomainItemType.box, ldm.TimeDomainItemType.cell)))
        clock = ldm.Clock(ldm.Epoch(ldm.Epoch.Kind.common_era, "2020-01-01", ldm.Calendar.gregorian), ldm.Unit.day, 3) if c.chance(50) else ldm.Clock(ldm.Unit.hour, 2)
        space = ldm.SpaceConfiguration(rng.choice((ldm.Mobility.stationary, ldm.Mobility.mobile)),
                                       rng.choice((ldm.SpaceDomainItemType.box, ldm.SpaceDomainItemType.point)))
        temporal = [o for o in others if o.has_time_domain]
        if kind == 0:
            s = p.add_property_set(name)
        elif kind == 1:
            s = p.add_property_set(name, space, np.float64, 2)
        elif kind == 2 and temporal:
            s = p.add_property_set(name, rng.choice(temporal).time_domain)
        elif kind == 2:
            s = p.add_property_set(name, time, clock)
        elif temporal and c.chance(50):
            s = p.add_property_set(name, rng.choice(temporal).time_domain, space, np.float32, 2)
        else:
            s = p.add_property_set(name, time, clock, space, np.float32, 2)
        keep("property_set", s, "add_property_set")
        s.object_tracker.active_object_id.expand(4)[:] = np.arange(4, dtype=np.uint64)
        if s.has_time_domain and c.chance(60) and s.time_domain.value.shape[0] == 0:
            value = s.time_domain.value.expand(3)
            fill(value)
            keep("value-array", value, "time_domain.value.expand")
        if s.has_space_domain:
            value = s.space_domain.value.expand(4)
            fill(value)
            keep("value-array", value, "space_domain.value.expand")
        added = []
        for i in range(rng.randint(1, 4)):
            added.append(property_(s, f"v{i}", added))
        return s

    def property_(s, name, others):
        kind = rng.randrange(8)
        if not s.has_time_domain:
            kind %= 5
        dtype = rng.choice(pydm.DTYPES)
        if kind == 0:
            v = s.add_property(name, dtype, "d " + name)
        elif kind == 1:
            v = s.add_property(name, dtype, (2, 3), "d " + name)
        elif kind == 2:
            v = s.add_property(name, dtype, (2,), ldm.ValueVariability.constant, "d " + name)
        elif kind in (3, 4):
            v = s.add_property(name, dtype, 2, "d " + name)
        elif kind == 5:
            v = s.add_property(name, dtype, (2, 2), ldm.ValueVariability.variable, "d " + name)
        elif kind == 6:
            v = s.add_property(name, dtype, 1, ldm.ShapePerObject.same, ldm.ShapeVariability.variable, "d " + name)
        else:
            v = s.add_property(name, dtype, 1, ldm.ShapePerObject.different, rng.choice((ldm.ShapeVariability.constant, ldm.ShapeVariability.variable)))
        keep("property", v, f"add_property {type(v).__module__}")
        w.c.op("add", f"{name} {type(v).__module__}.{type(v).__name__}")
        if kind in (0, 1, 2, 5):
            value = v.value.expand(4)
            value[:] = pydm.random_values(rng, dtype, tuple(value.shape))
            keep("value-array", value, "value.expand")
        elif kind in (3, 4):
            value = v.value.expand(np.array([3, 7], dtype=np.uint64), np.array([[2, 3], [1, 4]], dtype=np.uint64))
            for i in (3, 7):
                value[i][:] = pydm.random_values(rng, dtype, tuple(value[i].shape))
            keep("array", value[7], "value.expand[id]")
        elif kind == 6:
            a = v.value.expand(1, 2, (3,))
            a[:] = pydm.random_values(rng, dtype, tuple(a.shape))
            keep("array", a, "value.expand")
        if others and c.chance(30):
            v.set_space_discretization(ldm.SpaceDiscretization.regular_grid, rng.choice(others))
        return v

    dataset = ldm.create_dataset(w.path)
    keep("dataset", dataset, "create_dataset")
    for i in range(rng.randint(0, 2)):
        universe = keep("universe", dataset.add_universe(f"u{i}"), "add_universe")
        for j in range(rng.randint(1, 2)):
            phenomenon(universe, f"up{i}{j}")
    for i in range(rng.randint(1, 2)):
        phenomenon(dataset, f"p{i}")


def descend(w, kind, o):
    """Obtain an object from an object: (kind, object, how). None if there is nothing to obtain"""
    rng = w.c.rng
    pick = rng.choice

    def by_name(kind, collection, parent):
        names = list(collection.names)
        if not names:
            return None
        name = pick(names)
        return pick(((kind, lambda: collection[name], f"[{name}]"), (kind, lambda: getattr(parent, name), "." + name) if parent is not None else
                     (kind, lambda: collection[name], f"[{name}]")))

    choices = []
    if hasattr(type(o), "id") and kind != "identifier":
        choices.append(("identifier", lambda: o.id, ".id"))
    if kind == "dataset":
        choices += [("phenomena", lambda: o.phenomena, ".phenomena"), ("universes", lambda: o.universes, ".universes"),
                    by_name("phenomenon", o.phenomena, o), by_name("universe", o.universes, o)] * 2
    elif kind == "phenomena":
        choices += [by_name("phenomenon", o, None)] * 4
    elif kind == "universes":
        choices += [by_name("universe", o, None)] * 4
    elif kind == "universe":
        choices += [("phenomena", lambda: o.phenomena, ".phenomena"), by_name("phenomenon", o.phenomena, o)] * 2
    elif kind == "phenomenon":
        choices += [("array", lambda: o.object_id, ".object_id"), ("property_sets", lambda: o.property_sets, ".property_sets"),
                    ("property_sets", lambda: o.collection_property_sets, ".collection_property_sets"),
                    by_name("property_set", o.property_sets, o), by_name("property_set", o.property_sets, o)]
    elif kind == "property_sets":
        choices += [by_name("property_set", o, None)] * 4
    elif kind == "property_set":
        choices += [("tracker", lambda: o.object_tracker, ".object_tracker"), ("properties", lambda: o.properties, ".properties"),
                    by_name("property", o.properties, o), by_name("property", o.properties, o)]
        if o.has_time_domain:
            choices.append(("time_domain", lambda: o.time_domain, ".time_domain"))
        if o.has_space_domain:
            choices.append(("space_domain", lambda: o.space_domain, ".space_domain"))
    elif kind == "properties":
        choices += [by_name("property", o, None)] * 4
    elif kind == "property":
        is_array = isinstance(o.value, ldm.Array)
        choices += [("value-array" if is_array else "value-group", lambda: o.value, ".value")] * 3
        if o.space_is_discretized:
            choices += [("property", o.space_discretization_property, ".space_discretization_property()")] * 2
    elif kind == "value-group":
        if type(o) is ldm.different_shape.Value:
            i = pick((3, 7))
            choices += [("array", lambda: o[i], f"[{i}]")] * 3
    elif kind == "tracker":
        choices += [("array", lambda: o.active_set_index, ".active_set_index"), ("array", lambda: o.active_object_id, ".active_object_id"),
                    ("array", lambda: o.active_object_index, ".active_object_index")]
    elif kind == "time_domain":
        choices += [("value-array", lambda: o.value, ".value"), ("clock", lambda: o.clock, ".clock"), ("configuration", lambda: o.configuration, ".configuration")]
        if o.configuration.item_type == ldm.TimeDomainItemType.cell:
            choices.append(("array", lambda: o.value.count, ".value.count"))
    elif kind == "space_domain":
        choices += [("value-array", lambda: o.value, ".value"), ("configuration", lambda: o.configuration, ".configuration")]
    elif kind == "clock":
        choices.append(("epoch", lambda: o.epoch, ".epoch"))
    elif kind in ("array", "value-array"):
        choices.append(("shape", lambda: o.shape, ".shape"))
    choices = [choice for choice in choices if choice]
    if not choices:
        return None
    kind, function, how = pick(choices)
    return kind, function(), how


def open_files(path):
    found = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            found += os.readlink("/proc/self/fd/" + name) == path
        except OSError:
            pass
    return found


def compare(w, entry, dropped):
    kind, o, seen, where = entry
    w.c.op("use-" + kind, where)
    try:
        now = OBSERVE[kind](o)
    except Exception as exception:
        w.c.fail("unusable-" + kind, f"{where}, after {dropped} were dropped: {type(exception).__name__}: {exception}")
    w.c.check(now == seen, "differs-" + kind, lambda: f"{where}: {now!r:.500} was {seen!r:.500}")
    w.c.count("objects.compared")


def body(c):
    rng = c.rng
    w = World(c)
    build(w)
    gc.collect()
    if c.chance(30) or not w.held:
        w.held = []
        gc.collect()
        c.equal(open_files(w.path), 0, "file-open", "open files after everything was dropped")
    # What was held while building may have changed since then
    for entry in w.held:
        entry[2] = OBSERVE[entry[0]](entry[1])
    if not w.held or c.chance(60):
        mode = rng.choice("rw")
        c.op("open", mode)
        w.hold("dataset", ldm.open_dataset(w.path, mode), "open_dataset")
    dropped = 0
    for _ in range(rng.randint(15, 45)):
        which = rng.random()
        if which < 0.6 or len(w.held) < 2:
            # Obtain an object, through several others that are dropped right away
            kind, o, _, where = rng.choice(w.held)
            for _ in range(rng.randint(1, 6)):
                step = descend(w, kind, o)
                if step is None:
                    break
                kind, o, how = step
                where += how
            c.op("hold-" + kind, where[-150:])
            w.hold(kind, o, where)
            o = step = None
        elif which < 0.85:
            entry = w.held.pop(rng.randrange(len(w.held)))
            c.op("drop-" + entry[0], entry[3][-150:])
            entry = None
            dropped += 1
            if c.chance(50):
                gc.collect()
            if c.chance(30):
                # Memory that was freed is used for something else
                [ldm.Clock(ldm.Unit.day, i) for i in range(20)]
        else:
            compare(w, rng.choice(w.held), dropped)
    c.nontrivial()
    # All are dropped, in any order
    rng.shuffle(w.held)
    while w.held:
        kind, _, _, where = w.held[-1]
        c.op("drop-" + kind, where[-150:])
        _ = None
        w.held.pop()
        gc.collect()
        for entry in w.held if c.chance(25) else w.held[-1:]:
            compare(w, entry, dropped)
        entry = None
    c.op("all-dropped")
    gc.collect()
    c.equal(open_files(w.path), 0, "file-open", "open files after everything was dropped")
    c.count("files.closed")
    ldm.open_dataset(w.path, "w").add_phenomenon("again")


vh.run(body)
