"""C19: text written and read in Python."""
import numpy as np
import lue.data_model as ldm
import vh
import pydm

POOLS = ["abcXYZ019 _-", "äöüßéñ", "αβγδЖщ", "中文字日本", "𝄞😀🀄𐍈", "\u0301\u200b\ufeff\u202e", "\t\n\r\x01\x7f\x85", " "]


def random_text(rng, longest=12):
    which = rng.random()
    length = 0 if which < 0.12 else rng.randint(200, 5000) if which > 0.985 and longest > 1 else rng.randint(1, longest)
    pools = rng.sample(POOLS, rng.randint(1, 3))
    text = "".join(rng.choice(rng.choice(pools)) for _ in range(length))
    if rng.random() < 0.02:
        text += chr(rng.choice((0x10ffff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x7ff, 0x800)))
    return text


def random_texts(rng, n):
    if rng.random() < 0.1:
        return [rng.choice(("", "a", "é"))] * n
    longest = rng.choice((1, 3, 12, 40))
    return [random_text(rng, longest) for _ in range(n)]


def as_value(rng, texts):
    """The texts in one of the representations that can be assigned"""
    kind = rng.choice(("unicode", "unicode", "unicode", "utf8", "list", "utf8-list"))
    if kind == "list":
        return kind, list(texts)
    if kind == "utf8-list":
        return kind, [text.encode() for text in texts]
    if kind == "utf8":
        value = np.array([text.encode() for text in texts], dtype=None if texts else "S3")
    else:
        value = np.array(texts, dtype=None if texts else "U3")
        if rng.random() < 0.4:
            # Longer than needed
            value = value.astype(f"U{value.dtype.itemsize // 4 + rng.randint(1, 9)}")
    layout = rng.choice([layout for layout in pydm.LAYOUTS if layout not in ("broadcast", "unaligned")])
    if layout in ("strided", "offset"):
        big = np.array(["#" * max(1, value.dtype.itemsize // (4 if kind == "unicode" else 1))] * (2 * len(texts) + 1), dtype=value.dtype)
        view = big[1::2] if layout == "strided" else big[1:1 + len(texts)]
        view[...] = value
        value = view
    else:
        value = pydm.laid_out(rng, value, layout)
    return f"{kind}-{layout}", value


class Texts:
    def __init__(self, c):
        rng = c.rng
        self.path = c.path("t.lue")
        self.names = []
        self.nr = rng.choice((1, 2, 3, 5, 10, 40))
        self.variable = c.chance(30)
        self.dataset = ldm.create_dataset(self.path, self.text(rng))
        phenomenon = self.dataset.add_phenomenon(self.name(rng), self.text(rng))
        c.op("create", f"{self.nr} {self.variable} {self.names}")
        if self.variable:
            set_ = phenomenon.add_property_set(self.name(rng), ldm.TimeConfiguration(ldm.TimeDomainItemType.point), ldm.Clock(ldm.Unit.day, 1))
            set_.add_property(self.name(rng), np.str_, (), ldm.ValueVariability.variable, self.text(rng)).value.expand(self.nr)
        else:
            set_ = phenomenon.add_property_set(self.name(rng))
            set_.add_property(self.name(rng), np.str_, (), self.text(rng)).value.expand(self.nr)
        set_.add_property("numbers", np.int32, ()).value.expand(self.nr)[:] = np.arange(self.nr, dtype=np.int32)
        self.content = [None] * self.nr

    def text(self, rng):
        text = random_text(rng, 30)
        self.names.append(text)
        return text

    def name(self, rng):
        while True:
            text = random_text(rng, 10).strip()
            if text and "/" not in text and text not in (".", "..") and text not in ("numbers",):
                self.names.append(text)
                return text

    def reopen(self):
        self.dataset = None
        self.dataset = ldm.open_dataset(self.path, "w")

    def property_set(self):
        return self.dataset.phenomena[self.names[1]].property_sets[self.names[3]]

    def find(self):
        return self.property_set().properties[self.names[4]].value

    def compare_names(self, c):
        dataset = self.dataset
        c.equal(list(dataset.phenomena.names), [self.names[1]], "name", "name of phenomenon")
        phenomenon = dataset.phenomena[self.names[1]]
        c.equal(phenomenon.description, self.names[2], "description", "description of phenomenon")
        c.equal(list(phenomenon.property_sets.names), [self.names[3]], "name", "name of property set")
        properties = phenomenon.property_sets[self.names[3]].properties
        c.check(self.names[4] in properties, "name", "property is not there")
        c.equal(sorted(properties.names), sorted([self.names[4], "numbers"]), "name", "names of properties")
        c.equal(properties[self.names[4]].description, self.names[5], "description", "description of property")


def body(c):
    rng = c.rng
    texts = Texts(c)
    array = texts.find()

    def compare(selection, key):
        expected = texts.content[selection]
        try:
            observed = array[selection]
        except Exception:
            if any(text is None for text in expected):
                # Never written
                c.count("unwritten")
                return
            raise
        c.check(observed.dtype.kind == "U" and observed.shape == (len(expected),), key, lambda: f"{observed!r:.300}")
        for i, (a, b) in enumerate(zip(observed.tolist(), expected)):
            c.check(b is None or a == b, key, lambda: f"text {i} of {selection}: observed {a!r:.200}, expected {b!r:.200}")
        c.count("texts.compared", len(expected))
        if not expected:
            c.count("reads.empty")

    for _ in range(rng.randint(4, 14)):
        what = rng.randrange(20)
        selection = slice(None) if c.chance(25) else pydm.random_slice(rng, texts.nr, 0)
        indices = range(texts.nr)[selection]
        if what < 9:
            new = random_texts(rng, len(indices))
            if not new:
                continue
            kind, value = as_value(rng, new)
            c.op("write-" + kind, f"{selection} {value!r}")
            array[selection] = value
            for i, text in zip(indices, new):
                texts.content[i] = text
            c.count("texts.written", len(new))
            c.nontrivial()
        elif what < 14:
            c.op("read", str(selection))
            compare(selection, "read")
        elif what < 16:
            c.op("reopen")
            array = None
            texts.reopen()
            texts.compare_names(c)
            array = texts.find()
        elif what < 18:
            kind, value = as_value(rng, random_texts(rng, rng.choice((len(indices) + 1, max(0, len(indices) - 1), 0, 2 * len(indices)))))
            if len(value) == len(indices):
                continue
            c.op("write-other-count", f"{selection} {value!r}")
            c.throws("other-count", f"assigning {len(value)} texts to {len(indices)} elements", lambda: array.__setitem__(selection, value))
            c.count("refused")
        else:
            c.op("write-other-kind", str(selection))
            n = len(indices)
            if n == 0:
                continue
            value = rng.choice((np.zeros(n), np.arange(n), np.zeros(n, dtype="V3"), np.zeros(n, dtype=complex), [1.5] * n, None, 5, 2.5,
                                np.array(["\ud800x"] * n), [object()] * n))
            try:
                array[selection] = value
            except Exception:
                c.count("refused")
            else:
                c.fail("other-kind", f"{value!r} was assigned")
            numbers = texts.property_set().properties["numbers"].value
            c.throws("text-to-numbers", "assigning text to numbers", lambda: numbers.__setitem__(selection, np.array(["x"] * n)))
            c.check(numbers[:].tolist() == list(range(texts.nr)), "text-to-numbers", "numbers were changed")
        if c.chance(50) or what >= 16:
            compare(slice(None), "content")
    c.op("reopen")
    array = None
    texts.reopen()
    array = texts.find()
    compare(slice(None), "content-reopened")
    texts.compare_names(c)


vh.run(body)
