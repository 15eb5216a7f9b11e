"""random operation sequences on OneToManyDict / KeyValueDictSet against reference models (bounded)"""
from scaled.utility.one_to_many_dict import OneToManyDict
from scaled.utility.key_value_set import KeyValueDictSet

RULE = "random sequences of up to 40*4 operations over 4 keys and 5 values; every query compared with a reference model after each step"
TRACE = []


class Rel:
    """reference: a set of pairs"""

    def __init__(self):
        self.p = set()

    def values(self, k):
        return {v for a, v in self.p if a == k}

    def keys(self):
        return {a for a, _ in self.p}

    def key(self, v):
        return {a for a, b in self.p if b == v}


def attempt(f):
    try:
        return "ok", f()
    except (ValueError, KeyError) as e:
        return "raise", type(e).__name__
    except Exception as e:
        return "crash", repr(e)


def norm(x):
    return set(x) if isinstance(x, (set, frozenset)) else x


def run(rng, size):
    for maker, o2m in ((OneToManyDict, True), (KeyValueDictSet, False)):
        d, m = maker(), Rel()
        TRACE.clear()
        ks = [b"k%d" % i for i in range(rng.randint(1, 4))]
        vs = [b"v%d" % i for i in range(rng.randint(1, 5))]
        for _ in range(size * 4):
            k, v = rng.choice(ks), rng.choice(vs)
            op = rng.choice(["add", "add", "add", "rk", "rv", "rv"])
            TRACE.append((maker.__name__, op, k, v))
            if op == "add":
                own = m.key(v)
                r = attempt(lambda: d.add(k, v))
                if o2m and own and own != {k}:
                    if r[0] != "raise":
                        return f"{maker.__name__}.add of a value owned by another key did not raise: {r}"
                else:
                    if r[0] != "ok":
                        return f"{maker.__name__}.add raised {r}"
                    m.p.add((k, v))
            elif op == "rk":
                r = attempt(lambda: norm(d.remove_key(k)))
                if k in m.keys():
                    if r != ("ok", m.values(k)):
                        return f"{maker.__name__}.remove_key({k}) gave {r}, expected {m.values(k)}"
                    m.p = {(a, b) for a, b in m.p if a != k}
                elif r[0] != "raise":
                    return f"{maker.__name__}.remove_key of an absent key gave {r}"
            else:
                if o2m:
                    r = attempt(lambda: d.remove_value(v))
                    if m.key(v):
                        if r != ("ok", next(iter(m.key(v)))):
                            return f"remove_value({v}) gave {r}"
                        m.p = {(a, b) for a, b in m.p if b != v}
                    elif r[0] != "raise":
                        return f"remove_value of an absent value gave {r}"
                else:
                    r = attempt(lambda: d.remove_value(k, v))
                    if (k, v) in m.p:
                        if r[0] != "ok":
                            return f"remove_value({k},{v}) gave {r}"
                        m.p.discard((k, v))
                    elif r[0] != "raise":
                        return f"remove_value of an absent pair gave {r}"
            # queries
            if set(d.keys()) != m.keys():
                return f"{maker.__name__}.keys() = {set(d.keys())}, expected {m.keys()}"
            if {a: set(b) for a, b in d.items()} != {a: m.values(a) for a in m.keys()}:
                return f"{maker.__name__}.items() = {dict(d.items())}"
            if sorted(sorted(x) for x in d.values()) != sorted(sorted(m.values(a)) for a in m.keys()):
                return f"{maker.__name__}.values() wrong"
            for a in ks:
                if (a in d) != (a in m.keys()):
                    return f"{a} in {maker.__name__} wrong"
                if o2m and d.has_key(a) != (a in m.keys()):
                    return "has_key wrong"
                r = attempt(lambda: set(d.get_values(a)))
                if a in m.keys() and r != ("ok", m.values(a)) or a not in m.keys() and r[0] != "raise":
                    return f"get_values({a}) gave {r}, expected {m.values(a)}"
            if o2m:
                for b in vs:
                    if d.has_value(b) != bool(m.key(b)):
                        return f"has_value({b}) wrong"
                    r = attempt(lambda: d.get_key(b))
                    if m.key(b) and r != ("ok", next(iter(m.key(b)))) or not m.key(b) and r[0] != "raise":
                        return f"get_key({b}) gave {r}, expected {m.key(b)}"
    return None
