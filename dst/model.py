"""Reference model of module graphs: plain objects with shared references.

No nnx code is used here. Leaves are numpy arrays (or python scalars); variables
are records of kind, value and metadata; modules are attribute dictionaries.
"""
import numpy as np

from dst import env

nnx = env.load()


class Tag(nnx.Variable):
    """A user-defined variable kind."""


class SubParam(nnx.Param):
    """A user-defined kind derived from a library kind (matched by its filter)."""


class SubLog(nnx.Intermediate):
    """A user-defined kind of recorded values."""


KINDS = {
    "Param": nnx.Param,
    "BatchStat": nnx.BatchStat,
    "Cache": nnx.Cache,
    "Intermediate": nnx.Intermediate,
    "Tag": Tag,
    "SubParam": SubParam,
    "SubLog": SubLog,
    "Node": nnx.Node,
    "Static": nnx.Static,
}
NODE_KINDS = [k for k in KINDS if k != "Static"]
SUBKIND = {  # kind -> kinds its isinstance filter matches
    "Param": {"Param", "SubParam"},
    "BatchStat": {"BatchStat"},
    "Cache": {"Cache"},
    "Intermediate": {"Intermediate", "SubLog"},
    "SubLog": {"SubLog"},
    "Tag": {"Tag"},
    "SubParam": {"SubParam"},
    "Variable": {"Param", "BatchStat", "Cache", "Intermediate", "Tag", "SubParam", "SubLog"},
    "Node": {"Param", "BatchStat", "Cache", "Intermediate", "Tag", "SubParam", "SubLog", "Node"},
}


# Attribute names: private ones, prefixes of others, ones that sort differently.
ALPHABETS = [["a", "b", "c", "d", "e"], ["a", "b", "c", "d", "e"], ["a", "_u", "c", "B", "a0"], ["_u", "a", "_ua", "d", "Z"],
             ["a", "a0", "aa", "A", "_u"]]


def names(run, n=5):
    return run.pick(ALPHABETS)[:n]


class Refused(Exception):
    """The reference says this operation has to be refused."""


class RVar:
    __slots__ = ("kind", "value", "meta")

    def __init__(self, kind, value, meta=None):
        self.kind = kind
        self.value = value
        self.meta = dict(meta or {})

    def copy(self):
        return RVar(self.kind, self.value, self.meta)

    def compatible(self, other):
        return self.kind == other.kind and self.meta == other.meta

    def __repr__(self):
        m = f",{self.meta}" if self.meta else ""
        return f"{self.kind}({short(self.value)}{m})"


class RMod:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


def short(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, tuple):
        return tuple(short(x) for x in v)
    if isinstance(v, dict):
        return {k: short(x) for k, x in v.items()}
    return v


def is_array(v):
    return isinstance(v, np.ndarray)


def is_leaf(v):
    """Is this attribute value part of the module's state?"""
    return is_array(v) or (isinstance(v, RVar) and v.kind != "Static")


def copy_leaf(v):
    return v.copy() if isinstance(v, RVar) else v


def leaf_value(v):
    return v.value if isinstance(v, RVar) else v


# ------------------------------------------------------------------ graph
def modules(root):
    """Distinct modules reachable from root, in sorted depth-first order."""
    seen, order = set(), []

    def go(m):
        if id(m) in seen:
            return
        seen.add(id(m))
        order.append(m)
        for _, v in sorted(m.attrs.items()):
            if isinstance(v, RMod):
                go(v)

    go(root)
    return order


def iter_state(root):
    """[(path, module, name, leaf)]: each distinct module once, under its first path."""
    seen, out = set(), []

    def go(m, path):
        if id(m) in seen:
            return
        seen.add(id(m))
        for n, v in sorted(m.attrs.items()):
            p = (*path, n)
            if isinstance(v, RMod):
                go(v, p)
            elif is_leaf(v):
                out.append(("/".join(p), m, n, v))

    go(root, ())
    return out


def state_of(root):
    return {p: copy_leaf(v) for p, _, _, v in iter_state(root)}


def skeleton(root):
    """A copy of the graph with submodules and static attributes only."""
    memo = {}

    def go(m):
        if id(m) in memo:
            return memo[id(m)]
        c = memo[id(m)] = RMod(m.cls)
        for n, v in m.attrs.items():
            if isinstance(v, RMod):
                c.attrs[n] = go(v)
            elif not is_leaf(v):
                c.attrs[n] = copy_leaf(v)
        return c

    return go(root)


def copy_graph(root):
    return merge(skeleton(root), state_of(root))


def resolve(root, parts):
    """The module at a path of names, or None."""
    m = root
    for n in parts:
        if not isinstance(m, RMod) or n not in m.attrs:
            return None
        m = m.attrs[n]
    return m if isinstance(m, RMod) else None


def merge(skel, *states):
    root = skeleton(skel)
    total = {}
    for s in states:
        total.update(sorted(s.items()))
    for p, v in total.items():
        *mp, n = p.split("/")
        m = resolve(root, mp)
        if m is None:
            raise Refused("unknown path")
        set_attr(m, n, v)
    return root


def set_attr(m, name, value):
    """Assignment: variables keep their kind and metadata."""
    cur = m.attrs.get(name)
    if isinstance(cur, RVar):
        if isinstance(value, RVar):
            if not cur.compatible(value):
                raise Refused("incompatible container")
            value = value.value
        m.attrs[name] = RVar(cur.kind, value, cur.meta)
    else:
        m.attrs[name] = copy_leaf(value)


# ------------------------------------------------------------------ filters
class F:
    """A filter with its real and its reference form."""

    def __init__(self, name, real, pred):
        self.name, self.real, self.pred = name, real, pred

    def __repr__(self):
        return self.name


def kind_filter(k):
    real = nnx.Variable if k == "Variable" else KINDS[k]
    return F(k, real, lambda p, v, ks=SUBKIND[k]: isinstance(v, RVar) and v.kind in ks)


def path_filter(ch):
    return F(f"path~{ch}", lambda p, x, ch=ch: ch in p, lambda p, v, ch=ch: ch in p)


def any_filter(a, b):
    return F(f"({a},{b})", (a.real, b.real), lambda p, v: a.pred(p, v) or b.pred(p, v))


def all_filter(a, b):
    return F(f"All({a},{b})", nnx.All(a.real, b.real), lambda p, v: a.pred(p, v) and b.pred(p, v))


def not_filter(a):
    return F(f"Not({a})", nnx.Not(a.real), lambda p, v: not a.pred(p, v))


REST = F("...", ..., lambda p, v: True)
NONE = F("None", None, lambda p, v: False)


def buffers_filter():
    return F("buffers", nnx.buffers, lambda p, v: is_array(v))


def gen_filter(run, depth=0):
    c = run.draw(10 if depth < 2 else 6)
    if c == 5:
        return buffers_filter()
    if c <= 3:
        return kind_filter(run.pick(["Param", "BatchStat", "Variable", "Cache", "Intermediate", "Tag", "SubParam"]))
    if c == 4:
        return path_filter(run.pick("abcd"))
    if c == 6:
        return any_filter(gen_filter(run, depth + 1), gen_filter(run, depth + 1))
    if c == 7:
        return all_filter(gen_filter(run, depth + 1), gen_filter(run, depth + 1))
    if c == 8:
        return not_filter(gen_filter(run, depth + 1))
    return NONE


def split(state, filters):
    """First match wins; the last dict holds what no filter matched."""
    out = [dict() for _ in range(len(filters) + 1)]
    for p, v in state.items():
        for i, f in enumerate(filters):
            if f.pred(p, v):
                out[i][p] = v
                break
        else:
            out[-1][p] = v
    return out


# ------------------------------------------------------------------ comparing with nnx
def real_attrs(m):
    # private attributes of the harness start with "_u", others belong to nnx
    return {n: v for n, v in vars(m).items() if not n.startswith("_") or n.startswith("_u")}


def value_diff(real, ref):
    """None if equal, else a description."""
    if isinstance(ref, tuple):
        if not isinstance(real, tuple) or len(real) != len(ref):
            return f"{desc(real)} instead of {short(ref)}"
        for a, b in zip(real, ref):
            d = value_diff(a, b)
            if d:
                return d
        return None
    if isinstance(ref, dict):
        if not isinstance(real, dict) or sorted(real) != sorted(ref):
            return f"{desc(real)} instead of {short(ref)}"
        for k in ref:
            d = value_diff(real[k], ref[k])
            if d:
                return d
        return None
    if isinstance(ref, (str, bool)) or ref is None:
        return None if type(real) is type(ref) and real == ref else f"{desc(real)} instead of {ref!r}"
    if isinstance(real, nnx.Container) or isinstance(real, nnx.Module):
        return f"a {type(real).__name__} instead of a value"
    try:
        a = np.asarray(real)
    except Exception as e:  # noqa: BLE001
        return f"{desc(real)} ({type(e).__name__}) instead of {short(ref)}"
    b = np.asarray(ref)
    if a.shape != b.shape or not np.array_equal(a, b):
        return f"{a.tolist()} instead of {b.tolist()}"
    if isinstance(ref, np.ndarray) and hasattr(real, "dtype") and a.dtype != b.dtype:
        return f"{a.dtype} instead of {b.dtype}"
    if isinstance(ref, np.ndarray) and b.dtype in NUMPY_ONLY and not isinstance(real, np.ndarray):
        return f"a {type(real).__name__}"
    return None


def desc(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."


def leaf_diff(real, ref):
    """Compare a state leaf (container or array) with its reference."""
    if isinstance(ref, RVar):
        if type(real) is not KINDS[ref.kind]:
            return f"a {type(real).__name__} instead of {ref}"
        meta = {k: v for k, v in vars(real).items() if k != "value" and not (k == "sharding" and v is None)}
        if meta != ref.meta:
            return f"metadata {meta} instead of {ref.meta}"
        return value_diff(real.value, ref.value)
    if isinstance(real, nnx.Container):
        return f"a {type(real).__name__} instead of an array"
    return value_diff(real, ref)


def state_diff(real, ref):
    """Compare an nnx State with a reference state dict."""
    if not isinstance(real, nnx.State):
        return f"a {type(real).__name__} instead of a State"
    if list(real.keys()) != sorted(ref):
        return f"paths {list(real.keys())} instead of {sorted(ref)}"
    for p in ref:
        d = leaf_diff(real[p], ref[p])
        if d:
            return f"{p}: {d}"
    return None


def graph_diff(real, ref):
    """Compare a module graph with its reference, including sharing."""
    to_real, to_ref = {}, {}
    keep = []

    def go(m, r, path):
        if not isinstance(m, nnx.Module):
            return f"{path}: {desc(m)} instead of a module"
        if id(r) in to_real or id(m) in to_ref:
            if to_real.get(id(r)) is not m:
                return f"{path}: sharing differs"
            return None
        to_real[id(r)] = m
        to_ref[id(m)] = r
        keep.append(m)
        if type(m) is not r.cls:
            return f"{path}: {type(m).__name__} instead of {r.cls.__name__}"
        attrs = real_attrs(m)
        if set(attrs) != set(r.attrs):
            return f"{path}: attributes {sorted(attrs)} instead of {sorted(r.attrs)}"
        for n, v in r.attrs.items():
            a = attrs[n]
            p = f"{path}.{n}"
            if isinstance(v, RMod):
                d = go(a, v, p)
            elif isinstance(v, RVar):
                d = leaf_diff(a, v)
                if not d:
                    got = getattr(m, n)
                    d = value_diff(got, v.value)
                d = d and f"{p}: {d}"
            else:
                d = value_diff(getattr(m, n), v)
                d = d and f"{p}: {d}"
            if d:
                return d
        return None

    return go(real, ref, "root")


_POOL = {}


def arr(v, shape=()):
    """A jax array holding the number v (pooled: arrays are immutable)."""
    import jax
    import jax.numpy as jnp

    k = (v, shape)
    a = _POOL.get(k)
    if a is None:
        if len(_POOL) > 20000:
            _POOL.clear()
        with jax.ensure_compile_time_eval():  # a constant, also while something is traced
            a = _POOL[k] = jnp.asarray(np.full(shape, v, np.float32))
    return a


def refarr(v, shape=()):
    return np.full(shape, v, np.float32)


# arrays of these types stay numpy arrays
NUMPY_ONLY = (np.dtype(np.int64), np.dtype(np.float64))


def to_real(leaf):
    """Build the real value for a reference leaf."""
    if isinstance(leaf, RVar):
        return KINDS[leaf.kind](to_real(leaf.value), **leaf.meta)
    if is_array(leaf):
        if getattr(leaf, "dtype", None) in NUMPY_ONLY:
            return leaf.copy()
        if isinstance(leaf, np.ndarray) and leaf.dtype != np.float32:
            import jax.numpy as jnp

            return jnp.asarray(leaf)
        return arr(float(leaf.flat[0]), leaf.shape)
    if isinstance(leaf, tuple):
        return tuple(to_real(v) for v in leaf)
    if isinstance(leaf, dict):
        return {k: to_real(v) for k, v in leaf.items()}
    return leaf


def real_state(ref):
    return nnx.State({p: to_real(v) for p, v in ref.items()})
