"""C16: the coefficient container behaves as a map from degree and order to values."""
import hypothesis.strategies as st
import numpy as np
import re

from vlib import gen
from vlib.harness import facet, require

ORACLE = "stateful operation sequences against a dictionary model"
RULE = ("A case is a number of components, a default value and 1-25 operations (append, set, get, has, export, and derived sets: copy, empty and zero sets, sum, multiple, "
        "truncation, power, scaling) with valid and invalid arguments on a growing list of sets; every set is compared with its model after every operation. "
        "Non-trivial: at least three operations that store a value.")
ASSUMPTIONS = ["degree and order are integers (built-in or numpy)", "a refused operation raises an exception", "Python runs with assertions enabled"]


def lm():
    good = st.integers(0, 5).flatmap(lambda l: st.tuples(st.just(l), st.integers(-l, l)))
    bad = st.tuples(st.integers(-2, 3), st.integers(-6, 6))
    far = st.sampled_from([(7, -7), (9, 4), (12, -12), (12, 11), (15, -1), (20, 20), (31, -30), (31, 0), (64, 2)])
    return st.one_of(good, good, good, good, bad, far)


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    ops = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["append"] * 5 + ["set"] * 4 + ["get"] * 2 + ["has", "arrays", "copy", "empty_like", "zeros_like", "add", "sub", "multiply",
                               "truncated", "power", "scale", "mutate_default", "from_arrays"]),
        "target": st.integers(0, 20), "other": st.integers(0, 20), "lm": lm(),
        "v": st.lists(gen.small_float(), min_size=8, max_size=8), "k": st.integers(-3, 6),
        "shape": st.sampled_from(["right"] * 6 + ["right", "right", "right", "right", "wrong", "scalar", "column"]),
        "numpy": st.booleans(), "reuse": st.booleans()}), min_size=draw(st.sampled_from([1, 6, 12])), max_size=25))
    return {"n": n, "default": draw(st.sampled_from(["zero", "zero", "zero", "scalar", "value", "real", "int"])), "ops": ops}


def values(op, n):
    z = gen.complex_values(op["v"])
    return z[:n]


def check(obj, model, n, what, default):
    keys = sorted(model)
    require(obj.size == len(keys), "%s: size %s, expected %s", what, obj.size, len(keys))
    items = list(obj.contents())
    require([k for k, _ in items] == keys, "%s: iteration gives %s, expected %s", what, [k for k, _ in items], keys)
    for k, v in items:
        require(np.array_equal(v, model[k]), "%s: %s holds %s, expected %s", what, k, v, model[k])
        require(obj.has(*k), "%s: has%s is false", what, k)
        require(np.array_equal(obj.get(*k), model[k]), "%s: get%s is %s, expected %s", what, k, obj.get(*k), model[k])
    require(obj.degree_max == max([l for l, m in keys] + [0]), "%s: degree_max %s", what, obj.degree_max)
    require(obj.order_min == min([m for l, m in keys] + [0]), "%s: order_min %s", what, obj.order_min)
    require(np.array_equal(obj.default_coefficients, default), "%s: default %s", what, obj.default_coefficients)
    for l in range(0, 8):
        for m in (-l, 0, l):
            if (l, m) not in model:
                require(not obj.has(l, m), "%s: has (%d, %d)", what, l, m)
                require(np.array_equal(obj.get(l, m), default), "%s: unset (%d, %d) is %s", what, l, m, obj.get(l, m))
    require(isinstance(repr(obj), str), "no text")
    listed = [(int(a), int(b)) for a, b in re.findall(r"^ *(-?\d+), *(-?\d+),", str(obj), re.M)]
    require(not keys or listed == keys, "%s: the text lists %s, expected %s", what, listed, keys)


def labels(c):
    for op in c["ops"]:
        yield op["op"] + ("" if op["op"] not in ("append", "set") or op["shape"] == "right" else "-" + op["shape"])


@facet("histories", case, quick=400, thorough=40000, labels=labels,
       nontrivial=lambda c: sum(o["op"] in ("append", "set") and o["shape"] == "right" and abs(o["lm"][1]) <= o["lm"][0] for o in c["ops"]) >= 3)
def histories(c):
    from starwinds_magnetogram import coefficients as shc
    n = c["n"]
    default = np.zeros(n, complex)
    if c["default"] == "value":
        default += np.arange(1, n + 1) * (1.5 - 0.5j)
    if c["default"] == "scalar" and n == 1:
        objs = [shc.Coefficients()]
    else:
        objs = [shc.Coefficients({"real": default.real.copy(), "int": default.real.astype(int)}.get(c["default"], default.copy()))]
    models = [{}]
    held = []
    # Every operation here works on exact arithmetic where the model does the same operation.
    for i, op in enumerate(c["ops"]):
        t, u = op["target"] % len(objs), op["other"] % len(objs)
        obj, model = objs[t], models[t]
        what = "after operation %d (%s)" % (i, op["op"])
        l, m = op["lm"]
        kind = op["op"]
        if c["default"] == "value" and kind in ("zeros_like", "add", "sub", "multiply", "power", "scale", "from_arrays"):
            continue                            # What arithmetic makes of a default other than zero is not specified.
        if kind in ("append", "set"):
            data = values(op, n)
            ok = abs(m) <= l
            if op["shape"] == "wrong":
                data, ok = np.concatenate([data, [1.0]]), False
            elif op["shape"] == "column":
                data, ok = data.reshape(n, 1), False
            elif op["shape"] == "scalar":
                data = complex(data[0])
                ok = ok and n == 1
            if kind == "append" and (l, m) in model:
                ok = False
            key = (np.int64(l), np.int64(m)) if op["numpy"] else (l, m)
            try:
                getattr(obj, kind)(key[0], key[1], data)
            except Exception:
                require(not ok, "%s(%d, %d) of shape %s was refused", kind, l, m, np.shape(data))
            else:
                require(ok, "%s(%d, %d) of shape %s was accepted; present: %s", kind, l, m, np.shape(data), (l, m) in model)
                model[(l, m)] = np.array(np.atleast_1d(data), dtype=complex)
                if isinstance(data, np.ndarray):
                    data[...] = 1234.0          # What the caller does with its array later does not matter.
        elif kind == "get":
            got = obj.get(l, m)
            if (l, m) not in model:
                got += 3                        # The default is not shared.
        elif kind == "has":
            require(obj.has(l, m) == ((l, m) in model), "has(%d, %d) is wrong", l, m)
        elif kind == "mutate_default":
            d = obj.default_coefficients
            d += 1
        elif kind == "arrays":
            top = op["k"] + 3
            ls, ms, vs = obj.as_arrays(degree_l_max=top)
            every = [(a, b) for a in range(top + 1) for b in range(-a, a + 1)]
            require([(int(a), int(b)) for a, b in zip(ls, ms)] == every, "%s: export up to degree %d lists %s", what, top, list(zip(ls, ms)))
            require(np.array_equal(vs, [model.get(k, default) for k in every]), "%s: export of unset elements gives %s", what, vs)
            vs[...] = 55.0
            if model:
                ls, ms, vs = obj.as_arrays(include_unset=False)
                require([(int(a), int(b)) for a, b in zip(ls, ms)] == sorted(model), "%s: exported %s", what, list(zip(ls, ms)))
                require(all(np.array_equal(v, model[(int(a), int(b))]) for a, b, v in zip(ls, ms, vs)), "%s: exported values differ", what)
                if op["reuse"]:
                    vs[...] = 77.0
        elif kind == "from_arrays":
            if model:
                ls, ms, vs = obj.as_arrays(include_unset=False)
                objs.append(shc.from_arrays(ls, ms, vs))
                models.append(dict(model))
                vs[...] = -5.0
        else:
            if kind == "copy":
                new, nm = obj.copy(), dict(model)
            elif kind == "empty_like":
                new, nm = shc.empty_like(obj), {}
            elif kind == "zeros_like":
                new, nm = shc.zeros_like(obj), {k: np.zeros(n, complex) for k in model}
            elif kind in ("add", "sub"):
                new = obj + objs[u] if kind == "add" else obj - objs[u]
                sign = 1 if kind == "add" else -1
                zero = np.zeros(n, complex)
                nm = {k: model.get(k, zero) + sign * models[u].get(k, zero) for k in set(model) | set(models[u])}
            elif kind == "multiply":
                new, nm = obj * op["k"], {k: v * op["k"] for k, v in model.items()}
            elif kind == "truncated":
                new, nm = obj.truncated(op["k"]), {k: v for k, v in model.items() if k[0] <= op["k"]}
            elif kind == "power":
                new, nm = obj ** 2, {k: v ** 2 for k, v in model.items()}
            elif kind == "scale":
                new, nm = obj.scale(lambda a, b: 2.0 ** a + b), {k: v * (2.0 ** k[0] + k[1]) for k, v in model.items()}
            if any(not np.all(np.isfinite(v)) or np.any(np.abs(v) > 1e100) for v in nm.values()):
                continue
            # Adopt the derived values (checked to rounding here); later changes must not leak between sets.
            got = gen.contents(new)
            require(set(got) == set(nm), "%s: elements %s, expected %s", what, sorted(got), sorted(nm))
            for k in nm:
                require(gen.close(got[k], nm[k], np.abs(nm[k]) + 1e-300 + (np.abs(model.get(k, 0)) + np.abs(models[u].get(k, 0)) if kind in ("add", "sub") else 0), 1e-12),
                        "%s: %s is %s, expected %s", what, k, got[k], nm[k])
            objs.append(new)
            models.append(got)
        require(all(np.array_equal(v, w) for v, w in held), "%s: values obtained earlier changed", what)
        if n:
            for key, v in objs[t].contents():
                if len(held) < 60:
                    held.append((v, v.copy()))
            v = objs[t].get(l, m) if abs(m) <= l else np.zeros(1)
            if len(held) < 60:
                held.append((v, v.copy()))
        for k, (o, mod) in enumerate(zip(objs, models)):
            check(o, mod, n, what + ", set %d" % k, default)


def large_set():
    return st.fixed_dictionaries({"n": st.integers(1, 3), "top": st.integers(10, 70), "seed": st.integers(0, 10 ** 6), "sparse": st.sampled_from([1.0, 0.7]), "shuffle": st.booleans(), "replace": st.integers(0, 40)})


@facet("large", large_set, quick=10, thorough=800, labels=lambda c: ["elements>=%d" % (c["top"] ** 2 * c["sparse"] // 1000 * 1000)],
       examples=[{"n": 2, "top": 65, "seed": 3, "sparse": 1.0, "shuffle": s, "replace": 20} for s in (True, False)])
def large(c):
    """Sets of thousands of elements, added in any order, some of them replaced."""
    from starwinds_magnetogram import coefficients as shc
    n = c["n"]
    obj, model = shc.Coefficients(np.zeros(n, complex)), {}
    rows = gen.full_set(n, 0, c["top"], True, c["seed"], 1.0, False, c["shuffle"], c["sparse"])
    rng = np.random.default_rng(c["seed"])
    for i, (l, m, flat) in enumerate(rows):
        value = gen.complex_values(flat)
        (obj.append if i % 2 else obj.set)(l, m, value)
        model[l, m] = value
    check(obj, model, n, "after adding", np.zeros(n, complex))
    for i in rng.integers(0, len(rows), c["replace"]):
        l, m = rows[i][:2]
        model[l, m] = np.full(n, 1.0 + i)
        obj.set(l, m, model[l, m])
        try:
            obj.append(l, m, np.ones(n))
        except Exception:
            continue
        require(False, "(%d, %d) was appended twice", l, m)
    check(obj, model, n, "after replacing", np.zeros(n, complex))
    copy = obj.copy()
    obj.set(*rows[0][:2], np.full(n, 5.0))
    check(copy, model, n, "copy", np.zeros(n, complex))
