"""C28: VariableFeatureMapper is a bijection between variables and blocks of features, and validate_schema checks types."""
from rv import libshim

PROPERTY = "C28"
INTERPRETER = "vt"
RULE = ("schemas of 0..12 variables of all types, any hashable names, cardinalities 1..30; every query (indices of one, of a list, a set, an iterator, names, feature index, types) "
        "is compared with a reference built from the schema. Distinct by schema; non-trivial with a categorical variable and another type")
NEED = {"schemas": 800, "indices_compared": 10000, "features_compared": 5000, "rejections": 300, "schemas_validated": 400}
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def schema_of(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if n is None else n
    pool = rng.choice([["v%d" % k for k in range(12)], list(range(12)), [("v", k) for k in range(12)], [frozenset([k]) for k in range(12)], [1.5, "a", ("t", 2), 7, "b b", "", ("n",), b"x", "A", "cat", "binary", -3],
                       ["a", "a_b", "a_b_c", "ab", "a_", "a__", "_", "", "__", "a b", "A_", "b_a"]])
    names = rng.sample(pool, n)
    return {v: rng.choice(["binary", "continuous", "count", "categorical:%d" % rng.choice([1, 2, 3, 5, 10, 30])]) for v in names}


def mapper(ctx, rng, i):
    from causalnex.structure.categorical_variable_mapper import VariableFeatureMapper

    schema = schema_of(rng)
    kept = dict(schema)
    m = ctx.call(VariableFeatureMapper, schema)
    ctx.count("schemas")
    kind = {v: t.split(":")[0] for v, t in schema.items()}
    size = {v: int(t.split(":")[1]) if ":" in t else 1 for v, t in schema.items()}
    total = sum(size.values())
    what = "schema %r" % schema
    ctx.check(m.n_variables == len(schema) and m.n_features == total, lambda: "%s: n_variables %r, n_features %r" % (what, m.n_variables, m.n_features))
    variables = m.variable_list
    ctx.check(len(variables) == len(schema) and set(variables) == set(schema), lambda: "%s: variable_list %r" % (what, variables))
    features = list(ctx.call(m.get_feature_names))
    ctx.check(len(features) == total and len(set(features)) == total, lambda: "%s: features %r" % (what, features))
    seen = set()
    for v in schema:
        indices = ctx.call(m.get_indices, v)
        ctx.count("indices_compared", len(indices))
        ctx.check(len(indices) == size[v] and not seen & set(indices) and all(0 <= k < total for k in indices), lambda: "%s: %r has indices %r" % (what, v, indices))
        seen |= set(indices)
        names = ctx.call(m.get_feature_names, v)
        squeezed = ctx.call(m.get_indices, v, squeeze=True)
        if kind[v] == "categorical":
            ctx.check(squeezed == indices, lambda: "%s: squeeze changes the indices of categorical %r" % (what, v))
            want = ["%s_%d" % (str(v), k) for k in range(size[v])] if not isinstance(v, tuple) else ["{}_{}".format(v, k) for k in range(size[v])]
            ctx.check(names == want, lambda: "%s: features of %r are %r" % (what, v, names))
            ctx.raises(ValueError, m.get_feature_index, v)
            ctx.count("rejections")
        else:
            ctx.check(squeezed == indices[0], lambda: "%s: squeezed index of %r is %r" % (what, v, squeezed))
            ctx.check(names == v and type(names) is type(v), lambda: "%s: feature of %r is %r" % (what, v, names))
            names = [names]
        for f, k in zip(names, indices):
            ctx.count("features_compared")
            ctx.check(features[k] == f and ctx.call(m.get_feature_index, f) == k, lambda: "%s: feature %r is at %r, not at %r" % (what, f, features.index(f), k))
        for t in ("binary", "continuous", "count", "categorical"):
            ctx.check(bool(ctx.call(m.is_var_of_type, v, t)) == (kind[v] == t), lambda: "%s: is %r %s?" % (what, v, t))
    ctx.check(seen == set(range(total)), what + ": indices are not 0..n_features-1")
    for t in ("binary", "continuous", "count", "categorical"):
        got = ctx.call(m.get_var_of_type, t)
        ctx.check(len(got) == len(set(got)) and set(got) == {v for v in schema if kind[v] == t}, lambda: "%s: %s variables are %r" % (what, t, got))
    groups = ctx.call(m.get_categorical_indices)
    ctx.check(sorted(map(sorted, groups)) == sorted(sorted(m.get_indices(v)) for v in schema if kind[v] == "categorical"), lambda: "%s: categorical groups %r" % (what, groups))
    # several variables at once, in order
    some = rng.sample(list(schema), rng.randint(0, len(schema)))
    want = [k for v in some for k in m.get_indices(v)]
    ctx.check(ctx.call(m.get_indices, list(some)) == want, lambda: "%s: indices of the list %r" % (what, some))
    ctx.check(ctx.call(m.get_indices, iter(some)) == want, lambda: "%s: indices of an iterator over %r" % (what, some))
    ctx.check(ctx.call(m.get_indices, (v for v in some)) == want, lambda: "%s: indices of a generator over %r" % (what, some))
    ctx.check(sorted(ctx.call(m.get_indices, set(some))) == sorted(want), lambda: "%s: indices of the set %r" % (what, some))
    import networkx as nx

    if schema:
        g = nx.DiGraph([(v, "child node") for v in some])
        g.add_node("child node")
        ctx.check(sorted(ctx.call(m.get_indices, g.predecessors("child node"))) == sorted(want), what + ": indices of the predecessors of a node")
    ctx.raises(ValueError, m.get_indices, "no such variable")
    ctx.raises(ValueError, m.get_indices, ["no such variable"])
    bad = rng.choice(["categorical:3", "Binary", "", "other"])
    ctx.raises(ValueError, m.get_var_of_type, bad)
    ctx.raises(ValueError, m.is_var_of_type, "x", bad)
    ctx.count("rejections", 4)
    ctx.check(list(ctx.call(m.get_feature_names)) == features and schema == kept, what + ": queries changed the mapper or the schema")
    ctx.case(repr(sorted(schema.items(), key=repr)), len(set(kind.values())) > 1 and "categorical" in kind.values(), {"schema": repr(schema)[:200]})


def validation(ctx, rng, i):
    from causalnex.structure.categorical_variable_mapper import validate_schema

    schema = schema_of(rng)
    nodes = [v for v in schema if rng.random() < 0.7] + rng.sample(["extra 1", "extra 2", ("extra", 3)], rng.randint(0, 3))
    rng.shuffle(nodes)
    default = rng.choice([None, "binary", "continuous", "count", "categorical:4"])
    import networkx as nx

    g = nx.DiGraph()
    g.add_nodes_from(nodes)
    given = rng.choice([list(nodes), tuple(nodes), set(nodes), g.nodes])
    kept = dict(schema)
    passed = None if not schema and rng.random() < 0.5 else schema
    kw = {} if default is None else {"default_type": default}
    got = ctx.call(validate_schema, given, schema=passed, **kw)
    ctx.count("schemas_validated")
    want = {v: schema.get(v, default or "continuous") for v in nodes}
    ctx.check(got == want, lambda: "nodes %r, schema %r, default %r: %r, should be %r" % (nodes, schema, default, got, want))
    ctx.check(schema == kept and got is not schema, "validate_schema changed the schema it was given")
    bad = rng.choice(["categorical", "categorical:", "categorical:0", "categorical:03", "categorical:x", "categorical:-2", "categorical: 3", "", "ordinal", "Binary", "3", "int", "categorical:00"])
    node = rng.choice(nodes) if nodes else "only node"
    which = rng.choice(["schema", "default"])
    if which == "schema":
        ctx.raises(ValueError, validate_schema, nodes or [node], schema=dict(schema, **{}) | {node: bad})
    elif "categorical" in bad:
        ctx.raises(ValueError, validate_schema, ["not in the schema"], default_type=bad, schema=schema)
    else:
        ctx.raises(ValueError, validate_schema, nodes, default_type=bad, schema=schema)
    ctx.count("rejections")
    # a bad type of a variable which is not among the nodes is ignored
    ctx.check(ctx.call(validate_schema, nodes, schema=dict(schema) | {"not a node": bad}, **kw) == want, "a type outside the nodes is not ignored")
    ctx.case((repr(sorted(want.items(), key=repr)), bad, which), bool(want), {"bad": bad, "nodes": repr(nodes)[:150]})


FAMILIES = {"mapper": (mapper, 450, 4000), "validation": (validation, 240, 2000)}
