"""C28: graph generation, encoding and comparison are faithful."""
import itertools
import json
import math
import random
import warnings

from hypothesis import strategies as st

from pbt.core import excluded, label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated graph specifications against structural models, round trips and comparisons of generated graphs"
ASSUMPTIONS = [
    "graphs of up to 60 nodes; node names are integers, strings and pairs of them; attributes are JSON values",
    "the number of edges of a random graph is accepted within 7 standard deviations",
]
F28 = "F28-compare-graphs-prefix"


def edges_of(g):
    """{frozenset of ends: attributes} of a simple graph."""
    return {frozenset((a, b)): dict(d) for a, b, d in g.edges(data=True)}


def same(a, b):
    """Full equality of two graphs: kind, nodes, edges and all attributes."""
    if a.is_directed() != b.is_directed() or a.is_multigraph() != b.is_multigraph():
        return "another kind of graph"
    if dict(a.nodes(data=True)) != dict(b.nodes(data=True)):
        return "other nodes"
    if list(a.nodes) != list(b.nodes):
        return "another order of nodes"
    if dict(a.graph) != dict(b.graph):
        return "other attributes of the graph"

    def table(g):
        key = (lambda u, v: (u, v)) if g.is_directed() else (lambda u, v: frozenset((u, v)))
        if g.is_multigraph():
            return {(key(u, v), k): d for u, v, k, d in g.edges(keys=True, data=True)}
        return {key(u, v): d for u, v, d in g.edges(data=True)}

    if table(a) != table(b):
        return "other edges"
    return None


# --- generation ------------------------------------------------------------------------------


@st.composite
def samplers(draw):
    k = draw(st.sampled_from(["default", "constant", "uniform", "uniform01", "choice", "normal", "count"]))
    if k == "constant":
        return [k, draw(st.sampled_from([-1, 0, 2.5, 1, 1 / 3, 1e-11]))]
    if k == "uniform":
        a = draw(st.integers(-20, 20)) / 4
        return [k, a, a + draw(st.integers(0, 12)) / 4]
    if k == "choice":
        return [k, draw(st.lists(st.sampled_from([-1, 1, 2, 6, 0.5, 3, 1 / 3, 2**0.5, 1e-11]), min_size=1, max_size=4))]
    if k == "normal":
        return [k, draw(st.sampled_from([0.0, 2.0, -30.0])), draw(st.sampled_from([0.0, 0.1, 1.0]))]
    return [k]


def make_sampler(s):
    from zquantum.core import graph as G

    k = s[0]
    if k == "default":
        return {}
    return {
        "weight_sampler": {
            "constant": lambda: G.constant_sampler(s[1]),
            "uniform": lambda: G.uniform_sampler(s[1], s[2]),
            "uniform01": lambda: G.uniform_sampler(),
            "choice": lambda: G.choice_sampler(s[1]),
            "normal": lambda: G.normal_sampler(s[1], s[2]),
            "count": lambda: itertools.count(10),
        }[k]()
    }


def admissible(s, w):
    k = s[0]
    if k == "default":
        return w == 1.0
    if k == "constant":
        return w == s[1]
    if k in ("uniform", "uniform01"):
        lo, hi = (s[1], s[2]) if k == "uniform" else (0, 1)
        return lo <= w <= hi
    if k == "choice":
        return w in s[1]
    if k == "normal":
        return abs(w - s[1]) <= 9 * s[2]
    return w >= 10


@st.composite
def specs(draw):
    kind = draw(st.sampled_from(["erdos_renyi", "erdos_renyi", "regular", "regular", "complete", "caveman", "ladder", "barbell"]))
    n = draw(st.one_of(st.integers(0, 12), st.sampled_from([20, 33, 60])))
    out = {"kind": kind, "sampler": draw(samplers()), "seed": draw(st.one_of(st.none(), st.integers(0, 2**32))), "from_specs": draw(st.booleans())}
    if kind == "erdos_renyi":
        out["args"] = [n, draw(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.9, 0.25]))]
    elif kind == "complete":
        out["args"] = [min(n, 20)]
    elif kind == "regular":
        out["args"] = [n, draw(st.integers(0, min(n, 6)))]
    elif kind == "caveman":
        out["args"] = [draw(st.integers(1, 6)), draw(st.integers(1, 6))]
    elif kind == "ladder":
        out["args"] = [draw(st.integers(1, 12))]
    else:
        out["args"] = [draw(st.integers(2, 9))]
    return out


def expected(kind, args):
    """The structure of a kind that has just one: a dictionary node -> neighbours."""
    def build(n, pairs):
        adj = {i: set() for i in range(n)}
        for a, b in pairs:
            adj[a].add(b)
            adj[b].add(a)
        return adj

    if kind == "complete":
        return build(args[0], itertools.combinations(range(args[0]), 2))
    if kind == "caveman":
        k = args[1]
        return build(args[0] * k, [(c * k + i, c * k + j) for c in range(args[0]) for i, j in itertools.combinations(range(k), 2)])
    n = args[0]
    if kind == "ladder":
        return build(2 * n, [(i, i + 1) for i in range(n - 1)] + [(n + i, n + i + 1) for i in range(n - 1)] + [(i, n + i) for i in range(n)])
    pairs = list(itertools.combinations(range(n), 2))
    return build(2 * n, pairs + [(n + a, n + b) for a, b in pairs] + [(n - 1, n)])


def generate(c, fresh=True):
    from zquantum.core import graph as G

    kw = make_sampler(c["sampler"])
    if c["seed"] is not None:
        kw["seed"] = c["seed"]
    f = {
        "erdos_renyi": G.generate_random_graph_erdos_renyi,
        "regular": G.generate_random_regular_graph,
        "complete": lambda n, **k: G.generate_random_graph_erdos_renyi(n, 1.0, **k),
        "caveman": G.generate_caveman_graph,
        "ladder": G.generate_ladder_graph,
        "barbell": G.generate_barbell_graph,
    }[c["kind"]]
    return f(*c["args"], **kw)


def generate_from_specs(c):
    """The deprecated generator that takes a dictionary; it offers constant and uniform weights only."""
    from zquantum.core import graph as G

    names = {
        "erdos_renyi": ["num_nodes", "probability"],
        "regular": ["num_nodes", "degree"],
        "complete": ["num_nodes"],
        "caveman": ["number_of_cliques", "size_of_cliques"],
        "ladder": ["length_of_ladder"],
        "barbell": ["number_of_vertices_complete_graph"],
    }[c["kind"]]
    d = {"type_graph": c["kind"], **dict(zip(names, c["args"]))}
    d.setdefault("num_nodes", len(expected(c["kind"], c["args"])) if c["kind"] not in ("erdos_renyi", "regular") else 0)
    if c["sampler"][0] == "uniform01":
        d["random_weights"] = True
    elif len(c["args"]) % 2:
        d["random_weights"] = False
    if c["seed"] is not None:
        d["seed"] = c["seed"]
    before = json.dumps(d, sort_keys=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = G.generate_graph_from_specs(d)
    require(json.dumps(d, sort_keys=True) == before, "the specification was changed")
    return g


def check_structure(c, g):
    kind, args = c["kind"], c["args"]
    require(not g.is_directed() and not g.is_multigraph(), "not a simple graph")
    adj = {v: set(g[v]) for v in g}
    m = g.number_of_edges()
    require(all(v not in adj[v] for v in adj), "an edge from a node to itself")
    if kind in ("erdos_renyi", "regular"):
        require(set(adj) == set(range(args[0])), "other nodes than requested", args[0], sorted(adj))
    if kind == "regular":
        require(all(len(a) == args[1] for a in adj.values()), "not regular", {v: len(a) for v, a in adj.items()})
    elif kind == "erdos_renyi":
        pairs = args[0] * (args[0] - 1) // 2
        p = args[1]
        dev = 7 * math.sqrt(pairs * p * (1 - p)) + (4 if 0 < p < 1 else 0)
        require(abs(m - p * pairs) <= dev, "the number of edges does not fit the probability", pairs, p, m)
    else:
        import networkx as nx

        want = expected(kind, args)
        require(len(adj) == len(want), "another number of nodes", len(want), len(adj))
        require(set(adj) == set(want), "nodes are not numbered from 0", sorted(adj))
        if adj != want:  # the same structure under other numbers is fine
            h = nx.Graph([(a, b) for a in want for b in want[a]])
            h.add_nodes_from(want)
            require(nx.is_isomorphic(nx.Graph(g), h), "another structure", adj)


@sub(
    specs(),
    quick=350,
    thorough=4000,
    rule="the graph has at least two edges",
    nt=lambda c: c["kind"] != "erdos_renyi" or c["args"][0] > 3 and c["args"][1] > 0,
    examples=[
        {"kind": k, "args": a, "sampler": [w], "seed": s, "from_specs": True}
        for k, a in (("erdos_renyi", [6, 0.9]), ("regular", [6, 3]), ("complete", [5]), ("caveman", [2, 3]), ("ladder", [4]), ("barbell", [3]))
        for w in ("uniform01", "default")
        for s in (0, 5, None)
    ]
    + [
        {"kind": "regular", "args": [5, 3], "sampler": ["default"], "seed": 1, "from_specs": False},
        {"kind": "regular", "args": [4, 4], "sampler": ["default"], "seed": 1, "from_specs": True},
        {"kind": "complete", "args": [4], "sampler": ["count"], "seed": None, "from_specs": False},
        {"kind": "caveman", "args": [2, 3], "sampler": ["uniform01"], "seed": 0, "from_specs": True},
    ],
)
def generation(c):
    """Structure and weights of generated graphs, and reproducibility under a seed."""
    from zquantum.core import graph as G

    kind, args = c["kind"], c["args"]
    specs_too = c["from_specs"] and c["sampler"][0] in ("default", "uniform01")
    make = generate_from_specs if specs_too else generate
    label(f"{kind}{' from specs' if specs_too else ''}, {c['sampler'][0]} weights, {'seed' if c['seed'] is not None else 'no seed'}")
    random.seed(4711)
    if kind == "regular" and (args[0] * args[1] % 2 or not args[1] < args[0]):
        raises(Exception, lambda: make(c), "an impossible regular graph was generated")
        return
    g = make(c)
    check_structure(c, g)
    weights = [d.get("weight") for _, _, d in g.edges(data=True)]
    require(all(set(d) == {"weight"} for _, _, d in g.edges(data=True)), "an edge has no weight, or other attributes")
    require(all(admissible(c["sampler"], w) for w in weights), "a weight is not admissible", c["sampler"], weights)
    if c["sampler"][0] == "count":
        require(sorted(weights) == list(range(10, 10 + len(weights))), "weights are not one sample per edge", weights)
    if c["sampler"][0] == "uniform01" and len(weights) > 1:
        require(len(set(weights)) == len(weights), "edges share one random weight", weights)
    nodes = G.generate_graph_node_dict(g)
    require(list(nodes.items()) == [(v, i) for i, v in enumerate(g.nodes)], "the dictionary of nodes is not node to position", nodes)
    if c["seed"] is not None:
        random.seed(99)
        random.random()
        h = make(c)
        require(same(g, h) is None, f"not reproducible under a seed: {same(g, h)}", c["seed"])
        if specs_too:
            d = generate(c)
            require(same(g, d) is None, f"the graph from specifications is not the one of the generator: {same(g, d)}")
    else:
        # without a seed, the state of the global generator decides
        random.seed(4711)
        h = make(c)
        require(same(g, h) is None or kind in ("erdos_renyi", "regular"), "weights do not follow the global random state")


@sub(
    st.tuples(st.text(max_size=10), st.integers(0, 5)),
    quick=20,
    thorough=100,
    rule="always: an unknown kind",
    nt=lambda c: True,
    examples=[("Regular", 3), ("star", 3), ("", 0)],
)
def unknown(c):
    """Unknown kinds are rejected."""
    from zquantum.core import graph as G

    kind, n = c
    if kind in ("erdos_renyi", "regular", "complete", "caveman", "ladder", "barbell"):
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        raises(NotImplementedError, lambda: G.generate_graph_from_specs({"type_graph": kind, "num_nodes": n, "probability": 0.5, "degree": 0}), "an unknown kind was accepted")


# --- saving and comparing --------------------------------------------------------------------

NODE = st.one_of(st.integers(-3, 12), st.sampled_from(["a", "b", "node 1", "0", "é", ""]), st.tuples(st.integers(0, 2), st.integers(0, 2)))
VALUE = st.one_of(st.integers(-5, 5), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=4), st.none(), st.booleans())
ATTR = st.dictionaries(st.sampled_from(["weight", "label", "x"]), VALUE, max_size=2)


@st.composite
def graphs(draw, kinds=("Graph", "Graph", "DiGraph", "MultiGraph", "MultiDiGraph"), attrs=True):
    nodes = draw(st.lists(st.integers(0, 8) if draw(st.booleans()) else NODE, min_size=1, max_size=7, unique_by=repr))
    attr = ATTR if attrs else st.just({})
    edge = st.tuples(st.sampled_from(nodes), st.sampled_from(nodes), attr)
    return {
        "kind": draw(st.sampled_from(kinds)),
        "nodes": [[v, draw(attr)] for v in nodes],
        "edges": [list(e) for e in draw(st.lists(edge, min_size=draw(st.sampled_from([0, 2, 4])), max_size=9))],
        "graph": draw(st.dictionaries(st.sampled_from(["name", "seed"]), VALUE, max_size=2)) if attrs else {},
    }


def build(c):
    import networkx as nx

    fix = lambda v: tuple(v) if isinstance(v, list) else v  # noqa: E731
    g = getattr(nx, c["kind"])(**c["graph"])
    for v, d in c["nodes"]:
        g.add_node(fix(v), **d)
    for a, b, d in c["edges"]:
        g.add_edge(fix(a), fix(b), **d)
    return g


@sub(
    graphs(),
    quick=250,
    thorough=3000,
    rule="the graph has two edges or more, and attributes",
    nt=lambda c: len(c["edges"]) >= 2 and any(e[2] for e in c["edges"]),
    examples=[{"kind": "Graph", "nodes": [[5, {}]], "edges": [], "graph": {}}, {"kind": "Graph", "nodes": [[0, {}], [1, {}]], "edges": [[1, 0, {"weight": 0.1}]], "graph": {}}],
)
def round_trips(c):
    """Graphs are equal after being saved and loaded, by file name and through open files."""
    from zquantum.core import graph as G

    g, twin = build(c), build(c)
    with scratch() as d:
        f = f"{d}/graph.json"
        with open(f, "w") as h:
            h.write("x" * 5000)
        G.save_graph(g, f)
        require(same(g, twin) is None, "saving changed the graph")
        with open(f) as h:
            require(json.load(h).get("schema", "").endswith("-graph"), "the file does not name its schema")
        back = G.load_graph(f)
        require(same(back, g) is None, f"after a file by name: {same(back, g)}", g.nodes(data=True), back.nodes(data=True), g.edges(data=True), back.edges(data=True))
        with open(f) as h:
            require(same(G.load_graph(h), g) is None, "after an open file")
        with open(f"{d}/b.json", "w") as h:
            G.save_graph(back, h)
        with open(f) as a, open(f"{d}/b.json") as b:
            require(a.read() == b.read(), "saving what was loaded gives another file")
    if not g.is_multigraph() and not g.is_directed():
        require(G.compare_graphs(g, back) is True, "a graph is said to differ from itself after a round trip")


@sub(
    st.tuples(graphs(kinds=("Graph",), attrs=False), st.sampled_from(["copy", "edge", "node", "move", "extra", "reorder", "weight", "other", "rename"]), st.integers(0, 10**6)),
    quick=300,
    thorough=3000,
    rule="the graphs have two edges or more",
    nt=lambda c: len(c[0]["edges"]) >= 2,
)
def comparison(c):
    """Comparing graphs: the same exactly when nodes, edges and weights coincide."""
    from zquantum.core import graph as G

    d, change, seed = c
    r = random.Random(seed)
    e = json.loads(json.dumps(d))
    if change == "edge" and e["edges"]:
        e["edges"].pop(r.randrange(len(e["edges"])))
    elif change == "node":
        e["nodes"] = [x for x in e["nodes"] if x != e["nodes"][r.randrange(len(e["nodes"]))]]
        keep = [x[0] for x in e["nodes"]]
        e["edges"] = [x for x in e["edges"] if x[0] in keep and x[1] in keep]
    elif change == "move" and e["edges"]:
        i = r.randrange(len(e["edges"]))
        e["edges"][i][r.randrange(2)] = r.choice(e["nodes"])[0]
    elif change == "extra":
        e["edges"].append([r.choice(e["nodes"])[0], r.choice(e["nodes"])[0], {}])
    elif change == "reorder":
        r.shuffle(e["edges"])
        r.shuffle(e["nodes"])
    elif change == "weight" and e["edges"]:
        r.choice(e["edges"])[2]["weight"] = 0.25
    elif change == "rename":
        v = r.choice(e["nodes"])[0]
        f = lambda x: "new" if x == v else x  # noqa: E731
        e["nodes"] = [[f(x), a] for x, a in e["nodes"]]
        e["edges"] = [[f(a), f(b), w] for a, b, w in e["edges"]]
    elif change == "other":
        vs = [x[0] for x in e["nodes"]]
        e["edges"] = [[r.choice(vs), r.choice(vs), {}] for _ in e["edges"]]
    g, h = build(d), build(e)
    equal = dict(g.nodes(data=True)) == dict(h.nodes(data=True)) and edges_of(g) == edges_of(h)
    structure = set(g.nodes) == set(h.nodes) and set(edges_of(g)) == set(edges_of(h))
    for a, b in ((g, h), (h, g)):
        got = G.compare_graphs(a, b)
        require(got in (True, False), "not an answer", got)
        if bool(got) == equal:
            label("same" if equal else "different")
            continue
        # known: only the common beginning of the two sequences of nodes and of edges is compared, and no weights
        prefix = all(x == y for x, y in zip(a.nodes, b.nodes)) and all(x == y for x, y in zip(a.edges, b.edges))
        shorter = len(a) != len(b) or a.number_of_edges() != b.number_of_edges()
        if got:
            require(prefix and (shorter or structure), "different graphs are said to be the same", d, e)
        else:
            require(list(a.nodes) != list(b.nodes) or list(a.edges) != list(b.edges), "equal graphs are said to differ", d, e)
        label("known finding")
        excluded(F28)
    require(G.compare_graphs(g, build(d)) is True, "a graph is said to differ from its copy")
