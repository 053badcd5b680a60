"""C25: circuit layouts cover each requested interaction and round-trip."""
import json
from collections import Counter

from hypothesis import strategies as st

from pbt.core import label, raises, require, scratch, sub

TECHNIQUE = "property-based testing (Hypothesis): generated array sizes against an independent model of the two lattices, and round trips of generated layers"
ASSUMPTIONS = ["rows of up to 1025 qubits, arrays of up to 14 x 14 qubits and narrow ones of up to 80 in one direction; qubits are Python integers"]


def nearest(n):
    return {frozenset((i, i + 1)) for i in range(n - 1)}


def sycamore(x, y):
    """Every qubit of an odd row meets up to two qubits of the row above and of the row below: same column and next."""
    out = set()
    for row in range(1, y, 2):
        for other in (row - 1, row + 1):
            for col in range(x):
                for c in (col, col + 1):
                    if other < y and c < x:
                        out.add(frozenset((row * x + col, other * x + c)))
    return out


def check_layout(connectivity, layers, pairs, n, times, n_layers):
    got = [tuple(p) for p in connectivity.connectivity]
    allowed = set(got)
    require(all(len(set(p)) == 2 and all(0 <= q < n for q in p) for p in got), "a connection is not a pair of different qubits of the array", got)
    require(len(got) == len({frozenset(p) for p in got}), "a pair is connected twice", got)
    require({frozenset(p) for p in got} == pairs, "the connectivity is not the one the style promises", sorted(map(sorted, pairs)), got)
    require(len(layers.layers) == n_layers, "another number of layers", len(layers.layers), n_layers)
    count = Counter()
    for layer in layers.layers:
        qubits = [q for p in layer for q in p]
        require(len(qubits) == len(set(qubits)), "a layer uses a qubit twice", layer)
        count.update(frozenset(p) for p in layer)
        require(all(tuple(p) in allowed for p in layer), "a layer has a pair that is not in the connectivity", layer)
    require(set(count) == pairs, "layers miss pairs", sorted(map(sorted, pairs - set(count))), sorted(map(sorted, set(count) - pairs)))
    require(all(v == times for v in count.values()), "pairs do not appear equally often in the layers", {tuple(sorted(k)): v for k, v in count.items()})


@sub(
    st.tuples(st.sampled_from([n for n in range(41)] + [63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 513, 1000, 1025]), st.one_of(st.none(), st.integers(1, 5)), st.booleans()),
    quick=100,
    thorough=600,
    rule="at least three qubits, so both layers are in use",
    nt=lambda c: c[0] >= 3,
    examples=[(300, None, True), (150, 3, False), (0, None, True), (1, None, False), (2, None, False), (3, None, True)],
)
def nearest_neighbor(c):
    """Chains: two layers, every neighbouring pair once."""
    from zquantum.core.circuits.layouts import build_circuit_layers_and_connectivity as build

    n, y, default = c
    label("default" if default else "named")
    connectivity, layers = build(n, y) if default else build(n, y, layer_type="nearest-neighbor")
    check_layout(connectivity, layers, nearest(n), n, 1, 2)


@sub(
    st.one_of(
        st.tuples(st.integers(-1, 14), st.integers(-1, 14)),
        st.tuples(st.sampled_from([15, 16, 17, 31, 33, 80]), st.integers(1, 6)),
        st.tuples(st.integers(1, 6), st.sampled_from([15, 16, 17, 31, 33, 80])),
    ),
    quick=150,
    thorough=600,
    rule="at least two rows and two columns",
    nt=lambda c: min(c) >= 2,
    examples=[(1, 1), (1, 2), (2, 2), (3, 3), (4, 5), (0, 3), (3, 0), (-1, 2)],
)
def sycamore_layers(c):
    """Two-dimensional arrays: eight layers, every pair of the lattice in two of them; impossible arrays are rejected."""
    from zquantum.core.circuits.layouts import build_circuit_layers_and_connectivity as build

    x, y = c
    if x < 1 or y < 1:
        label("impossible")
        raises(Exception, lambda: build(x, y, "sycamore"), "an array without qubits was accepted")
        return
    label(f"rows {'even' if y % 2 == 0 else 'odd'}, columns {'even' if x % 2 == 0 else 'odd'}")
    connectivity, layers = build(x, y, "sycamore")
    check_layout(connectivity, layers, sycamore(x, y), x * y, 2, 8)


@sub(
    st.tuples(
        st.integers(0, 6),
        st.one_of(st.none(), st.integers(0, 6)),
        st.one_of(
            st.text(max_size=8),
            st.sampled_from(["Sycamore", "nearest_neighbor", "nearest-neighbors", "sycamore ", "", "all-to-all", None, 1]),
        ).filter(lambda s: s not in ("sycamore", "nearest-neighbor")),
    ),
    quick=60,
    thorough=200,
    rule="always: an unknown style",
    nt=lambda c: True,
)
def unknown(c):
    """Unknown styles and a two-dimensional style with one dimension are rejected."""
    from zquantum.core.circuits.layouts import build_circuit_layers_and_connectivity as build

    x, y, style = c
    raises(ValueError, lambda: build(x, y, style), "an unknown style was accepted")
    raises(Exception, lambda: build(x, layer_type="sycamore"), "a sycamore array with one dimension was accepted")


GROUP = st.lists(st.integers(0, 60), min_size=1, max_size=4, unique=True).map(tuple)


@sub(
    st.tuples(
        st.lists(st.lists(GROUP, max_size=4), max_size=4),
        st.lists(GROUP, max_size=6),
        st.permutations(list(range(8))).flatmap(lambda p: st.integers(0, 8).map(lambda k: list(p)[:k])),
    ),
    quick=120,
    thorough=800,
    rule="layers, connectivity and ordering all have something in them",
    nt=lambda c: any(c[0]) and c[1] and c[2],
)
def round_trips(c):
    """Layers, connectivity and orderings are the same after dictionaries, files by name and open files."""
    from zquantum.core.circuits import layouts as L

    layers, connections, ordering = c
    layers, connections = [[tuple(g) for g in x] for x in layers], [tuple(g) for g in connections]
    a, b = L.CircuitLayers([list(x) for x in layers]), L.CircuitConnectivity(list(connections))
    want_a, want_b = [list(x) for x in layers], list(connections)

    def same(x, y, how):
        require([list(l) for l in x.layers] == want_a, f"layers differ after {how}", x.layers)
        require(list(y.connectivity) == want_b, f"connectivity differs after {how}", y.connectivity)

    same(L.CircuitLayers.from_dict(a.to_dict()), L.CircuitConnectivity.from_dict(b.to_dict()), "dictionaries")
    # the dictionaries are JSON: groups come back as tuples
    same(
        L.CircuitLayers.from_dict(json.loads(json.dumps(a.to_dict()))),
        L.CircuitConnectivity.from_dict(json.loads(json.dumps(b.to_dict()))),
        "dictionaries as JSON",
    )
    with scratch() as d:
        fa, fb, fc = (f"{d}/{x}.json" for x in "abc")
        L.save_circuit_layers(a, fa)
        L.save_circuit_connectivity(b, fb)
        L.save_circuit_ordering(list(ordering), fc)
        same(L.load_circuit_layers(fa), L.load_circuit_connectivity(fb), "files by name")
        require(L.load_circuit_ordering(fc) == ordering, "the ordering differs after a file", ordering)
        with open(fa) as x, open(fb) as y, open(fc) as z:
            same(L.load_circuit_layers(x), L.load_circuit_connectivity(y), "open files")
            require(L.load_circuit_ordering(z) == ordering, "the ordering differs after an open file", ordering)
        # saving again over a longer file leaves nothing of it
        L.save_circuit_layers(L.CircuitLayers([]), fa)
        L.save_circuit_connectivity(L.CircuitConnectivity([]), fb)
        require(L.load_circuit_layers(fa).layers == [] and L.load_circuit_connectivity(fb).connectivity == [], "an overwritten file keeps old content")
    same(a, b, "saving: the object itself")
