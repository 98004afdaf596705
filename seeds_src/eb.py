"""Changes to the exact-inference engine with demonstrations."""
UTIL = '''
import itertools, random


def network(seed, parents, card=2, labels=None):
    """conditionals for {node: [parents]}; every table strictly positive"""
    rng = random.Random(seed)
    states = {n: (labels or {}).get(n, list(range(card))) for n in parents}
    conds = {}
    for n, ps in parents.items():
        rows = []
        for combo in itertools.product(*[states[p] for p in ps]):
            w = [rng.uniform(0.05, 1) for _ in states[n]]
            t = sum(w)
            rows.append([[[p, v] for p, v in zip(ps, combo)], {s: x / t for s, x in zip(states[n], w)}])
        conds[n] = rows
    return conds, states


def exact(conds, states, evidence):
    names = sorted(states)
    tab = {n: {tuple(sorted(map(tuple, g))): row for g, row in rows} for n, rows in conds.items()}
    tot, out = 0.0, {(n, s): 0.0 for n in names for s in states[n]}
    for combo in itertools.product(*[states[n] for n in names]):
        a = dict(zip(names, combo))
        if any(a[k] != v for k, v in evidence.items()):
            continue
        p = 1.0
        for n in names:
            g = [k for k in tab[n]][0]
            key = tuple(sorted((x, a[x]) for x, _ in g))
            p *= tab[n][key][a[n]]
        tot += p
        for n in names:
            out[(n, a[n])] += p
    return {k: v / tot for k, v in out.items()}


def differ(got, want):
    return [k for k in want if k not in got or not abs(got[k] - want[k]) < 1e-9]


CHAIN5 = {"a": [], "b": ["a"], "c": ["b"], "d": ["c"], "e": ["d"]}
TREE = {"a": [], "b": ["a"], "c": ["a"], "d": ["b"], "e": ["b"], "f": ["c"], "g": ["c"]}
LOOPY = {"a": [], "b": ["a"], "c": ["a"], "d": ["b", "c"], "e": ["d", "a"], "f": ["b", "e"]}
STAR = {"a": [], "b": [], "c": [], "d": [], "e": ["a", "b", "c", "d"], "f": ["e"]}
'''
F = {"util.py": UTIL}
BB = "ebaybbn/bbn.py"
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks, also=(), file=BB):
    if isinstance(edits, list):
        edits = {file: edits}
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=F, also=list(also)))


CMP = '''
import sys
from util import *
from causalnex.ebaybbn import build_bbn_from_conditionals
bad = 0
for name, par, card, evs in %s:
    for sd in range(%d):
        conds, states = network(sd, par, card)
        bbn = build_bbn_from_conditionals(conds)
        for ev in evs:
            d = differ(bbn.query(**ev), exact(conds, states, ev))
            if d:
                bad += 1
                print(name, "seed", sd, "evidence", ev, "wrong marginals", d[:3])
sys.exit(1 if bad else 0)
'''

seed("c01-domain-setdefault", "C01",
     [("domain = bbn.domains.get(variable, [True, False])\n", "domain = bbn.domains.setdefault(variable, [True, False])\n")],
     '''
import copy, sys
from causalnex.ebaybbn.bbn import build_bbn
def f_rain(rain):
    return 0.2 if rain else 0.8
def f_wet(rain, wet):
    return {(True, True): 0.9, (True, False): 0.1, (False, True): 0.3, (False, False): 0.7}[(rain, wet)]
g = build_bbn(f_rain, f_wet)
before = copy.deepcopy(g.domains)
g.query()
print(before, g.domains)
sys.exit(0 if g.domains == before else 1)
''',
     "a network with a variable that has no declared domain", "a query adds entries to the network's domains")

seed("c01-reuse-tree", "C01",
     [("    def build_join_tree(self):\n        jt = build_join_tree(self)\n        return jt\n",
       "    def build_join_tree(self):\n        if getattr(self, \"_join_tree\", None) is None:\n            self._join_tree = build_join_tree(self)\n        return self._join_tree\n")],
     '''
import sys
from util import *
from causalnex.ebaybbn import build_bbn_from_conditionals
conds, states = network(3, LOOPY)
bbn = build_bbn_from_conditionals(conds)
bbn.query()
bbn.nodes[0].func, old = (lambda *a: 1.0), bbn.nodes[0].func
bbn.nodes[0].func = old
keys = set(vars(bbn))
j1, j2 = bbn.build_join_tree(), bbn.build_join_tree()
shared = {id(n) for n in j1.nodes} & {id(n) for n in j2.nodes}
print("shared inference nodes:", len(shared))
sys.exit(1 if shared else 0)
''',
     "two join trees taken from the same network", "join trees handed out share their mutable nodes, so one query's tables are another's")

seed("c05-moral-consecutive", "C05",
     [("        for parent_1, parent_2 in combinations(node.parents, 2):\n", "        for parent_1, parent_2 in zip(node.parents, node.parents[1:]):\n")],
     '''
import sys
from util import *
from causalnex.ebaybbn import build_bbn_from_conditionals
from causalnex.ebaybbn.bbn import make_undirected_copy, make_moralized_copy
conds, states = network(0, STAR)
bbn = build_bbn_from_conditionals(conds)
gm = make_moralized_copy(make_undirected_copy(bbn), bbn)
adj = {n.variable_name: {m.variable_name for m in n.neighbours} for n in gm.nodes}
miss = [(a, b) for a in "abcd" for b in "abcd" if a != b and b not in adj[a]]
print("missing moral edges", miss)
sys.exit(1 if miss else 0)
''',
     "a node with three or more parents", "parents that are not consecutive in the parent list are not joined")

seed("c05-fill-in-one-way", "C05",
     [("            if node_a not in node_b.neighbours:\n                node_b.neighbours.append(node_a)\n                node_a.neighbours.append(node_b)\n",
       "            if node_a not in node_b.neighbours:\n                node_b.neighbours.append(node_a)\n                if len(cluster) < 5:\n                    node_a.neighbours.append(node_b)\n")],
     '''
import sys
from causalnex.ebaybbn.bbn import triangulate
from causalnex.ebaybbn.graph import UndirectedGraph, UndirectedNode
# complete bipartite graph K4,5: eliminating any node needs fill-in between at least four others
l, r = [UndirectedNode("l%d" % i) for i in range(4)], [UndirectedNode("r%d" % i) for i in range(5)]
for n in l + r:
    n.variable_name = n.name
for a in l:
    for b in r:
        a.neighbours.append(b)
        b.neighbours.append(a)
g = UndirectedGraph(l + r)
triangulate(g)
one = [(a.name, b.name) for a in g.nodes for b in a.neighbours if a not in b.neighbours]
print("edges recorded at one end only", one)
sys.exit(1 if one else 0)
''',
     "an elimination cluster of five or more nodes with a missing edge", "the fill-in edge is recorded at one end only")

seed("c08-zero-total", "C08",
     [("                if normalizers[k[0]] != 0:\n                    marginals[k] /= normalizers[k[0]]\n", "                marginals[k] /= normalizers[k[0]]\n")],
     '''
import sys
from causalnex.ebaybbn import build_bbn_from_conditionals
bbn = build_bbn_from_conditionals({"a": [[[], {0: 1.0, 1: 0.0}]], "b": [[[["a", 0]], {0: 0.3, 1: 0.7}], [[["a", 1]], {0: 0.5, 1: 0.5}]]})
try:
    r = bbn.query(a=1)
except ZeroDivisionError as e:
    print("impossible evidence:", repr(e))
    sys.exit(1)
sys.exit(0 if set(r) == {("a", 0), ("a", 1), ("b", 0), ("b", 1)} else 1)
''',
     "evidence that has probability zero", "the query fails with ZeroDivisionError instead of reporting zero mass")

seed("c08-first-entries", "C08",
     [("        for k, v in list(clique_node.potential_tt.items()):\n            entry", "        for k, v in list(clique_node.potential_tt.items())[:256]:\n            entry")],
     CMP % ('[("wide", {"a": [], "b": [], "c": [], "d": ["a", "b", "c"]}, 5, [{}])]', 1),
     "a clique with more than 256 entries", "probability mass of the remaining entries is lost from marginals")

seed("c02-falsy-skip", "C02",
     [("            if v not in domain:\n", "            if v and v not in domain:\n")],
     '''
import sys
from causalnex.ebaybbn import build_bbn_from_conditionals
from causalnex.ebaybbn.exceptions import VariableValueNotInDomainError
bbn = build_bbn_from_conditionals({"a": [[[], {"x": 0.4, "y": 0.6}]], "b": [[[["a", "x"]], {1: 0.5, 2: 0.5}], [[["a", "y"]], {1: 0.1, 2: 0.9}]]})
for ev in ({"a": "z"}, {"b": 0}, {"a": "x", "b": 0}, {"a": ""}):
    try:
        bbn.query(**ev)
    except VariableValueNotInDomainError:
        continue
    print("accepted", ev)
    sys.exit(1)
''',
     "an out-of-domain observation that is falsy", "it is silently accepted")


seed("c03-arg-order", "C03",
     [("for arg_name in get_args(bbn_node.func):", "for arg_name in sorted(get_args(bbn_node.func), key=lambda a: a if len(bbn_nodes) > 3 else \"\"):")],
     CMP % ('[("rev", {"z": [], "m": ["z"], "a": ["m", "z"], "k": ["a", "m", "z"]}, 2, [{}]), ("chain", CHAIN5, 2, [{}])]', 2),
     "more than three tables in one clique and a node whose name sorts before one of its parents", "table values are looked up with arguments in the wrong positions")

seed("c04-empty-observation", "C04",
     [("                if node.variable_name in evidence:\n                    for k, v", "                if evidence.get(node.variable_name, \"\") != \"\":\n                    for k, v")],
     '''
import sys
from util import *
from causalnex.ebaybbn import build_bbn_from_conditionals
conds, states = network(5, {"a": [], "b": ["a"], "c": ["b"]}, labels={"b": ["", "x", "y"]})
ev = {"b": ""}
d = differ(build_bbn_from_conditionals(conds).query(**ev), exact(conds, states, ev))
print(d)
sys.exit(1 if d else 0)
''',
     "an observed state that is the empty string", "the observation is ignored")

seed("c04-stop-after-first", "C04",
     [("                                if value != evidence[variable]:\n                                    clique.potential_tt[k] = 0\n",
       "                                if value != evidence[variable]:\n                                    clique.potential_tt[k] = 0\n                    if len(bbn_nodes) > 3:\n                        break\n")],
     CMP % ('[("dense", {"a": [], "b": ["a"], "c": ["a", "b"], "d": ["a", "b", "c"]}, 2, [{"a": 1, "c": 0}, {"a": 0, "b": 1, "c": 1}])]', 2),
     "two observed variables whose tables live in the same clique with at least four tables", "later observations in that clique are ignored")

seed("c06-no-reset-between-phases", "C06",
     [("        for node in self.clique_nodes:\n            node.marked = False\n\n        self.distribute", "        for node in self.clique_nodes:\n            node.marked = len(node.variable_names) < 2 or len(self.clique_nodes) > 8 and node.marked and node is not starting_clique and not node.neighbouring_cliques & {starting_clique}\n\n        self.distribute")],
     CMP % ('[("chain", dict(zip("abcdefghij", [[], ["a"], ["b"], ["c"], ["d"], ["e"], ["f"], ["g"], ["h"], ["i"]])), 2, [{}, {"a": 1}, {"j": 0}, {"a": 0, "j": 1}])]', 2),
     "a join tree of more than eight cliques", "in the second phase messages only reach the neighbours of the root")

seed("c07-zero-separator", "C07",
     [("        for k, v in self.potential_tt.items():\n            entry = transform(k, self.variable_names, sepset_node.variable_names)\n            tt[entry] += v\n",
       "        for k, v in self.potential_tt.items():\n            entry = transform(k, self.variable_names, sepset_node.variable_names)\n            if v > 1e-3:\n                tt[entry] += v\n")],
     CMP % ('[("chain", {"a": [], "b": ["a"], "c": ["b"]}, 40, [{}])]', 1),
     "clique entries of probability below 0.001 (nodes with many states or rare states)", "their mass is dropped from messages")

seed("c07-old-kept", "C07",
     [("        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)\n", "        if self.variable_names != target_names or True:\n            sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)\n")],
     "", "", "")
SEEDS.pop()

seed("c09-cache-values", "C09",
     [("                key = tuple(sorted(sample.items()))\n", "                key = tuple(sorted(sample.items() if len(sample) != 3 else sample))\n")],
     '''
import random, sys
from causalnex.ebaybbn import build_bbn_from_conditionals
xor = lambda ps: [[[[p, (i >> k) & 1] for k, p in enumerate(ps)], {0: float(bin(i).count("1") % 2 == 0), 1: float(bin(i).count("1") % 2 == 1)}] for i in range(2 ** len(ps))]
coin = [[[], {0: 0.5, 1: 0.5}]]
bbn = build_bbn_from_conditionals({"a": coin, "b": coin, "c": coin, "d": xor(["a", "b", "c"])})
for s in range(40):
    random.seed(s)
    for x in bbn.draw_samples(n=20):
        if (x["a"] + x["b"] + x["c"]) % 2 != x["d"]:
            print("seed", s, "impossible sample", x)
            sys.exit(1)
''',
     "several samples in one call from a network of at least four nodes", "a distribution memorised for other values of the same variables is reused; impossible samples appear")

seed("c11-mass", "C11",
     [("-1 * s.mass", "-1 * min(s.mass, 2)")],
     CMP % ('[("dense", {"a": [], "b": ["a"], "c": ["a", "b"], "d": ["a", "b", "c"], "e": ["b", "c", "d"], "f": ["c", "d", "e"], "g": ["d", "e", "f"], "h": ["e", "f", "g"], "i": ["f", "g", "h"]}, 2, [{}, {"f": 1}, {"a": 0, "h": 1}])]', 3),
     "cliques that share three or more variables", "the tree is not a maximum-separator tree, so the running intersection property fails")

seed("c12-unsorted-givens", "C12",
     [("        for parent_name, val in sorted(givens):\n", "        for parent_name, val in sorted(givens) if len(givens) < 4 else givens:\n")],
     '''
import sys
from util import *
from causalnex.ebaybbn import build_bbn_from_conditionals
conds, states = network(2, STAR)
rows = conds["e"]
for i, (g, row) in enumerate(rows):
    if i % 2:
        rows[i] = [list(reversed(g)), row]
try:
    d = differ(build_bbn_from_conditionals(conds).query(), exact(conds, states, {}))
except Exception as e:
    print(repr(e))
    sys.exit(1)
print(d)
sys.exit(1 if d else 0)
''',
     "a node with four or more parents whose rows list the parents in different orders", "rows are keyed by different argument orders")

seed("c12-drop-zero-rows", "C12",
     [("            tt[key_] = prob\n", "            tt[key_] = tt.get(key_, 0) + prob if prob else tt.setdefault(key_, prob)\n")],
     "", "", "")
SEEDS.pop()

TWO = '''
import sys
from causalnex.ebaybbn import build_bbn_from_conditionals
first = build_bbn_from_conditionals({"rain": [[[], {"no": 0.8, "yes": 0.2}]], "wet": [[[["rain", "no"]], {"no": 0.9, "yes": 0.1}], [[["rain", "yes"]], {"no": 0.3, "yes": 0.7}]]})
first.draw_samples(n=3)
second = build_bbn_from_conditionals({"rain": [[[], {"no": 0.0, "yes": 1.0}]], "wet": [[[["rain", "no"]], {"no": 0.9, "yes": 0.1}], [[["rain", "yes"]], {"no": 0.0, "yes": 1.0}]]})
for s in second.draw_samples(n=50):
    if s != {"rain": "yes", "wet": "yes"}:
        print("impossible sample", s)
        sys.exit(1)
'''
seed("c49-cache-default", "C49",
     [("    def draw_samples(self, query={}, n=1):\n", "    def draw_samples(self, query={}, n=1, result_cache={}):\n"),
      ("        result_cache = dict()\n", "")],
     TWO, "two networks with the same variable names, both sampled in one process", "the cache of distributions is a shared default: a second network is sampled from the first one's distributions")

seed("c49-domains-update", "C49",
     [("    bbn.domains = domains\n", "    bbn.domains.update(domains)\n")],
     '''
import sys
from causalnex.ebaybbn import build_bbn
def make():
    def f_size(size):
        return {1: 0.2, 2: 0.3, 3: 0.5}[size]
    return build_bbn([f_size], domains={"size": [1, 2, 3]})
def plain():
    def f_size(size):
        return 0.25 if size else 0.75
    return build_bbn([f_size])
make().query()
got = plain().query()
print(got)
sys.exit(0 if set(got) == {("size", True), ("size", False)} else 1)
''',
     "two networks built one after the other, a variable with default domain in the second named like one with a declared domain in the first",
     "domains accumulate in the default argument of the constructor and leak into networks built later")
