"""Plots of structures, colour gradients, and their display."""
from rules.neural import F, alike, form_of, selected
from sa.conform import distinct, event_forms, novel
from sa.rule import P, alpha, imprecise, show
from sa.terms import contains

PL = "plots.plots."
DP = "plots.display."
PLOT = '''
def spec(sm, prog, all_node_attributes, all_edge_attributes, node_attributes, edge_attributes, graph_attributes):
    g = deepcopy(sm)
    for n in g.nodes:
        g.nodes[n]["label"] = "%s\\n\\n " % n
    na = {**NODE_STYLE.NORMAL}
    if all_node_attributes:
        na.update(all_node_attributes)
    for k, v in na.items():
        nx.set_node_attributes(g, v, k)
    ea = {**EDGE_STYLE.NORMAL}
    if all_edge_attributes:
        ea.update(all_edge_attributes)
    for k, v in ea.items():
        nx.set_edge_attributes(g, v, k)
    if node_attributes:
        nx.set_node_attributes(g, node_attributes)
    if edge_attributes:
        nx.set_edge_attributes(g, edge_attributes)
    try:
        a = nx.nx_agraph.to_agraph(g)
    except ImportError as e:
        raise Warning("pygraphviz") from e
    a.graph_attr.update(GRAPH_STYLE)
    if graph_attributes:
        a.graph_attr.update(graph_attributes)
    a.layout(prog=prog)
    return a
'''
GRADIENT = '''
def spec(from_color, to_color, steps):
    rx = re.compile(r"(#)([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})*")
    a = [int(v, 16) if v else 255 for v in rx.match(from_color).groups()[1:]]
    b = [int(v, 16) if v else 255 for v in rx.match(to_color).groups()[1:]]
    colors = ["#" + "".join([format((f * steps + (t - f) * i) // steps, "02x") for f, t in zip(a, b)]) for i in range(steps + 1)]
    return ":".join(["%s;%.2f" % (colors[i], (1 / (steps + 1))) for i in range(steps + 1)])
'''
IPY = '''
def spec(viz, prog):
    if Image is Any:
        raise ImportError("IPython")
    return Image(viz.draw(format="png", prog=prog))
'''
MPL = '''
def spec(viz, prog, ax, pixel_size_in):
    if Figure is Any:
        raise ImportError("matplotlib")
    array = plt.imread(io.BytesIO(viz.draw(format="png", prog=prog)))
    x, y, _ = array.shape
    if ax is not None:
        ax.imshow(array)
        ax.axis("off")
        return None, ax
    f, ax = plt.subplots(1, 1, figsize=(y * pixel_size_in, x * pixel_size_in))
    ax.imshow(array)
    ax.axis("off")
    f.tight_layout(pad=0.0)
    return f, ax
'''
DONE = ("set_node_attributes", "set_edge_attributes", "layout", "imshow", "axis", "tight_layout", "set_axis_off")


def done(k, o, e):
    return selected(k, o, e) or k == "mut" or e.kind in ("call", "mcall") and e.data.get("name") in DONE


def stage(c):
    """which attributes a write sets"""
    for n in ("set_node_attributes", "set_edge_attributes", "graph_attr"):
        if contains(("_", c), lambda x: n in x or x[0] == "g" and str(x[1]).endswith(n)):
            return n
    return None


def c48(R):
    with distinct("networkx.set_node_attributes", "networkx.set_edge_attributes", "round", "builtins.round"):
        roots = frozenset(P(n) for n in ("sm", "all_node_attributes", "all_edge_attributes", "node_attributes", "edge_attributes", "graph_attributes"))
        roots |= frozenset({("g", "causalnex.plots.plots." + n) for n in ("GRAPH_STYLE", "NODE_STYLE", "EDGE_STYLE", "NODE_STYLE.NORMAL", "EDGE_STYLE.NORMAL")})
        r, ss = alike(R, "plot", PL + "plot_structure", PLOT, "plot_structure: a copy of the structure, with default, general, specific and graph attributes", select=done, roots=roots)
        order(R, r, ss[0])
        alike(R, "gradient", PL + "color_gradient_string", GRADIENT, "color_gradient_string: steps + 1 colours from the first to exactly the last")
        alike(R, "display", DP + "display_plot_ipython", IPY, "display_plot_ipython: the drawing as an image", select=done, roots=frozenset({P("viz")}))
        alike(R, "display", DP + "display_plot_mpl", MPL, "display_plot_mpl: the drawing on the axes given, or on new ones", select=done)
    R.floor(8)


def order(R, r, s):
    """later attributes override earlier ones, so their order matters"""
    forms = lambda z: [(stage((k, c)), (k, c)) for k, c, e in event_forms(z, done, form_of(z), True)]
    g, w = forms(r), forms(s)
    for n, what in (("set_node_attributes", "node attributes: defaults, then for all nodes, then for single nodes"), ("set_edge_attributes", "edge attributes: defaults, then for all edges, then for single edges"),
                    ("graph_attr", "graph attributes: defaults, then those given")):
        a, b = [x for m, x in g if m == n], [x for m, x in w if m == n]
        if sorted(map(repr, a)) != sorted(map(repr, b)):
            R.und("order", r.func.where, what, "the writes are not the reference's")
            continue
        R.check(a == b, "order", r.func.where, what, "in another order")


CHECKS = {"C48": (c48, "")}
