"""edits of plots"""
PL = "plots/plots.py"
DS = "plots/display.py"
EDITS = [
    ("pl_nocopy", "C48", PL, [("    _sm = deepcopy(sm)\n", "    _sm = sm\n")]),
    ("pl_copy_m", "ref", PL, [("    _sm = deepcopy(sm)\n", "    _sm = copy.deepcopy(sm)\n"), ("from copy import deepcopy\n", "import copy\n")]),
    ("pl_shallow", "C48", PL, [("    _sm = deepcopy(sm)\n", "    _sm = sm.copy(as_view=True)\n")]),
    ("pl_default_shared", "C48", PL, [("    _all_node_attr = {**NODE_STYLE.NORMAL}\n", "    _all_node_attr = NODE_STYLE.NORMAL\n")]),
    ("pl_default_dict", "ref", PL, [("    _all_node_attr = {**NODE_STYLE.NORMAL}\n", "    _all_node_attr = dict(NODE_STYLE.NORMAL)\n")]),
    ("pl_default_merge", "ref", PL, [("    _all_node_attr = {**NODE_STYLE.NORMAL}\n    if all_node_attributes:\n        _all_node_attr.update(all_node_attributes)\n", "    _all_node_attr = {**NODE_STYLE.NORMAL, **(all_node_attributes or {})}\n")]),
    ("pl_default_over", "C48", PL, [("    _all_node_attr = {**NODE_STYLE.NORMAL}\n    if all_node_attributes:\n        _all_node_attr.update(all_node_attributes)\n", "    _all_node_attr = {**(all_node_attributes or {}), **NODE_STYLE.NORMAL}\n")]),
    ("pl_edge_style", "C48", PL, [("{**EDGE_STYLE.NORMAL}", "{**NODE_STYLE.NORMAL}")]),
    ("pl_graph_order", "C48", PL, [("    a_graph.graph_attr.update(GRAPH_STYLE)\n    if graph_attributes:\n        a_graph.graph_attr.update(graph_attributes)\n",
                                     "    if graph_attributes:\n        a_graph.graph_attr.update(graph_attributes)\n    a_graph.graph_attr.update(GRAPH_STYLE)\n")]),
    ("pl_graph_shared", "C48", PL, [("    a_graph.graph_attr.update(GRAPH_STYLE)\n    if graph_attributes:\n        a_graph.graph_attr.update(graph_attributes)\n",
                                      "    if graph_attributes:\n        GRAPH_STYLE.update(graph_attributes)\n    a_graph.graph_attr.update(GRAPH_STYLE)\n")]),
    ("pl_spec_first", "C48", PL, [("    # apply specific node and edge attributes\n    if node_attributes:\n        nx.set_node_attributes(_sm, node_attributes)\n", ""),
                                    ("    # apply node attributes (start", "    if node_attributes:\n        nx.set_node_attributes(_sm, node_attributes)\n    # apply node attributes (start")]),
    ("pl_spec_swap", "C48", PL, [("nx.set_edge_attributes(_sm, edge_attributes)", "nx.set_edge_attributes(_sm, node_attributes)")]),
    ("pl_edges_first", "ref", PL, [("    if node_attributes:\n        nx.set_node_attributes(_sm, node_attributes)\n    if edge_attributes:\n        nx.set_edge_attributes(_sm, edge_attributes)\n",
                                      "    if edge_attributes:\n        nx.set_edge_attributes(_sm, edge_attributes)\n    if node_attributes:\n        nx.set_node_attributes(_sm, node_attributes)\n")]),
    ("pl_label", "C48", PL, [("\"%s\\n\\n \" % node", "\"%s\\n\\n \" % _sm")]),
    ("pl_label_f", "ref", PL, [("\"%s\\n\\n \" % node", "f\"{node}\\n\\n \"")]),
    ("pl_nolayout", "C48", PL, [("    a_graph.layout(prog=prog)\n", "")]),
    ("pl_prog", "C48", PL, [("    a_graph.layout(prog=prog)\n", "    a_graph.layout(prog=\"neato\")\n")]),
    ("pl_set_vk", "C48", PL, [("nx.set_node_attributes(_sm, v, k)", "nx.set_node_attributes(_sm, k, v)")]),
    ("pl_set_kw", "ref", PL, [("nx.set_node_attributes(_sm, v, k)", "nx.set_node_attributes(_sm, values=v, name=k)")]),
    ("pl_grad_float", "C48", PL, [("(f * steps + (t - f) * i) // steps", "int(f + (t - f) / steps * i)")]),
    ("pl_grad_range", "C48", PL, [("        for i in range(steps + 1)\n    ]\n", "        for i in range(steps)\n    ]\n")]),
    ("pl_grad_flip", "ref", PL, [("(f * steps + (t - f) * i) // steps", "(t * i + f * (steps - i)) // steps")]),
    ("pl_grad_rev", "C48", PL, [("for f, t in zip(from_colors, to_colors)", "for t, f in zip(from_colors, to_colors)")]),
    ("pl_grad_share", "C48", PL, [("(1 / (steps + 1))", "(1 / steps)")]),
    ("pl_grad_alpha", "C48", PL, [("int(v, 16) if v else 255 for v in color_regex.match(to_color)", "int(v, 16) if v else 0 for v in color_regex.match(to_color)")]),
    ("pl_grad_f", "ref", PL, [("[\"%s;%.2f\" % (gradient_colors[i], (1 / (steps + 1))) for i in range(steps + 1)]", "[f\"{c};{1 / (steps + 1):.2f}\" for c in gradient_colors]")]),
    ("pl_grad_zip", "ref", PL, [("[\"%s;%.2f\" % (gradient_colors[i], (1 / (steps + 1))) for i in range(steps + 1)]", "[\"%s;%.2f\" % (color, 1 / (steps + 1)) for color in gradient_colors]")]),
    ("pl_grad_hex", "C48", PL, [("\"02x\")", "\"x\")")]),
    ("pl_mpl_dims", "C48", DS, [("figsize=(y_dim * pixel_size_in, x_dim * pixel_size_in)", "figsize=(x_dim * pixel_size_in, y_dim * pixel_size_in)")]),
    ("pl_mpl_ax", "C48", DS, [("        return None, ax\n", "        pass\n")]),
    ("pl_ipy_prog", "C48", DS, [("return Image(viz.draw(format=\"png\", prog=prog))", "return Image(viz.draw(format=\"png\"))")]),
    ("pl_ipy_var", "ref", DS, [("return Image(viz.draw(format=\"png\", prog=prog))", "png = viz.draw(format=\"png\", prog=prog)\n    return Image(png)")]),
    ("pl_mpl_shape", "ref", DS, [("    x_dim, y_dim, _ = array.shape\n", "    x_dim, y_dim = array.shape[:2]\n")]),
]
