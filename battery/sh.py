G="ebaybbn/graph.py"; B="ebaybbn/bbn.py"; C="structure/data_generators/core.py"; SK="structure/pytorch/sklearn/_base.py"
NT="structure/notears.py"; SM="structure/structuremodel.py"; BN="network/network.py"; PL="plots/plots.py"; IE="inference/inference.py"; WR="structure/data_generators/wrappers.py"
DI="discretiser/discretiser.py"
import re
def src(f): return open("/repo/causalnex/"+f).read()
EDITS=[
("s_noslice_parents","C49",G,[("self.parents = parents[:]","self.parents = parents")]),
("s_noslice_children","C49",G,[("self.children = children[:]","self.children = children")]),
("s_noslice_neigh","C49",G,[("self.neighbours = neighbours[:]","self.neighbours = neighbours")]),
("s_list_copy","ref",G,[("self.parents = parents[:]","self.parents = list(parents)"),("self.children = children[:]","self.children = children.copy()")]),
("s_none_default","ref",G,[("parents=[], children=[]","parents=None, children=None"),("self.parents = parents[:]","self.parents = list(parents or [])"),("self.children = children[:]","self.children = list(children) if children else []")]),
("s_star_copy","ref",G,[("self.neighbours = neighbours[:]","self.neighbours = [*neighbours]")]),
("s_seed_zero","C49",C,[("    np.random.seed(seed)","    np.random.seed(seed or 0)")]),
("s_seed_helper","ref",C,[("    np.random.seed(seed)","    seed_value = seed\n    np.random.seed(seed)")]),
("s_warn_forever","C49",SK,[('        with warnings.catch_warnings():\n            warnings.simplefilter("ignore")\n            # get pygraphviz plot:\n            viz = plot_structure(graph, **plt_kwargs)','        warnings.simplefilter("ignore")\n        viz = plot_structure(graph, **plt_kwargs)')]),
("s_warn_simple","ref",SK,[('warnings.simplefilter("ignore")','warnings.filterwarnings("ignore")')]),
("s_style_mut","C49",SK,[('        prog = plt_kwargs.get("prog", "neato")\n\n        with','        prog = plt_kwargs.get("prog", "neato")\n        plt_kwargs["all_node_attributes"].update(shape="box")\n\n        with')]),
("s_classattr","C49",BN,[("    def __init__(self, structure: StructureModel):","    _seen = []\n\n    def __init__(self, structure: StructureModel):\n        self._seen.append(1)")]),
("s_classattr_own","ref",BN,[("    def __init__(self, structure: StructureModel):","    _seen = []\n\n    def __init__(self, structure: StructureModel):\n        self._seen = []\n        self._seen.append(1)")]),
("s_cls_counter","C49",BN,[("    def __init__(self, structure: StructureModel):","    _n = 0\n\n    def __init__(self, structure: StructureModel):\n        BayesianNetwork._n += 1")]),
("s_type_counter","C49",BN,[("    def __init__(self, structure: StructureModel):","    _n = 0\n\n    def __init__(self, structure: StructureModel):\n        type(self)._n = 1")]),
("s_global","C49",DI,[("class Discretiser","_COUNT = 0\n\n\ndef _count():\n    global _COUNT\n    _COUNT += 1\n\n\nclass Discretiser")]),
("s_environ","C49",NT,[('    if X.size == 0:','    import os\n    os.environ["OMP_NUM_THREADS"] = "1"\n    if X.size == 0:')]),
("s_seterr","C49",NT,[('    if X.size == 0:','    np.seterr(all="ignore")\n    if X.size == 0:')]),
("s_errstate","ref",NT,[('    if X.size == 0:','    with np.errstate(all="ignore"):\n        pass\n    if X.size == 0:')]),
("s_mut_default","C49",B,[("def draw_samples(self, query={}, n=1):\n","def draw_samples(self, query={}, n=1):\n        query.setdefault('x', 1) if False else query.update({})\n")]),
("s_domains","C49",B,[("        self.nodes = list(nodes_dict.values())","        self.nodes = list(nodes_dict.values())\n        for n in nodes_dict:\n            self.domains.setdefault(n, [True, False])")]),
]
