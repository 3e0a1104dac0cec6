"""Scenario -> files -> Stage, and projections of composites, for drivers."""
import json, os, shutil
from nxt.stage import Stage
from nxt import nxt_path, nxt_layer, nxt_node
from nxt.nxt_layer import SpecLayer, LayerReturnTypes as RT
from nxt.constants import GRAPH_VERSION


def write_layers(dirpath, layers, extra=None):
    """layers: strong to weak, each {path: node data}.  Layer 0 references the
    others in order.  Returns the top layer's file."""
    os.makedirs(dirpath, exist_ok=True)
    for i, nodes in enumerate(layers):
        d = {"version": GRAPH_VERSION.VERSION_STR, "alias": "l%d" % i, "color": "#991c24",
             "mute": False, "solo": False, "nodes": nodes}
        if i == 0 and len(layers) > 1:
            d["references"] = ["l%d.nxt" % k for k in range(1, len(layers))]
        d.update((extra or {}).get(i, {}))
        with open(os.path.join(dirpath, "l%d.nxt" % i), "w") as f:
            json.dump(d, f)
    return os.path.join(dirpath, "l0.nxt")


def load(dirpath, layers, extra=None):
    top = write_layers(dirpath, layers, extra)
    return Stage.load_from_filepath(top)
