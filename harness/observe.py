"""Reads a composite through the Stage and layer APIs into trace operations."""
import os
from nxt import nxt_node
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA
from nxt.nxt_layer import LayerReturnTypes as RT
from nxt.stage import get_historical_opinions
from nxt.constants import *


def lid(path):
    return os.path.basename(path) if path else "none"


def enc(v):
    if v is None or v == []:
        return "none"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, (list, tuple)):
        return "\n".join(v)
    return str(v)


def ns(path):
    return [x for x in path.split("/") if x]


def src(stage, node, attr):
    l, p = stage.get_node_attr_source(node, attr)
    return [lid(l), p if p else "none"]


def node_op(stage, comp, path, hist=True):
    n = comp.lookup(path)
    attrs = []
    for a in sorted(stage.get_node_attr_names(n)):
        v = stage.get_node_attr_data(n, a, comp)
        s = src(stage, n, a)
        h = get_historical_opinions(n, a, comp, include_local=True) if hist else []
        attrs.append(dict(n=a, v=enc(getattr(n, a)), layer=s[0], path=s[1], t=enc(v.get("type")),
                          c=enc(stage.get_node_attr_comment(n, a)), hist="yes" if hist else "none",
                          histl=[[lid(x[MA.SOURCE][0]), x[MA.SOURCE][1], enc(x[MA.VALUE])] for x in h]))
    return dict(op="node", p=ns(path), attrs=attrs,
                code=enc(stage.get_node_code_lines(n, comp)), comment=enc(stage.get_node_comment(n)),
                enabled=enc(nxt_node.get_node_enabled(n)), exec=enc(stage.get_node_exec_in(n)),
                start=enc(getattr(n, IA.START_POINT)), inst=enc(getattr(n, IA.INSTANCE_PATH)),
                instsrc=src(stage, n, IA.INSTANCE_PATH), codesrc=src(stage, n, IA.COMPUTE),
                commentsrc=src(stage, n, IA.COMMENT), enabledsrc=src(stage, n, IA.ENABLED),
                execsrc=src(stage, n, IA.EXECUTE_IN), startsrc=src(stage, n, IA.START_POINT),
                layer=lid(getattr(n, IA.SOURCE_LAYER)), proxy=bool(getattr(n, IA.PROXY)))


def kid_forms(comp, path):
    g = comp.get_node_path
    res = dict(paths=comp.children(path, RT.Path), nodes=[g(n) for n in comp.children(path, RT.Node)],
               table=[t[0] for t in comp.children(path, RT.NodeTable)],
               names=sorted(comp.children(path, RT.NameDict)), bool=comp.children(path, RT.Boolean),
               implied=comp.children(path, RT.Path, include_implied=True),
               desc=list(comp.descendants(path)), descnodes=[g(n) for n in comp.descendants(path, RT.Node)],
               desctable=[t[0] for t in comp.descendants(path, RT.NodeTable)],
               opaths=[], onodes=[], otable=[], odesc=[], co=[], srcco=[], ancestors=[])
    n = comp.lookup(path)
    if n:
        res["ancestors"] = comp.ancestors(path, RT.Path)
        if path != "/":
            res.update(opaths=comp.children(path, RT.Path, ordered=True),
                       onodes=[g(x) for x in comp.children(path, RT.Node, ordered=True)],
                       otable=[t[0] for t in comp.children(path, RT.NodeTable, ordered=True)],
                       odesc=list(comp.descendants(path, ordered=True)),
                       co=list(getattr(n, IA.CHILD_ORDER)))
            s = comp.lookup(getattr(n, IA.INSTANCE_PATH) or "")
            if s:
                res["srcco"] = list(getattr(s, IA.CHILD_ORDER))
    return res


def kids_op(comp, path):
    res = kid_forms(comp, path)
    res["again"] = kid_forms(comp, path) == res
    res.update(op="kids", p=ns(path))
    return res


def tree_info(comp, root_paths=None):
    tree, off, roots = [], [], []
    for p, n in comp._nodes_path_as_key.items():
        if p == "/":
            continue
        tree.append(dict(p=p, kids=comp.children(p, RT.Path, ordered=True)))
        if nxt_node.get_node_enabled(n) is False:
            off.append(p)
        if p.count("/") == 1:
            roots.append(dict(p=p, exec=enc(getattr(n, IA.EXECUTE_IN))))
    known = {t["p"] for t in tree}
    implied = {"/" + "/".join(p.split("/")[1:k]) for p in known for k in range(2, p.count("/") + 1)} - known
    for p in sorted(implied):
        tree.append(dict(p=p, kids=comp.children(p, RT.Path, ordered=True, include_implied=True)))
    return tree, off, roots


def exec_op(call, comp, start):
    tree, off, roots = tree_info(comp)
    st, v = call(comp.get_exec_order, start, _limit=10)
    return dict(op="exec", start=start, root="/" + start.split("/")[1], tree=tree, off=off, roots=roots,
                order=v if st == "ok" else [], crash="" if st == "ok" else v)
