"""Layers, in memory and in files, in the terms of the specification."""
import json
from nxt.nxt_node import INTERNAL_ATTRS as IA, META_ATTRS as MA

FIELDS = ["start_point", "instance", "execute_in", "enabled", "comment", "code"]
TOP = ["alias", "color", "mute", "solo", "lock", "references", "comp_overrides"]


def js(v):
    return json.dumps(v, sort_keys=True)


def kv(d):
    return [dict(k=k, v=js(v)) for k, v in sorted(d.items())]


def from_file(path):
    with open(path) as f:
        d = json.load(f)
    nodes = []
    for p, n in sorted((d.get("nodes") or {}).items()):
        kids = sorted(q.rsplit("/", 1)[1] for q in d["nodes"] if q != "/" and q.rsplit("/", 1)[0] == p)
        nodes.append(dict(p=p, f=kv({k: n[k] for k in FIELDS if k in n}), co=list(n.get("child_order") or []), kids=kids,
                          attrs=[dict(n=a, v=js(x["value"]) if "value" in x else "absent",
                                      t=js(x["type"]) if "type" in x else "absent",
                                      c=js(x["comment"]) if "comment" in x else "absent") for a, x in sorted((n.get("attrs") or {}).items())]))
    return dict(top=kv({k: d[k] for k in TOP if k in d}), meta=kv(d.get("meta_data") or {}), nodes=nodes)


def safe(v):
    try:
        return js(v)
    except Exception:
        return "absent"


def from_layer(layer):
    top = dict(alias=layer.get_alias(local=True), color=layer.color, mute=layer.get_muted(local=True),
               solo=layer.get_soloed(local=True), lock=layer.get_locked(local=True), references=layer.get_references(),
               comp_overrides=layer.comp_overrides)
    meta = dict(layer._input_metadata)
    for k in ("positions", "collapse", "aliases", "colors", "locks"):
        meta[k] = getattr(layer, k)
    nodes = []
    for p, n in sorted(layer._nodes_path_as_key.items()):
        f = {k: getattr(n, "_" + k) for k in FIELDS}
        attrs = []
        for a in sorted(n.__dict__):
            if a in IA.PROTECTED or a.endswith(MA._suffix):
                continue
            attrs.append(dict(n=a, v=safe(getattr(n, a)), t=safe(n.__dict__.get(a + MA.TYPE)), c=safe(n.__dict__.get(a + MA.COMMENT))))
        nodes.append(dict(p=p, f=kv(f), co=list(getattr(n, IA.CHILD_ORDER)), kids=[], attrs=attrs))
    return dict(top=kv(top), meta=[dict(k=k, v=js(v)) for k, v in sorted(meta.items())], nodes=nodes)
