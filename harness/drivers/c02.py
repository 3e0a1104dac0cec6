"""Flags and overrides on stages loaded from files: histories of the model and
random ones; after every action everything is read back."""
from lab import *
import os, shutil, json
from nxt.stage import Stage
from nxt.nxt_layer import get_active_layers
from nxt.constants import GRAPH_VERSION
KINDS = ["mute", "solo", "alias", "color", "lock"]
NONE = {k: "none" for k in KINDS}
B = {"true": True, "false": False}


def fname(l, top):
    return "l%d.nxt" % l


def dec(v):
    return B.get(v, v)


def enc(v):
    return "none" if v is None else "true" if v is True else "false" if v is False else str(v)


def write(d, up, own, over):
    n = len(up)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for l in range(1, n + 1):
        o = own[l - 1]
        data = {"version": GRAPH_VERSION.VERSION_STR, "alias": o["alias"], "color": o["color"]}
        for k in ("mute", "solo"):
            data[k] = dec(o[k])
        if o["lock"] == "true":
            data["lock"] = True
        refs = [fname(c, 0) for c in range(1, n + 1) if up[c - 1] == l]
        if refs:
            data["references"] = refs
        meta = {}
        co = {}
        for t in range(1, n + 1):
            v = over[l - 1][t - 1]
            ms = {k: dec(v[k]) for k in ("mute", "solo") if v[k] != "none"}
            if ms:
                co[fname(t, 0)] = ms
            for k, key in (("alias", "aliases"), ("color", "colors"), ("lock", "locks")):
                if v[k] != "none":
                    meta.setdefault(key, {})[fname(t, 0)] = dec(v[k])
        if co:
            data["comp_overrides"] = co
        if meta:
            data["meta_data"] = meta
        data["nodes"] = {"/n%d" % l: {}, "/shared": {"attrs": {"who": {"value": str(l)}}}}
        with open(os.path.join(d, fname(l, 0)), "w") as f:
            json.dump(data, f)
    return Stage.load_from_filepath(os.path.join(d, fname(1, 0)))


def observe(stage, n):
    ls = stage._sub_layers
    names = [os.path.basename(l.real_path) for l in ls]
    assert names == [fname(k, 0) for k in range(1, n + 1)], names
    own = [dict(mute=enc(l.get_muted(local=True)), solo=enc(l.get_soloed(local=True)), alias=enc(l.get_alias(local=True)),
                color=enc(l.get_color(local=True)), lock=enc(l.get_locked(local=True))) for l in ls]
    over = []
    for l in ls:
        row = []
        for t in names:
            co = l.comp_overrides.get(t, {})
            row.append(dict(mute=enc(co.get("mute")), solo=enc(co.get("solo")), alias=enc(l.aliases.get(t)),
                            color=enc(l.colors.get(t)), lock=enc(l.locks.get(t))))
        over.append(row)
    eff = [dict(mute=enc(l.get_muted()), solo=enc(l.get_soloed()), alias=enc(l.get_alias()),
                color=enc(l.get_color(local=False)), lock=enc(l.get_locked())) for l in ls]
    active, content, winner = [], [], []
    for f in range(n):
        active.append([names.index(os.path.basename(l.real_path)) + 1 for l in get_active_layers(ls[f:])])
        comp = stage.build_stage(from_idx=f)
        content.append([int(p[2:]) for p in comp._nodes_path_as_key if p.startswith("/n")])
        s = comp.lookup("/shared")
        winner.append(int(s.who) if s else 0)
    return dict(own=own, over=over, eff=eff, active=active, content=content, winner=winner, crash="")


BLANK = dict(own=[], over=[], eff=[], active=[], content=[], winner=[])


def perform(d, stage, a):
    ls = stage._sub_layers
    k, v = a["k"], dec(a["v"])
    if a["do"] == "own":
        l = ls[a["l"] - 1]
        {"mute": l.set_muted, "solo": l.set_soloed, "alias": l.set_alias, "lock": l.set_locked,
         "color": lambda c: setattr(l, "color", c)}[k](v)
    elif a["do"] == "over":
        l = ls[a["l"] - 1]
        {"mute": l.set_mute_over, "solo": l.set_solo_over}[k](fname(a["t"], 0), v)
    elif a["do"] == "top":
        l = ls[a["t"] - 1]
        v = None if a["v"] == "none" else v
        {"alias": l.set_alias_over, "color": l.set_color_over, "lock": l.set_locked_over}[k](v)
    elif a["do"] == "reload":
        for l in ls:
            l.save()
        return Stage.load_from_filepath(os.path.join(d, fname(1, 0)))
    return stage


def one(up, own, over, acts):
    rec.begin([up, own, over, acts])
    n = len(up)
    d = os.path.join(WORK, "g")
    ops = []
    stage = None
    for a in [dict(do="load", own=own, over=over, l=0, t=0, k="", v="")] + acts:
        def step():
            s = write(d, up, own, over) if a["do"] == "load" else perform(d, stage, a)
            return s, observe(s, n)
        st, v = call(step)
        if st != "ok":
            ops.append(dict(BLANK, act=a, crash=v))
            break
        stage = v[0]
        ops.append(dict(v[1], act=a))
    rec.case(ops, up=up)


RELOAD = dict(do="reload", l=0, t=0, k="mute", v="none")
def own0(l):
    return dict(mute="false", solo="false", alias="own%d" % l, color="#00000%d" % l, lock="false")


def ups(up, t):
    res = []
    while up[t - 1]:
        t = up[t - 1]
        res.append(t)
    return res


for s in scenarios():
    n = len(s["up"])
    one(s["up"], [own0(l + 1) for l in range(n)], [[dict(NONE) for _ in range(n)] for _ in range(n)],
        s["acts"] + [RELOAD])
TREES = [[0], [0, 1], [0, 1, 2], [0, 1, 1], [0, 1, 2, 3], [0, 1, 2, 1], [0, 1, 2, 2, 1], [0, 1, 1, 3, 4], [0, 1, 2, 3, 3, 1]]
for k in range(args.n):
    up = rng.choice(TREES)
    n = len(up)
    own = [dict(own0(l + 1), mute=rng.choice(["false"] * 3 + ["true"]), solo=rng.choice(["false"] * 4 + ["true"]),
                lock=rng.choice(["false", "false", "true"])) for l in range(n)]
    over = [[dict(NONE) for _ in range(n)] for _ in range(n)]
    for t in range(1, n + 1):
        for u in ups(up, t):
            v = over[u - 1][t - 1]
            for kd, vals in (("mute", ["true", "false"]), ("solo", ["true", "false"]), ("alias", ["x%d%d" % (u, t)]),
                             ("color", ["#%d%d" % (u, t)]), ("lock", ["true", "false"])):
                if rng.random() < .2:
                    v[kd] = rng.choice(vals)
    acts = []
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        t = rng.randint(1, n)
        us = ups(up, t)
        if r < .3:
            kd = rng.choice(KINDS)
            acts.append(dict(do="own", l=t, t=0, k=kd, v=rng.choice(["true", "false"]) if kd in ("mute", "solo", "lock")
                             else "%s%d" % (kd, rng.randint(0, 9))))
        elif r < .65 and us:
            acts.append(dict(do="over", l=rng.choice(us), t=t, k=rng.choice(["mute", "solo"]), v=rng.choice(["true", "false"])))
        elif r < .85:
            kd = rng.choice(["alias", "color", "lock"])
            acts.append(dict(do="top", l=0, t=t, k=kd, v=rng.choice(["none", "true" if kd == "lock" else "%s%d" % (kd, rng.randint(0, 9))])))
        else:
            acts.append(RELOAD)
    one(up, own, over, acts + [RELOAD])
rec.close()
