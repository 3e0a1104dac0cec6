"""C14: node path arithmetic, called on paths of the model and random ones."""
from lab import *
from nxt import nxt_path as P


def txt(p):
    return "/" + "/".join(p)


def guard(desc, fn):
    rec.begin(desc)
    st, v = call(fn)
    return v if st == "ok" else dict(op="crash", err=v, desc=desc)


def path_op(p):
    t = txt(p)
    return dict(op="path", p=p, text=t, ns=P.str_path_to_node_namespace(t),
                joined=P.node_namespace_to_str_path(P.str_path_to_node_namespace(t)),
                parent=P.get_parent_path(t), name=P.node_name_from_node_path(t),
                root=P.get_root_path(t), ancestors=P.all_ancestor_paths(t),
                depth=P.get_path_depth(t),
                trims=[P.trim_to_depth(t, d) for d in range(len(p) + 3)],
                absexp=P.expand_relative_node_path(t, "/zz/y"))


def pair_op(p, q):
    a, b = txt(p), txt(q)
    return dict(op="pair", p=p, q=q, text=a, qtext=b, isanc=P.is_ancestor(a, b),
                join=P.join_node_paths(b, a.lstrip("/") if len(p) % 2 or not q else a),
                joinmany=P.join_node_paths(b, tuple(p)))


def repl_op(p, k, new):
    a, o, n = txt(p), txt(p[:k]), txt(new)
    return dict(op="repl", p=p, k=k, new=new, text=a, otext=o, ntext=n,
                res=P.replace_ancestor(a, o, n))


def rel_op(p, steps):
    rel = "/".join(steps)
    res = P.expand_relative_node_path(rel, txt(p))
    return dict(op="rel", p=p, steps=steps, rel=rel, text=txt(p), res="" if res is None else res)


def attr_op(base, attr, p):
    made = P.make_attr_path(base, attr)
    node, name = P.path_attr_partition(made)
    return dict(op="attr", p=p, base=base, attr=attr, made=made, node=P.node_path_from_attr_path(made),
                name=P.attr_name_from_attr_path(made), pnode=node, pattr=name,
                ns=P.str_path_to_node_namespace(made) if p != ["..rel"] else [],
                **{"is": P.is_attr_path(made)})


NAMES = ["a", "ab", "abc", "b", "a1", "A", "_", "_a", "a_b", "node", "node1", "node10", "legs",
         "n0", "X" * 40]


def rpath(lo=0, hi=6):
    pool = rng.sample(NAMES, rng.randint(1, 4))
    return [rng.choice(pool) for _ in range(rng.randint(lo, hi))]


for s in scenarios():
    p, steps = s["start"], s["steps"]
    ops = [guard(s, lambda: path_op(p))]
    if steps:
        ops.append(guard(s, lambda: rel_op(p, steps)))
        ops.append(guard(s, lambda: rel_op(p, steps + [""])))
        q = [x for x in steps if x not in ("..", ".")]
        if p and q:
            ops.append(guard(s, lambda: pair_op(p, q)))
        for k in range(0, len(p) + 1):
            ops.append(guard(s, lambda: repl_op(p, k, q)))
        if q:
            rel = "/".join(steps)
            ops.append(guard(s, lambda: attr_op(rel, q[-1], ["..rel"])))
    rec.case(ops)
for i in range(3000 if THOROUGH else 800):
    p, q, new = rpath(), rpath(), rpath(0, 3)
    steps = [rng.choice(["..", ".."] + ["."] + NAMES[:5]) for _ in range(rng.randint(1, 6))]
    k = rng.randint(0, len(p))
    ops = [guard(p, lambda: path_op(p)), guard([p, k, new], lambda: repl_op(p, k, new)),
           guard([p, steps], lambda: rel_op(p, steps)),
           guard(p, lambda: attr_op(txt(p), rng.choice(NAMES), p)),
           guard(steps, lambda: attr_op("/".join(steps), rng.choice(NAMES), ["..rel"]))]
    if p:
        ops.append(guard([p, q], lambda: pair_op(p, q)))
        ops.append(guard([p, k], lambda: pair_op(p, p[:k])))
        # a look-alike of an ancestor: same text prefix, different name
        if k:
            ops.append(guard([p, k], lambda: pair_op(p[:k - 1] + [p[k - 1] + "x"] + p[k:], p[:k])))
    rec.case(ops)
rec.close()
