"""An own contraction of text-maps, standing in for the external multi-ch-constructor.

Without searching for witnesses, hence being correct for every weighting. Contraction stops, when
too many shortcuts would be needed; the nodes left share the highest level.
"""


def contract(rng, node_ids, edges, max_shortcuts, share=1.0):
    """edges: [(id, src, dst, [metrics])]; returns (levels by id, [(id, src, dst, metrics, sc0, sc1)])
    Shortcuts refer to positions in the returned list.
    """
    out = [(i, s, d, list(m), None, None) for (i, s, d, m) in edges]
    order = list(node_ids)
    rng.shuffle(order)
    order = order[: int(len(order) * share)]
    alive = list(range(len(out)))
    next_id = max([e[0] for e in edges] or [0]) + 1
    levels = {}
    for level, v in enumerate(order):
        ins = [e for e in alive if out[e][2] == v and out[e][1] != v]
        outs = [e for e in alive if out[e][1] == v and out[e][2] != v]
        new = [(i, o) for i in ins for o in outs if out[i][1] != out[o][2]]
        if len(out) - len(edges) + len(new) > max_shortcuts:
            break
        levels[v] = level
        alive = [e for e in alive if out[e][1] != v and out[e][2] != v]
        for i, o in new:
            alive.append(len(out))
            out.append((next_id, out[i][1], out[o][2], [a + b for a, b in zip(out[i][3], out[o][3])], i, o))
            next_id += 1
    top = len(levels)
    return {v: levels.get(v, top) for v in node_ids}, out
