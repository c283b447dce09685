"""Helpers shared by the property modules."""
from . import fs as simfs


def fs_sweep(base, rng, limit, cuts=True):
    """Fault decisions covering the faultable disk operations of a run.

    Long stretches of the same operation on the same file are represented by
    their first, last and one random member.
    """
    pts = base.points
    keep = []
    i = 0
    while i < len(pts):
        j = i
        while j + 1 < len(pts) and pts[j + 1] == pts[i]:
            j += 1
        keep += sorted({i, j, rng.randrange(i, j + 1)})
        i = j + 1
    allowed = []
    for k in keep:
        for v in range(len(simfs.OPTIONS[pts[k][0]])):
            allowed.append((k, v + 1))
    if len(allowed) > limit:
        allowed = rng.sample(allowed, limit)
    out = []
    for k, v in sorted(allowed):
        d = {'fs#{}'.format(k): v}
        c = rng.randrange(4)
        if c and cuts:
            d['fs.cut#0'] = c
        out.append(d)
    return out


def snapshot(stage, comp, resolved=False, sources=False):
    """Everything a user can see of a composed graph."""
    out = {'': {'children': list(comp.children(
        return_type=comp.RETURNS.Path))}}
    paths = list(comp.descendants()) + ['/']
    for path in paths:
        node = comp.lookup(path)
        if node is None:
            continue
        attrs = {}
        for a in stage.get_node_attr_names(node):
            attrs[a] = [stage.get_node_attr_value(node, a, comp, False),
                        stage.get_node_attr_data(node, a, comp, quiet=True).get('type'),
                        stage.get_node_attr_comment(node, a)]
            if resolved:
                attrs[a].append(stage.get_node_attr_value(node, a, comp))
            if sources:
                source = stage.get_node_attr_source(node, a)
                attrs[a].append(source if sources == 'layers' else source[1])
        data = stage.get_node_data(node, comp)
        out[path] = {
            'attrs': attrs,
            'code': stage.get_node_code_lines(node, comp, 'raw'),
            'comment': stage.get_node_comment(node),
            'exec_in': stage.get_node_exec_in(node),
            'instance': data.get('instance'),
            'enabled': data.get('enabled'),
            'start': data.get('start_point'),
            'children': list(comp.children(
                path, return_type=comp.RETURNS.Path, ordered=True))
            if path != '/' else []}
    return out
