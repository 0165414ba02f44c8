"""Conversion of quadrilaterals to trace lines."""


def lines_of(q):
    return [q[0], q[1], 0, q[1], q[2], 0, q[2], q[3], 0, q[3], q[0], 0]


def convert(datasets):
    out = []
    for i in range(len(datasets)):
        d = datasets[i]
        if d['type'] == 2412 and 'quad' in d:
            nodes = []
            for q in d['quad']['nodes_nums']:
                nodes += lines_of(q)
            out.append({'type': 82, 'trace_num': i, 'n_nodes': len(nodes), 'color': 0, 'id': '', 'nodes': nodes})
    return out
