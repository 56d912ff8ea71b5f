"""Dependency graph container"""
import vf


def project(dag):
    nodes = sorted(node.node_id for node in dag)
    edges = set()
    for node in dag:
        for d in node.descendants:
            edges.add((node.node_id, d.node_id))
        for a in node.ancestor:
            edges.add((a.node_id, node.node_id))
    return nodes, sorted(edges)


class Driver:

    def __init__(self, cls):
        self.dag = cls()

    def apply(self, op, a, b=None, style=0):
        dag = self.dag
        try:
            if op == 'add_node':
                node = dag.add_node(a, data=('data', a))
                if node.node_id != a or dag[a] is not node or node.data != ('data', a):
                    return 'wrong node'
            elif op == 'connect':
                if style:
                    dag[b].connect_ancestor(dag[a])
                else:
                    dag.add_edge(dag[a], dag[b])
            elif op == 'disconnect':
                dag[b].disconnect_ancestor(dag[a])
            return 'ok'
        except (NameError, KeyError) as exception:
            return type(exception).__name__


def sort(dag):
    try:
        return 'ok', [node.node_id for node in dag.topological_sort()]
    except NameError:
        return 'NameError', []


def main(ck):
    from Patro.Common.Graph.DirectedAcyclicGraph import DirectedAcyclicGraph

    # 1. every transition of the exhaustive model is replayed
    models = [({'a', 'b', 'c'}, True)]
    if ck.thorough:
        models.append(({'a', 'b', 'c', 'd'}, False))
    for ids, loops in models:
        res = ck.tlc('Dag', {'Ids': ids, 'SelfLoops': loops}, init='MInit', next='MNext', view='View',
                     invariants=('Duality', 'Closed', 'AcyclicHasRoot', 'AcyclicIffSortable'),
                     constraint='EmitState', action_constraint='EmitStep')
        ck.exhaustive.append('every graph on {} nodes, self loops {}'.format(len(ids), loops))
        steps = [row for row in res.rows if 's' in row]
        for row in steps:
            for k in 'st':
                row[k] = [sorted(row[k][0]), sorted(row[k][1])]
        obs = {vf.freeze([sorted(row['obs'][0]), sorted(row['obs'][1])]): row for row in res.rows if 'obs' in row}
        graph = vf.Graph(steps)
        seen = set()

        def check_state(dag, state, history):
            key = vf.freeze(state)
            nodes, edges = project(dag)
            if (tuple(nodes), tuple(edges)) != key:
                ck.violation('after {}: graph is {} expected {}'.format(history, (nodes, edges), key), history)
                return
            if key in seen:
                return
            seen.add(key)
            o = obs[key]
            got = sorted(n.node_id for n in dag.roots())
            if got != sorted(o['roots']):
                ck.violation('roots of {}: {} expected {}'.format(key, got, o['roots']), history)
            got = sorted(n.node_id for n in dag.leafs())
            if got != sorted(o['leafs']):
                ck.violation('leafs of {}: {} expected {}'.format(key, got, o['leafs']), history)
            for n in dag:
                if n.is_root != (n.node_id in o['roots']) or n.is_leaf != (n.node_id in o['leafs']):
                    ck.violation('root/leaf flags of {} in {}'.format(n.node_id, key), history)
            result, seq = sort(dag)
            pos = {x: i for i, x in enumerate(seq)}
            if o['cyclic']:
                good = result == 'NameError'
            else:
                good = result == 'ok' and sorted(seq) == nodes and all(pos[a] < pos[b] for a, b in edges)
            if not good:
                ck.violation('topological sort of {}: {} {}, cyclic {}'.format(key, result, seq, o['cyclic']), history)
            for n, layers in o['bfs']:
                level = {m: i for i, layer in enumerate(layers) for m in layer}
                seq = [x.node_id for x in dag[n].breadth_first_search()]
                if sorted(seq) != sorted(level) or any(level[x] > level[y] for x, y in zip(seq, seq[1:])):
                    ck.violation('breadth first search from {} in {}: {} expected layers {}'.format(n, key, seq, layers),
                                 history)

        for k, (s0, steps) in enumerate(graph.behaviours(ck.rng, walks=ck.pick(100, 1000), length=40,
                                                         max_transitions=ck.pick(6000, 20000))):
            driver = Driver(DirectedAcyclicGraph)
            history = []
            for a, state in steps:
                got = driver.apply(a[0], *a[1:-1], style=k % 2)
                history.append(a)
                if got != a[-1]:
                    ck.violation('{} gives {} expected {}'.format(history, got, a[-1]), history)
                    break
            check_state(driver.dag, state, history)
            ck.traces += 1
            if ck.full:
                return

    # 2. traces of random histories recorded from the code, on more nodes, are validated by the specification
    traces = []
    for k in range(ck.pick(150, 800)):
        rng = ck.rng
        n = rng.randrange(3, 13)
        ids = list('abcdefghijkl'[:n])
        driver = Driver(DirectedAcyclicGraph)
        dag = driver.dag
        trace = []
        acyclic = rng.random() < .6
        order = ids[:]
        rng.shuffle(order)
        present = []
        dense = rng.random() < .5
        length = rng.randrange(10, 45) + (4 * n if dense else 0)
        for step in range(length):
            p = rng.random()
            if dense and step < 3 * n:
                p = .5 if len(present) == n else p / 3
            elif step > length - 4:
                p = .7
            event = None
            if p < .2 or len(present) < 2:
                a = rng.choice(ids)
                event = {'op': 'add_node', 'a': a, 'result': driver.apply('add_node', a)}
                if a not in present:
                    present.append(a)
            elif p < .6:
                a, b = rng.choice(present), rng.choice(present)
                if acyclic:
                    if a == b:
                        continue
                    if order.index(a) > order.index(b):
                        a, b = b, a
                event = {'op': 'connect', 'a': a, 'b': b, 'result': driver.apply('connect', a, b, rng.randrange(2))}
            elif p < .68:
                a, b = rng.choice(present), rng.choice(present)
                event = {'op': 'disconnect', 'a': a, 'b': b, 'result': driver.apply('disconnect', a, b)}
            elif p < .78:
                result, seq = sort(dag)
                event = {'op': 'sort', 'result': result, 'seq': seq}
            elif p < .86:
                a = rng.choice(present)
                event = {'op': 'bfs', 'a': a, 'seq': [x.node_id for x in dag[a].breadth_first_search()]}
            elif p < .9:
                event = {'op': 'roots', 'seq': [x.node_id for x in dag.roots()]}
            elif p < .94:
                event = {'op': 'leafs', 'seq': [x.node_id for x in dag.leafs()]}
            else:
                a = rng.choice(present)
                event = {'op': 'links', 'a': a, 'anc': [x.node_id for x in dag[a].ancestor],
                         'desc': [x.node_id for x in dag[a].descendants]}
            trace.append(event)
        if trace:
            traces.append(trace)
    res = ck.tlc('Dag', {'Ids': {'a'}, 'SelfLoops': True}, init='TraceInit', next='TraceNext',
                 constraint='TraceVerdict', inputs=traces, workers=1)
    verdicts = {row['trace']: row for row in res.rows}
    if len(verdicts) != len(traces):
        raise vf.MachineryError('missing verdicts {} / {}'.format(len(verdicts), len(traces)))
    for i, trace in enumerate(traces, 1):
        v = verdicts[i]
        ck.traces += 1
        ck.note('trace events', len(trace))
        if v['verdict'] != 'ok':
            ck.violation('trace rejected at event {}: {} (nodes {} edges {})'.format(
                v['pos'], trace[v['pos'] - 1], v['nodes'], v['edges']), trace)
    ck.samples.append(traces[0])
