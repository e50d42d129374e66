"""C07: the variable table of a snapshot is closed and faithful to identity."""
import random

import graphs
import values
from rig import Tp

INV = ['Bounded', 'DepthBound', 'CollBound', 'Closed', 'OneIdPerObject', 'TrueRefs', 'BreadthFirst', 'Complete']


def models(check):
    """The design and its faulty variants (shared by C02, C05, C06, C07)."""
    base = dict(N=3, MaxKids=2, MaxRoots=2, VarLimits='{1, 2, 3}', CollLimits='{1, 2}', DepthLimits='{3}', Fault='"none"')
    if check.thorough:
        check.model('Collector', 'graphs of 3 objects, 3 roots', constants=dict(base, DepthLimits='{2, 3, 4}', MaxRoots=3),
                    invariants=INV, properties=['Terminates'], timeout=3000)
    else:
        check.model('Collector', 'graphs of 3 objects, small budget', invariants=INV, properties=['Terminates'],
                    constants=dict(base, VarLimits='{2}', CollLimits='{1}'))
        check.model('Collector', 'graphs of 3 objects, depth', invariants=INV, properties=['Terminates'],
                    constants=dict(base, VarLimits='{2, 3}', CollLimits='{2}', MaxRoots=1, DepthLimits='{2, 3}'))
    for fault, refuted, const in [
            ('lifo', ['BreadthFirst'], dict(VarLimits='{2}', CollLimits='{2}')), ('budget', ['Bounded'], dict(N=2)),
            ('dangling', ['Closed', 'CollBound'], dict(N=2)), ('nocache', ['OneIdPerObject'], dict(N=2)),
            ('depth', ['DepthBound'], dict(VarLimits='{3}', CollLimits='{1}', DepthLimits='{2}', MaxKids=1))]:
        check.model('Collector', 'faulty: ' + fault, expect=refuted, constants=dict(base, **dict(const, Fault='"%s"' % fault)),
                    invariants=INV)


def build(graph):
    """Real objects for a graph of TLC."""
    class Thing:
        pass
    objs = []
    for n, kind in enumerate(graph['kinds']):
        objs.append({'list': list, 'dict': dict, 'obj': Thing}[kind]() if kind in ('list', 'dict', 'obj') else
                    ('text%d' % n if kind == 'str' else 1000 + n))
    for n, kind in enumerate(graph['kinds']):
        for j, m in enumerate(graph['kids'][n]):
            if kind == 'list':
                objs[n].append(objs[m - 1])
            elif kind == 'dict':
                objs[n]['k%d' % j] = objs[m - 1]
            elif kind == 'obj':
                setattr(objs[n], 'a%d' % j, objs[m - 1])
    return [objs[n - 1] for n in graph['roots']], objs[graph['watch'] - 1]


def graph_cases(check, graphs_, limits, cases, label):
    """Run one snapshot per graph: the locals are the roots, the watched object is a global."""
    arity = max(len(g['roots']) for g in graphs_)
    source = 'W = None\n' + ''.join('\ndef f%d(%s):\n    pass\n' % (k, ', '.join('v%d' % j for j in range(k)))
                                     for k in range(arity + 1))
    ns = graphs.host(source)
    for n, graph in enumerate(graphs_):
        roots, watch = build(graph)
        lim = limits[n % len(limits)]
        tp = Tp('t', 'scene.py', 1, {'fire_count': '-1', 'fire_period': '0', 'method_name': 'f%d' % len(roots)},
                watches=['W', 'v0'])
        ns['W'] = watch
        scene = graphs.Scene(check, [(tp, 'single_frame')], lim)
        scene.run(lambda: ns['f%d' % len(roots)](*roots))
        cases += scene.cases('%s%d' % (label, n))


def run(check):
    rng = random.Random(check.seed * 613 + 7)
    models(check)
    cases = []
    found = check.generate('CollectorGen', 'graphs of 3 objects', 'GRAPH', constraints=['Emit'], workers=4,
                           constants=dict(N=2, MaxKids=2, MaxRoots=2, Kinds='{"list", "dict", "obj", "str"}'))
    check.notes['graphs'] = len(found)
    if len(found) > check.pick(700, 5000):
        found = rng.sample(found, check.pick(700, 5000))
    graph_cases(check, found, [{'vars': 1000}, {'vars': 2}, {'vars': 1}, {'depth': 3}, {'coll': 1}], cases, 'graph')
    # larger random graphs with sharing and cycles
    gen = values.Values(rng)
    for n in range(check.pick(350, 4000)):
        count = rng.randint(1, 5)
        roots = gen.shared(count, rng.choice([4, 8, 15, 30, 60]))
        names = ['v%d' % j for j in range(count)]
        source = 'def f(%s):\n    w = v0\n    return w\n' % ', '.join(names)
        ns = graphs.host(source, extra={'Box': values.Plain})
        pool = ['w', 'v0', 'v%d' % (count - 1), '[v0, w]', '(v0, [v0])', '{"a": v0, "b": w}', '[[v0]]'] if values.cheap(roots) else \
            ['Box(a=v0, b=w)', 'Box(a=Box(a=v0))']
        watches = rng.sample(pool + ['type(v0)', 'nope', 'Box(v=v0)', 'len(str(1))'], rng.randint(0, 4))
        tp = Tp('t', 'scene.py', 3, {'fire_count': '-1', 'fire_period': '0'}, watches=watches)
        limits = rng.choice([None, None, {'vars': rng.randint(1, 40)}, {'depth': rng.randint(1, 8)}, {'coll': rng.randint(0, 5)}])
        if rng.random() < 0.4:
            tp.fields = [f for f in rng.sample(pool, 2) if '{' not in f]
            tp.args['log_msg'] = 'at ' + ' '.join('{%s}' % f for f in tp.fields)
        if rng.random() < 0.3:
            tp.line = 1
            tp.args.update(method_name='f', stage='method_capture')
        more = [(tp, 'single_frame')]
        if rng.random() < 0.3:
            more.append((Tp('u', 'scene.py', 3, {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'all_frame'},
                            watches=watches[:1]), 'all_frame'))
        scene = graphs.Scene(check, more, limits)
        scene.run(lambda: ns['f'](*roots))
        cases += scene.cases('random%d' % n)
    graphs.judge(check, cases, 'K')
    for case in (cases[10], cases[-1]):
        check.sample({k: case[k] for k in ('limits', 'nodes', 'frames', 'watches', 'got') if k in case})
    check.assumptions += ['identity is followed along names and positions from the frame and the watches; what a container '
                          'subclass or a class shows below itself is not prescribed']
