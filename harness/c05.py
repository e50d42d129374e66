"""C05: collection is bounded and spends its budget breadth first."""
import random

import c07
import graphs
import values
from rig import Tp


def tree(rng, width, depth, kind, gen):
    """A tree of containers; every object is a different one."""
    if depth == 0:
        return rng.choice([lambda: 100000 + gen.fresh(), lambda: 'leaf %d' % gen.fresh(),
                           lambda: 'x%d ' % gen.fresh() * rng.choice([1, 4, 200, 500])])()
    one = rng.choice(['list', 'tuple', 'dict', 'obj', 'err', 'set']) if kind == 'mixed' else kind
    if one == 'set':
        return {200000 + gen.fresh() for _ in range(width)}
    kids = [tree(rng, width, depth - 1, kind, gen) for _ in range(width)]
    if one == 'list':
        return kids
    if one == 'tuple':
        return tuple(kids)
    if one == 'dict':
        return {'k%d' % j: v for j, v in enumerate(kids)}
    if one == 'obj':
        return values.Plain(**{'a%d' % j: v for j, v in enumerate(kids)})
    return ValueError(*kids)


def chain(rng, depth):
    """Something nested deeply."""
    value = 'end'
    for j in range(depth):
        value = rng.choice([lambda v: [v], lambda v: {'k': v}, lambda v: values.Plain(a=v), lambda v: (v, j)])(value)
    return value


def scene(check, rng, n, cases):
    """Local variables that compete for the budget."""
    gen = values.Values(rng)
    shape = rng.choice(['wide', 'deep', 'tree', 'tree', 'strings', 'random', 'many'])
    locals_ = []
    for _ in range(rng.randint(1, 6)):
        if shape == 'wide':
            count = rng.choice([5, 50, 500])
            locals_.append(rng.choice([lambda: {'k%d' % j: gen.fresh() + 1000 for j in range(count)},
                                       lambda: [gen.fresh() + 1000 for _ in range(count)],
                                       lambda: values.Plain(**{'a%d' % j: [j + 3000] for j in range(count)}),
                                       lambda: 'small %d' % gen.fresh()])())
        elif shape == 'deep':
            locals_.append(chain(rng, rng.randint(0, 12)))
        elif shape == 'tree':
            locals_.append(tree(rng, rng.choice([1, 2, 3, 4]), rng.randint(0, 4), rng.choice(['list', 'dict', 'obj', 'mixed']), gen))
        elif shape == 'strings':
            locals_.append(rng.choice(['x', '\u00e9', '\U0001f600', 'ab\n'])[:1] * rng.choice([0, 1, 9, 10, 11, 1023, 1024, 1025, 5000]))
        elif shape == 'many':
            locals_ += [gen.fresh() + 5000 for _ in range(30)]
        else:
            locals_.append(gen.value(3))
    names = ['v%d' % j for j in range(len(locals_))]
    source = 'def f(%s):\n    pass\n' % ', '.join(names)
    for j in range(rng.choice([0, 0, 1])):
        source += 'def g%d(%s):\n    own = [v0, %d]\n    f(%s)\n' % (j, ', '.join(names), 7000 + j, ', '.join(names))
    ns = graphs.host(source, extra={'Box': values.Plain})
    entry = 'g0' if 'g0' in ns else 'f'
    limits = {}
    if rng.random() < 0.85:
        for key, options in (('vars', [0, 1, 2, 3, 5, 8, 13, 20, 40, 100]), ('str', [0, 1, 5, 10, 100]), ('coll', [0, 1, 2, 5, 20]),
                             ('depth', [2, 3, 4, 5, 7, 9])):
            if rng.random() < 0.5:
                limits[key] = rng.choice(options)
    watches = rng.sample(['v0', 'Box(a=v0)', '[1, 2, 3] * 9', '"z" * 3000', '{"a": {"b": {"c": {"d": {"e": {"f": 1}}}}}}',
                          '[[[[[[[[1]]]]]]]]', 'v%d' % (len(names) - 1)], rng.randint(0, 3))
    if not values.cheap(locals_):
        watches = [w for w in watches if w[0] != 'v']
    frame_type = rng.choice(['single_frame', 'single_frame', 'all_frame'])
    tp = Tp('t', 'scene.py', 2, {'fire_count': '-1', 'fire_period': '0', 'frame_type': frame_type}, watches)
    if rng.random() < 0.2:
        # the log fields and captured values use the same budget
        tp.fields = [w for w in watches if '{' not in w]
        tp.args['log_msg'] = 'at ' + ' '.join('{%s}' % w for w in tp.fields)
    if rng.random() < 0.2:
        tp.line = 1
        tp.args.update(method_name='f', stage='method_capture')
    run = graphs.Scene(check, [(tp, frame_type)], limits or None)
    run.run(lambda: ns[entry](*locals_))
    cases += run.cases('scene%d' % n)


def run(check):
    rng = random.Random(check.seed * 977 + 5)
    c07.models(check)
    cases = []
    found = check.generate('CollectorGen', 'graphs of 3 objects', 'GRAPH', constraints=['Emit'], workers=4,
                           constants=dict(N=check.pick(2, 3), MaxKids=2, MaxRoots=2,
                                          Kinds='{"list", "dict"%s}' % check.pick(', "obj", "str"', '')))
    if len(found) > check.pick(400, 5000):
        found = rng.sample(found, check.pick(400, 5000))
    check.notes['graphs'] = len(found)
    c07.graph_cases(check, found, [{'vars': 1}, {'vars': 2}, {'vars': 0}, {'coll': 1}, {'coll': 0}, {'depth': 2}, {'depth': 3},
                                   {'str': 3}, {'vars': 3, 'coll': 1}], cases, 'graph')
    for n in range(check.pick(500, 8000)):
        scene(check, rng, n, cases)
    graphs.judge(check, cases, 'B')
    for case in (cases[3], cases[-1], cases[-2]):
        check.sample({k: case[k] for k in ('limits', 'nodes', 'frames', 'got') if k in case})
    check.assumptions += ['the budget is spent per frame (then per watch): breadth first within each of them',
                          'the limits are given through the action configuration, as there is no other way to set them']
