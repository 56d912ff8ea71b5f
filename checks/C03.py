"""Classes which have one instance, and objects which share their state"""
import importlib
import itertools

import sched
import vf

KINDS = ('plain', 'falsy', 'equal', 'sub')


class Failure(Exception):
    pass


def body(name, spec, classes, log):
    """Attributes of a class whose constructor follows the specification"""
    def init(self, *args, **kwargs):
        log.append(name)
        self.number = log.count(name)
        self.arguments = (args, kwargs)
        for x in spec['nested']:
            classes[x]('nested', by=name)
        if self.number <= spec['fails']:
            raise Failure(name)
        self.ready = True
    return {'__init__': init}


def make_class(maker, name, spec, classes, log, kind):
    attributes = body(name, spec, classes, log)
    if kind == 'falsy':
        attributes['__bool__'] = lambda self: False
        attributes['__len__'] = lambda self: 0
    elif kind == 'equal':
        attributes['__eq__'] = lambda self, other: True
        attributes['__hash__'] = lambda self: 1
    return maker(name, attributes, kind)


def call(cls, name, j):
    try:
        obj = cls(name, j=j)
    except Failure:
        return -1, None
    return (obj.number if getattr(obj, 'ready', False) else -2), obj


def sequential_programs(ck):
    out = []
    for n in range(1, ck.pick(4, 5) + 1):
        for calls in itertools.product('AB', repeat=min(n, 4)):
            for fa, fb in ((0, 0), (1, 0), (2, 1)):
                for nested in ([], ['B']):
                    out.append({'classes': {'A': {'nested': nested, 'fails': fa}, 'B': {'nested': [], 'fails': fb}},
                                'threads': [list(calls)]})
    for _ in range(ck.pick(40, 400)):
        names = 'ABCD'[:ck.rng.randrange(2, 5)]
        classes = {x: {'nested': [ck.rng.choice(names[k + 1:]) for _ in range(ck.rng.randrange(3))] if k + 1 < len(names) else [],
                       'fails': ck.rng.choice((0, 0, 1, 2))} for k, x in enumerate(names)}
        out.append({'classes': classes, 'threads': [[ck.rng.choice(names) for _ in range(4)]]})
    return out


def concurrent_programs():
    one = lambda fails=0: {'A': {'nested': [], 'fails': fails}}
    two = lambda a=0, b=0, nested=(): {'A': {'nested': list(nested), 'fails': a}, 'B': {'nested': [], 'fails': b}}
    return [
        {'classes': one(), 'threads': [['A'], ['A']]},
        {'classes': one(), 'threads': [['A', 'A'], ['A']]},
        {'classes': one(), 'threads': [['A'], ['A'], ['A']]},
        {'classes': one(1), 'threads': [['A'], ['A', 'A']]},
        {'classes': one(2), 'threads': [['A'], ['A'], ['A']]},
        {'classes': two(), 'threads': [['A', 'B'], ['B', 'A']]},
        {'classes': two(nested=['B']), 'threads': [['A'], ['B']]},
        {'classes': two(nested=['B', 'B']), 'threads': [['A'], ['A'], ['B']]},
        {'classes': two(b=1, nested=['B']), 'threads': [['A', 'A'], ['B']]},
        {'classes': {'A': {'nested': ['B'], 'fails': 0}, 'B': {'nested': ['C'], 'fails': 1}, 'C': {'nested': [], 'fails': 0}},
         'threads': [['A'], ['B', 'A'], ['C']]},
    ]


def freeze(row):
    return tuple(tuple(x) for x in row['ret']), tuple(sorted(row['tried'].items()))


def run_tlc(ck, programs, liveness):
    res = ck.tlc('Singleton', inputs=programs, constraint='Emit', workers=1,
                 invariants=('OneInstance', 'Current', 'Exclusive', 'Once', 'NoDeadlock', 'Released'),
                 properties=('Stable',))
    if liveness:
        ck.tlc('Singleton', inputs=programs, spec='Spec', properties=('Ends',), workers=1, emit=False)
    allowed = {}
    for row in res.rows:
        allowed.setdefault(row['p'], set()).add(freeze(row))
    return allowed


def main(ck):
    import Patro.Common.Singleton as module

    def metaclass(kind_base=None):
        meta = module.SingletonMetaClass

        def maker(name, attributes, kind):
            bases = ()
            if kind == 'sub':
                # the parent has its own instance
                parent = meta('Parent', (), {})
                parents.append((parent, parent()))
                bases = (parent,)
            return meta(name, bases, attributes)
        parents = []
        return maker, parents

    def decorator(which):
        def factory():
            def maker(name, attributes, kind):
                return getattr(module, which)(type(name, (), attributes))
            return maker, []
        return factory

    makers = (('metaclass', metaclass), ('singleton', decorator('singleton')), ('singleton_func', decorator('singleton_func')))

    # Sequential histories
    programs = sequential_programs(ck)
    concurrent = concurrent_programs()
    allowed = run_tlc(ck, programs + concurrent, True)
    n = 0
    for k, program in enumerate(programs):
        for label, factory in makers:
            for kind in KINDS:
                if kind == 'sub' and label != 'metaclass':
                    continue
                n += 1

                def history():
                    maker, parents = factory()
                    log, classes = [], {}
                    for name, spec in program['classes'].items():
                        classes[name] = make_class(maker, name, spec, classes, log, kind)
                    ret, instances = [], {}
                    for j, name in enumerate(program['threads'][0]):
                        before = log.count(name)
                        value, obj = call(classes[name], name, j)
                        ret.append(value)
                        if obj is None:
                            continue
                        if instances.setdefault(name, obj) is not obj:
                            return 'call {} of {} gives another object'.format(j + 1, name)
                        # built by this call: with its arguments
                        if log.count(name) > before and obj.arguments != ((name,), {'j': j}):
                            return 'call {} of {} built with the arguments {}'.format(j + 1, name, obj.arguments)
                    for parent, instance in parents:
                        if parent() is not instance or any(x is instance for x in instances.values()):
                            return 'the instance of a parent class is the one of its subclass'
                    return (tuple(ret),), tuple(sorted((x, log.count(x)) for x in program['classes']))
                got = vf.outcome(history)
                ck.traces += 1
                if got[0] != 'ok' or got[1] not in allowed[k + 1]:
                    ck.violation('{} {} history {}: got {} expected {}'.format(label, kind, program, got[1:], sorted(allowed[k + 1])), program)
    ck.note('sequential histories', n)
    ck.exhaustive.append('all the histories of up to 4 calls of two classes, the constructor of one calling the other or not, with '
                         'up to two failures; every interleaving of {} concurrent programs (specification)'.format(len(concurrent)))

    # Two classes of the same name
    for label, factory in makers:
        maker, _ = factory()
        log = []
        a = make_class(maker, 'X', {'nested': [], 'fails': 0}, {}, log, 'plain')
        b = make_class(maker, 'X', {'nested': [], 'fails': 0}, {}, log, 'plain')
        if a() is b() or a() is not a() or b() is not b():
            ck.violation('{}: two classes of the same name have the same instance'.format(label))

    # Schedules of the real code
    limit = ck.pick(300, 4000)
    total = 0
    for k, program in enumerate(concurrent):
        expected = allowed[len(programs) + k + 1]

        def make():
            with sched.cooperative_locks(module):
                importlib.reload(module)
                maker, parents = metaclass()
                log, classes = [], {}
                for name, spec in program['classes'].items():
                    classes[name] = make_class(maker, name, spec, classes, log, 'plain')
            results = [[] for _ in program['threads']]
            objects = {}

            def thread(i):
                def run():
                    for j, name in enumerate(program['threads'][i]):
                        value, obj = call(classes[name], name, j)
                        results[i].append(value)
                        if obj is not None:
                            objects.setdefault(name, []).append(obj)
                return run

            def finish(r, scheduler):
                replay = {'program': program, 'schedule': scheduler.trace}
                for x in r:
                    if isinstance(x, BaseException):
                        ck.violation('schedule {} of {} raised {!r}'.format(scheduler.trace, program, x), replay, key='raise')
                        return
                if scheduler.deadlock:
                    ck.violation('deadlock: schedule {} of {}'.format(scheduler.trace, program), replay, key='deadlock')
                    return
                if any(x is not l[0] for l in objects.values() for x in l):
                    ck.violation('schedule {} of {}: several instances'.format(scheduler.trace, program), replay, key='instances')
                outcome = (tuple(tuple(x) for x in results), tuple(sorted((x, log.count(x)) for x in program['classes'])))
                if outcome not in expected:
                    ck.violation('schedule {} of {}: outcome {} is not the outcome of any interleaving of the specification {}'.format(
                        scheduler.trace, program, outcome, sorted(expected)), replay, key='schedule')
            return [thread(i) for i in range(len(program['threads']))], finish

        total += sched.explore(make, ck.pick(2, 3), limit)
        for _ in range(ck.pick(30, 400)):
            functions, finish = make()
            scheduler = sched.Scheduler(functions, sched.random_schedule(ck.rng, ck.rng.choice((.1, .3, .6))))
            finish(scheduler.run(), scheduler)
            total += 1
        ck.traces += total
        if ck.full:
            break
    importlib.reload(module)
    ck.note('schedules of the code', total)

    # Objects which share their state
    names, values = ('a', 'b', 'c'), (0, 1, 2)
    histories = []
    steps = [['new', 'a', 1], ['new', 'b', 2], ['set', 'a', 2], ['set', 'b', 0], ['del', 'a', 0]]
    for n in range(1, ck.pick(4, 5) + 1):
        for ops in itertools.product(steps, repeat=n):
            histories.append(list(ops))
    for _ in range(ck.pick(100, 1000)):
        histories.append([[ck.rng.choice(('new', 'set', 'set', 'del')), ck.rng.choice(names), ck.rng.choice(values)]
                          for _ in range(ck.rng.randrange(5, 20))])
    histories = [[['new', 'a', 1]] + x for x in histories]
    res = ck.tlc('Singleton', inputs=[{'ops': x} for x in histories], init='MonoInit', next='MonoNext', invariants=('MonoLaw', 'MonoEmit'), jobs=4, index='p')
    expected = {row['p']: row for row in res.rows}
    for k, ops in enumerate(histories):
        for own in (True, False):
            class State(module.monostate):
                if own:
                    _shared_state = {}

                def __init__(self, name, value=None, **kwargs):
                    setattr(self, name, value)
            rng = vf.random.Random(k)

            def history():
                objects, seen = [], []
                if not own:
                    # the state of the base class
                    vars(module.monostate()).clear()
                for op, name, value in ops:
                    if op == 'new':
                        objects.append(State(name, value=value) if rng.random() < .5 else State(name, value))
                    elif op == 'set':
                        setattr(rng.choice(objects), name, value)
                    elif hasattr(rng.choice(objects), name):
                        delattr(rng.choice(objects), name)
                    views = [{x: getattr(o, x) for x in names if hasattr(o, x)} for o in objects]
                    if any(x != views[0] for x in views):
                        return 'objects in different states {}'.format(views)
                    seen.append(views[0])
                if len(set(map(id, objects))) != len(objects):
                    return 'the same object'
                return seen
            got = vf.outcome(history)
            ck.traces += 1
            want = [dict(map(tuple, x)) for x in expected[k + 1]['ret']]
            if got[0] != 'ok' or got[1] != want:
                ck.violation('monostate history {}: got {} expected {}'.format(ops, got[1:], want), ops)
    ck.note('histories of shared states', len(histories))
    ck.samples.append(concurrent[-1])
    ck.assumptions.append('a bytecode of Patro is the unit of interleaving')
    ck.assumptions.append('constructors do not call their own class, directly or not')
