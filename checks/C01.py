"""Counter and object identifiers"""
import itertools
import threading

import sched
import vf


def refine(ret):
    return tuple(tuple(x) for x in ret)


def main(ck):
    from Patro.Common import AtomicCounter as module
    from Patro.Common.AtomicCounter import AtomicCounter
    from Patro.Common.Object import ObjectCkeckedIdMixin, ObjectGlobalIdMixin, ObjectNameMixin

    ops = [['inc', 1], ['inc', 3], ['set', 0], ['set', 2], ['set', 7], ['get', 0]]
    programs = []
    n_seq = ck.pick(3, 4)
    for n in range(1, n_seq + 1):
        for seq in itertools.product(ops, repeat=n):
            programs.append({'initial': 0, 'threads': [list(seq)]})
    # random long histories
    for _ in range(ck.pick(40, 400)):
        seq = []
        for _ in range(ck.rng.randrange(5, 25)):
            k = ck.rng.choice(('inc', 'inc', 'set', 'get'))
            seq.append([k, 0 if k == 'get' else ck.rng.choice((0, 1, 1, 2, 5, 40, 1000)) if k == 'inc'
                        else ck.rng.choice((0, 3, 10, 60, 500, 5000))])
        programs.append({'initial': ck.rng.choice((-1, 0, 10)), 'threads': [seq]})
    sequential = len(programs)
    concurrent = [
        [[['inc', 1]], [['inc', 1]]],
        [[['inc', 1], ['inc', 1]], [['inc', 1]]],
        [[['inc', 2]], [['set', 1]]],
        [[['set', 1]], [['set', 2]]],
        [[['set', 2]], [['set', 2]]],
        [[['inc', 1], ['get', 0]], [['set', 5]]],
        [[['inc', 1]], [['inc', 1]], [['inc', 1]]],
        [[['inc', 1]], [['set', 2]], [['get', 0]]],
        [[['set', 1], ['inc', 1]], [['inc', 1], ['set', 2]]],
    ]
    for x in concurrent:
        programs.append({'initial': 0, 'threads': x})

    res = ck.tlc('Counter', inputs=programs, invariants=('Unique', 'ThreadMonotone', 'Last'),
                 properties=(), constraint='Emit', workers=1)
    ck.exhaustive.append('all sequential histories of length <= {} over {} operations; every interleaving of {} '
                         'concurrent programs (specification)'.format(n_seq, len(ops), len(concurrent)))
    allowed = {}
    for row in res.rows:
        allowed.setdefault(row['p'], set()).add((refine(row['ret']), row['val']))

    def operation(counter, op):
        if op[0] == 'inc':
            return counter.increment(op[1]) if op[1] != 1 else counter.increment()
        if op[0] == 'set':
            try:
                counter.set(op[1])
            except ValueError:
                return -99
            return op[1]
        return int(counter)

    def run_ops(counter, seq):
        return [operation(counter, op) for op in seq]

    # sequential
    for k, program in enumerate(programs[:sequential]):
        counter = AtomicCounter(program['initial']) if program['initial'] else AtomicCounter()
        got = vf.outcome(lambda: ((tuple(run_ops(counter, program['threads'][0])),), int(counter)))
        ck.traces += 1
        if got[0] != 'ok' or got[1] not in allowed[k + 1]:
            ck.violation('counter history {}: got {} expected {}'.format(program, got[1:], sorted(allowed[k + 1])), program)
    ck.note('sequential histories', sequential)

    # The identifiers of objects: same operations, relative to the current value of the global counter
    class A(ObjectGlobalIdMixin):
        pass

    class B(ObjectGlobalIdMixin):
        def __init__(self, id=None):
            super().__init__(id)

    classes = (A, B, ObjectGlobalIdMixin)
    n = 0
    for k, program in enumerate(programs[:sequential]):
        if program['initial'] != 0:
            continue
        seq = program['threads'][0]
        if any(op[0] == 'inc' and op[1] != 1 or op[0] == 'get' for op in seq):
            continue
        n += 1
        base = int(ObjectGlobalIdMixin())
        got = []
        for j, op in enumerate(seq):
            cls = classes[(j + k) % 3]
            if op[0] == 'inc':
                obj = cls()
            else:
                try:
                    obj = cls(id=base + op[1])
                except ValueError:
                    got.append(-99)
                    continue
            if obj.id != int(obj):
                ck.violation('object id {} but int {}'.format(obj.id, int(obj)), program)
            got.append(obj.id - base)
        value = int(ObjectGlobalIdMixin()) - 1 - base
        ck.traces += 1
        if ((tuple(got),), value) not in allowed[k + 1]:
            ck.violation('object identifiers {}: got {} next {}, expected {}'.format(
                seq, got, value + 1, sorted(allowed[k + 1])), program)
    ck.note('identifier histories', n)

    # Names, and identifiers checked by the owner: the owner gives the new ones, and refuses the ones it gave
    class Named(ObjectNameMixin):
        pass

    for value in (None, '', 'a', 3, 2.5, 'é b'):
        x = Named(value)
        wanted = None if value is None else str(value)
        y = Named()
        y.name = value
        if x.name != wanted or y.name != wanted or Named().name is not None or (wanted is not None and str(x) != wanted):
            ck.violation('object of name {!r}: {!r} {!r}'.format(value, x.name, y.name), {'name': str(value)})

    for program in programs[:sequential]:
        given = []

        class Owned(ObjectCkeckedIdMixin):
            def new_id(self):
                given.append(max(given, default=0) + 1)
                return given[-1]

            def check_id(self, id):
                if id in given:
                    raise ValueError('already attributed')
                given.append(id)

        got, wanted = [], []
        for op in program['threads'][0]:
            if op[0] == 'set':
                if op[1] in wanted:
                    o = vf.outcome(Owned, op[1])
                    if o[:2] != ('err', 'ValueError'):
                        ck.violation('the identifier {} is given twice'.format(op[1]), program)
                    continue
                x = Owned(op[1])
                wanted.append(op[1])
            else:
                x = Owned() if len(got) % 2 else Owned(None)
                wanted.append(max(wanted, default=0) + 1)
            if x.id != int(x):
                ck.violation('object id {} but int {}'.format(x.id, int(x)), program)
            got.append(x.id)
        if got != wanted or given != wanted:
            ck.violation('identifiers given by an owner after {}: {} instead of {}'.format(program['threads'][0], got, wanted), program)

    # Schedules of the real code
    limit = ck.pick(350, 4000)
    total = 0
    for k, program in enumerate(programs[sequential:]):
        k = sequential + k + 1
        expected = allowed[k]

        def make():
            with sched.cooperative_locks(module):
                counter = AtomicCounter()
            results = [[] for _ in program['threads']]

            def thread(i):
                def body():
                    for op in program['threads'][i]:
                        results[i].append(operation(counter, op))
                return body

            def finish(r, scheduler):
                for x in r:
                    if isinstance(x, BaseException):
                        ck.violation('schedule {} of {} raised {!r}'.format(scheduler.trace, program, x), program)
                        return
                if scheduler.deadlock:
                    ck.violation('deadlock: schedule {} of {}'.format(scheduler.trace, program), program)
                    return
                outcome = (refine(results), int(counter))
                if outcome not in expected:
                    ck.violation('schedule {} of {}: outcome {} is not the outcome of any interleaving of the '
                                 'specification {}'.format(scheduler.trace, program['threads'], outcome, sorted(expected)),
                                 {'program': program, 'schedule': scheduler.trace}, key='schedule')
            return [thread(i) for i in range(len(program['threads']))], finish

        total += sched.explore(make, ck.pick(2, 3), limit)
        for _ in range(ck.pick(30, 600)):
            functions, finish = make()
            scheduler = sched.Scheduler(functions, sched.random_schedule(ck.rng, ck.rng.choice((.1, .3, .6))))
            finish(scheduler.run(), scheduler)
            total += 1
        if ck.full:
            break
    ck.traces += total
    ck.note('schedules of the code', total)

    # Objects created by several threads with the real locks
    def worker(out):
        for _ in range(300):
            out.append(ObjectGlobalIdMixin().id)
    import sys
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    lists = [[] for _ in range(4)]
    threads = [threading.Thread(target=worker, args=(x,)) for x in lists]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    sys.setswitchinterval(interval)
    ids = [x for l in lists for x in l]
    if len(set(ids)) != len(ids) or any(a >= b for l in lists for a, b in zip(l, l[1:])):
        ck.violation('identifiers given by threads are not unique and increasing', ids[:100])
    ck.samples.append(programs[sequential])
    ck.assumptions.append('a bytecode is the unit of interleaving')
