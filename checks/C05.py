"""Objects bound to XML elements"""
import itertools

import vf

NAMES = ('a', 'b', 'c', 'line_width', 'x1')
TYPES = ('int', 'float', 'bool', 'string', 'floats')
WORDS = ('', 'none', 'true', 'false', 'True', '1', '0', '2', 'red', 'a b', ' é ', '<&">\'', 'x\ty', '1.5', 'nan?', '-', '0x1', '1,5 z')


def ratio(rng):
    q = rng.choice((1, 1, 2, 4))
    n = rng.randrange(-12, 13)
    while q > 1 and n % 2 == 0:
        q //= 2
        n //= 2
    return [n, q]


def number_text(rng, r):
    """A text of a number"""
    n, d = r
    if d == 1:
        return rng.choice((str(n), ' {} '.format(n), '+{}'.format(n) if n >= 0 else str(n), '0{}'.format(n) if n >= 0 else str(n)))
    return rng.choice((str(n / d), '{:e}'.format(n / d), ' {:.2f}'.format(n / d), '{:.3f}'.format(n / d)))


def random_text(rng, kind=None):
    if kind is None:
        kind = rng.choice(('int', 'dec', 'word', 'list'))
    if kind == 'word':
        s = rng.choice(WORDS)
        # the words which are numbers
        return {'s': s, 'k': {'1': 'int', '0': 'int', '2': 'int', '1.5': 'dec', '': 'list'}.get(s, 'word'),
                'v': {'1': [[1, 1]], '0': [[0, 1]], '2': [[2, 1]], '1.5': [[3, 2]]}.get(s, [])}
    if kind == 'int':
        r = [rng.randrange(-20, 21), 1]
        return {'s': number_text(rng, r), 'k': 'int', 'v': [r]}
    if kind == 'dec':
        r = [rng.choice((-3, -1, 1, 3, 5, 25)), rng.choice((2, 4))]
        return {'s': number_text(rng, r), 'k': 'dec', 'v': [r]}
    v = [ratio(rng) for _ in range(rng.randrange(2, 5))]
    s = number_text(rng, v[0]).strip()
    for r in v[1:]:
        s += rng.choice((' ', ',', ', ', '  ')) + number_text(rng, r).strip()
    return {'s': s, 'k': 'list', 'v': v}


def text_for(rng, type_):
    """Most of the time a text of this type"""
    if rng.random() < .07:
        return random_text(rng)
    if type_ == 'bool':
        s = rng.choice(('true', 'false', '1', '0'))
        return {'s': s, 'k': 'int' if s in '10' else 'word', 'v': [[int(s), 1]] if s in '10' else []}
    if type_ == 'int':
        return random_text(rng, 'int')
    if type_ == 'float':
        return random_text(rng, rng.choice(('int', 'dec')))
    if type_ == 'floats':
        return rng.choice((random_text(rng, 'list'), random_text(rng, 'int'), {'s': 'none', 'k': 'word', 'v': []}, {'s': '', 'k': 'list', 'v': []}))
    return random_text(rng, rng.choice(('word', 'int', 'dec')))


def value_for(rng, type_):
    if type_ == 'bool':
        return ['bool', rng.random() < .5]
    if type_ == 'int':
        return ['int', rng.randrange(-9, 10)]
    if type_ == 'float':
        return ['float', ratio(rng)]
    if type_ == 'floats':
        return ['floats', [ratio(rng) for _ in range(rng.randrange(0, 4))]]
    return ['string', rng.choice(WORDS)]


def py(rng, v):
    """The Python value of a value"""
    if v[0] == 'null':
        return None
    if v[0] == 'float':
        return v[1][0] if v[1][1] == 1 and rng and rng.random() < .5 else v[1][0] / v[1][1]
    if v[0] == 'floats':
        x = [r[0] / r[1] for r in v[1]]
        return tuple(x) if rng and rng.random() < .3 else x
    return v[1]


def same(got, v):
    """Is this Python value the one of the specification?"""
    if v[0] == 'null':
        return got is None
    if v[0] == 'bool':
        return got is v[1]
    if v[0] in ('int', 'string'):
        return type(got) is type(v[1]) and got == v[1]
    if v[0] == 'float':
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == v[1][0] / v[1][1]
    return isinstance(got, (list, tuple)) and list(got) == [r[0] / r[1] for r in v[1]]


def same_text(got, t):
    """Is it a text of the same value?"""
    try:
        if t['k'] == 'word':
            return got == t['s']
        if t['k'] == 'int':
            return got == t['s']
        if t['k'] == 'dec':
            return float(got) == t['v'][0][0] / t['v'][0][1]
        return [float(x) for x in got.replace(',', ' ').split()] == [r[0] / r[1] for r in t['v']]
    except ValueError:
        return False


def random_case(rng):
    # the first class is the one of Patro
    classes = [{'bases': [], 'own': [], 'mixin': False}]
    for n in range(1, rng.randrange(2, 8)):
        before = list(range(2, n + 1))
        mixin = rng.random() < .2
        if mixin:
            # a plain class, which declares attributes
            bases = [b for b in before if classes[b - 1]['mixin'] and rng.random() < .3]
        else:
            bases = rng.sample(before, min(len(before), rng.choice((0, 1, 1, 2, 2, 3))))
            if all(classes[b - 1]['mixin'] for b in bases):
                bases.append(1)
        own = []
        # the XML name of a name does not conflict with another one
        for name in rng.sample(NAMES, rng.choice((0, 1, 1, 2, 3))):
            type_ = rng.choice(TYPES)
            default = ['null'] if rng.random() < .6 else value_for(rng, type_)
            own.append({'name': name, 'xml': rng.choice((name, name.upper(), name.replace('_', '-') + 'z')), 'type': type_, 'default': default})
        classes.append({'bases': bases, 'own': own, 'mixin': mixin})
    ops, todo, ready, nobj = [], list(range(1, len(classes) + 1)), [], 0
    types = {o['name']: [] for x in classes for o in x['own']}
    for x in classes:
        for o in x['own']:
            types[o['name']].append((o['type'], o['xml']))
    names = sorted(types)
    for _ in range(rng.randrange(len(classes), 24)):
        r = rng.random()
        if todo and (not ready or r < .3):
            x = todo.pop(0)
            ops.append({'do': 'class', 'class': x})
            if x > 1 and not classes[x - 1]['mixin']:
                ready.append(x)
        elif not ready:
            continue
        elif r < .75 or not nobj:
            given = []
            kind = rng.choice(('new', 'new', 'read', 'read', 'none'))
            for name in names:
                if rng.random() < .6 and kind != 'none':
                    type_, xml = rng.choice(types[name])
                    if kind == 'new':
                        q = rng.random()
                        given.append([name, ['null'] if q < .1 else ['text', text_for(rng, type_)] if q < .5 else value_for(rng, type_)])
                    elif xml not in [g[0] for g in given]:
                        given.append([xml, text_for(rng, type_)])
            ops.append({'do': 'read' if kind == 'read' else 'new', 'class': rng.choice(ready), 'given': given,
                        'text': rng.choice(('', 'hello', 'a <b>', ' \n'))})
            nobj += 1
        elif r < .88 and names:
            name = rng.choice(names)
            type_ = rng.choice(types[name])[0]
            ops.append({'do': 'set', 'obj': rng.randrange(1, nobj + 1), 'name': name, 'value': ['null'] if rng.random() < .2 else value_for(rng, type_)})
        elif r < .92:
            ops.append({'do': 'settext', 'obj': rng.randrange(1, nobj + 1), 'text': rng.choice(('', 'new text', '&'))})
        else:
            ops.append({'do': 'copy', 'obj': rng.randrange(1, nobj + 1)})
            nobj += 1
    return {'classes': classes, 'ops': ops}


def linear(classes, x, memo):
    """Names and definitions of a class, by the method resolution of Python itself; used only to keep the operations meaningful"""
    if x not in memo:
        bases = tuple(linear(classes, b, memo) for b in classes[x - 1]['bases'])
        if any(b is None for b in bases):
            memo[x] = None
        else:
            try:
                memo[x] = type('K', bases, {'def_' + o['name']: o for o in classes[x - 1]['own']})
            except TypeError:
                memo[x] = None
    return memo[x]


def arrange(rng, case):
    """Give to the operations values which suit the classes of the objects, so that a type error is the exception"""
    memo, objs = {}, []
    classes = case['classes']
    for op in case['ops']:
        if op['do'] in ('new', 'read'):
            k = linear(classes, op['class'], memo)
            if k is None:
                continue
            for g in op['given']:
                defs = [getattr(k, a) for a in dir(k) if a.startswith('def_')]
                d = next((d for d in defs if d['name' if op['do'] == 'new' else 'xml'] == g[0]), None)
                if d is None:
                    continue
                if op['do'] == 'read':
                    g[1] = text_for(rng, d['type'])
                elif g[1][0] == 'text':
                    g[1] = ['text', text_for(rng, d['type'])]
                elif g[1][0] != 'null':
                    g[1] = value_for(rng, d['type'])


def main(ck):
    from lxml import etree
    from Patro.Common.Xml import Objectivity
    from Patro.Common.Xml.Objectivity import XmlObjectAdaptator, TextXmlObjectAdaptator
    rng = ck.rng
    attribute_class = {t: getattr(Objectivity, n + 'Attribute') for t, n in
                       (('int', 'Int'), ('float', 'Float'), ('bool', 'Bool'), ('string', 'String'), ('floats', 'FloatList'))}

    cases = []
    # two bases, in any order, which override or not
    for own in itertools.product((0, 1), repeat=3):
        for bases in ([3, 4], [4, 3]):
            for x in ([5], [5, 6]):
                classes = [{'bases': b, 'own': [{'name': 'a', 'xml': 'a', 'type': 'int', 'default': ['int', 10 + n]}] if has else [], 'mixin': False}
                           for n, (b, has) in enumerate(zip(([1], [2], [2], bases), (1,) + own))]
                classes.append({'bases': [5, 2], 'own': [], 'mixin': False})
                cases.append({'classes': [{'bases': [], 'own': [], 'mixin': False}] + classes,
                              'ops': [{'do': 'class', 'class': n} for n in [1, 2, 3, 4] + x] +
                              [{'do': 'new', 'class': n, 'given': [], 'text': ''} for n in [2, 3, 4] + x]})
    ck.exhaustive.append('diamonds of classes which override, or not, an attribute')
    # each type with each text and each default
    for type_ in TYPES:
        for t in [random_text(rng, k) for k in ('int', 'dec', 'list') for _ in range(3)] + [
                {'s': s, 'k': k, 'v': v} for s, k, v in (('true', 'word', []), ('false', 'word', []), ('1', 'int', [[1, 1]]), ('0', 'int', [[0, 1]]),
                                                        ('none', 'word', []), ('', 'list', []), ('yes', 'word', []), ('2', 'int', [[2, 1]]))]:
            for default in (['null'], value_for(rng, type_)):
                case = {'classes': [{'bases': [], 'own': [], 'mixin': False}, {'bases': [1], 'mixin': False, 'own': [{'name': 'a', 'xml': 'A', 'type': type_, 'default': default}]}],
                        'ops': [{'do': 'class', 'class': 1}, {'do': 'class', 'class': 2}] + [
                            {'do': 'read', 'class': 2, 'given': [['A', t]], 'text': ''}, {'do': 'new', 'class': 2, 'given': [['a', ['text', t]]], 'text': ''},
                            {'do': 'read', 'class': 2, 'given': [['a', t]], 'text': ''}, {'do': 'copy', 'obj': 1}, {'do': 'copy', 'obj': 2},
                            {'do': 'set', 'obj': 1, 'name': 'a', 'value': ['null']}, {'do': 'copy', 'obj': 1}]}
                cases.append(case)
    ck.exhaustive.append('texts of each kind read by an attribute of each type')
    for _ in range(ck.pick(700, 8000)):
        case = random_case(rng)
        arrange(rng, case)
        cases.append(case)

    res = ck.tlc('XmlObjects', inputs=cases, invariants=('Laws', 'Emit'), jobs=8)

    def replay(row, case):
        bad = []
        classes, objs, outs = {}, [], []
        with_text = rng.random() < .5
        root = TextXmlObjectAdaptator if with_text else XmlObjectAdaptator

        def make_class(x):
            if x == 1:
                return root
            d = case['classes'][x - 1]
            bases = tuple(classes[b] for b in d['bases'])
            own = tuple(attribute_class[o['type']](o['name'], *(() if o['xml'] == o['name'] and rng.random() < .5 else (o['xml'],)),
                                                   **({} if o['default'] == ['null'] and rng.random() < .5 else {'default': py(None, o['default'])}))
                        for o in d['own'])
            ns = {'__attributes__': own} if own or rng.random() < .3 else {}
            if d['mixin']:
                return type('Mixin{}'.format(x), bases, ns)
            ns['__tag__'] = 'element{}'.format(x)
            return type(root)('Class{}'.format(x), bases, ns)

        def keep(function):
            """Like an outcome of the specification"""
            o = vf.outcome(function)
            if o[0] == 'ok':
                return 'ok', o[1]
            if o[1] in ('ValueError', 'TypeError'):
                return 'refused', o
            return 'error {}'.format(o[1:]), None

        for op, expected in zip(case['ops'], row['out']):
            if expected == 'skip':
                continue
            x = op.get('class')
            if op['do'] == 'class':
                got, new = keep(lambda: make_class(x))
                if got == 'ok':
                    classes[x] = new
            elif op['do'] == 'new':
                kwargs = {g[0]: g[1][1]['s'] if g[1][0] == 'text' else py(rng, g[1]) for g in op['given']}
                if with_text and (op['text'] or rng.random() < .5):
                    kwargs['text'] = op['text']
                got, new = keep(lambda: classes[x](**kwargs))
                if got == 'ok':
                    objs.append(new)
            elif op['do'] == 'read':
                element = etree.Element('element{}'.format(x))
                for g in op['given']:
                    element.set(g[0], g[1]['s'])
                if rng.random() < .3:
                    element.set('{http://somewhere/ns}a', '7')
                if rng.random() < .3:
                    element.set('unknown', 'x')
                element.text = op['text'] or rng.choice((None, ''))
                if rng.random() < .2:
                    etree.SubElement(element, 'child').set('a', '5')
                if rng.random() < .5:
                    element = etree.fromstring(etree.tostring(element))
                got, new = keep(lambda: classes[x](element))
                if got == 'ok':
                    objs.append(new)
            elif op['do'] == 'set':
                got, new = keep(lambda: setattr(objs[op['obj'] - 1], op['name'], py(None, op['value'])))
            elif op['do'] == 'settext':
                got, new = keep(lambda: setattr(objs[op['obj'] - 1], 'text', op['text']))
            else:
                o = objs[op['obj'] - 1]
                got, new = keep(lambda: type(o)(etree.fromstring(o.to_xml_string()) if rng.random() < .5 else o.to_xml()))
                if got == 'ok':
                    objs.append(new)
            ck.note(op['do'] + ' ' + expected)
            if got != expected:
                return ['{} is {} instead of {} {}'.format(op, got, expected, new if got == 'refused' else '')]
        for n, (o, want) in enumerate(zip(objs, row['objs'])):
            who = 'object {} of the class {}'.format(n + 1, want['class'])
            val = {a: v for a, v in want['val']}
            read = vf.outcome(lambda: {a: getattr(o, a) for a in val})
            if read[0] != 'ok':
                bad.append('{}: {}'.format(who, read[1:]))
                continue
            for a in val:
                if not same(read[1][a], val[a]):
                    bad.append('{}: {} is {!r} instead of {}'.format(who, a, read[1][a], val[a]))
            hidden = [a for a in val if rng.random() < .3]
            d = vf.outcome(lambda: o.to_dict(exclude=hidden) if hidden else o.to_dict())
            if d[0] != 'ok' or set(d[1]) != set(val) - set(hidden) or not all(same(d[1][a], val[a]) for a in d[1]):
                bad.append('{}: the dictionary without {} is {}'.format(who, hidden, d[1:]))
            # the attributes of a base, of the object
            for y, k in classes.items():
                if isinstance(k, type(root)) and isinstance(o, k):
                    d = vf.outcome(lambda: k.get_dict(o, exclude=hidden))
                    if d[0] != 'ok' or set(d[1]) != set(row['names'][y - 1]) - set(hidden) or not all(same(d[1][a], val[a]) for a in d[1]):
                        bad.append('{}: the dictionary of the class {} without {} is {}'.format(who, y, hidden, d[1:]))
            extra = {'other': 'o'} if rng.random() < .3 else {}
            if rng.random() < .5:
                e = vf.outcome(lambda: o.to_xml(**extra))
            else:
                extra = {}
                e = vf.outcome(lambda: etree.fromstring(o.to_xml_string()))
            if e[0] != 'ok':
                bad.append('{}: not written: {}'.format(who, e[1:]))
                continue
            e = e[1]
            texts = dict(map(tuple, want['xml'])) if want['xml'] else {}
            if set(e.attrib) != set(texts) | set(extra) or not all(same_text(e.get(a), t) for a, t in texts.items()):
                bad.append('{}: written as {} instead of {}'.format(who, etree.tostring(e), texts))
            if e.tag != 'element{}'.format(want['class']):
                bad.append('{}: written with the tag {}'.format(who, e.tag))
            if with_text and ((e.text or '') != want['text'] or o.text != want['text']):
                bad.append('{}: text {!r} {!r} instead of {!r}'.format(who, e.text, o.text, want['text']))
            if not with_text and e.text:
                bad.append('{}: text {!r}'.format(who, e.text))
            ck.note('objects')
        if len(objs) != len(row['objs']):
            bad.append('{} objects'.format(len(objs)))
        return bad

    for row in res.rows:
        case = cases[row['i'] - 1]
        ck.traces += 1
        o = vf.outcome(replay, row, case)
        bad = o[1] if o[0] == 'ok' else [str(o[1:])]
        if bad:
            ck.violation('classes {}: {}'.format(case['classes'], '; '.join(bad[:3])), case)
            if ck.full:
                return
    ck.samples.append(cases[-1])
