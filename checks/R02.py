"""Styles, colours and typography units"""
import vf

CHANNELS = ('red', 'green', 'blue')
UNITS = ('mm', 'inch', 'point')


def main(ck):
    from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicBezierStyle, GraphicPathStyle
    from Patro.GraphicEngine.GraphicScene.TypographyUnit import InchUnit, MmUnit, PointUnit
    from Patro.GraphicStyle import CapStyle, Color, Colors, JoinStyle, StrokeStyle
    from Patro.GraphicStyle.Color import color_data
    from Patro.GraphicStyle.Color.ColorDataBase import ColorDataBase

    rng = ck.rng
    enums = {'stroke_style': StrokeStyle, 'cap_style': CapStyle, 'join_style': JoinStyle}
    styles = {'path': GraphicPathStyle, 'bezier': GraphicBezierStyle}
    units = {'mm': MmUnit, 'inch': InchUnit, 'point': PointUnit}
    bad_values = {'stroke_style': ['dashed', -1, None], 'cap_style': ['round', 0], 'join_style': [99, 'x'],
                  'stroke_color': ['no such colour', '#12', 12, '#12345', 'rgb(1,2,3)'], 'fill_color': ['no such colour', 1.5, '#1234567', ''],
                  'control_color': ['Nope', (1, 2, 3)], 'stroke_alpha': ['half'], 'fill_alpha': ['x', None]}

    def number(v):
        return v[0] if v[1] == 1 and rng.random() < .5 else v[0] / v[1]

    class Driver:

        def __init__(self):
            self.objs = {}
            self.db = ColorDataBase()

        def value(self, field, x):
            t, v = x['t'], x['v']
            if t == 'bad':
                return rng.choice(bad_values[field])
            if t == 'enum':
                return enums[field][v]
            if t == 'hex':
                text = '#{:02x}{:02x}{:02x}'.format(*v)
                return text.upper() if rng.random() < .2 else text
            if t in ('obj', 'unit'):
                return self.objs[v]
            if t == 'num':
                return number(v)
            if t == 'numstr':
                return str(v[0] / v[1])
            if t == 'none':
                return None
            return v

        def make(self, op):
            o = op['o']
            name = {'name': op['name']} if op.get('name') else {}
            if o == 'new':
                return styles[op['kind']](**{f: self.value(f, v) for f, v in (op['f'] or {}).items()})
            if o == 'clone':
                return self.objs[op['k0']].clone()
            if o == 'hex':
                return Color('#{:02x}{:02x}{:02x}'.format(*op['v']), **name)
            if o == 'text':
                return Color(op['v'])
            if o == 'rgb':
                return Color(*[x['v'] if x['t'] != 'float' else x['v'][0] / x['v'][1] for x in op['v']], **name)
            if o in ('hls', 'hsv'):
                a, b, d = [vf.rat(x) for x in op['v']]
                return Color(hue=a, light=b, saturation=d, **name) if o == 'hls' else Color(hue=a, saturation=b, value=d, **name)
            if o in ('copy', 'viastr', 'viahls', 'viahsv'):
                color = self.objs[op['k0']]
                if o == 'copy':
                    return Color(color)
                if o == 'viastr':
                    return Color(str(color))
                if o == 'viahls':
                    h, l, s = color.hls
                    return Color(hue=h, light=l, saturation=s)
                h, s, v = color.hsv
                return Color(hue=h, saturation=s, value=v)
            if o == 'unit':
                return units[op['u']](number(op['v']))
            if o == 'to':
                return getattr(self.objs[op['k0']], 'to_' + op['u'])()
            raise KeyError(o)

        def apply(self, op):
            o = op['o']
            if o in ('set', 'channel', 'name'):
                obj = self.objs[op['k']]
                if o == 'set':
                    args = (obj, op['f'], self.value(op['f'], op['v']))
                elif o == 'channel':
                    x = op['v']
                    args = (obj, CHANNELS[op['j'] - 1], x['v'] if x['t'] != 'float' else x['v'][0] / x['v'][1])
                else:
                    args = (obj, 'name', op['v'])
                return vf.outcome(setattr, *args)
            if o == 'eq':
                return vf.outcome(lambda: self.objs[op['k']] == self.objs[op['k0']])
            if o == 'add':
                return vf.outcome(self.db.add, op['n'], self.objs[op['k']].clone())
            if o == 'get':
                return vf.outcome(lambda: self.db[op['n']])
            if o == 'attr':
                return vf.outcome(getattr, self.db, op['n'])
            if o == 'has':
                return vf.outcome(lambda: op['n'] in self.db)
            if o == 'ensure':
                value = self.value('stroke_color', op['v'])
                return vf.outcome(self.db.ensure_color, value)
            if o == 'known':
                return vf.outcome(lambda: Colors[op['n']])
            got = vf.outcome(self.make, op)
            if got[0] == 'ok':
                self.objs[op['k']] = got[1]
            return got

        def judge(self, op, got, out):
            if (got[0] == 'ok') != (out['res'] == 'ok'):
                return 'gives {}'.format(got)
            o, x = op['o'], out['x']
            if got[0] != 'ok':
                if o == 'attr' and got[1] != 'AttributeError':
                    return 'raises {}'.format(got)
                return None
            if o in ('eq', 'has') and bool(got[1]) != x:
                return 'gives {}'.format(got[1])
            if o in ('get', 'attr', 'ensure', 'known'):
                color = got[1]
                if not x:
                    return None if color is None else 'gives {}'.format(color)
                return self.ints(color, x)
            return None

        @staticmethod
        def ints(color, want):
            got = [color.red, color.green, color.blue]
            if any(a not in b for a, b in zip(got, want)):
                return 'is {} instead of {}'.format(got, want)
            if str(color) != '#{:02x}{:02x}{:02x}'.format(*got):
                return 'is {} and {}'.format(got, color)
            if not color == str(color):
                return '{} is not equal to its string'.format(color)
            return None

        def see(self, see):
            bad = []
            for k, want in (see['objs'] or {}).items():
                obj = self.objs[k]
                if want['kind'] == 'color':
                    got = (obj.red_float, obj.green_float, obj.blue_float)
                    if any(not vf.close(a, vf.rat(b)) for a, b in zip(got, want['rgb'])):
                        bad.append('colour {}: {} instead of {}'.format(k, got, want['rgb']))
                    problem = self.ints(obj, want['ints'])
                    if problem:
                        bad.append('colour {}: {}'.format(k, problem))
                    if (obj.name or '') != want['name']:
                        bad.append('colour {}: name {!r} instead of {!r}'.format(k, obj.name, want['name']))
                    for space in ('hls', 'hsv'):
                        wanted = [vf.rat(x) for x in want[space]]
                        got = list(getattr(obj, space))
                        if want['rgb'][0] == want['rgb'][1] == want['rgb'][2]:
                            # the hue of a grey is any
                            got[0] = wanted[0]
                            if space == 'hls':
                                got[2] = wanted[2]
                        elif abs(got[0] - wanted[0]) > .5:
                            got[0] -= round(got[0] - wanted[0])
                        if any(not vf.close(a, b) for a, b in zip(got, wanted)):
                            bad.append('colour {}: {} {} instead of {}'.format(k, space, got, want[space]))
                elif want['kind'] == 'unit':
                    if type(obj) is not units[want['f']['u']] or not vf.close(vf.outcome(float, obj)[1], vf.rat(want['f']['v'])):
                        bad.append('length {}: {} {} instead of {}'.format(k, type(obj).__name__, vf.outcome(float, obj)[1], want['f']))
                else:
                    if type(obj) is not styles[want['kind']]:
                        bad.append('style {} is a {}'.format(k, type(obj).__name__))
                    for f, x in want['f'].items():
                        got = getattr(obj, 'line_width_as_float' if f == 'line_width' else f)
                        if f in enums:
                            ok = got is enums[f][x['v']]
                        elif x['t'] == 'rgb':
                            ok = isinstance(got, Color) and str(got) == '#{:02x}{:02x}{:02x}'.format(*[round(255 * vf.rat(y)) for y in x['v']])
                        elif x['t'] == 'none':
                            ok = got is None
                        elif x['t'] == 'bool':
                            ok = got is x['v']
                        else:
                            ok = vf.close(got, vf.rat(x['v']))
                        if not ok:
                            bad.append('style {}: {} is {!r} instead of {}'.format(k, f, got, x))
            want = see['db']
            names = list(self.db.iter_names())
            if names != [n for n, _ in want] or len(self.db) != len(want) or len(list(self.db)) != len(want):
                bad.append('database: {} instead of {}'.format(names, want))
            else:
                for color, (n, x) in zip(self.db, want):
                    problem = self.ints(color, x)
                    if problem:
                        bad.append('database, {}: {}'.format(n, problem))
            return bad

    def replay(ops, outs):
        driver = Driver()
        history = []
        for op, row in zip(ops, outs):
            out = row['out']
            if out['res'] == 'skip':
                continue
            history.append(op)
            got = driver.apply(op)
            bad = [x for x in (driver.judge(op, got, out),) if x] + driver.see(row['see'])
            if bad:
                ck.violation('after {}, {}'.format(history[-6:], '; '.join(bad)), {'history': history, 'expected': row['out']})
                return
        ck.traces += 1

    # 1. a style and its copies: every history of a bounded model
    depth = ck.pick(4, 5)
    res = ck.tlc('Styles', {'Depth': depth}, init='ModelInit', next='ModelNext', view='View', invariants=('Laws',), properties=('Separate',),
                 action_constraint='EmitStep', inputs=[{'ops': [], 'sets': []}], workers=1, timeout=ck.pick(200, 800))
    rows = {vf.freeze(row['t']): row for row in res.rows}
    ck.note('transitions of the bounded model', len(rows))
    longest = [h for h in rows if len(h) == depth]
    for h in rng.sample(longest, min(len(longest), ck.pick(3000, 40000))):
        prefixes = [h[:n] for n in range(2, len(h) + 1)]
        ops = rows[h]['t']
        kind = ops[0]['kind']
        first = Driver()
        first.apply(ops[0])
        driver_ops, outs = ops, [{'out': {'res': 'ok', 'x': ''}, 'see': {'objs': {}, 'db': []}}] + [rows[p] for p in prefixes if p in rows]
        if len(outs) == len(ops):
            replay(driver_ops, outs)
            ck.note('histories of a ' + kind)
        if ck.full:
            return
    ck.exhaustive.append('bounded model: a style of each kind and its copies, {} operations'.format(depth))

    # 2. random histories
    names = ['red', 'sky', 'A_1', 'x y', 'black']
    objects = ['a', 'b', 'd', 'e']

    def color_value(bad=True):
        r = rng.random()
        if r < .3:
            return {'t': 'hex', 'v': [rng.randint(0, 255) for _ in CHANNELS]}
        if r < .5:
            return {'t': 'name', 'v': rng.choice(['black', 'white', 'red', 'blue', 'aliceblue', 'darkslategray'])}
        if r < .6:
            return {'t': 'none', 'v': ''}
        if r < .9 or not bad:
            return {'t': 'obj', 'v': rng.choice(('p', 'q'))}
        return {'t': 'bad', 'v': ''}

    def field_value(f):
        if f in bad_values and rng.random() < .1:
            return {'t': 'bad', 'v': ''}
        if f in enums:
            return {'t': 'enum', 'v': rng.choice(list(enums[f])).name}
        if f.endswith('color'):
            return color_value()
        if f.endswith('alpha'):
            return {'t': rng.choice(['num', 'num', 'numstr']), 'v': [rng.randint(0, 8), 8]}
        if f == 'line_width':
            return {'t': 'unit', 'v': rng.choice('uv')} if rng.random() < .3 else {'t': 'num', 'v': [rng.randint(0, 40), rng.choice([1, 2, 3, 10])]}
        return {'t': 'bool', 'v': rng.random() < .5}

    path_fields = ['stroke_style', 'line_width', 'stroke_color', 'stroke_alpha', 'fill_color', 'fill_alpha', 'cap_style', 'join_style']

    def style_ops():
        # p, q: colours; u, v: lengths. They are not changed: a style may share its colour
        ops = [{'o': 'hex', 'k': 'p', 'v': [rng.randint(0, 255) for _ in CHANNELS], 'name': ''},
               {'o': 'rgb', 'k': 'q', 'v': [{'t': 'int', 'v': rng.randint(0, 255)} for _ in CHANNELS], 'name': 'mine'},
               {'o': 'unit', 'k': 'u', 'u': rng.choice(UNITS), 'v': [rng.randint(1, 30), rng.choice([1, 2, 10])]},
               {'o': 'to', 'k': 'v', 'k0': 'u', 'u': rng.choice(UNITS)}]
        for _ in range(rng.randint(3, 8)):
            r = rng.random()
            kind = rng.choice(list(styles))
            fields = path_fields + (['show_control', 'control_color'] if kind == 'bezier' else [])
            if r < .3:
                some = rng.sample(fields, rng.randint(0, len(fields)))
                ops.append({'o': 'new', 'k': rng.choice(objects), 'kind': kind, 'f': {f: field_value(f) for f in some}})
            elif r < .6:
                ops.append({'o': 'clone', 'k': rng.choice(objects), 'k0': rng.choice(objects)})
            else:
                f = rng.choice(fields)
                ops.append({'o': 'set', 'k': rng.choice(objects), 'f': f, 'v': field_value(f)})
        return ops

    def component(d):
        """a component of a colour whose components are multiples of 1/d"""
        r = rng.random()
        if r < .4:
            return {'t': 'int', 'v': rng.choice([0, 1, 127, 128, 254, 255, rng.randint(0, 255)] if d == 255 else [0, 255])}
        if r < .9:
            return {'t': 'float', 'v': [rng.randint(0, d), d]}
        return rng.choice([{'t': 'int', 'v': 256}, {'t': 'int', 'v': -1}, {'t': 'float', 'v': [5, 4]}, {'t': 'float', 'v': [-1, 8]}, {'t': 'text', 'v': 'ff'}])

    def color_ops():
        ops = []
        d = rng.choice([255, 255, 15, 100, 1000, 7, 24])
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            k, k0 = rng.choice(objects), rng.choice(objects)
            name = rng.choice(['', '', 'mine', 'red'])
            if r < .2:
                ops.append({'o': 'hex', 'k': k, 'v': [rng.choice([0, 255, rng.randint(0, 255) if d == 255 else 0]) for _ in CHANNELS], 'name': name})
            elif r < .23:
                ops.append({'o': 'text', 'k': k, 'v': rng.choice(['red', '', '123456', '#abc', '#12345', '#1234567', '#gg0000', '#', 'rgb(0,0,0)'])})
            elif r < .4:
                ops.append({'o': 'rgb', 'k': k, 'v': [component(d) for _ in CHANNELS], 'name': name})
            elif r < .5:
                t = rng.choice([(12, 10, 4), (6, 8, 3), (24, 5, 5), (9, 4, 2)])
                ops.append({'o': rng.choice(['hls', 'hsv']), 'k': k, 'v': [[rng.randint(0, n - (j == 0)), n] for j, n in enumerate(t)], 'name': name})
                d = 1
            elif r < .75:
                ops.append({'o': rng.choice(['copy', 'viahls', 'viahsv', 'clone', 'viastr'][:4 + (d == 255)]), 'k': k, 'k0': k0})
            elif r < .85:
                ops.append({'o': 'channel', 'k': k, 'j': rng.randint(1, 3), 'v': component(d)})
            elif r < .9:
                ops.append({'o': 'name', 'k': k, 'v': rng.choice(['mine', 'x'])})
            else:
                ops.append({'o': 'eq', 'k': k, 'k0': k0})
        return ops

    def db_ops():
        ops = [{'o': 'hex', 'k': k, 'v': [rng.randint(0, 255) for _ in CHANNELS], 'name': ''} for k in 'pq']
        for _ in range(rng.randint(4, 10)):
            o = rng.choice(['add', 'add', 'get', 'attr', 'has', 'ensure', 'ensure', 'hex'])
            if o == 'ensure':
                v = color_value(bad=False) if rng.random() < .5 else {'t': 'name', 'v': rng.choice(names)}
                ops.append({'o': o, 'v': v})
            elif o == 'hex':
                ops.append({'o': 'hex', 'k': rng.choice('pq'), 'v': [rng.randint(0, 255) for _ in CHANNELS], 'name': ''})
            else:
                ops.append({'o': o, 'k': rng.choice('pq'), 'n': rng.choice(names)})
        return ops

    def unit_ops():
        ops = [{'o': 'unit', 'k': 'a', 'u': rng.choice(UNITS), 'v': [rng.randint(-20, 300), rng.choice([1, 1, 2, 3, 10])]}]
        for _ in range(rng.randint(2, 7)):
            ops.append({'o': 'to', 'k': rng.choice(objects), 'k0': rng.choice(objects), 'u': rng.choice(UNITS)})
        return ops

    cases = [{'ops': make(), 'sets': []} for _ in range(ck.pick(900, 12000)) for make in (style_ops, color_ops, db_ops, unit_ops)]
    # the colours of the library
    sets = []
    for s in (color_data.BASE_COLORS, color_data.TABLEAU_COLORS, color_data.XKCD_COLORS, color_data.CSS4_COLORS, color_data.QML_COLORS, color_data.VALENTINA_COLORS):
        sets.append({n.replace(' ', '_'): [int(v[j:j + 2], 16) for j in (1, 3, 5)] for n, v in s.items()})
    known = sorted(set().union(*sets)) + ['no_such_colour', 'Black', 'dark red', '']
    rng.shuffle(known)
    for j in range(0, len(known), 300):
        cases.append({'sets': sets, 'ops': [{'o': 'known', 'n': n} for n in known[j:j + 300]]})
    res = ck.tlc('Styles', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=('Laws', 'Kept', 'Emit'), properties=('Separate',), inputs=cases, jobs=8)
    outs = {}
    for row in res.rows:
        outs.setdefault(row['i'], {})[row['k']] = row
    for j, case in enumerate(cases, 1):
        rows = outs[j]
        replay(case['ops'], [rows[n] for n in range(1, len(case['ops']) + 1)])
        if ck.full:
            return
    ck.note('random histories', len(cases))
    ck.samples.append({'history': cases[0]['ops'][:6]})

    # 3. the database of the library is the union of its sets, its colours have their names
    names = list(Colors.iter_names())
    if sorted(names) != sorted(set().union(*sets)) or len(Colors) != len(names):
        ck.violation('the colours of the library are not those of its sets: {}'.format(sorted(set(names) ^ set().union(*sets))[:10]), {})
    for n in names:
        if Colors[n].name != n or n not in Colors or (n.isidentifier() and getattr(Colors, n) is not Colors[n]):
            ck.violation('the colour {} is named {}'.format(n, Colors[n].name), {'name': n})
    if hasattr(Colors, 'no_such_colour'):
        ck.violation('an unknown colour is known', {})
    ck.assumptions += ['the colour of a style is not changed while the style has it (it may be shared)',
                       'floats are compared with a tolerance of 1e-9, a component half way between two bytes may be rounded to both']
