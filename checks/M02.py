"""Valentina measurement files"""
import datetime
import os
from xml.sax.saxutils import escape, quoteattr

import vf
from M01 import render, random_expr, random_set, num, refs, TEXTS


def customise(rng, defs):
    """[n, e] -> [b, c, e]"""
    custom = {d['n']: rng.random() < .5 for d in defs}

    def go(e):
        if e['k'] == 'ref':
            return {'k': 'ref', 'n': e['n'], 'c': custom.get(e['n'], False)}
        e = dict(e)
        for k in 'ab':
            if k in e:
                e[k] = go(e[k])
        return e
    return [{'b': d['n'], 'c': custom[d['n']], 'e': go(d['e'])} for d in defs]


def render_custom(e, rng):
    table = {}

    def walk(e):
        if e['k'] == 'ref':
            table[(e['n'])] = e['c']
        for k in 'ab':
            if k in e:
                walk(e[k])
    walk(e)
    return render(e, rng, ref=lambda n: ('@' if table[n] else '') + n)


def personal_data(ck):
    from Patro.Measurement.PersonalData import Gender, PersonalData
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements

    rng = ck.rng
    genders = {g.name: g for g in Gender}

    def op():
        f = rng.choice(('first_name', 'last_name', 'email', 'comment', 'birth_date', 'birth_date', 'measurement_date', 'measurement_date', 'gender', 'gender'))
        if f == 'gender':
            return {'f': f, 'v': {'k': rng.choice(('value', 'text')), 'v': rng.choice(list(genders) * 2 + ['OTHER', ''])}}
        if not f.endswith('date'):
            return {'f': f, 'v': rng.choice(TEXTS)}
        kind = rng.choice(('none', 'value', 'text', 'text', 'text'))
        day = [rng.choice((1900, 1999, 2000, 2023, 2024, rng.randrange(1, 10000))), rng.choice((1, 2, 2, 4, 12, 13, 0, 7)), rng.choice((1, 28, 29, 30, 31, 32, 0))]
        time = [rng.choice((0, 12, 23, 24)), rng.choice((0, 30, 59, 60)), rng.choice((0, 7, 59)), rng.choice((0, 123000, 1, 999999))]
        if kind == 'value':
            day[1:] = rng.randrange(1, 13), rng.randrange(1, 29)
            time = [x % m for x, m in zip(time, (24, 60, 60, 10**6))]
        return {'f': f, 'v': {'k': kind, 'v': [] if kind == 'none' else day if f == 'birth_date' else day + time}}

    def python(op):
        f, v = op['f'], op['v']
        if f == 'gender':
            if v['k'] == 'value':
                return genders.get(v['v'], v['v'])
            return ''.join(rng.choice((c.lower(), c)) for c in v['v'])
        if not f.endswith('date'):
            return v
        if v['k'] == 'none':
            return None
        if v['k'] == 'text':
            text = '{:04}-{:02}-{:02}'.format(*v['v'][:3])
            if f == 'measurement_date':
                text += 'T{:02}:{:02}:{:02}'.format(*v['v'][3:6]) + '.' + '{:06}'.format(v['v'][6]).rstrip('0').ljust(1, '0') + 'Z'
            return text
        return (datetime.date if f == 'birth_date' else datetime.datetime)(*v['v'])

    def expected(f, v):
        if f == 'gender':
            return genders[v['v']]
        if not f.endswith('date'):
            return v
        return None if v['k'] == 'none' else (datetime.date if f == 'birth_date' else datetime.datetime)(*v['v'])

    cases = [[op() for _ in range(rng.randrange(1, 15))] for _ in range(ck.pick(150, 2000))]
    rows = ck.tlc('Personal', init='Init', next='Next', invariants=('Valid',), properties=('Local',), constraint='Emit', inputs=cases).rows
    table = {(row['i'] - 1, row['k']): row for row in rows}
    for i, case in enumerate(cases):
        # the first values may be those of the constructor
        n = rng.randrange(len(case) + 1) if rng.random() < .5 else 0
        first = {o['f']: o for o in case[:n]}
        if len(first) < n or any(table[i, k]['res'] == 'err' for k in range(1, n + 1)):
            n, first = 0, {}
        p = PersonalData(**{f: python(o) for f, o in first.items()}) if n or rng.random() < .5 else ValentinaMeasurements().personal
        other = PersonalData()
        for k in range(n, len(case) + 1):
            row = table[i, k]
            if k > n:
                o = case[k - 1]
                got = vf.outcome(setattr, p, o['f'], python(o))
                if (got[0] == 'ok') != (row['res'] == 'ok'):
                    ck.violation('personal data: {} gives {}, {} expected'.format(case[:k], got, row['res']), case)
                    return
            for f, v in row['data'].items():
                got = getattr(p, f)
                if got != expected(f, v):
                    ck.violation('personal data after {}: {} is {!r} instead of {!r}'.format(case[:k], f, got, expected(f, v)), case)
                    return
            ck.note('personal data')
        if other.first_name != '' or other.birth_date is not None or other.gender is not Gender.UNKNOWN:
            ck.violation('personal data are shared', case)
        ck.traces += 1


def main(ck):
    from Patro.FileFormat.Valentina.Measurement import VitFile
    from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
    from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement
    from Patro.Measurement.PersonalData import Gender

    rng = ck.rng
    files = []
    for k in range(ck.pick(150, 1500)):
        defs = random_set(rng, rng.randrange(1, 10), monotone=False)
        d = customise(rng, defs)
        if rng.random() < .15:
            # the same base name, as a custom and as a standard measurement
            x = dict(rng.choice(d))
            x['c'] = not x['c']
            x['e'] = num(rng.randrange(1, 99))
            d.insert(rng.randrange(len(d) + 1), x)
        if rng.random() < .1:
            x = dict(rng.choice(d))
            x['e'] = num(rng.randrange(1, 99))
            d.append(x)
        elif rng.random() < .1:
            x = dict(rng.choice(d))
            if x['c']:
                x = {'b': 'C_' + x['b'], 'c': False, 'e': num(5)}
                d.insert(rng.randrange(len(d) + 1), x)
        files.append(d)
    files.append([])

    res = ck.tlc('Valentina', {'Depth': 0}, init='FInit', next='FNext', constraint='EmitFile',
                 invariants=('Retrievable', 'Ordered', 'UniqueNames', 'OrderFree'), inputs=files)
    expected = {row['i'] - 1: row for row in res.rows}
    if len(expected) != len(files):
        raise vf.MachineryError('missing rows')

    genders = {'unknown': Gender.UNKNOWN, 'female': Gender.FEMALE, 'male': Gender.MALE}
    for i, elements in enumerate(files):
        ck.traces += 1
        row = expected[i]
        xml_elements = []
        texts = []
        for x in elements:
            name = ('@' if x['c'] else '') + x['b']
            value = render_custom(x['e'], rng)
            attributes = [('name', name), ('value', value)]
            full_name = description = ''
            if rng.random() < .5:
                full_name = rng.choice(TEXTS).replace('\n', ' ').replace('\t', ' ')
                attributes.append(('full_name', full_name))
            if rng.random() < .5:
                description = rng.choice(TEXTS).replace('\n', ' ').replace('\t', ' ')
                attributes.append(('description', description))
            rng.shuffle(attributes)
            xml_elements.append('<m {}/>'.format(' '.join('{}={}'.format(k, quoteattr(v)) for k, v in attributes)))
            texts.append((name, value, full_name, description))
        gender = rng.choice(list(genders))
        unit = rng.choice(('cm', 'mm', 'inch'))
        pms = rng.choice(('998', '0', '54'))
        date = datetime.date(rng.randrange(1900, 2020), rng.randrange(1, 13), rng.randrange(1, 29))
        family, given, email = (rng.choice(['', 'Doe', 'Müller', "O'Hara & co", 'None']) for _ in range(3))
        personal = ['<family-name>{}</family-name>'.format(escape(family)), '<given-name>{}</given-name>'.format(escape(given)),
                    '<birth-date>{}</birth-date>'.format(date.isoformat()),
                    '<gender>{}</gender>'.format(gender if rng.random() < .7 else gender.upper()),
                    '<email>{}</email>'.format(escape(email)) if email else '<email/>']
        rng.shuffle(personal)
        parts = ['<version>0.3.3</version>', '<read-only>false</read-only>', '<notes/>', '<unit>{}</unit>'.format(unit),
                 '<pm_system>{}</pm_system>'.format(pms),
                 '<personal>{}</personal>'.format('\n'.join(personal)),
                 '<body-measurements>{}</body-measurements>'.format('\n'.join(xml_elements))]
        if rng.random() < .3:
            rng.shuffle(parts)
        source = '<?xml version="1.0" encoding="UTF-8"?>\n<vit>\n<!--Measurements created with Valentina-->\n{}\n</vit>\n'.format(
            '\n'.join(parts))
        path = os.path.join(ck.tmp, 'file.vit')
        with open(path, 'w', encoding='utf8') as fh:
            fh.write(source)

        got = vf.outcome(VitFile, path)
        if row['status'] == 'refused':
            if got[0] == 'ok':
                ck.violation('a file which defines a measurement twice is accepted: {}'.format(texts), source)
            ck.note('refused files')
            continue
        if got[0] != 'ok':
            ck.violation('a valid file is refused: {} {}'.format(got, texts), source)
            continue
        vit = got[1]
        if str(vit.path) != path:
            ck.violation('path of the file')
        ms = vit.measurements
        bad = None
        if [m.name for m in ms] != row['names']:
            bad = 'names {} expected {}'.format([m.name for m in ms], row['names'])
        for x, (name, value, full_name, description), v, py in zip(elements, texts, row['v'], row['names']):
            m = ms[name]
            if m is not ms[py] or m is not getattr(ms, py):
                bad = 'lookup of {} and {}'.format(name, py)
            if m.name != py or m.valentina_name != name or m.is_custom() != x['c']:
                bad = 'identity of {}: {} {} {}'.format(name, m.name, m.valentina_name, m.is_custom())
            if (m.full_name, m.description) != (full_name, description):
                bad = 'texts of {}: {!r} {!r}'.format(name, m.full_name, m.description)
            number = vf.outcome(float, m)
            if v[1] == 0:
                if number[0] == 'ok':
                    bad = '{} has the value {}'.format(name, number)
            elif number[0] != 'ok' or not vf.close(number[1], vf.rat(v), 1e-12):
                bad = '{} = {} is {} expected {}'.format(name, value, number, v)
        p = ms.personal
        if (ms.unit, ms.pattern_making_system) != (unit, pms):
            bad = 'unit {} {} expected {} {}'.format(ms.unit, ms.pattern_making_system, unit, pms)
        got = (p.last_name, p.first_name, p.birth_date, p.gender, p.email)
        if got != (family, given, date, genders[gender], email):
            bad = 'personal data {} expected {}'.format(got, (family, given, date, gender, email))
        if bad:
            ck.violation(bad, source)
            if ck.full:
                return

    # direct additions
    for i, elements in enumerate(files[:ck.pick(60, 400)]):
        row = expected[i]
        ms = ValentinaMeasurements()
        refused = False
        for x in elements:
            name = ('@' if x['c'] else '') + x['b']
            value = render_custom(x['e'], rng)
            if x['e']['k'] == 'num' and x['e']['v'][1] == 1 and rng.random() < .5:
                value = x['e']['v'][0]
            got = vf.outcome(ms.add, name, value)
            if got[0] != 'ok':
                refused = True
                break
            if got[1] is not ms[name]:
                ck.violation('the added measurement {} is not the one of the set'.format(name))
        ck.traces += 1
        if refused != (row['status'] == 'refused') or [m.name for m in ms] != row['names']:
            ck.violation('additions {}: {} expected {} {}'.format(elements, [m.name for m in ms], row['names'], row['status']))
            continue
        for py, v in zip(row['names'], row['v']):
            if v[1] and not refused and not vf.close(ms[py].value, vf.rat(v), 1e-12):
                ck.violation('{} = {} expected {}'.format(py, ms[py].value, v), elements)
    # the standard measurements
    std = ValentinaStandardMeasurement()
    items = list(std)
    names = [m.name for m in items]
    codes = [m.code for m in items]
    if len(std) != len(items) or len(set(names)) != len(items) or len(set(codes)) != len(items) \
       or any(std[m.name] is not m or m.name not in std for m in items) or len(items) < 200:
        ck.violation('standard measurements are not unique: {} names {} codes {}'.format(len(items), len(set(names)), len(set(codes))))
    if vf.outcome(std.add, items[0])[0] == 'ok' or 'no_such_name' in std:
        ck.violation('a standard measurement is accepted twice')
    ms = ValentinaMeasurements()
    for k, m in enumerate(items):
        ms.add(m.name, k)
    if [m.name for m in ms] != names or any(float(ms[n]) != k for k, n in enumerate(names)):
        ck.violation('a set made of the standard measurements')
    ck.note('standard measurements', len(items))
    personal_data(ck)
    ck.samples.append(files[0])
    ck.assumptions.append('the names are not names of sympy functions or constants')
