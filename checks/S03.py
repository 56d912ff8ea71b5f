"""Valentina pattern files"""
import os
import re
import shutil

import sketches
import valfile
import vf
from geo import same, same_points

PIECES = {'p1': 'front', 'p2': 'Dos & côté', 'p3': 'a "sleeve" <2>', 'p4': 'x'}
NAMED = {'black': '#000000', 'blue': '#0000ff', 'yellow': '#ffff00', 'darkRed': '#8b0000', 'deeppink': '#ff1493', 'mediumseagreen': '#3cb371'}
UNSUPPORTED = [('arc', 'simple', {'center': '1', 'radius': '10', 'angle1': '30', 'angle2': '45', 'color': 'black'}),
               ('spline', 'pathInteractive', {'color': 'violet'}), ('spline', 'cubicBezier', {'point1': '1', 'color': 'violet'}),
               ('point', 'trueDarts', {'name1': 'U1', 'name2': 'U2'}), ('point', 'triangle', {'name': 'U3', 'mx': '0.1', 'my': '0.2'}),
               ('point', 'bisector', {'name': 'U4', 'firstPoint': '1', 'length': '2', 'typeLine': 'hair', 'lineColor': 'lime'}),
               ('operation', 'moving', {'suffix': 'mov', 'length': '15', 'angle': '160'}), ('point', 'cutSpline', {'name': 'U5'})]


def main(ck):
    from lxml import etree
    from Patro.FileFormat.Valentina.Measurement import VitFile
    from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicStyle import Color, Colors, StrokeStyle
    from Patro.Pattern.Pattern import Pattern

    rng = ck.rng
    generator = sketches.Generator(rng, styles=list(valfile.STYLES), colors=list(NAMED.values()), refused=0)
    builder = sketches.Builder(rng)
    tmp = ck.tmp

    def rename(ops, names):
        """names which no expression uses may be any text"""
        texts = str([{k: v for k, v in op.items() if k not in REFERENCES} for op in ops])
        table = {}
        for n in names:
            if "'" + n + "'" not in texts and rng.random() < .3:
                table[n] = rng.choice(('{}&B', '<{}>', '{} "b"', "{}'s")).format(n)
        return [{k: table.get(v, v) if k in REFERENCES else v for k, v in op.items()} for op in ops]
    REFERENCES = ('name', 'p', 'q', 'u', 'v', 'center')

    def pattern_case():
        pieces, all_ops, ms = [], [], None
        for name in rng.sample(list(PIECES), rng.choice((1, 1, 1, 2, 3))):
            c = generator.generate(rng.randrange(1, 9), ms)
            ms = {m['n']: sketches.F(*m['v']) for m in c['ms']} if ms is None else ms
            ops = rename(c['ops'], [op['name'] for op in c['ops'] if 'name' in op])
            for op in ops:
                op['kwargs'] = builder.arguments(op, lambda n: n, Vector2D)
                if op['t'] == 'spline':
                    op['style'] = 'hair'
            pieces.append({'name': name, 'ops': ops})
        return {'pieces': pieces, 'ms': c['ms'] if len(pieces) == 1 else [{'n': k, 'v': sketches.rational(v)} for k, v in ms.items()],
                'unit': rng.choice(('cm', 'mm', 'inch'))}

    def vit(path, case):
        ms = ''.join('<m name="{}" value="{!r}"/>'.format(sketches.MEASUREMENTS[m['n']], m['v'][0] / m['v'][1]) for m in case['ms'])
        with open(path, 'w', encoding='utf8') as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<vit><version>0.3.3</version><read-only>false</read-only><notes/><unit>{}</unit>'
                    '<pm_system>998</pm_system><personal><family-name>a</family-name><given-name>b</given-name><birth-date>1800-01-01</birth-date>'
                    '<gender>unknown</gender><email/></personal><body-measurements>{}</body-measurements></vit>'.format(case['unit'], ms))

    def write(path, vit_path, case):
        """build and write; the identifiers"""
        vit_file = VitFile(vit_path) if vit_path else None
        pattern = Pattern(vit_file.measurements if vit_file else None, case['unit'])
        out = []
        for piece in case['pieces']:
            sketch = pattern.add_scope(PIECES[piece['name']]).sketch
            for op in piece['ops']:
                kwargs = dict(op['kwargs'])
                if op.get('style'):
                    kwargs['line_style'] = StrokeStyle[valfile.STYLES[op['style']]]
                if op.get('color'):
                    kwargs['line_color'] = Colors.ensure_color(op['color'])
                getattr(sketch, sketches.KIND[op['t']])(**kwargs)
            out.append([x.id for x in sketch.operations])
            sketch.eval()
        ValFileWriter(path, vit_file, pattern)
        return out

    def spec_op(op, id):
        return {'t': op['t'], 'id': id, 'name': op.get('name', ''), 'refs': [op[k] for k in valfile.REFS[op['t']]],
                'texts': [str(op['kwargs'][a]) for a in valfile.TEXTS[op['t']]],
                'label': [str(float(x)) for x in op['label']] if 'name' in op else ['', ''],
                'style': op.get('style') or '', 'color': op.get('color') or ''}

    def parse(path):
        """the document of a file"""
        root = etree.parse(path).getroot()
        doc = []
        for draw in root.findall('draw'):
            names = {v: k for k, v in PIECES.items()}
            doc.append({'name': names.get(draw.get('name'), draw.get('name')),
                        'elements': [{'tag': e.tag, 'a': dict(e.attrib)} for e in draw.find('calculation')]})
        return root.findtext('unit'), root.findtext('measurements'), doc

    def same_doc(a, b):
        """the offsets of the labels are numbers, the colours may have a name"""
        def norm(doc):
            out = []
            for piece in doc:
                elements = []
                for e in piece['elements']:
                    d = dict(e['a'])
                    for k in ('mx', 'my'):
                        if k in d:
                            d[k] = float(d[k])
                    for k in ('color', 'lineColor'):
                        if k in d:
                            d[k] = NAMED.get(d[k], d[k])
                    elements.append((e['tag'], d))
                out.append((piece['name'], elements))
            return out
        return norm(a) == norm(b)

    def render(path, unit, vit_text, doc):
        """a document written the way Valentina does, in any order of attributes"""
        root = etree.Element('pattern')
        root.append(etree.Comment('Pattern created with Valentina v0.6.0'))
        head = [('version', '0.7.10'), ('unit', unit), ('description', None), ('notes', None), ('patternName', 'a'), ('company', None),
                ('measurements', vit_text), ('increments', None)]
        if rng.random() < .3:
            rng.shuffle(head)
        for tag, text in head:
            etree.SubElement(root, tag).text = text
        for piece in doc:
            draw = etree.SubElement(root, 'draw', name=PIECES[piece['name']])
            parts = [etree.Element(x) for x in ('calculation', 'modeling', 'details')]
            draw.extend(parts)
            points, splines = [], []
            for e in piece['elements']:
                items = list(e['a'].items())
                rng.shuffle(items)
                element = etree.SubElement(parts[0], e['tag'])
                for k, v in items:
                    element.set(k, v)
                if e['tag'] == 'point' and 'name' in e['a'] and not e['a']['name'].startswith('U'):
                    points.append(e['a']['id'])
                elif e['tag'] == 'spline' and e['a']['type'] == 'simpleInteractive':
                    splines.append(e['a']['id'])
            if points and rng.random() < .4:
                # a garment piece
                nodes = []
                for id, tag in [(x, 'point') for x in points] + [(x, 'spline') for x in splines]:
                    new = str(1000 + int(id))
                    etree.SubElement(parts[1], tag, id=new, idObject=id, inUse='true', type='modeling' if tag == 'point' else 'modelingSpline')
                    nodes.append((new, tag))
                detail = etree.SubElement(parts[2], 'detail', id='3000', version='2', width='1', name='d', inLayout='true', seamAllowance='true',
                                          mx='0', my='0', forbidFlipping='false', united='false')
                etree.SubElement(detail, 'data', letter='', width='0', height='0', mx='0', my='0', fontSize='0', visible='false', rotation='0')
                etree.SubElement(detail, 'grainline', arrows='0', length='0', mx='0', my='0', visible='false', rotation='90')
                parent = etree.SubElement(detail, 'nodes')
                for id, tag in nodes:
                    etree.SubElement(parent, 'node', idObject=id, type='NodePoint' if tag == 'point' else 'NodeSpline', reverse='0')
        with open(path, 'wb') as f:
            f.write(etree.tostring(root, pretty_print=rng.random() < .7, xml_declaration=True, encoding=rng.choice(('UTF-8', 'utf-16', 'us-ascii'))))

    def compare(rows, unit, case, result, outs):
        """problems of what was read"""
        bad = []
        if rows['unit'] != unit:
            bad.append('unit {}'.format(rows['unit']))
        if rows['names'] != [PIECES[p['name']] for p in result]:
            bad.append('pieces {}'.format(rows['names']))
            return bad
        if case['vit']:
            want = {m['n']: m['v'][0] / m['v'][1] for m in case['ms']}
            got = {k: v for k, v in (rows['measurements'] or {}).items()}
            if len(got) != len(want) or any(k not in got or not vf.close(v, got[k]) for k, v in want.items()):
                bad.append('measurements {}'.format(got))
        for piece, want, out in zip(rows['pieces'], result, outs):
            if len(piece['ops']) != len(want['ops']):
                bad.append('operations {}'.format(piece['ops']))
                continue
            for a, b, o in zip(piece['ops'], want['ops'], out):
                for k in ('t', 'id', 'name', 'refs', 'texts'):
                    if a[k] != b[k]:
                        bad.append('{} of {}: {}'.format(k, b, a[k]))
                if a['style'] != valfile.STYLES.get(b['style'], '') or a['color'] != NAMED.get(b['color'], b['color']):
                    bad.append('line of {}: {} {}'.format(b, a['style'], a['color']))
                if b['name']:
                    if a['label'] != [float(x) for x in b['label']]:
                        bad.append('label of {}: {}'.format(b, a['label']))
                    if o['g'] and not (a['at'] and same(Vector2D(*a['at']), o['g'][0])):
                        bad.append('{} is at {} instead of {}'.format(b, a['at'], o['g'][0]))
                    elif not o['g'] and not o['some'] and a['at']:
                        bad.append('{} is at {}'.format(b, a['at']))
                elif not same_points([Vector2D(*p) for p in a['at']], o['g']):
                    bad.append('{} goes through {} instead of {}'.format(b, a['at'], o['g']))
        return bad

    # the format itself
    ck.tlc('ValFile', init='ModelInit', next='ReadElement', invariants=('Laws',), inputs=[{'kind': 'none'}], workers=4)
    ck.exhaustive.append('bounded model: documents of a point and two elements, in one or two pieces')

    # 0. identifiers, given or not, of the operations of a pattern which is now and then written and read again
    ck.tlc('Ids', {'Bound': 4}, init='ModelInit', next='ModelNext', invariants=('Unique',), inputs=[[]])
    traces = []
    for j in range(ck.pick(60, 600)):
        pattern, trace, top = Pattern(None, 'cm'), [], rng.choice((4, 8, 20))
        for name in 'ab':
            pattern.add_scope(name)
        for k in range(rng.randrange(2, 14)):
            if rng.random() < .12:
                def reread():
                    for scope in pattern.scopes:
                        scope.sketch.eval()
                    path = os.path.join(tmp, 'ids.val')
                    ValFileWriter(path, None, pattern)
                    return ValFileReader(path).pattern
                got = vf.outcome(reread)
                if got[0] != 'ok':
                    ck.violation('a pattern cannot be written and read: {}'.format(got[1:]), trace)
                    break
                pattern, event = got[1], {'o': 'reread', 'given': 0, 'got': 0}
            else:
                given = 0 if rng.random() < .5 else rng.randrange(1, top)
                sketch = pattern.scope(rng.choice((0, 1))).sketch
                kwargs = {'id': given} if given else {}
                got = vf.outcome(lambda: sketch.SinglePoint(x=k, y=0, name='P{}'.format(k), label_offset=Vector2D(0, 0), **kwargs).id)
                event = {'o': 'add', 'given': given, 'got': got[1] if got[0] == 'ok' else 0}
            event['ids'] = [x.id for scope in pattern.scopes for x in scope.sketch.operations]
            trace.append(event)
        traces.append(trace)
    for row in ck.tlc('Ids', {'Bound': 0}, init='TraceInit', next='TraceNext', invariants=('Unique', 'Emit'), inputs=[t for t in traces if t]).rows:
        ck.traces += 1
        if row['verdict'] != 'ok':
            ck.violation('identifiers of the operations: {}'.format([t for t in traces if t][row['i'] - 1][:row['k']]))
    ck.note('histories of identifiers', len(traces))

    n = ck.pick(150, 2000)
    cases = [pattern_case() for _ in range(n)]
    folder = os.path.join(tmp, 'patterns')
    # 1. patterns written by the code
    ids = []
    for j, case in enumerate(cases):
        d = os.path.join(folder, str(j))
        os.makedirs(d)
        case['vit'] = bool(case['ms']) or rng.random() < .3
        case['path'] = os.path.join(d, 'a.val')
        vit_path = os.path.join(d, 'a.vit') if case['vit'] else None
        if vit_path:
            vit(vit_path, case)
        out = valfile.attempt(write, case['path'], vit_path, case)
        ck.traces += 1
        if out[0] != 'ok':
            ck.violation('a pattern cannot be written: {} {}'.format(out[1], describe(case)))
            ids.append(None)
        else:
            ids.append(out[1])
    if ck.full:
        return
    inputs, index = [], []
    for case, id in zip(cases, ids):
        if id is not None:
            inputs.append({'kind': 'write', 'pieces': [{'name': p['name'], 'ops': [spec_op(op, k) for op, k in zip(p['ops'], ks)]}
                                                       for p, ks in zip(case['pieces'], id)]})
            index.append(case)
    rows = {row['i'] - 1: row for row in ck.tlc('ValFile', init='CaseInit', next='CaseNext', invariants=('Laws',), constraint='Emit',
                                                inputs=inputs, jobs=8).rows}
    # where the points are
    single = [{'ms': case['ms'], 'ops': [{k: v for k, v in op.items() if k not in ('label', 'style', 'color', 'kwargs')} for op in p['ops']]}
              for case in index for p in case['pieces']]
    outs = sketches.expected(ck.tlc('Sketch', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=('Laws',), constraint='Emit',
                                    inputs=single, jobs=8).rows, len(single))
    k = 0
    for case in index:
        case['outs'] = outs[k:k + len(case['pieces'])]
        k += len(case['pieces'])
    for j, case in enumerate(index):
        row = rows[j]
        unit, vit_text, doc = parse(case['path'])
        if unit != case['unit'] or bool(vit_text) != case['vit'] or not same_doc(doc, row['doc']):
            ck.violation('the file written for {} is {} {} {} instead of {}'.format(describe(case), unit, vit_text, doc, row['doc']), row)
        got = valfile.attempt(valfile.read, case['path'])
        bad = [got[1]] if got[0] != 'ok' else compare(got[1], case['unit'], case, row['result'], case['outs'])
        if bad:
            ck.violation('{} written then read: {}'.format(describe(case), bad[:3]), row)
        ck.traces += 1
        ck.note('written')
    if ck.full:
        return

    # 2. documents: unsupported elements, other identifiers, names of colours, unknown references
    docs = []
    for j, case in enumerate(index):
        doc = rows[j]['doc']
        # the identifiers are unique in the file, in any order
        numbers = rng.sample(range(1, 500), 100) if rng.random() < .5 else range(rng.randrange(1, 50), 900, rng.randrange(1, 4))
        new = []
        broken = rng.random() < .08
        for piece in doc:
            elements = []
            for e in piece['elements']:
                d = dict(e['a'])
                for key in d:
                    if key in ('id', 'firstPoint', 'secondPoint', 'basePoint', 'center', 'point1', 'point4') or re.match(r'p[12]Line[12]', key):
                        d[key] = str(numbers[int(d[key])])
                for key in ('color', 'lineColor'):
                    if key in d and rng.random() < .5:
                        d[key] = {v: n for n, v in NAMED.items()}[d[key]]
                if rng.random() < .15:
                    tag, type_, attributes = rng.choice(UNSUPPORTED)
                    elements.append({'tag': tag, 'a': dict(attributes, id=str(900 + len(elements)), type=type_)})
                if broken and rng.random() < .2 and 'firstPoint' in d:
                    d['firstPoint'] = '999'
                elements.append({'tag': e['tag'], 'a': d})
            new.append({'name': piece['name'], 'elements': elements})
        docs.append(new)
    again = {row['i'] - 1: row for row in ck.tlc('ValFile', init='CaseInit', next='CaseNext', invariants=('Laws',), constraint='Emit',
                                                 inputs=[{'kind': 'read', 'doc': d} for d in docs], jobs=8).rows}
    for j, (case, doc) in enumerate(zip(index, docs)):
        row = again[j]
        d = os.path.dirname(case['path'])
        path = os.path.join(d, 'b.val')
        # relative to the folder of the pattern, or absolute
        vit_text = rng.choice((os.path.join(d, 'a.vit'), 'a.vit')) if case['vit'] else None
        render(path, case['unit'], vit_text, doc)
        second = os.path.join(d, 'c.val')
        got = valfile.attempt(valfile.read, path, second)
        ck.traces += 1
        ck.note(row['status'])
        if row['status'] == 'refused':
            if got[0] == 'ok':
                ck.violation('a document with an unknown reference is accepted: {}'.format(doc), got)
            continue
        bad = [got[1]] if got[0] != 'ok' else compare(got[1], case['unit'], case, row['result'], case['outs'])
        if not bad:
            # written again
            unit, text, other = parse(second)
            kept = [{'name': p['name'], 'elements': [e for e in p['elements'] if (e['tag'], e['a'].get('type')) not in [u[:2] for u in UNSUPPORTED]]}
                    for p in doc]
            if unit != case['unit'] or not same_doc(other, kept):
                bad.append('written again as {} {}'.format(unit, other))
            if bool(text) != case['vit'] or text and os.path.basename(text) != 'a.vit':
                bad.append('written again with the measurements {}'.format(text))
        if bad:
            ck.violation('the document {} is read as: {}'.format(doc, bad[:3]), row)
        if ck.full:
            break
    shutil.rmtree(folder)
    ck.samples += [describe(case) for case in cases[:2]]


def describe(case):
    return '; '.join('{}: {}'.format(p['name'], [(sketches.KIND[op['t']], {k: str(v) for k, v in op['kwargs'].items()}, op.get('style'), op.get('color'))
                                                for op in p['ops']]) for p in case['pieces'])[:1200]
