"""From the files of a pattern to drawings"""
import os
import shutil
from fractions import Fraction

import painters
import sketches
import valfile
import vf
from geo import xy

NAMED = {'black': '#000000', 'blue': '#0000ff', 'darkRed': '#8b0000', 'deeppink': '#ff1493', 'mediumseagreen': '#3cb371'}
PIECES = ['front', 'Dos & côté', 'a "sleeve" <2>', 'x']
MM = 72 / 25.4
LABELS = [(0, 1), (0, 1), (1, 1), (-1, 1), (1, 2), (-9, 4), (1, 4)]
KINDS = {'circle': 'dot', 'segment': 'path', 'cubic': 'path', 'text': 'text'}


def main(ck):
    from Patro.FileFormat.Dxf.Importer import DxfImporter
    from Patro.FileFormat.Svg import SvgFormat
    from Patro.FileFormat.Svg.SvgFile import SvgFileInternal
    from Patro.FileFormat.Valentina.Measurement import VitFile
    from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
    from Patro.GeometryEngine.Vector import Vector2D
    from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
    from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
    from Patro.GraphicEngine.Painter.TexPainter import TexPainter
    from Patro.GraphicStyle import Colors, StrokeStyle
    from Patro.Pattern.Pattern import Pattern
    from Patro.Pattern.SketchStyle import DetailSketchStyle

    class Reader(SvgFileInternal):

        def on_graphic_item(self, item):
            super().on_graphic_item(item)
            self.found.append(item)

    def read_again(b, path):
        """the lines and the curves of a drawing, read by Patro"""
        if b == 'dxf':
            return [(geometry, [(p.x, p.y) for p in geometry.points]) for geometry in DxfImporter(path)]
        Reader.found, found = [], []
        Reader(path)
        for item in Reader.found:
            if isinstance(item, SvgFormat.Line):
                found.append((item, [(item.x1, item.y1), (item.x2, item.y2)]))
            elif isinstance(item, SvgFormat.Path):
                found += [(part, [(p.x, p.y) for p in part.geometry.points]) for part in item.path_data]
        return found

    rng = ck.rng
    generator = sketches.Generator(rng, contact=False, styles=[s for s in valfile.STYLES], colors=list(NAMED.values()), refused=0)
    builder = sketches.Builder(rng)
    paper = PaperSize('a0', 'portrait', 10)
    widths = {'label': [1, 1], 'line': [2, 1], 'construction': [3, 2]}

    def pieces(ms):
        out = []
        for name in rng.sample(PIECES, rng.choice((1, 1, 2, 3))):
            c = generator.generate(rng.randrange(2, 10), ms)
            if ms is None:
                ms = {m['n']: Fraction(*m['v']) for m in c['ms']}
            case = {'name': name, 'ops': [op for op in c['ops'] if 'name' not in op or op['name'] in generator.at]}
            for op in case['ops']:
                if 'name' in op:
                    op['lab'] = [list(rng.choice(LABELS)), list(rng.choice(LABELS))]
                    op['label'] = [a / b for a, b in op['lab']]
                    if op['t'] not in ('along', 'end', 'normal'):
                        op['style'] = op['color'] = None
                op['ls'], op['lc'] = op.get('style') or '', op.get('color') or ''
            out.append(case)
        return out, ms

    def make():
        parts, ms = pieces(None)
        st = dict(widths)
        if rng.random() < .5:
            st = {'label': rng.choice(([1, 2], [4, 1])), 'line': rng.choice(([1, 1], [5, 2])), 'construction': rng.choice(([1, 4], [3, 1]))}
        grades = [ms]
        for _ in range(rng.randrange(1, 4) if ms else 0):
            other = {n: Fraction(rng.choice((90, 180, -90))) if n == 'turn' else Fraction(rng.randrange(1, 25), rng.choice((1, 1, 2, 5))) for n in ms}
            grades.append(other)
        grades = [g for g in grades if all(sketches.positions(p, g) is not None for p in parts)]
        return {'pieces': parts, 'grades': grades, 'st': st} if grades else None

    def style_of(case):
        st = {k: n / d for k, (n, d) in case['st'].items()}
        return DetailSketchStyle(label_line_width=st['label'], line_width=st['line'], construction_line_width=st['construction'])

    def vit(path, ms):
        text = ''.join('<m name="{}" value="{}"/>'.format(sketches.MEASUREMENTS[n], v.numerator if v.denominator == 1 else
                                                         rng.choice((repr(float(v)), '{}/{}'.format(v.numerator, v.denominator)))) for n, v in ms.items())
        with open(path, 'w', encoding='utf8') as f:
            f.write('<?xml version="1.0" encoding="UTF-8"?>\n<vit><version>0.3.3</version><read-only>false</read-only><notes/><unit>cm</unit>'
                    '<pm_system>998</pm_system><personal><family-name>a</family-name><given-name>b</given-name><birth-date>1800-01-01</birth-date>'
                    '<gender>unknown</gender><email/></personal><body-measurements>{}</body-measurements></vit>'.format(text))

    def design(case, path, vit_path):
        vit_file = VitFile(vit_path)
        pattern = Pattern(vit_file.measurements, 'cm')
        for piece in case['pieces']:
            sketch = pattern.add_scope(piece['name']).sketch
            for op in piece['ops']:
                kwargs = builder.arguments(op, lambda n: n, Vector2D)
                if op['ls']:
                    kwargs['line_style'] = StrokeStyle[valfile.STYLES[op['ls']]]
                if op['lc']:
                    kwargs['line_color'] = Colors.ensure_color(op['lc'])
                getattr(sketch, sketches.KIND[op['t']])(**kwargs)
            sketch.eval()
        ValFileWriter(path, vit_file, pattern)

    def wanted(b, row, piece, case):
        """the marks of a page, by operation"""
        groups = {}
        for m in row['page'][b]:
            points = [list(xy(p)) for p in m['pts']]
            if b == 'pdf':
                points = [[MM * v for v in p] for p in points]
            op, s = piece['ops'][m['op'] - 1], m['style']
            stroke = None
            if m['kind'] == 'segment' or m['kind'] == 'cubic':
                own = {'c': [int(s['color'][n:n + 2], 16) for n in (1, 3, 5)] if s['color'] else [0, 0, 0], 'w': s['width'][0] / s['width'][1],
                       'dash': valfile.STYLES[s['line']] if s['line'] else 'SolidLine', 'a': 1}
                stroke = own if own['dash'] != 'NoPen' else {**own, 'c': [], 'dash': 'phantom'} if b == 'dxf' else None
            cmds = [['M'] + points[0]] + ([['C'] + sum(points[1:], [])] if m['kind'] == 'cubic' else [['L'] + p for p in points[1:]])
            mark = {'own': '{} {}'.format(op['t'], op.get('name', '')), 'kind': KINDS[m['kind']], 'cmds': cmds, 'stroke': stroke, 'fill': None,
                    'txt': op.get('name', '') if m['kind'] == 'text' else ''}
            if painters.seen(mark):
                groups.setdefault(m['op'], []).append(mark)
        return [groups[n] for n in sorted(groups)]

    def judge(b, page, groups):
        page = [p for p in page if painters.seen(p)]
        if len(page) != sum(map(len, groups)):
            return 'has {} marks instead of {}'.format([p['kind'] for p in page], [[p['own'] + ' ' + p['kind'] for p in g] for g in groups])
        n = 0
        for group in groups:
            left = page[n:n + len(group)]
            n += len(group)
            for want in group:
                problems = []
                for mark in left:
                    problem = painters.mark_problem(b, mark, want)
                    if not problem:
                        left.remove(mark)
                        break
                    problems.append(problem)
                else:
                    return problems[0]
        return None

    def points_of(mark):
        return [tuple(cmd[n:n + 2]) for cmd in mark['cmds'] for n in range(1, len(cmd), 2)]

    def draw(b, scene, path):
        if b == 'svg':
            SvgPainter(path, scene, paper)
            return painters.read_svg(path)[1]
        if b == 'pdf':
            PdfPainter(path, scene, paper)
            boxes, page = painters.read_pdf(path)
            return page
        if b == 'dxf':
            DxfPainter(path, scene, paper)
            errors, page = painters.read_dxf(path)
            if errors:
                raise ValueError(str(errors))
            return page
        painter = TexPainter(path, scene, paper)
        painter.add_detail_figure()
        painters.write_tex(painter)
        text, figures = painters.read_tex(path)
        return figures[0][3]

    def redraw(case, path, vit_path, ms, rows):
        """problem of the drawings of a pattern, read with measurements"""
        vit(vit_path, ms)
        pattern = ValFileReader(path).pattern
        if list(pattern.scope_names()) != [p['name'] for p in case['pieces']]:
            return 'the pieces are {}'.format(list(pattern.scope_names()))
        order = list(range(len(rows)))
        rng.shuffle(order)
        scenes = {j: pattern.scope(j if rng.random() < .5 else case['pieces'][j]['name']).sketch.detail_scene(style=style_of(case)) for j in order}
        for j in order:
            row, piece = rows[j], case['pieces'][j]
            box, got = [vf.rat(v) for v in row['box']], scenes[j].bounding_box
            if not all(vf.close(u, v) for u, v in zip((got.x.inf, got.y.inf, got.x.sup, got.y.sup), box)):
                return 'the piece {} has the bounding box {} instead of {}'.format(piece['name'], got, box)
            for b in rng.sample(('svg', 'pdf', 'dxf', 'tex'), 2):
                ck.note(b)
                page = draw(b, scenes[j], os.path.join(ck.tmp, 'piece.' + b))
                problem = judge(b, page, wanted(b, row, piece, case))
                if not problem and b in ('svg', 'dxf'):
                    ck.note('read again')
                    lines = [points_of(mark) for mark in page if mark['kind'] == 'path']
                    again = read_again(b, os.path.join(ck.tmp, 'piece.' + b))
                    if [len(points) for _, points in again] != [len(points) for points in lines]:
                        problem = 'is read again as {}'.format([str(item) for item, _ in again])
                    for (item, points), line in zip(again, lines):
                        if not all(vf.close(u, v, 1e-6) for p, q in zip(points, line) for u, v in zip(p, q)):
                            problem = problem or 'is read again with {} instead of {}'.format(points, line)
                if problem:
                    return 'the {} drawing of the piece {} {}'.format(b, piece['name'], problem)
        return None

    cases = [c for c in (make() for _ in range(ck.pick(150, 2000))) if c]
    inputs, index = [], []
    for j, case in enumerate(cases):
        for g, ms in enumerate(case['grades']):
            for p, piece in enumerate(case['pieces']):
                ops = [{k: v for k, v in op.items() if k not in ('label', 'style', 'color')} for op in piece['ops']]
                inputs.append({'ms': [{'n': n, 'v': sketches.rational(v)} for n, v in ms.items()], 'ops': ops, 'moves': [], 'st': case['st']})
                index.append((j, g, p))
    rows = ck.tlc('Chain', {'Depth': 0}, init='ChainInit', next='ChainNext', invariants=('DrawLaws', 'Similar', 'Whole', 'Joined'), properties=('Once',),
                  constraint='EmitPages', inputs=inputs, jobs=8).rows
    pages = {index[row['i'] - 1]: row for row in rows}
    for j, case in enumerate(cases):
        folder = os.path.join(ck.tmp, 'pattern {}'.format(j))
        os.makedirs(folder)
        path, vit_path = os.path.join(folder, 'a.val'), os.path.join(folder, 'a.vit')
        vit(vit_path, case['grades'][0])
        got = valfile.attempt(design, case, path, vit_path)
        problem = None if got[0] == 'ok' else 'the pattern cannot be made: {}'.format(got[1])
        for g, ms in enumerate(case['grades']):
            if problem:
                break
            got = valfile.attempt(redraw, case, path, vit_path, ms, [pages[j, g, p] for p in range(len(case['pieces']))])
            problem = got[1]
            ck.traces += 1
            ck.note('other measurements', g > 0)
            if problem:
                problem = 'with the measurements {}, {}'.format({n: str(v) for n, v in ms.items()}, problem)
        if problem:
            ck.violation('{}: {}'.format(problem, [(p['name'], p['ops']) for p in case['pieces']]), case['pieces'])
            if ck.full:
                return
        shutil.rmtree(folder)
    ck.samples += [str(c)[:600] for c in cases[:2]]
    ck.assumptions.append('patterns in centimetres, whose points all have one solution')
