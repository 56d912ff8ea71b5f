"""Drawing a scene to a file"""
import copy
import os
import re

import painters
import vf
from painters import expected, seen

FORMATS = ('svg', 'pdf', 'dxf', 'tex', 'mpl')
MM = 72 / 25.4


def main(ck):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
    from Patro.GraphicEngine.Painter.MplPainter import MplPainter
    from Patro.GraphicEngine.Painter.Painter import Tiler
    from Patro.GraphicEngine.Painter.Paper import PaperSize
    from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
    from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
    from Patro.GraphicEngine.Painter.TexPainter import TexPainter

    rng = ck.rng
    world = painters.World()
    names = sorted(world.Colors.iter_names())
    papers = [('a0', 'portrait', 10), ('a4', 'landscape', 5), ('b7', 'portrait', 3), ('a5', 'portrait', 0), ('c3', 'landscape', 12)]

    def compare(b, got, want):
        got, want = [p for p in got if seen(p)], [p for p in want if seen(p)]
        if b == 'mpl':
            # the texts are above the lines
            got, want = ([p for p in x if p['kind'] != 'text'] + [p for p in x if p['kind'] == 'text'] for x in (got, want))
        if b == 'pdf':
            for p in want:
                for cmd in p['cmds']:
                    cmd[1:] = [MM * v for v in cmd[1:]]
        if len(got) != len(want):
            return 'has {} marks instead of {}: {} instead of {}'.format(len(got), len(want), [p['kind'] for p in got], [(p['own'], p['kind']) for p in want])
        for g, w in zip(got, want):
            problem = painters.mark_problem(b, g, w)
            if problem:
                return problem
        return None

    def draw(scene, op, want):
        """problem of a drawing"""
        b, paper = op['b'], PaperSize(*op['paper'])
        path = os.path.join(ck.tmp, 'drawing.' + b)
        if b == 'svg':
            SvgPainter(path, scene, paper)
            attributes, page = painters.read_svg(path)
            box = painters.numbers(attributes['viewBox'])
            if any(abs(x - y) > 1e-3 for x, y in zip(box, (0, 0, paper.width, paper.height))) or len(box) != 4:
                return 'has the view box {}'.format(box)
            for name in ('width', 'height'):
                m = re.fullmatch(r'([\d.]+)mm', attributes[name])
                if not m or abs(float(m.group(1)) - getattr(paper, name)) > 1e-3:
                    return 'has the {} {}'.format(name, attributes[name])
            return compare(b, page, want)
        if b == 'pdf':
            PdfPainter(path, scene, paper, **op['kw'])
            boxes, page = painters.read_pdf(path)
            if len(boxes) != 1 or any(abs(x - y) > .01 for x, y in zip(boxes[0], (0, 0, paper.width * MM, paper.height * MM))):
                return 'has the pages {}'.format(boxes)
            return compare(b, page, want)
        if b == 'dxf':
            DxfPainter(path, scene, paper, **({'driver': 'ezdxf'} if op['kw'] else {}))
            errors, page = painters.read_dxf(path)
            return 'is wrong: {}'.format(errors) if errors else compare(b, page, want)
        if b == 'tex':
            painter = TexPainter(path, scene, paper)
            if op['tiled']:
                painter.add_tiled_detail_figure()
            else:
                painter.add_detail_figure()
            painters.write_tex(painter)
            text, figures = painters.read_tex(path)
            if 'paper={}paper'.format(paper.name.lower()) not in text or ('landscape' in text) != (paper.orientation == 'landscape') \
               or not re.search(r'\bmargin={}mm'.format(re.escape(str(paper.margin))), text):
                return 'is not on the paper {}: {}'.format(op['paper'], text[:600])
            unit = 10 if op['tiled'] else 8
            tiles = list(Tiler(scene.bounding_box, paper)) if op['tiled'] else [None]
            if len(figures) != len(tiles):
                return 'has {} figures instead of {}'.format(len(figures), len(tiles))
            for (options, clip, label, page), tile in zip(figures, tiles):
                if sorted(x.strip() for x in options.split(',')) != ['x={}mm'.format(unit), 'y={}mm'.format(unit)]:
                    return 'has the units {}'.format(options)
                if tile is None:
                    if clip is not None:
                        return 'is clipped'
                else:
                    area, row, column = tile
                    corners = [[x, y] for x in (area.x.inf, area.x.sup) for y in (area.y.inf, area.y.sup)]
                    if clip is None or len(clip) != 4 or any(min(abs(p[0] - r[0]) + abs(p[1] - r[1]) for p in clip) > .011 for r in corners):
                        return 'has the tile {} instead of {}'.format(clip, area)
                    if label is None or painters.numbers(label[0]) != [row + 1, column + 1]:
                        return 'has the label {} instead of {}, {}'.format(label, row + 1, column + 1)
                    x, y = label[1]
                    if not (area.x.inf <= x < area.x.sup and area.y.inf <= y < area.y.sup):
                        return 'has the label of the tile {} at {}'.format(area, label[1])
                problem = compare(b, page, want)
                if problem:
                    return problem
            return None
        painter = MplPainter(scene, paper)
        figure = plt.gcf()
        page = painters.read_mpl(figure)
        axes = figure.axes[0]
        (x0, x1), (y0, y1) = axes.get_xlim(), axes.get_ylim()
        box = scene.bounding_box
        plt.close(figure)
        if not (x0 < box.x.inf and x1 > box.x.sup and y0 < box.y.inf and y1 > box.y.sup) or axes.get_aspect() not in ('equal', 1):
            return 'has the axes {} {} {}'.format((x0, x1), (y0, y1), axes.get_aspect())
        del painter
        return compare(b, page, want)

    def replay(case, rows):
        """rows: the drawings of the specification, in order"""
        scene, items = world.new_scene(case), {}
        history = []
        rows = iter(rows)
        for op in case['ops']:
            history.append(op)
            if op['o'] != 'draw':
                world.edit(scene, items, op)
                continue
            row = next(rows)
            b = op['b']
            ck.note('{} {}'.format(b, row['res']))
            got = vf.outcome(draw, scene, op, expected(row['page']))
            plt.close('all')
            if row['res'] == 'refused':
                problem = None if got[0] == 'err' and got[1] == 'NotImplementedError' else 'is not refused: {}'.format(got)
            else:
                problem = got[1] if got[0] == 'ok' else 'fails: {}'.format(got)
            if problem:
                ck.violation('a {} drawing {}'.format(b, problem), {'case': {**case, 'ops': history}, 'expected': row})
                return
        ck.traces += 1

    def drawing():
        b = rng.choice(FORMATS + ('svg', 'pdf', 'tex'))
        return {'o': 'draw', 'b': b, 'paper': rng.choice(papers[:1] + papers), 'kw': rng.choice([{}, {'driver': 'reportlab'}]) if b in ('pdf', 'dxf') else {},
                'tiled': rng.random() < .4, 'scale': [10, 1], 'size': [100, 100]}

    laws = ('Ordered', 'Whole1', 'Refused', 'Similar', 'Inside')
    # 1. every history of a bounded model
    res = ck.tlc('Painter', {'Depth': ck.pick(4, 5)}, init='ModelInit', next='ModelNext', invariants=laws + ('Grid', 'EmitModel'), properties=('Untouched', 'Progress'),
                 inputs=[{}], workers=8, timeout=ck.pick(300, 800), heap='8g')
    rows = {vf.freeze(row['h']): row for row in res.rows}
    ck.note('histories of the bounded model', len(rows))
    files = [h for h, row in rows.items() if row['h'][-1]['b'] in FORMATS]
    base = {'box': [0, 0, 4, 4], 'tname': None, 't': [[0, 1], [-1, 1], [1, 1], [0, 1], [1, 1], [0, 1]]}
    world.transformation = lambda name, old=world.transformation: old(name) if name else world.AffineTransformation2D.Translation(world.Vector2D(1, 0)) * world.AffineTransformation2D.Rotation(90)
    for h in rng.sample(files, min(len(files), ck.pick(400, 6000))):
        ops = copy.deepcopy(rows[h]['h'])
        wanted = []
        for n, op in enumerate(ops):
            if op['o'] == 'draw':
                op.update(paper=papers[0], kw={}, tiled=False)
                wanted.append(rows[vf.freeze(rows[h]['h'][:n + 1])])
            if op['o'] == 'add':
                complete(op['x'])
        if any(op['o'] == 'draw' and op['b'] not in FORMATS for op in ops):
            continue
        replay({**base, 'ops': ops}, wanted)
        if ck.full:
            return
    ck.exhaustive.append('bounded model: histories of {} operations on three items and a coordinate, drawn by seven back-ends'.format(ck.pick(4, 5)))

    # 2. random scenes
    generator = painters.Generator(rng, names, ['segment', 'segment', 'cubic', 'cubic', 'circle', 'text'])
    odd = painters.Generator(rng, names, ['segment', 'cubic', 'text', 'circle', 'polyline', 'polygon', 'ellipse', 'quadratic', 'path', 'rectangle', 'image'])
    cases = [(odd if rng.random() < .15 else generator).case(drawing, rng.randrange(4, 16)) for _ in range(ck.pick(400, 5000))]
    world.resolve(cases)
    res = ck.tlc('Painter', {'Depth': 0}, init='CaseInit', next='CaseNext', invariants=laws + ('Emit',), properties=('Untouched', 'Progress'), inputs=cases, jobs=8)
    outs = {}
    for row in res.rows:
        outs.setdefault(row['i'], {})[row['k']] = row
    for j, case in enumerate(cases, 1):
        replay(case, [outs[j][n] for n in sorted(outs[j])])
        if ck.full:
            return
    ck.note('random scenes', len(cases))
    ck.samples.append({'case': cases[0]})
    ck.assumptions += ['the bounding box of a scene is given by the user, as the library does', 'a circle is a dot of a drawing to a file']


def complete(x):
    """an item of the bounded model"""
    style = dict(x['style'])
    style.update(ctext='#%02x%02x%02x' % tuple(style['c']) if style['c'] else '', ftext='#%02x%02x%02x' % tuple(style['f']) if style['f'] else '',
                 ctltext='', wform='float', cap='SquareCap', join='BevelJoin')
    x['style'] = style
