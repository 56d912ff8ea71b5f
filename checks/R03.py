"""Paper sizes and tiling"""
import math
from types import SimpleNamespace

import vf


def main(ck):
    from IntervalArithmetic import Interval2D
    from Patro.GraphicEngine.Painter.Painter import Tiler
    from Patro.GraphicEngine.Painter.Paper import PaperSize

    rng = ck.rng

    # 1. paper
    res = ck.tlc('Tiling', init='PaperInit', next='Cut', invariants=('Similar', 'EmitPaper'), inputs=[{}])
    if len(res.rows) != 33:
        raise vf.MachineryError('{} sheets'.format(len(res.rows)))
    for row in res.rows:
        name = row['letter'] + str(row['level'])
        short, long = [math.sqrt(vf.rat(x)) for x in row['side']]
        for orientation in ('portrait', 'landscape'):
            for margin in (0, 10, '5.5', 12.25):
                given = rng.choice([name, name.lower()])
                paper = vf.outcome(PaperSize, given, orientation, margin)
                if paper[0] != 'ok':
                    ck.violation('PaperSize({!r}, {!r}, {!r}) gives {}'.format(given, orientation, margin, paper), row)
                    continue
                paper = paper[1]
                width, height = (short, long) if orientation == 'portrait' else (long, short)
                got = (paper.width, paper.height, paper.width_in * 25.4, paper.height_in * 25.4, paper.margin)
                if any(not vf.close(a, b) for a, b in zip(got, (width, height, width, height, float(margin)))):
                    ck.violation('{} {} is {} x {} mm, {} x {} inches'.format(name, orientation, paper.width, paper.height, paper.width_in, paper.height_in), row)
                if paper.name.upper() != name or paper.orientation != orientation:
                    ck.violation('{} {} is named {} {}'.format(name, orientation, paper.name, paper.orientation), row)
                ck.traces += 1
    ck.exhaustive.append('33 sheets of paper, both orientations')
    for args in (('a11', 'portrait', 1), ('d4', 'portrait', 1), ('a-1', 'portrait', 1), ('a4', 'Portrait', 1), ('a4', '', 1), ('a', 'portrait', 1), ('4', 'portrait', 1),
                 ('a4', 'portrait', 'x'), ('letter', 'portrait', 1)):
        if vf.outcome(PaperSize, *args)[0] == 'ok':
            ck.violation('PaperSize{} is accepted'.format(args), {'args': args})

    # 2. tiles: exact lengths, in tenths of millimetre; the box is in cm, the paper in mm.
    # The printable area leaves the margin of the paper and 2 mm on each side.
    def make():
        w, h = rng.randint(20, 300), rng.randint(20, 300)
        r = rng.random()
        columns, rows = rng.randint(1, 5), rng.randint(1, 5)
        margin = rng.choice([0, 100, 100, 5])
        def length(n, side):
            # around a multiple of the side
            x = n * side - 2 * margin + rng.choice([0, 0, -1, 1, -side // 2])
            return max(x, 1)
        x0, y0 = rng.randint(-500, 500), rng.randint(-500, 500)
        return {'w': w, 'h': h, 'margin': margin, 'box': [x0, x0 + length(columns, w), y0, y0 + length(rows, h)]}

    cases = [make() for _ in range(ck.pick(2500, 40000))]
    res = ck.tlc('Tiling', init='TileInit', next='PrintSheet', invariants=('TileLaws', 'EmitTiles'), inputs=cases, jobs=8)
    want = {row['i']: row for row in res.rows}
    for j, case in enumerate(cases, 1):
        row = want[j]
        paper_margin = rng.choice([0, 5, 10])
        paper = SimpleNamespace(width=case['w'] / 10 + 2 * (paper_margin + 2), height=case['h'] / 10 + 2 * (paper_margin + 2), margin=paper_margin)
        x0, x1, y0, y1 = [x / 100 for x in case['box']]
        bounding_box = Interval2D((x0, x1), (y0, y1))
        if case['margin'] == 100 and rng.random() < .7:
            tiler = Tiler(bounding_box, paper)
        else:
            tiler = Tiler(bounding_box, paper, margin=case['margin'] / 100)
        if bounding_box != Interval2D((x0, x1), (y0, y1)):
            ck.violation('tiling changes the bounding box of {} to {}'.format(case, bounding_box), case)
            break
        exact = (x1 - x0 + case['margin'] / 50) / case['w'] * 100, (y1 - y0 + case['margin'] / 50) / case['h'] * 100
        for turn in range(2):   # a tiler can be used twice
            tiles = vf.outcome(list, tiler)
            if tiles[0] != 'ok':
                ck.violation('tiling {} gives {}'.format(case, tiles), case)
                break
            got = {(r, k): tile for tile, r, k in tiles[1]}
            wanted = {(r, k): tile for tile, r, k in row['tiles']}
            # a length which is a multiple of a tile may need one more, by rounding
            spare = [abs(x - round(x)) < 1e-9 for x in exact]
            extra = {(r, k) for r, k in got if (r, k) not in wanted and ((spare[0] and k == row['columns']) or (spare[1] and r == row['rows']))}
            if set(got) - extra != set(wanted) or len(tiles[1]) != len(got):
                ck.violation('tiling {} gives the tiles {} instead of {}'.format(case, sorted(got), sorted(wanted)), case)
                break
            order = [(r, k) for _, r, k in tiles[1]]
            if order != sorted(order):
                ck.violation('tiling {} gives the tiles in the order {}'.format(case, order), case)
                break
            bad = [(key, got[key], tile) for key, tile in wanted.items()
                   if any(not vf.close(a, b / 100) for a, b in zip((got[key].x.inf, got[key].x.sup, got[key].y.inf, got[key].y.sup), tile))]
            if bad:
                ck.violation('tiling {}: tile {} is {} instead of {} / 100'.format(case, *bad[0]), case)
                break
        ck.traces += 1
        if ck.full:
            return
    ck.note('tilings', len(cases))
    ck.samples.append({'tiling': cases[0], 'tiles': want[1]['tiles'][:3]})

    # 3. real paper: the tiles made by the code are judged by the specification
    records = []
    for _ in range(ck.pick(300, 4000)):
        paper = PaperSize(rng.choice('abc') + str(rng.randint(2, 6)), rng.choice(['portrait', 'landscape']), rng.choice([0, 5, 10]))
        w, h = paper.width / 10 - 2 * (paper.margin + 2) / 10, paper.height / 10 - 2 * (paper.margin + 2) / 10
        x0, y0 = rng.uniform(-50, 50), rng.uniform(-50, 50)
        x1, y1 = x0 + rng.uniform(.1, 4) * w, y0 + rng.uniform(.1, 4) * h
        def fine(x):
            return round(x * 1000)
        tiles = [[[fine(t.x.inf), fine(t.x.sup), fine(t.y.inf), fine(t.y.sup)], r, k] for t, r, k in Tiler(Interval2D((x0, x1), (y0, y1)), paper)]
        records.append({'w': fine(w), 'h': fine(h), 'margin': 1000, 'box': [fine(x0), fine(x1), fine(y0), fine(y1)], 'tiles': tiles,
                        'paper': [paper.name, paper.orientation, paper.margin]})
    res = ck.tlc('Tiling', init='TileInit', next='Stay', invariants=('EmitVerdict',), inputs=records, jobs=8)
    for row in res.rows:
        ck.traces += 1
        if not row['ok']:
            ck.violation('the tiles of {} do not cover it, or overlap, or are not sheets'.format(records[row['i'] - 1]), records[row['i'] - 1])
    if len(res.rows) != len(records):
        raise vf.MachineryError('{} verdicts'.format(len(res.rows)))
    ck.note('tilings on real paper, validated', len(records))
