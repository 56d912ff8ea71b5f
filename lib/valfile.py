"""Valentina pattern files: what is written, what is read"""
import contextlib
import io
import traceback

import sketches

# attributes of the operations in the order of ValFile.tla
POINTS = {'along': ('first_point', 'second_point'), 'end': ('base_point',), 'normal': ('first_point', 'second_point'),
          'intersect': ('point1_line1', 'point2_line1', 'point1_line2', 'point2_line2'),
          'contact': ('first_point', 'second_point', 'center'), 'poi': ('first_point', 'second_point'), 'single': (),
          'line': ('first_point', 'second_point'), 'spline': ('first_point', 'second_point')}
TEXTS = {'along': ('length',), 'end': ('angle', 'length'), 'normal': ('angle', 'length'), 'intersect': (), 'contact': ('radius',),
         'poi': (), 'single': ('x', 'y'), 'line': (), 'spline': ('angle1', 'length1', 'angle2', 'length2')}
REFS = {'along': 'pq', 'end': 'p', 'normal': 'pq', 'intersect': 'pquv', 'contact': ('p', 'q', 'center'), 'poi': 'pq', 'single': '',
        'line': 'pq', 'spline': 'pq'}
STYLES = {'hair': 'SolidLine', 'none': 'NoPen', 'dashLine': 'DashLine', 'dotLine': 'DotLine', 'dashDotLine': 'DashDotLine',
          'dashDotDotLine': 'DashDotDotLine'}
KINDS = {v: k for k, v in sketches.KIND.items()}


def attempt(function, *args):
    """('ok', value) or ('err', text)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return ('ok', function(*args))
    except Exception as exception:
        return ('err', repr(exception)[:300] + ''.join(traceback.format_tb(exception.__traceback__)[-2:])[-600:])


def operation_row(operation):
    t = KINDS[type(operation).__name__]
    row = {'t': t, 'id': operation.id, 'name': getattr(operation, 'name', ''),
           'refs': [getattr(operation, a).name for a in POINTS[t]],
           'texts': [str(getattr(operation, a)) for a in TEXTS[t]]}
    if row['name']:
        row['label'] = [float(x) for x in operation.label_offset]
        v = operation.vector
        row['at'] = None if v is None else [float(v.x), float(v.y)]
    else:
        row['at'] = [[float(p.x), float(p.y)] for p in operation.geometry().points]
    style, color = getattr(operation, 'line_style', None), getattr(operation, 'line_color', None)
    row['style'] = '' if style is None else getattr(style, 'name', str(style))
    row['color'] = '' if color is None else str(color)
    return row


def pattern_rows(pattern):
    return {'unit': pattern.unit, 'names': list(pattern.scope_names()),
            'pieces': [{'name': scope.name, 'ops': [operation_row(x) for x in scope.sketch.operations]} for scope in pattern.scopes],
            'measurements': None if pattern.measurements is None else {m.name: float(m) for m in pattern.measurements}}


def read(path, again=None):
    from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter
    reader = ValFileReader(path)
    rows = pattern_rows(reader.pattern)
    if again is not None:
        ValFileWriter(again, reader.vit_file, reader.pattern)
    return rows
