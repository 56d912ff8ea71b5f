"""TeX documents: class, preamble, and nested environments"""
import os
import subprocess
import sys

import vf

TEXTS = ['a', 'é ', r'\draw (0,0) -- (1,1);' + '\n', '{', '}', '«x»', '% ', '\n', '', '漢', '{0}', '%s', r'\usepackage{tikz}' + '\n', '\\', '"', '[', ']']
CLASSES = ['article', 'standalone', 'book', 'my-class']
CHILD = '''
import sys
from Patro.GraphicEngine.TeX.Document import Document
document = Document(sys.argv[1], 'article')
document.preambule.append('\\u00e9\\u6f22')
document.content.append('\\u00ab\\u00bb')
document.write()
'''


def history(rng, n):
    """operations on buffers: 1 is the preamble and 2 the content"""
    ops, kinds = [], ['buffer', 'env']
    for _ in range(n):
        r = rng.random()
        if r < .25 and len(kinds) < 7:
            kind = rng.choice(('buffer', 'env'))
            kinds.append(kind)
            ops.append({'o': 'new', 'kind': kind})
        elif r < .82:
            x = [{'t': 'ref', 'v': rng.randrange(1, len(kinds) + 1)} if rng.random() < .55 else {'t': 's', 'v': str(rng.randrange(len(TEXTS)))} for _ in range(rng.choice((0, 1, 1, 1, 2, 3)))]
            ops.append({'o': 'append', 'b': rng.randrange(1, len(kinds) + 1), 'x': x, 'deep': rng.random() < .35})
        elif r < .89:
            ops.append({'o': 'clear', 'b': rng.randrange(1, len(kinds) + 1)})
        elif r < .95:
            ops.append({'o': 'page'})
        else:
            ops.append({'o': 'write'})
    return ops


class World:
    """the real document and buffers of a history"""

    def __init__(self, directory, n, rng):
        from Patro.GraphicEngine.TeX.Buffer import Buffer
        from Patro.GraphicEngine.TeX.Document import Document
        from Patro.GraphicEngine.TeX.Environment import Center, Environment
        from Patro.GraphicEngine.TeX.Tikz import TikzFigure
        self.rng = rng
        self.types = Buffer, Environment, Center, TikzFigure
        self.name = os.path.join(directory, rng.choice(('document', 'été', 'a.b', 'x.tex.y')) + str(n))
        self.options = rng.choice(('', '12pt', 'a4paper,12pt', 'tikz={border=2pt}'))
        self.cls = rng.choice(CLASSES)
        path = self.name + rng.choice(('', '.tex'))
        self.document = Document(path, self.cls, self.options) if self.options or rng.random() < .5 else Document(path, self.cls)
        self.buffers = [self.document.preambule, self.document.content]
        self.tags = [None, (r'\begin{document}' + '\n', r'\end{document}' + '\n')]

    def new(self, kind):
        Buffer, Environment, Center, TikzFigure = self.types
        rng = self.rng
        if kind == 'buffer':
            self.buffers.append(Buffer())
            self.tags.append(None)
            return
        options = rng.choice(('', 'scale=2', 'x=1cm,y=1cm', 'é', '{a}', '%s'))
        name = rng.choice(('center', 'tikzpicture', 'tabular', 'figure*'))
        if name == 'center' and not options:
            env = Center()
        elif name == 'tikzpicture':
            env = TikzFigure(options) if options or rng.random() < .5 else TikzFigure()
        else:
            env = Environment(name, options) if options or rng.random() < .5 else Environment(name)
        self.buffers.append(env)
        self.tags.append(('\\begin{' + name + '}' + ('[' + options + ']' if options else '') + '\n', '\\end{' + name + '}\n'))

    def text(self, tokens):
        out = []
        for t in tokens:
            if t['t'] == 's':
                out.append('\\newpage\n' if t['v'] == 'newpage' else TEXTS[int(t['v'])])
            else:
                out.append(self.tags[t['n'] - 1][t['t'] == ')'])
        return ''.join(out)

    def head(self):
        return '\\documentclass[' + self.options + ']{' + self.cls + '}\n'

    def do(self, op):
        o = op['o']
        if o == 'new':
            self.new(op['kind'])
        elif o == 'append':
            data = [TEXTS[int(x['v'])] if x['t'] == 's' else self.buffers[x['v'] - 1] for x in op['x']]
            buffer = self.buffers[op['b'] - 1]
            single = len(data) == 1 and self.rng.random() < .6
            args = data[0] if single else data
            got = buffer.append(args, True) if op['deep'] else buffer.append(args) if self.rng.random() < .5 else buffer.append(args, deepcopy=False)
            data.append('the list of the caller is changed later')
            return got is buffer
        elif o == 'clear':
            self.buffers[op['b'] - 1].clear()
        elif o == 'page':
            self.document.newpage()
        elif o == 'write':
            self.document.write()
        return True


def main(ck):
    rng = ck.rng
    inputs = [history(rng, rng.randrange(1, 16)) for _ in range(ck.pick(600, 12000))]
    # a copy of an environment is frozen, with all which is in it; an inner buffer which is filled later is not
    for deep in (False, True):
        ref = lambda n: [{'t': 'ref', 'v': n}]
        inputs.append([{'o': 'new', 'kind': 'env'}, {'o': 'new', 'kind': 'buffer'}, {'o': 'append', 'b': 3, 'x': ref(4), 'deep': False}, {'o': 'append', 'b': 2, 'x': ref(3), 'deep': deep},
                       {'o': 'append', 'b': 4, 'x': [{'t': 's', 'v': '0'}], 'deep': False}, {'o': 'write'}, {'o': 'clear', 'b': 3}, {'o': 'append', 'b': 2, 'x': ref(3) + ref(3), 'deep': deep},
                       {'o': 'page'}, {'o': 'clear', 'b': 2}, {'o': 'write'}])
    res = ck.tlc('Tex', inputs=inputs, invariants=('Closed', 'Acyclic', 'Emit'), properties=('Local', 'ComesLast'))
    steps = {(row['i'], row['k']): row for row in res.rows}
    for i, ops in enumerate(inputs, 1):
        world = World(ck.tmp, i, rng)
        done = []
        for k in range(len(ops) + 1):
            row = steps[i, k]
            if k and row['res'] == 'skip':
                continue
            if k:
                op = ops[k - 1]
                done.append(op)
                got = vf.outcome(lambda: world.do(op))
                if got != ('ok', True):
                    ck.violation('{} of a TeX document is {}'.format(op['o'], got[1:]), done)
                    break
            ck.traces += 1
            want = [world.text(t) for t in row['text']]
            got = vf.outcome(lambda: [str(b) for b in world.buffers])
            if got != ('ok', want):
                ck.violation('the buffers of a TeX document are {} instead of {}'.format(got[1:], want), done)
                break
            whole = world.head() + want[0] + want[1]
            document = world.document
            got = vf.outcome(lambda: [str(document), document.tex_filename, document.pdf_filename, document.output_directory])
            expected = [whole, world.name + '.tex', world.name + '.pdf', ck.tmp]
            if got != ('ok', expected):
                ck.violation('the text and the files of a TeX document are {} instead of {}'.format(got[1:], expected), done)
                break
            if k and ops[k - 1]['o'] == 'write':
                with open(world.name + '.tex', 'rb') as fh:
                    data = fh.read()
                if data != whole.replace('\n', os.linesep).encode('utf-8'):
                    ck.violation('the file of a TeX document is {!r} instead of {!r}'.format(data, whole), done)
                    break
    ck.note('histories', len(inputs))
    ck.note('skipped', sum(row['res'] == 'skip' for row in res.rows))

    # The locale of the user changes nothing to the file
    path = os.path.join(ck.tmp, 'locale.tex')
    env = dict(os.environ, LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0', PYTHONPATH=vf.REPO)
    env.pop('PYTHONIOENCODING', None)
    child = subprocess.run([sys.executable, '-c', CHILD, path], env=env, capture_output=True, text=True, cwd=ck.tmp)
    want = '\\documentclass[]{article}\né漢\\begin{document}\n«»\\end{document}\n'
    data = b''
    if child.returncode == 0:
        with open(path, 'rb') as fh:
            data = fh.read()
    if data != want.encode('utf-8'):
        ck.violation('a TeX document written under the C locale is {!r} {}'.format(data, child.stderr[-300:]), {'locale': 'C'})
    ck.traces += 1
