"""Harness shared by all checks: runs TLC, collects what the specification emits, records evidence.

A check is a python module /verif/checks/<ID>.py with a function main(ck).  It is run by
/verif/run.py ID [quick|thorough].
"""

import collections
import concurrent.futures
import io
import json
import math
import os
import re
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VF_REPO', '/repo')
TLA = '/opt/veriftools/tla'

MAX_REPORTED = 5
WATCHDOG = 120   # seconds without any progress of the code under test
MEMORY = 12 << 30

_limit = resource.getrlimit(resource.RLIMIT_AS)


def _unlimit():
    resource.setrlimit(resource.RLIMIT_AS, _limit)


_lock = threading.Lock()


class Hang(Exception):
    pass


def _on_alarm(signum, frame):
    raise Hang('the code under test does not terminate')


class MachineryError(Exception):
    pass


class Tlc:
    """Result of a TLC run"""

    def __init__(self):
        self.rows = []
        self.states = 0
        self.distinct = 0
        self.wall = 0
        self.invariant = None
        self.text = ''


def tla_value(x):
    """Python -> TLA+ literal for a CONSTANT in a cfg file"""
    if isinstance(x, bool):
        return 'TRUE' if x else 'FALSE'
    if isinstance(x, (int, str)):
        return str(x) if isinstance(x, int) else '"{}"'.format(x)
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(sorted(tla_value(y) for y in x)) + '}'
    raise TypeError(x)


class Check:

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.rng = random.Random('{}-{}'.format(pid, seed))
        self.t0 = time.time()
        self.violations = []      # (key, message, replay)
        self.known_seen = {}
        self.states = 0
        self.transitions = 0
        self._traces = 0          # behaviours/cases of the specification replayed in the code, or traces validated
        self.samples = []
        self.assumptions = []
        self.exhaustive = []
        self.counts = collections.Counter()
        self.tmp = tempfile.mkdtemp(prefix='vf-')
        self.known = self._load_known()
        self.level = 'model_checking'

    ##############################################

    def _load_known(self):
        known = {}
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            for line in open(path, encoding='utf8'):
                line = line.strip()
                if line.startswith('finding:'):
                    # finding: property=<id> key=<key> <what fails>
                    parts = line.split(None, 3)
                    pid = parts[1].split('=', 1)[1]
                    key = parts[2].split('=', 1)[1]
                    if pid == self.pid:
                        known[key] = parts[3] if len(parts) > 3 else ''
        return known

    ##############################################

    # The watchdog is rearmed each time a behaviour was replayed

    @property
    def traces(self):
        return self._traces

    @traces.setter
    def traces(self, value):
        self._traces = value
        signal.setitimer(signal.ITIMER_REAL, WATCHDOG)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def note(self, name, n=1):
        self.counts[name] += n

    ##############################################

    def violation(self, message, replay=None, key=None):
        """Report that the code does not follow the specification"""
        key = key or message
        if key in self.known:
            if key not in self.known_seen:
                self.known_seen[key] = True
            return
        self.violations.append((key, message, replay))
        if len(self.violations) <= MAX_REPORTED:
            print('-- ' + message[:2000], flush=True)

    @property
    def full(self):
        """Enough violations: a check may stop"""
        return len(self.violations) >= 50

    ##############################################

    def tlc(self, module, constants=None, init=None, next=None, spec=None, invariants=(), properties=(),
            constraint=None, action_constraint=None, view=None, postcondition=None, extra=(),
            workers=1, simulate=None, depth=None, env=None, inputs=None, emit=True, timeout=800,
            overrides=None, deadlock=False, must_hold=True, seed=None, heap='4g', symmetry=None, jobs=1, index='i', alarm=True, drop=False):

        if jobs > 1 and inputs and len(inputs) > 20 * jobs:
            # the cases are independent: they are shared between TLC processes
            kwargs = dict(locals())
            for name in ('self', 'jobs', 'inputs'):
                kwargs.pop(name)
            kwargs['heap'] = '2g'
            size = -(-len(inputs) // jobs)
            parts = range(0, len(inputs), size)
            signal.setitimer(signal.ITIMER_REAL, 0)
            kwargs['alarm'] = False
            with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
                results = list(pool.map(lambda k: self.tlc(inputs=inputs[k:k + size], **kwargs), parts))
            for k, r in zip(parts, results):
                for row in r.rows:
                    if isinstance(row, dict) and isinstance(row.get(index), int):
                        row[index] += k
            res = results[0]
            for r in results[1:]:
                res.rows += r.rows
            signal.setitimer(signal.ITIMER_REAL, WATCHDOG)
            return res

        if drop and inputs:
            # the cases whose numbers do not fit the 32 bits of TLC have no row
            kwargs = dict(locals())
            for name in ('self', 'inputs', 'drop'):
                kwargs.pop(name)
            left = list(range(1, len(inputs) + 1))
            for _ in range(1 + len(inputs) // 50):
                try:
                    res = self.tlc(inputs=[inputs[j - 1] for j in left], **kwargs)
                except MachineryError as error:
                    wrong = re.search(r'^/\\ {} = (\d+)$'.format(index), str(error), re.M)
                    if 'Overflow when computing' not in str(error) or not wrong:
                        raise
                    left.pop(int(wrong.group(1)) - 1)
                    self.note('case out of the integers of TLC')
                    continue
                for row in res.rows:
                    row[index] = left[row[index] - 1]
                return res
            raise MachineryError('too many overflows in ' + module)

        run = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        for name in os.listdir(SPEC):
            if name.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, name), run)
        cfg = []
        if spec:
            cfg.append('SPECIFICATION ' + spec)
        else:
            cfg.append('INIT ' + (init or 'Init'))
            cfg.append('NEXT ' + (next or 'Next'))
        for k, v in (constants or {}).items():
            cfg.append('CONSTANT {} = {}'.format(k, tla_value(v)))
        for k, v in (overrides or {}).items():
            cfg.append('CONSTANT {} <- {}'.format(k, v))
        for x in invariants:
            cfg.append('INVARIANT ' + x)
        for x in properties:
            cfg.append('PROPERTY ' + x)
        for k, v in (('CONSTRAINT', constraint), ('ACTION_CONSTRAINT', action_constraint), ('VIEW', view),
                     ('POSTCONDITION', postcondition), ('SYMMETRY', symmetry)):
            if v:
                for y in ([v] if isinstance(v, str) else v):
                    cfg.append(k + ' ' + y)
        cfg.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        cfg += list(extra)
        with open(os.path.join(run, 'run.cfg'), 'w') as fh:
            fh.write('\n'.join(cfg) + '\n')
        environ = dict(os.environ)
        environ.pop('JAVA_TOOL_OPTIONS', None)
        environ.update(env or {})
        if inputs is not None:
            path = os.path.join(run, 'inputs.ndjson')
            with open(path, 'w') as fh:
                for x in inputs:
                    fh.write(json.dumps(x) + '\n')
            environ['VF_IN'] = path
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + run,
               '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar',
               'tlc2.TLC', '-config', 'run.cfg', '-metadir', os.path.join(run, 'md'),
               '-workers', str(workers), '-fp', '7', '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num={}'.format(simulate), '-depth', str(depth or 20)]
        cmd += ['-seed', str(seed if seed is not None else self.seed)]
        cmd.append(module + '.tla')
        t0 = time.time()
        signal.setitimer(signal.ITIMER_REAL, 0)
        out_path = os.path.join(run, 'out')
        with open(out_path, 'wb') as fh:
            try:
                rc = subprocess.run(cmd, cwd=run, env=environ, stdout=fh, stderr=subprocess.STDOUT,
                                    timeout=timeout, preexec_fn=_unlimit).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError('TLC timeout on ' + module)
        if alarm:
            signal.setitimer(signal.ITIMER_REAL, WATCHDOG)
        res = Tlc()
        res.wall = time.time() - t0
        rest = []
        with open(out_path, encoding='utf8', errors='replace') as fh:
            for line in fh:
                if line.startswith('"{') or line.startswith('"['):
                    if emit:
                        try:
                            res.rows.append(json.loads(json.loads(line.strip())))
                        except ValueError:
                            raise MachineryError('cannot decode TLC line ' + line[:300])
                else:
                    rest.append(line)
        res.text = ''.join(rest)
        for line in rest:
            if line[:1].isdigit() and 'states generated' in line and 'distinct states found' in line and 'left on queue' in line:
                parts = line.replace(',', '').split()
                res.states, res.distinct = int(parts[0]), int(parts[3])
            elif simulate and 'states checked' in line:
                digits = [int(x.replace(',', '')) for x in line.split() if x.replace(',', '').isdigit()]
                if digits:
                    res.states = max(res.states, digits[0])
            elif line.startswith('The number of states generated:'):
                res.states = int(line.split(':')[1].replace(',', ''))
            elif 'Invariant ' in line and ' is violated' in line:
                res.invariant = line.split('Invariant ')[1].split()[0]
        with _lock:
            self.states += res.distinct or res.states
            self.transitions += res.states
        shutil.rmtree(run, ignore_errors=True)
        if must_hold and rc != 0:
            noise = (' to line ', 'Parsing file', 'Semantic processing', 'Linting of', 'Computed ')
            text = '\n'.join(l for l in res.text.splitlines() if not any(x in l for x in noise))
            if 'Error:' in text:
                text = text[text.index('Error:'):]
            raise MachineryError('TLC failed on {} (rc {}):\n{}'.format(module, rc, text[:4000]))
        res.rc = rc
        return res

    ##############################################

    def finish(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        coverage = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples[:10],
            'exhaustive': bool(self.exhaustive),
            'exhaustive_over': self.exhaustive,
            'counts': dict(self.counts),
        }
        evidence = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.level,
            'coverage': coverage,
            'assumptions': self.assumptions,
            'wall_s': round(wall, 3),
            'violations': len(self.violations),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(evidence, fh, indent=1, default=str)
        for key in self.known_seen:
            print('KNOWN-FINDING: property={} {}'.format(self.pid, self.known[key] or key))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            replay_dir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, '{}.json'.format(self.pid))
            with open(path, 'w') as fh:
                json.dump([{'key': k, 'message': m, 'replay': r} for k, m, r in self.violations[:50]],
                          fh, indent=1, default=str)
            print('{} violation(s) in {:.1f} s'.format(len(self.violations), wall))
            print('VIOLATION property={} replay={}'.format(self.pid, path), flush=True)
            return 1
        print('{} {}: held on {} spec states, {} replayed behaviours, {:.1f} s; {}'.format(
            self.pid, self.tier, self.states, self.traces, wall, dict(self.counts)), flush=True)
        return 0


####################################################################################################
#
# Comparison helpers
#

def close(a, b, tol=1e-9):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1., abs(a), abs(b))


def rat(x):
    """<<num, den>> emitted by the specification -> float"""
    if isinstance(x, list):
        return x[0] / x[1]
    return float(x)


def outcome(function, *args, **kwargs):
    """('ok', value) or ('err', exception class name, text)"""
    try:
        return ('ok', function(*args, **kwargs))
    except Exception as exception:
        return ('err', type(exception).__name__, str(exception)[:300])


####################################################################################################
#
# State graph emitted by TLC: each row is {s: state, a: action, t: state}
#

def freeze(x):
    if isinstance(x, list):
        return tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    return x


class Graph:

    def __init__(self, rows, initial=None):
        self.out = collections.defaultdict(list)
        self.state = {}
        targets = set()
        for row in rows:
            s, t = freeze(row['s']), freeze(row['t'])
            self.state[s] = row['s']
            self.state[t] = row['t']
            self.out[s].append((row['a'], t))
            targets.add(t)
        self.edges = len(rows)
        if initial is not None:
            self.initial = [freeze(x) for x in initial]
        else:
            self.initial = [freeze(rows[0]['s'])] if rows else []
        self.path = {}
        queue = collections.deque()
        for s in self.initial:
            self.path[s] = None
            queue.append(s)
        while queue:
            s = queue.popleft()
            for a, t in self.out.get(s, ()):
                if t not in self.path:
                    self.path[t] = (s, a)
                    queue.append(t)

    def path_to(self, s):
        steps = []
        while self.path[s] is not None:
            p, a = self.path[s]
            steps.append((a, s))
            s = p
        steps.reverse()
        return s, steps

    def behaviours(self, rng=None, walks=0, length=30, transitions=True, max_transitions=None):
        """Yield (initial state, [(action, expected state)])"""
        if transitions:
            items = [(s, a, t) for s, l in self.out.items() if s in self.path for a, t in l]
            if max_transitions is not None and len(items) > max_transitions:
                items = rng.sample(items, max_transitions)
            # group: the whole path is replayed for each transition
            for s, a, t in items:
                s0, steps = self.path_to(s)
                yield self.state[s0], [(x, self.state[y]) for x, y in steps] + [(a, self.state[t])]
        for _ in range(walks):
            s0 = s = rng.choice(self.initial)
            steps = []
            for _ in range(length):
                l = self.out.get(s)
                if not l:
                    break
                a, s = rng.choice(l)
                steps.append((a, self.state[s]))
            if steps:
                yield self.state[s0], steps


####################################################################################################

def run(pid, tier):
    import importlib
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    check = Check(pid, tier, seed)
    module = importlib.import_module(pid)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, WATCHDOG)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, _limit[1]))
    code = 2
    try:
        try:
            module.main(check)
        except MachineryError:
            raise
        except Exception as exception:
            # Everything which is not a failure of the machinery is a verdict on the code: the projection of
            # what the code returned was not even possible
            frames = traceback.extract_tb(exception.__traceback__)
            inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + '/') for f in frames)
            if isinstance(exception, (OSError, MemoryError, subprocess.SubprocessError)) and not inside:
                raise
            text = traceback.format_exc()
            check.violation('the code under test cannot be projected: ' + text[-1500:], {'traceback': text})
        code = check.finish()
    except Exception:
        traceback.print_exc()
        shutil.rmtree(check.tmp, ignore_errors=True)
        code = 2
    sys.stdout.flush()
    os._exit(code)
