"""Exploration core: runs a property's exploration tasks on the real code.

A property module (mc/props/<id>_*.py) exposes

    ID      property id
    TITLE   one line
    RULE    how cases are made / what is distinct (goes to the evidence file)
    ASSUME  list of assumptions (evidence)
    tasks(tier) -> list of Task

A Task is a picklable (name, function name, kwargs, env) and enumerates a
finite space completely.  Inside a task every element is a `case`:

    with ctx.case('op=fft n=5') as c:     # exceptions in here are violations
        ...call the implementation...
        c.close(observed, expected, 'what is compared')
        c.expect(bool, 'what is claimed')
        c.state(observed...)              # observed state (hashed, deduplicated)

Workers are separate processes importing the library from /repo/src.  A worker
which dies or which stays in one case for longer than CASE_LIMIT seconds is a
violation of the case it was executing (crash / non-termination), never an
error of the check.
"""
import contextlib
import fnmatch
import hashlib
import importlib
import json
import os
import pickle
import struct
import subprocess
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
FINDINGS = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
MAX_REPORTED = 40


class Task:
    def __init__(self, name, func, kwargs=None, x64=True, cost=1.0):
        self.name = name
        self.func = func          # function name inside the property module
        self.kwargs = kwargs or {}
        self.x64 = x64
        self.cost = cost


# --------------------------------------------------------------------------
# worker side
# --------------------------------------------------------------------------

class CaseFailed(Exception):
    pass


class Case:
    def __init__(self, ctx, key):
        self.ctx = ctx
        self.key = key
        self.failed = False

    def fail(self, what, **detail):
        self.failed = True
        self.ctx._violation(self.key, what, detail)

    def expect(self, cond, what, **detail):
        self.ctx.n_checks += 1
        try:
            ok = bool(cond)
        except Exception as e:  # ambiguous truth value etc.
            ok = False
            detail['exception'] = repr(e)
        if not ok:
            self.fail(what, **detail)
        return ok

    def close(self, got, want, what, tol=1e-8, rtol=None, **detail):
        """Observed equals expected (shape and values) up to tolerance."""
        import numpy as np
        self.ctx.n_checks += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.shape != w.shape:
            self.fail(what, got_shape=str(g.shape), want_shape=str(w.shape), **detail)
            return False
        if g.size == 0:
            return True
        if g.dtype == object or w.dtype == object:
            self.fail(what + ' (object dtype)', **detail)
            return False
        g = g.astype(complex) if np.iscomplexobj(g) or np.iscomplexobj(w) else g.astype(float)
        w = w.astype(g.dtype)
        rt = tol if rtol is None else rtol
        fin = np.isfinite(w)
        scale = float(np.max(np.abs(np.where(fin, w, 0)))) if w.size else 0.
        bad_fin = np.any(np.isfinite(g) != fin)
        if not bad_fin and not fin.all():
            # infinities have to agree exactly
            gi, wi = g[~fin], w[~fin]
            if not np.iscomplexobj(gi):
                same = (np.isnan(gi) & np.isnan(wi)) | (gi == wi)
                bad_fin = not np.all(same)
        err = np.where(fin & np.isfinite(g), np.abs(np.where(fin & np.isfinite(g), g - w, 0)), 0)
        e = float(np.max(err))
        if bad_fin or not (e <= tol + rt * scale):
            self.fail(what, got=_short(got), want=_short(want), err=e, **detail)
            return False
        return True

    def state(self, *vals):
        self.ctx.add_state(*vals)


def _short(a, lim=400):
    try:
        import numpy as np
        s = np.array2string(np.asarray(a), precision=6, threshold=60, max_line_width=200)
    except Exception:
        s = repr(a)
    return s if len(s) <= lim else s[:lim] + '...'


class Ctx:
    def __init__(self, beat=None, only=None):
        self.n_cases = 0
        self.n_checks = 0
        self.n_exec = 0
        self.states = set()
        self.samples = []
        self.violations = []
        self.beat = beat or (lambda key: None)
        self.only = only
        self.caps = []

    @contextlib.contextmanager
    def case(self, key):
        c = Case(self, key)
        if self.only is not None and key != self.only:
            # replay mode: everything else is executed silently skipped
            yield _Null(c)
            return
        self.beat(key)
        self.n_cases += 1
        if len(self.samples) < 2:
            self.samples.append(key)
        try:
            yield c
        except CaseFailed:
            pass
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(tb[-3:]))
            c.fail(f'exception {type(e).__name__}', message=str(e)[:300], where=where)

    def execs(self, n=1):
        """n executions of the implementation (transitions)"""
        self.n_exec += n

    def add_state(self, *vals):
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for v in vals:
            if isinstance(v, (str, bytes)):
                h.update(v.encode() if isinstance(v, str) else v)
            else:
                a = np.asarray(v)
                if a.dtype.kind in 'fc':
                    a = np.round(a.astype(complex), 5) + 0.0
                h.update(str(a.shape).encode())
                h.update(np.ascontiguousarray(a).tobytes())
        self.states.add(h.digest())

    def capped(self, text):
        self.caps.append(text)

    def _violation(self, key, what, detail):
        if len(self.violations) < 4000:
            self.violations.append({'case': key, 'what': what,
                                    'detail': {k: (v if isinstance(v, (int, float, str, bool)) else _short(v)) for k, v in detail.items()}})

    def result(self):
        return dict(n_cases=self.n_cases, n_checks=self.n_checks, n_exec=max(self.n_exec, self.n_cases),
                    states=b''.join(sorted(self.states)), samples=self.samples,
                    violations=self.violations, caps=self.caps)


class _Null:
    """Case stand-in used in replay mode for cases which are not replayed."""

    def __init__(self, c):
        self.key = c.key
        self.failed = False

    def fail(self, *a, **k):
        pass

    def expect(self, *a, **k):
        return True

    def close(self, *a, **k):
        return True

    def state(self, *a):
        pass


def find_module(pid):
    d = os.path.join(ROOT, 'mc', 'props')
    for f in sorted(os.listdir(d)):
        if f.startswith(pid.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('mc.props.' + f[:-3])
    raise SystemExit(f'no property module for {pid}')


def worker_main(pid):
    """Reads pickled (index, func, kwargs, name) from stdin, writes frames to fd 3-like stdout."""
    out = os.fdopen(os.dup(1), 'wb')
    # anything the library prints goes to stderr, which the parent discards
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    inp = sys.stdin.buffer

    lock = threading.Lock()

    def send(obj):
        b = pickle.dumps(obj)
        with lock:
            out.write(struct.pack('<I', len(b)))
            out.write(b)
            out.flush()

    try:
        mod = find_module(pid)
        import_error = None
    except Exception as e:
        import_error = f'{type(e).__name__}: {e}'
        mod = None
    send(('ready', import_error))
    last = [0.0]
    while True:
        hd = inp.read(4)
        if len(hd) < 4:
            return
        t = pickle.loads(inp.read(struct.unpack('<I', hd)[0]))

        def beat(key, force=False):
            now = time.time()
            if now - last[0] > 0.5:
                last[0] = now
                send(('beat', key))
        # the heartbeat carries the latest case at least twice a second; the
        # timer thread below makes sure the parent knows the case it is stuck in
        cur = [t.name]

        def beat2(key):
            cur[0] = key
            beat(key)
        stop = threading.Event()

        def ticker():
            prev = None
            while not stop.wait(2.0):
                if cur[0] != prev:
                    prev = cur[0]
                    send(('beat', prev))
        th = threading.Thread(target=ticker, daemon=True)
        th.start()
        ctx = Ctx(beat2)
        try:
            getattr(mod, t.func)(ctx, **t.kwargs)
        except Exception as e:
            # an exception outside any case: the enumeration itself could not
            # be set up with the library under test
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.name}:{f.lineno}' for f in reversed(tb[-4:]))
            ctx._violation(cur[0] + ' (set-up)', f'exception {type(e).__name__}', {'message': str(e)[:300], 'where': where})
        stop.set()
        send(('done', ctx.result()))


# --------------------------------------------------------------------------
# parent side
# --------------------------------------------------------------------------

def worker_env(x64):
    env = dict(os.environ)
    env.update({
        'HOME': env.get('HOME', '/root'), 'PYTHONDONTWRITEBYTECODE': '1', 'JAX_PLATFORMS': 'cpu',
        'MPLBACKEND': 'Agg', 'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3',
        'PYTHONPATH': ROOT + os.pathsep + os.path.join(REPO, 'src'),
        'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true',
        'JAX_ENABLE_X64': '1' if x64 else '0',
        'PYTHONWARNINGS': 'ignore',
    })
    return env


class Worker:
    def __init__(self, pid, x64):
        self.x64 = x64
        self.pid = pid
        self.task = None
        self.since = time.time()
        self.key = ''
        self.p = subprocess.Popen([PY, '-m', 'mc.run', '--worker', pid], cwd=ROOT, env=worker_env(x64),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def give(self, task):
        self.start = time.time()
        self.task = task
        self.since = time.time()
        self.key = task.name
        b = pickle.dumps(task)
        self.p.stdin.write(struct.pack('<I', len(b)) + b)
        self.p.stdin.flush()

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def load_findings(pid):
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, desc = line[len('finding:'):].partition(' :: ')
            f = dict(p.split('=', 1) for p in [head.strip().split(' ', 1)[0]])
            if f.get('property') != pid:
                continue
            key = head.strip().split(' ', 1)[1]
            assert key.startswith('key=')
            res.append((key[4:].strip(), desc.strip()))
    return res


def explore(pid, tier, seed, jobs=None, task_filter=None, case_limit=None):
    """Runs all tasks; returns the merged result."""
    import queue
    mod = find_module(pid)
    tasks = mod.tasks(tier)
    if task_filter:
        tasks = [t for t in tasks if fnmatch.fnmatch(t.name, task_filter)]
    # larger first; the seed only rotates equal-cost tasks, every task always runs
    order = sorted(range(len(tasks)), key=lambda i: (-tasks[i].cost, (i * 7919 + seed) % 104729, i))
    tasks = [tasks[i] for i in order]
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    limit = case_limit or float(getattr(mod, 'CASE_LIMIT', 150 if tier == 'quick' else 900))
    budget = float(getattr(mod, 'TIME_LIMIT', 780 if tier == 'quick' else 6 * 3600))
    t0 = time.time()
    pend = {True: [t for t in tasks if t.x64], False: [t for t in tasks if not t.x64]}
    merged = dict(n_cases=0, n_checks=0, n_exec=0, states=set(), samples=[], violations=[], caps=[],
                  n_tasks=len(tasks), done_tasks=0, import_errors=[])
    q = queue.Queue()
    workers = []

    def reader(w):
        f = w.p.stdout
        while True:
            hd = f.read(4)
            if len(hd) < 4:
                q.put((w, 'eof', None))
                return
            b = f.read(struct.unpack('<I', hd)[0])
            kind, obj = pickle.loads(b)
            q.put((w, kind, obj))

    def spawn(x64):
        w = Worker(pid, x64)
        threading.Thread(target=reader, args=(w,), daemon=True).start()
        workers.append(w)
        return w

    tot = sum(t.cost for t in tasks) or 1
    n32 = 0
    if pend[False]:
        c32 = sum(t.cost for t in pend[False])
        n32 = max(1, min(jobs - (1 if pend[True] else 0), round(jobs * c32 / tot), len(pend[False])))
    n64 = min(max(jobs - n32, 1), len(pend[True])) if pend[True] else 0
    n32 = min(jobs - n64, len(pend[False])) if pend[False] else 0
    for _ in range(n64):
        spawn(True)
    for _ in range(n32):
        spawn(False)

    def lost(w, why):
        t = w.task
        merged['violations'].append({'task': t.name if t else '(start)', 'case': w.key,
                                     'what': why, 'detail': {}})
        merged['done_tasks'] += 1
        w.task = None

    def assign(w):
        """next task of this kind, else of the other kind with a new worker"""
        if pend[w.x64]:
            w.give(pend[w.x64].pop(0))
            return
        w.task = None
        workers.remove(w)
        w.kill()
        if pend[not w.x64]:
            spawn(not w.x64)

    n_violating = 0
    while True:
        if not workers:
            break
        try:
            w, kind, obj = q.get(timeout=1.0)
        except queue.Empty:
            w = None
        now = time.time()
        if w is not None and w in workers:
            if kind == 'ready':
                if obj is not None:
                    # the library cannot be imported at all
                    merged['violations'].append({'task': '(import)', 'case': 'import of the library',
                                                 'what': 'exception on import', 'detail': {'message': obj}})
                    for x in list(workers):
                        x.kill()
                    break
                assign(w)
            elif kind == 'beat':
                if obj != w.key:
                    w.key = obj
                    w.since = now
            elif kind == 'done':
                for k in ('n_cases', 'n_checks', 'n_exec'):
                    merged[k] += obj[k]
                s = obj['states']
                merged['states'].update(s[i:i + 8] for i in range(0, len(s), 8))
                merged['samples'].extend({'task': w.task.name, 'case': c} for c in obj['samples'][:1])
                for v in obj['violations']:
                    v['task'] = w.task.name
                    merged['violations'].append(v)
                merged['caps'].extend(obj['caps'])
                merged['done_tasks'] += 1
                if os.environ.get('VERIF_VERBOSE'):
                    print(f'[{now-t0:7.1f}] {w.task.name}: cases={obj["n_cases"]} viol={len(obj["violations"])} ({now-getattr(w,"start",now):.1f}s)', file=sys.stderr)
                w.task = None
                assign(w)
            elif kind == 'eof':
                workers.remove(w)
                w.p.wait()
                if w.task is not None:
                    lost(w, f'process died (exit status {w.p.returncode})')
                    if pend[w.x64]:
                        spawn(w.x64)
                elif pend[w.x64] and merged['done_tasks'] == 0:
                    # died before becoming ready: cannot start
                    merged['violations'].append({'task': '(start)', 'case': 'start of the library',
                                                 'what': f'process died (exit status {w.p.returncode})', 'detail': {}})
                    break
        for x in list(workers):
            if x.task is not None and now - x.since > limit:
                workers.remove(x)
                x.kill()
                lost(x, f'no termination within {limit:.0f} s')
                if pend[x.x64]:
                    spawn(x.x64)
        if now - t0 > budget:
            for x in workers:
                x.kill()
            rest = sum(len(v) for v in pend.values()) + sum(1 for x in workers if x.task)
            if rest:
                merged['caps'].append(f'time budget of {budget:.0f} s reached with {rest} of {len(tasks)} tasks not finished')
            break
    merged['wall_s'] = time.time() - t0
    merged['states'] = len(merged['states'])
    return mod, merged


def run(pid, tier, seed, jobs=None, task_filter=None):
    mod, m = explore(pid, tier, seed, jobs, task_filter)
    findings = load_findings(pid)
    hit = {}
    new = []
    for v in m['violations']:
        ident = f"{v['case']} | {v['what']}"
        for pat, desc in findings:
            if fnmatch.fnmatchcase(ident, pat):
                hit.setdefault((pat, desc), []).append(ident)
                break
        else:
            new.append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': m['states'], 'transitions': m['n_exec'],
            'traces_validated_against_impl': m['n_cases'],
            'assertions_evaluated': m['n_checks'],
            'tasks': m['n_tasks'], 'tasks_completed': m['done_tasks'],
            'exhaustive': not m['caps'] and m['done_tasks'] == m['n_tasks'],
            'caps': m['caps'],
            'rule': mod.RULE,
            'samples': m['samples'][:30],
            'known_findings_seen': {p: len(v) for (p, _), v in hit.items()},
        },
        'assumptions': getattr(mod, 'ASSUME', []),
        'wall_s': round(m['wall_s'], 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if task_filter is None:
        with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: tasks={m['done_tasks']}/{m['n_tasks']} cases={m['n_cases']} executions={m['n_exec']} "
          f"distinct-states={m['states']} assertions={m['n_checks']} wall={m['wall_s']:.1f}s "
          f"violations={len(new)} known={sum(len(v) for v in hit.values())}")
    for c in m['caps']:
        print('CAP:', c)
    if os.environ.get('VERIF_GROUP'):
        import collections
        import re
        gr = collections.OrderedDict()
        for v in new:
            gr.setdefault((v['case'].split(' ')[0], v['what'], re.sub(r'[0-9.e+-]+', '#', str(v['detail'].get('message', '')))[:80]), []).append(v)
        for k, vs in gr.items():
            print(f'GROUP {k} x{len(vs)}')
            for v in vs[:int(os.environ['VERIF_GROUP'])]:
                print('      ', v['case'], '|', json.dumps(v['detail'])[:500])
        return 1 if new else 0
    for (pat, desc), v in hit.items():
        print(f'KNOWN-FINDING: property={pid} {desc} [{len(v)} case(s), e.g. {v[0]}]')
    if new:
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new[:MAX_REPORTED]):
            path = os.path.join(d, f'{pid}-{i:03d}.json')
            rec = {'property': pid, 'tier': tier, 'task': v.get('task'), 'case': v['case'], 'what': v['what'],
                   'detail': v['detail'],
                   'replay': f'cd {ROOT} && {PY} -m mc.run --replay {path}'}
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)
            print(f"  - [{v.get('task')}] {v['case']} | {v['what']} {json.dumps(v['detail'])[:300]}")
            print(f'VIOLATION property={pid} replay={path}')
        if len(new) > MAX_REPORTED:
            print(f'  ... {len(new) - MAX_REPORTED} more')
        return 1
    if m['done_tasks'] < m['n_tasks'] and not m['caps']:
        print('internal: tasks missing')
        return 2
    return 0


def replay(path):
    """Re-executes exactly one recorded case in this process and prints the outcome."""
    rec = json.load(open(path))
    mod = find_module(rec['property'])
    ts = [t for t in mod.tasks(rec['tier']) if t.name == rec['task']]
    if not ts:
        print('no such task', rec['task'])
        return 2
    t = ts[0]
    want = '1' if t.x64 else '0'
    if os.environ.get('JAX_ENABLE_X64') != want or os.environ.get('PYTHONPATH', '').split(os.pathsep)[0] != ROOT:
        env = worker_env(t.x64)
        return subprocess.call([PY, '-m', 'mc.run', '--replay', path], cwd=ROOT, env=env)
    ctx = Ctx(only=rec['case'])
    getattr(mod, t.func)(ctx, **t.kwargs)
    for v in ctx.violations:
        print(json.dumps(v, indent=1))
    if ctx.violations:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print('case executed, no violation' if ctx.n_cases else 'case not reached')
    return 0
