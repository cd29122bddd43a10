"""Deterministic-simulation driver.

One integer (VERIF_SEED) decides everything: scenario number i of property P is
generated by random.Random(f'{P}:{VERIF_SEED}:{i}') and executed by a child
process forked from a pristine interpreter, so that one scenario (a JSON value)
is one exactly repeatable execution.  gen() never touches the code under test;
run() never draws random numbers.
"""
import collections
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SVGPY_REPO', '/repo')
CHECKS = {}          # property id -> module name, filled by sim.registry
CPU_LIMIT = 20       # seconds of CPU one simulated run may use
WALL_LIMIT = 180
AS_LIMIT = 6 << 30


class Violation(Exception):
    """The property does not hold.  sig is a stable class, msg the details."""

    def __init__(self, sig, msg=''):
        super().__init__(sig, msg)
        self.sig = sig
        self.msg = msg


class Ctx:
    """What a run may report.  Recording draws nothing and reads no clock."""

    def __init__(self):
        self.counters = collections.Counter()
        self.states = set()
        self.simtime = 0.0
        self.log = hashlib.sha256()
        self.tail = collections.deque(maxlen=60)
        self.nontrivial = False
        self.known = []

    def count(self, name, n=1):
        self.counters[name] += n

    def event(self, *what):
        text = repr(what)
        self.log.update(text.encode('utf-8', 'backslashreplace'))
        self.tail.append(text[:300])

    def state(self, value):
        if len(self.states) < 400:
            h = hashlib.blake2b(repr(value).encode('utf-8',
                                                   'backslashreplace'),
                                digest_size=8).hexdigest()
            self.states.add(h)

    def check(self, ok, sig, msg=''):
        self.counters['oracle_evaluations'] += 1
        if not ok:
            raise Violation(sig, msg() if callable(msg) else msg)

    def equal(self, got, want, sig, what=''):
        self.counters['oracle_evaluations'] += 1
        if got != want:
            raise Violation(sig, '{}: got {!r}, expected {!r}'.format(
                what, got, want))


class Check:
    id = None
    RUNS = {'quick': 2000, 'thorough': 40000}
    SHRINK = ('ops',)
    RULE = ''
    REAL = ['svgpy (whole package, from /repo working tree)', 'lxml/libxml2',
            'tinycss2', 'cssselect']
    STUB = []
    ASSUMPTIONS = []
    LEVEL = 'exploration'

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, scenario, ctx):
        raise NotImplementedError

    def simplify(self, scenario):
        """Yields simpler candidate scenarios."""
        return ()


# --------------------------------------------------------------------------
# seams: no real network, no real sleep, import the code under test from REPO
# --------------------------------------------------------------------------
def install_seams():
    import socket
    import urllib.request

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import native, net
    native.install()
    urllib.request.urlopen = net.urlopen_entry

    def no_socket(*_args, **_kwargs):
        raise RuntimeError('simulator: real network access attempted')

    socket.create_connection = no_socket
    import svgpy
    import svgpy.window
    if not os.path.abspath(svgpy.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        raise SystemExit('svgpy imported from ' + svgpy.__file__)
    for name, module in list(sys.modules.items()):
        if name == 'svgpy' or name.startswith('svgpy.'):
            for attr, value in list(vars(module).items()):
                if (getattr(value, '__module__', None) == 'urllib.request'
                        and getattr(value, '__name__', '') == 'urlopen'):
                    setattr(module, attr, net.urlopen_entry)
    import logging
    logging.disable(logging.CRITICAL)


def svgpy_dir():
    return os.path.join(os.path.abspath(REPO), 'svgpy') + os.sep


def in_svgpy(tb):
    base = svgpy_dir()
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(base):
            return True
        tb = tb.tb_next
    return False


def describe_exc(exc):
    """Stable text of an exception: type and innermost svgpy function."""
    where = ''
    base = svgpy_dir()
    tb = exc.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        if code.co_filename.startswith(base):
            where = '{}:{}'.format(os.path.basename(code.co_filename),
                                   code.co_name)
        tb = tb.tb_next
    return type(exc).__name__ + ('@' + where if where else '')


# --------------------------------------------------------------------------
# one run in a forked child
# --------------------------------------------------------------------------
def execute(check, scenario):
    """Runs the scenario in this process; returns a JSON-able result."""
    ctx = Ctx()
    result = {'status': 'ok', 'sig': None, 'msg': None}
    try:
        check.run(scenario, ctx)
    except Violation as exc:
        result.update(status='violation', sig=exc.sig, msg=exc.msg)
    except BaseException as exc:
        text = ''.join(traceback.format_exception(exc))[-4000:]
        if isinstance(exc, (SystemExit, KeyboardInterrupt)) \
                and not in_svgpy(exc.__traceback__):
            result.update(status='harness', sig='harness', msg=text)
        elif in_svgpy(exc.__traceback__):
            result.update(status='violation',
                          sig='unexpected-exception:' + describe_exc(exc),
                          msg=text)
        else:
            # The oracle could not interpret what it observed.
            result.update(status='violation',
                          sig='uninterpretable:' + type(exc).__name__,
                          msg=text)
    result.update(counters=dict(ctx.counters),
                  states=sorted(ctx.states),
                  simtime=ctx.simtime,
                  digest=ctx.log.hexdigest(),
                  tail=list(ctx.tail),
                  known=ctx.known,
                  nontrivial=bool(ctx.nontrivial))
    return result


def run_forked(check, scenario):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT,
                                                     CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            sys.setrecursionlimit(1000)
            gc.disable()
            result = execute(check, scenario)
            data = json.dumps(result).encode()
            view = memoryview(data)
            while len(view):
                n = os.write(w, view)
                view = view[n:]
        except BaseException:
            code = 97
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if not ready:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return blank('harness', 'stalled', 'no progress within {} s'.format(
            WALL_LIMIT))
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        name = signal.Signals(sig).name
        if sig in (signal.SIGXCPU,):
            return blank('violation', 'hang',
                         'more than {} s of CPU time in one run'.format(
                             CPU_LIMIT))
        if sig == signal.SIGKILL:
            return blank('harness', 'killed', 'child was killed')
        return blank('violation', 'crash:' + name,
                     'the interpreter died with ' + name)
    if os.WEXITSTATUS(status) != 0:
        return blank('harness', 'child-exit',
                     'child exit {}'.format(os.WEXITSTATUS(status)))
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return blank('harness', 'protocol', 'unreadable child result')


def blank(status, sig, msg):
    return {'status': status, 'sig': sig, 'msg': msg, 'counters': {},
            'states': [], 'simtime': 0.0, 'digest': '', 'tail': [],
            'known': [], 'nontrivial': False}


def scenario_for(check, seed, index, tier):
    rng = random.Random('{}:{}:{}'.format(check.id, seed, index))
    scenario = check.gen(rng, index, tier)
    return json.loads(json.dumps(scenario))


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path) as fp:
            entries = json.load(fp)
    except FileNotFoundError:
        return []
    return [e for e in entries.get('findings', [])
            if e.get('property') == prop]


def match_known(known, result):
    for entry in known:
        if entry['sig'] == result['sig'] and all(
                part in (result['msg'] or '') for part in
                entry.get('msg_contains', [])):
            return entry
    return None


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def minimise(check, scenario, sig, budget=100.0):
    start = time.monotonic()
    tried = 0
    best = scenario

    def fails(candidate):
        nonlocal tried
        tried += 1
        res = run_forked(check, candidate)
        return res['status'] == 'violation' and res['sig'] == sig

    def out_of_time():
        return time.monotonic() - start > budget

    changed = True
    while changed and not out_of_time():
        changed = False
        for key in check.SHRINK:
            items = best.get(key)
            if not isinstance(items, list) or not items:
                continue
            size = max(1, len(items) // 2)
            while size >= 1 and not out_of_time():
                pos = 0
                removed = False
                while pos < len(best[key]) and not out_of_time():
                    cand = dict(best)
                    cand[key] = best[key][:pos] + best[key][pos + size:]
                    if fails(cand):
                        best = cand
                        changed = removed = True
                    else:
                        pos += size
                if size == 1 and not removed:
                    break
                if not removed or size > len(best[key]):
                    size = size // 2
        for cand in check.simplify(best):
            if out_of_time():
                break
            if cand != best and fails(cand):
                best = cand
                changed = True
                break
    return best, tried


# --------------------------------------------------------------------------
# worker pool
# --------------------------------------------------------------------------
def worker(check, seed, tier, start, step, total, deadline, out, known):
    agg = {'runs': 0, 'counters': collections.Counter(), 'states': set(),
           'simtime': 0.0, 'scen': set(), 'digests': set(), 'double': 0,
           'mismatch': [], 'known': collections.Counter(), 'violations': [],
           'harness': [], 'last': -1}
    stop = []
    signal.signal(signal.SIGTERM, lambda *_: stop.append(1))
    for i in range(start, total, step):
        if stop or time.monotonic() > deadline:
            break
        try:
            scenario = scenario_for(check, seed, i, tier)
        except Exception:
            agg['harness'].append((i, traceback.format_exc()[-2000:]))
            break
        res = run_forked(check, scenario)
        agg['runs'] += 1
        agg['last'] = i
        agg['counters'].update(res['counters'])
        if len(agg['states']) < 300000:
            agg['states'].update(res['states'])
        agg['simtime'] += res['simtime']
        if res['digest']:
            agg['digests'].add(res['digest'][:16])
        if res['nontrivial']:
            agg['scen'].add(hashlib.blake2b(
                json.dumps(scenario, sort_keys=True).encode(),
                digest_size=8).hexdigest())
        for item in res['known']:
            agg['known'][item] += 1
        if res['status'] == 'violation':
            entry = match_known(known, res)
            if entry is not None:
                agg['known'][entry['id']] += 1
                continue
            agg['violations'].append((i, res['sig'], res['msg']))
            break
        if res['status'] == 'harness':
            res2 = run_forked(check, scenario)
            if res2['status'] == 'harness':
                agg['harness'].append((i, res2['sig'] + ': ' +
                                       str(res2['msg'])))
                break
            if res2['status'] == 'violation' \
                    and match_known(known, res2) is None:
                agg['violations'].append((i, res2['sig'], res2['msg']))
                break
            continue
        if (i // step) % 61 == 3:
            res2 = run_forked(check, scenario)
            agg['double'] += 1
            if res2['digest'] != res['digest'] \
                    or res2['status'] != res['status']:
                agg['mismatch'].append(i)
    agg['states'] = sorted(agg['states'])
    agg['scen'] = sorted(agg['scen'])
    agg['digests'] = sorted(agg['digests'])
    agg['counters'] = dict(agg['counters'])
    agg['known'] = dict(agg['known'])
    with os.fdopen(out, 'w') as fp:
        json.dump(agg, fp)


def run_check(check, seed, tier, jobs, runs=None, cap=None, quiet=False):
    start = time.monotonic()
    total = runs if runs is not None else check.RUNS[tier]
    if cap is None:
        cap = 200.0 if tier == 'quick' else 3000.0
    deadline = start + cap
    known = load_known(check.id)
    procs = []
    for n in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for _, other in procs:
                    try:
                        os.close(other)
                    except OSError:
                        pass
                worker(check, seed, tier, n, jobs, total, deadline, w, known)
            except BaseException:
                traceback.print_exc()
                code = 96
            finally:
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    # collect; as soon as one worker reports a violation, stop the others
    buffers = {r: [] for _, r in procs}
    open_fds = set(buffers)
    results = []
    stopped = False
    while open_fds:
        ready, _, _ = select.select(sorted(open_fds), [], [], 5)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buffers[fd].append(chunk)
                continue
            open_fds.discard(fd)
            os.close(fd)
            try:
                agg = json.loads(b''.join(buffers[fd]))
            except ValueError:
                agg = None
            results.append(agg)
            if agg and (agg['violations'] or agg['harness']) and not stopped:
                stopped = True
                for pid, other in procs:
                    if other in open_fds:
                        try:
                            os.kill(pid, signal.SIGTERM)
                        except ProcessLookupError:
                            pass
    for pid, _ in procs:
        os.waitpid(pid, 0)
    wall_search = time.monotonic() - start

    merged = {'runs': 0, 'counters': collections.Counter(), 'states': set(),
              'simtime': 0.0, 'scen': set(), 'digests': set(), 'double': 0,
              'mismatch': [], 'known': collections.Counter(),
              'violations': [], 'harness': []}
    for agg in results:
        if agg is None:
            merged['harness'].append((-1, 'a worker process died'))
            continue
        merged['runs'] += agg['runs']
        merged['counters'].update(agg['counters'])
        merged['states'].update(agg['states'])
        merged['scen'].update(agg['scen'])
        merged['digests'].update(agg['digests'])
        merged['simtime'] += agg['simtime']
        merged['double'] += agg['double']
        merged['mismatch'] += agg['mismatch']
        merged['known'].update(agg['known'])
        merged['violations'] += agg['violations']
        merged['harness'] += agg['harness']

    # every listed finding is probed on each run, so its line is always printed
    for entry in known:
        if 'scenario' in entry:
            res = run_forked(check, entry['scenario'])
            if res['status'] == 'violation' and match_known([entry], res):
                merged['known'][entry['id']] += 1

    exit_code = 0
    violation_lines = []
    if merged['violations']:
        exit_code = 1
        index, sig, msg = min(merged['violations'])
        scenario = scenario_for(check, seed, index, tier)
        print('property {}: violation {} at seed {} run {}'.format(
            check.id, sig, seed, index), flush=True)
        print(msg)
        small, tried = minimise(check, scenario, sig)
        path = write_replay(check, seed, tier, index, small, sig)
        if not verify_replay(path):
            small = scenario
            path = write_replay(check, seed, tier, index, small, sig)
            verify_replay(path)
        sizes = {k: len(small[k]) for k in check.SHRINK
                 if isinstance(small.get(k), list)}
        print('minimised with {} executions to {}'.format(tried, sizes))
        print(json.dumps(small)[:3000])
        final = run_forked(check, small)
        print(final['msg'])
        violation_lines.append('VIOLATION property={} replay={}'.format(
            check.id, path))
    elif merged['harness']:
        exit_code = 3
        for index, text in merged['harness'][:3]:
            print('HARNESS ERROR run {}: {}'.format(index, text))
    elif merged['runs'] == 0:
        exit_code = 3
        print('HARNESS ERROR no run completed')
    for entry in known:
        if merged['known'].get(entry['id']):
            print('KNOWN-FINDING: property={} {}'.format(
                check.id, entry['what']))
    if merged['mismatch']:
        print('note: runs {} did not repeat exactly'.format(
            merged['mismatch'][:10]))

    wall = time.monotonic() - start
    write_evidence(check, seed, tier, jobs, total, merged, wall, wall_search)
    if not quiet:
        print('{}: {} runs, {} distinct event logs, {} states, {} oracle '
              'evaluations, {:.1f} s'.format(
                  check.id, merged['runs'], len(merged['digests']),
                  len(merged['states']),
                  merged['counters'].get('oracle_evaluations', 0), wall))
    for line in violation_lines:
        print(line, flush=True)
    return exit_code


def write_replay(check, seed, tier, index, scenario, sig):
    folder = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '{}-{}-{}.json'.format(check.id, seed, index))
    res = run_forked(check, scenario)
    with open(path, 'w') as fp:
        json.dump({'property': check.id, 'seed': seed, 'tier': tier,
                   'run': index, 'sig': sig, 'msg': res['msg'],
                   'digest': res['digest'], 'trace_tail': res['tail'],
                   'scenario': scenario}, fp, indent=1)
    return path


def verify_replay(path):
    env = dict(os.environ, PYTHONHASHSEED='4242')
    proc = subprocess.run(
        [os.path.join(VERIF, 'run.sh'), '--replay', path, '--quiet'],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return proc.returncode == 1


def write_evidence(check, seed, tier, jobs, total, merged, wall, search):
    counters = merged['counters']
    faults = {k[6:]: v for k, v in sorted(counters.items())
              if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in sorted(counters.items())
              if k.startswith('probe.')}
    other = {k: v for k, v in sorted(counters.items())
             if not k.startswith(('fault.', 'probe.'))}
    samples = []
    for i in (0, 1):
        try:
            text = json.dumps(scenario_for(check, seed, i, tier))
            samples.append({'run': i, 'scenario': text[:1500]})
        except Exception:
            pass
    data = {
        'property': check.id, 'tier': tier, 'seed': seed,
        'level': check.LEVEL,
        'coverage': {
            'evaluations': merged['runs'],
            'distinct_nontrivial': len(merged['scen']),
            'rule': check.RULE,
            'samples': samples,
            'runs_requested': total,
            'runs_per_hour': round(merged['runs'] / max(search, 1e-6) * 3600),
            'seeds_per_hour': round(merged['runs'] / max(search, 1e-6)
                                    * 3600),
            'simulated_seconds': round(merged['simtime'], 3),
            'faults_injected': faults,
            'probes_hit': probes,
            'operation_counts': other,
            'distinct_states': len(merged['states']),
            'distinct_event_logs': len(merged['digests']),
            'state_measure': 'distinct digests of the abstract state '
                             'recorded after each step (capped at 400 per '
                             'run); distinct event logs are distinct '
                             'complete executions',
            'determinism_double_runs': merged['double'],
            'determinism_mismatches': len(merged['mismatch']),
            'known_findings_seen': dict(merged['known']),
            'worker_processes': jobs,
            'components_real': check.REAL,
            'components_stubbed': check.STUB,
        },
        'assumptions': check.ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': len(merged['violations']),
    }
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, check.id + '.json')
    tmp = path + '.tmp'
    with open(tmp, 'w') as fp:
        json.dump(data, fp, indent=1)
    os.replace(tmp, path)


# --------------------------------------------------------------------------
# command line
# --------------------------------------------------------------------------
def get_check(prop):
    from . import registry
    name = registry.CHECKS[prop]
    module = importlib.import_module('sim.checks.' + name)
    check = module.CHECKS[prop]()
    check.id = prop
    return check


def replay(path, quiet):
    with open(path) as fp:
        data = json.load(fp)
    check = get_check(data['property'])
    res = run_forked(check, data['scenario'])
    same = res['status'] == 'violation' and res['sig'] == data['sig']
    if not quiet:
        for line in res['tail']:
            print('  ', line)
        print('{}: {}'.format(res['status'], res['sig']))
        print(res['msg'])
        print('event log digest {} ({})'.format(
            res['digest'], 'identical' if res['digest'] == data['digest']
            else 'different'))
    if same:
        print('VIOLATION property={} replay={}'.format(data['property'],
                                                       path))
        return 1
    return 0


def determinism(prop, count, seed, tier):
    """Prints index, digest lines; --determinism runs itself twice."""
    if os.environ.get('SIM_DUMP'):
        check = get_check(prop)
        off = int(os.environ.get('SIM_OFF', '0'))
        for i in range(off, count, int(os.environ.get('SIM_STEP', '1'))):
            res = run_forked(check, scenario_for(check, seed, i, tier))
            print(i, res['status'], res['digest'], flush=True)
        return 0
    outs = []
    for hashseed, step in (('0', 1), ('1', 4), ('777', 3)):
        procs = []
        for off in range(step):
            env = dict(os.environ, PYTHONHASHSEED=hashseed, SIM_DUMP='1',
                       SIM_OFF=str(off), SIM_STEP=str(step))
            procs.append(subprocess.Popen(
                [os.path.join(VERIF, 'run.sh'), '--determinism', prop,
                 str(count)], env=env, stdout=subprocess.PIPE, text=True))
        lines = []
        for proc in procs:
            lines += proc.communicate()[0].splitlines()
        outs.append(sorted(lines))
    ok = outs[0] == outs[1] == outs[2] and len(outs[0]) == count
    if not ok:
        for a, b in zip(outs[0], outs[1]):
            if a != b:
                print('differs:', a, '|', b)
        for a, b in zip(outs[0], outs[2]):
            if a != b:
                print('differs:', a, '|', b)
    print('determinism {} over {} runs x 3: {}'.format(
        prop, count, 'identical' if ok else 'DIFFERENT'))
    return 0 if ok else 3


def main(argv):
    faulthandler.disable()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    install_seams()
    if argv[0] == '--replay':
        return replay(argv[1], '--quiet' in argv)
    if argv[0] == '--determinism':
        return determinism(argv[1], int(argv[2]), seed, tier)
    jobs = int(os.environ.get('SIM_JOBS', str(min(8, os.cpu_count() or 1))))
    runs = cap = None
    args = argv[1:]
    show = None
    while args:
        arg = args.pop(0)
        if arg == '--runs':
            runs = int(args.pop(0))
        elif arg == '--cap':
            cap = float(args.pop(0))
        elif arg == '--show':
            show = int(args.pop(0))
    check = get_check(argv[0])
    if show is not None:
        scenario = scenario_for(check, seed, show, tier)
        print(json.dumps(scenario, indent=1))
        res = run_forked(check, scenario)
        for line in res['tail']:
            print('  ', line)
        print({k: res[k] for k in ('status', 'sig', 'counters')})
        print(res['msg'])
        return 0
    gc.collect()
    gc.freeze()
    print('VERIF_SEED={} VERIF_TIER={} property={} repo={}'.format(
        seed, tier, check.id, REPO), flush=True)
    return run_check(check, seed, tier, jobs, runs, cap)

