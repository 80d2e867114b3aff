"""Driver of the runtime monitors.

A check module (checks/cNN.py) supplies

    PROPERTY, TITLE, LEVEL, RULE   description for the evidence file
    CASES = {'quick': n, 'thorough': m}
    REQUIRED = [counter names]     a run in which one of them stays 0 observed
                                   nothing of interest: inconclusive
    case(c)                        one execution: workload and monitors
    ASSUMPTIONS                    optional list

`case` drives the real library from /repo and calls c.ok(cond, message) for
every observation of a monitor.  Verdicts are three-valued: exit 0 (held on
everything observed), exit 1 with a VIOLATION line, any other exit code is
inconclusive (the harness could not run, a worker was killed, the watchdog
fired, or the monitors were not reached).
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
HELD, VIOLATED, INCONCLUSIVE = 0, 1, 3
CPU_LIMIT = 150       # CPU seconds of a single case (they need less than 2)
WATCHDOG = {'quick': 780, 'thorough': 6 * 3600}


class Violation(Exception):
    def __init__(self, message, mechanism=None):
        Exception.__init__(self, message)
        self.message = message
        self.mechanism = mechanism


class Inconclusive(Exception):
    pass


class NoProgress(Exception):
    pass


def short(value, limit=160):
    text = value if isinstance(value, str) else repr(value)
    if len(text) > limit:
        text = text[:limit] + '...(%d)' % len(text)
    return text


class Case(object):
    """One execution: source of randomness, monitor, scratch directory, log."""

    def __init__(self, prop, seed, tier, index, tmpbase):
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        self.rng = random.Random('%s:%s:%s' % (seed, prop, index))
        self.counters = {}
        self.oplog = []
        self.observations = 0
        self._tmpbase = tmpbase
        self._tmp = None
        self.signature = None
        self.nontrivial = None
        self.cleanup = []

    # --- monitors
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def log(self, *what):
        self.oplog.append(' '.join(short(w) for w in what))

    def ok(self, condition, message, mechanism=None, **details):
        """One observation of a monitor."""
        self.observations += 1
        if not condition:
            self.fail(message, mechanism, **details)

    def same(self, got, expected, message, mechanism=None):
        self.observations += 1
        if got != expected:
            self.fail('%s: got %s, expected %s' % (message, short(got, 400),
                                                   short(expected, 400)), mechanism)

    def fail(self, message, mechanism=None, **details):
        if details:
            message += ' ' + ' '.join('%s=%s' % (k, short(v, 300))
                                      for k, v in sorted(details.items()))
        raise Violation(message, mechanism)

    def raises(self, func, *args, **kwargs):
        """The call has to raise an Exception, which is returned."""
        self.observations += 1
        try:
            result = func(*args, **kwargs)
        except Violation:
            raise
        except (NameError, RecursionError) as e:      # no answer to wrong arguments
            self.fail('%s%s: %s: %s' % (getattr(func, '__name__', func), short(args), type(e).__name__, e))
        except Exception as e:
            return e
        self.fail('not refused: %s%s -> %s' % (getattr(func, '__name__', func),
                                               short(args), short(result)))

    # --- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='c%s-' % self.index, dir=self._tmpbase)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def close(self):
        for func in self.cleanup:
            func()
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


def run_case(mod, seed, tier, index, tmpbase):
    """Returns (case, violation-dict or None)."""
    c = Case(mod.PROPERTY, seed, tier, index, tmpbase)
    random.seed('%s:%s:%s:global' % (seed, mod.PROPERTY, index))
    cwd = os.getcwd()
    problem = None
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            mod.case(c)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        problem = {'message': v.message, 'mechanism': v.mechanism,
                   'trace': traceback.format_exc()}
    except (Inconclusive, KeyboardInterrupt):
        raise
    except NoProgress:
        problem = {'message': 'no result within %d s of CPU time (cases need less than 2 s)'
                   % CPU_LIMIT, 'mechanism': 'no-progress', 'trace': traceback.format_exc()}
    except BaseException as e:   # the library failed on a legal operation
        problem = {'message': 'unexpected %s: %s' % (type(e).__name__, short(str(e), 300)),
                   'mechanism': 'exception', 'trace': traceback.format_exc()}
    finally:
        os.chdir(cwd)
        c.close()
    return c, problem


def worker(mod, seed, tier, indices, tmpbase, status, slot, outfile, budget):
    def on_timer(signum, frame):
        raise NoProgress()
    signal.signal(signal.SIGVTALRM, on_timer)
    out = {'cases': 0, 'observations': 0, 'counters': {}, 'sigs': set(), 'samples': [],
           'problems': [], 'inconclusive': None, 'skipped': 0}
    started = time.time()
    for index in indices:
        if budget and time.time() - started > budget:
            out['skipped'] += 1
            continue
        struct.pack_into('q', status, slot * 8, index)
        try:
            c, problem = run_case(mod, seed, tier, index, tmpbase)
        except Inconclusive as e:
            out['inconclusive'] = 'case %d: %s' % (index, e)
            break
        out['cases'] += 1
        out['observations'] += c.observations
        for k, v in c.counters.items():
            out['counters'][k] = out['counters'].get(k, 0) + v
        nontrivial = c.nontrivial
        if nontrivial is None:
            nontrivial = c.observations > 0 and len(c.oplog) > 1
        if nontrivial:
            sig = c.signature or '\n'.join(c.oplog)
            out['sigs'].add(hashlib.sha1(sig.encode('utf-8', 'backslashreplace')).digest()[:10])
            if len(out['samples']) < 1 and not problem:
                out['samples'].append({'index': index, 'observations': c.observations,
                                       'ops': c.oplog[:25]})
        if problem:
            problem.update(index=index, ops=c.oplog)
            out['problems'].append(problem)
            if len(out['problems']) >= 3:
                break
    struct.pack_into('q', status, slot * 8, -1)
    with open(outfile, 'wb') as f:
        pickle.dump(out, f)


def load_findings(here, prop):
    """KNOWN_FINDINGS: lines 'known: property=<id> mechanism=<key> <what fails>'"""
    known = {}
    try:
        with open(os.path.join(here, 'KNOWN_FINDINGS')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    parts = line.split(None, 3)
                    known[parts[2].split('=', 1)[1]] = parts[3].strip()
    except IOError:
        pass
    return known


# checks which run with a library preloaded
SHIMMED = {'C03': 'faultfs.c', 'C27': 'faultfs.c', 'C29': 'watch.c'}


def run_with_shim(argv, here):
    import subprocess
    folder = tempfile.mkdtemp(prefix='verif-shim-')
    try:
        shim = os.path.join(folder, 'shim.so')
        cc = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', shim,
                             os.path.join(here, 'native', SHIMMED[argv[0]]), '-ldl'],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if cc.returncode:
            print('INCONCLUSIVE property=%s the preloaded library cannot be built: %s' % (
                argv[0], cc.stdout.decode('utf-8', 'replace')[-500:]))
            return INCONCLUSIVE
        env = dict(os.environ, LD_PRELOAD=shim, VERIF_SHIM=shim)
        p = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.join(here, 'check.py')] + argv,
                             env=env)
        return p.wait()
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def import_library():
    sys.path.insert(0, REPO)
    import ezodf
    where = os.path.realpath(ezodf.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive('ezodf is imported from %s' % where)


def main(argv, here):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    cases = None
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 2)
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
        elif argv[i] == '--seed':
            seed = int(argv[i + 1])
        elif argv[i] == '--replay':
            replay = argv[i + 1]
        elif argv[i] == '--cases':
            cases = int(argv[i + 1])
        i += 2
    started = time.time()
    if prop in SHIMMED and 'VERIF_SHIM' not in os.environ:
        return run_with_shim(argv, here)
    try:
        import_library()
        mod = importlib.import_module('checks.' + prop.lower())
    except BaseException:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s the library or the check cannot be loaded' % prop)
        return INCONCLUSIVE
    tmpbase = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(tmpbase, here)
        if replay:
            return do_replay(mod, replay, tmpbase)
        return do_run(mod, prop, tier, seed, cases, jobs, tmpbase, here, started)
    finally:
        shutil.rmtree(tmpbase, ignore_errors=True)


def do_replay(mod, replay, tmpbase):
    with open(replay) as f:
        data = json.load(f)
    signal.signal(signal.SIGVTALRM, lambda *a: (_ for _ in ()).throw(NoProgress()))
    c, problem = run_case(mod, data['seed'], data['tier'], data['index'], tmpbase)
    for line in c.oplog:
        print('   ', line)
    print(c.counters)
    if problem:
        print(problem['trace'])
        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, replay))
        print(problem['message'])
        return VIOLATED
    print('held')
    return HELD


def do_run(mod, prop, tier, seed, cases, jobs, tmpbase, here, started):
    total = cases or mod.CASES[tier]
    jobs = min(jobs, getattr(mod, 'MAX_JOBS', jobs), total)
    # a time budget keeps a run on a slow machine inside its limits; what was
    # skipped is reported, and the required counters decide if enough was seen
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or getattr(mod, 'BUDGET', {}).get(
        tier, 420 if tier == 'quick' else 3 * 3600)
    status = mmap.mmap(-1, 8 * jobs)
    pids = {}
    sys.stdout.flush()
    for slot in range(jobs):
        outfile = os.path.join(tmpbase, 'out%d' % slot)
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                limit = 6 << 30
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
                worker(mod, seed, tier, range(slot, total, jobs), tmpbase, status, slot,
                       outfile, budget)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = slot
    problems, inconclusive = [], []
    merged = {'cases': 0, 'observations': 0, 'counters': {}, 'sigs': set(), 'samples': [],
              'skipped': 0}
    deadline = started + WATCHDOG[tier]
    while pids:
        pid, wstatus = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.time() > deadline:
                for p, slot in pids.items():
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    inconclusive.append('watchdog: worker %d still at case %d' % (
                        slot, struct.unpack_from('q', status, slot * 8)[0]))
                break
            time.sleep(0.02)
            continue
        slot = pids.pop(pid, None)
        if slot is None:
            continue
        if os.WIFSIGNALED(wstatus):
            index = struct.unpack_from('q', status, slot * 8)[0]
            sig = os.WTERMSIG(wstatus)
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                problems.append({'message': 'the process died with signal %d' % sig, 'index': index,
                                 'mechanism': 'signal', 'trace': '', 'ops': []})
            else:
                inconclusive.append('worker killed by signal %d at case %d' % (sig, index))
            continue
        try:
            with open(os.path.join(tmpbase, 'out%d' % slot), 'rb') as f:
                out = pickle.load(f)
        except Exception as e:
            inconclusive.append('worker %d gave no result (status %d): %s' % (slot, wstatus, e))
            continue
        for k in ('cases', 'observations', 'skipped'):
            merged[k] += out[k]
        for k, v in out['counters'].items():
            merged['counters'][k] = merged['counters'].get(k, 0) + v
        merged['sigs'] |= out['sigs']
        merged['samples'] += out['samples']
        problems += out['problems']
        if out['inconclusive']:
            inconclusive.append(out['inconclusive'])

    known = load_findings(here, prop)
    seen_known, violations = {}, []
    for p in sorted(problems, key=lambda p: p['index']):
        if p['mechanism'] in known:
            seen_known[p['mechanism']] = known[p['mechanism']]
        else:
            violations.append(p)
    required = getattr(mod, 'REQUIRED', [])
    missing = [k for k in required if not merged['counters'].get(k)]
    wall = time.time() - started
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': merged['cases'],
            'distinct_nontrivial': len(merged['sigs']),
            'rule': mod.RULE,
            'samples': merged['samples'][:4],
            'monitor_observations': merged['observations'],
            'monitor_events': dict(sorted(merged['counters'].items())),
            'cases_not_started_within_time_budget': merged['skipped'],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if hasattr(mod, 'extra_evidence'):
        evidence['coverage'].update(mod.extra_evidence())
    folder = os.environ.get('VERIF_EVIDENCE') or os.path.join(here, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d observations, %.1f s' % (
        prop, tier, seed, merged['cases'], len(merged['sigs']), merged['observations'], wall))
    print('  events: ' + ', '.join('%s=%d' % kv for kv in sorted(merged['counters'].items())))
    for mechanism, what in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if violations:
        os.makedirs(os.path.join(folder, 'replay'), exist_ok=True)
        for n, p in enumerate(violations[:3]):
            path = os.path.join(folder, 'replay', '%s-%s-%d-%d.json' % (
                prop, tier, seed, p['index']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed, 'index': p['index'],
                           'message': p['message'], 'mechanism': p['mechanism'],
                           'ops': p['ops'], 'trace': p['trace']}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + p['message'])
            for line in p['ops'][-12:]:
                print('    ' + line)
            print('\n'.join('    | ' + l for l in p['trace'].splitlines()[-8:]))
        return VIOLATED
    if inconclusive:
        for text in inconclusive:
            print('INCONCLUSIVE property=%s %s' % (prop, text))
        return INCONCLUSIVE
    if missing or not merged['cases']:
        print('INCONCLUSIVE property=%s not observed: %s' % (prop, ', '.join(missing)))
        return INCONCLUSIVE
    return HELD
