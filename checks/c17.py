"""C17: documents are isolated from each other, also across threads."""
import gc
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import traceback

import ezodf
from vlib import gen, lib, odf, programs
from vlib.core import Inconclusive

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('Random programs (creating, opening, editing, reading, saving, listening on text, spreadsheet, drawing and flat '
        'documents), each on documents of its own, are run together and compared (everything read and the final file) '
        'with the same program run alone in a forked pristine process. Together means: operations of 2 to 6 programs interleaved in '
        'one thread, with dropped documents, garbage collections and new programs in between; 2 or 3 threads under a '
        'scheduler which (sys.settrace) passes control at random lines or bytecodes of the library; 4 to 6 free running threads '
        'with a switch interval of 1 us. Distinct by the sequence of switches.')
CASES = {'quick': 480, 'thorough': 20000}
REQUIRED = ['programs compared', 'mode ops', 'mode lines', 'mode opcodes', 'mode free', 'switches', 'lines traced',
            'documents dropped', 'collections', 'op paragraph', 'op newsheet', 'op save', 'op listen', 'op style', 'op samestyle', 'op texttable', 'op loadtable']
ASSUMPTIONS = ['a single document is used by one thread only', 'the global table configuration is not changed meanwhile']
HERE = os.path.dirname(os.path.abspath(ezodf.__file__)) + os.sep


# ------------------------------------------------------------ running alone
class Alone(object):
    """A process forked before any document was touched; forks itself again for
    each program."""

    def __init__(self):
        reqr, reqw = os.pipe()
        ansr, answ = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(reqw)
                os.close(ansr)
                self.serve(reqr, answ)
            finally:
                os._exit(0)
        os.close(reqr)
        os.close(answ)
        self.out, self.inp = reqw, ansr

    def serve(self, reqr, answ):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        while True:
            request = read_message(reqr)
            if request is None:
                return
            pid = os.fork()
            if pid == 0:
                signal.alarm(100)
                try:
                    answer = execute(*request)
                except BaseException as e:
                    answer = ('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
                write_message(answ, answer)
                os._exit(0)
            status = os.waitpid(pid, 0)[1]
            if status:
                write_message(answ, ('error', 'process ended with %d' % status, ''))

    def run(self, *request):
        write_message(self.out, request)
        if not select.select([self.inp], [], [], 120)[0]:
            raise Inconclusive('no answer of the program running alone')
        answer = read_message(self.inp)
        if answer is None or answer[0] == 'error':
            raise Inconclusive('program running alone: %s' % (answer,))
        return answer


def write_message(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def read_exactly(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def read_message(fd):
    head = read_exactly(fd, 8)
    if head is None:
        return None
    return pickle.loads(read_exactly(fd, struct.unpack('q', head)[0]))


def execute(seed, folder, nops, expansion):
    os.makedirs(folder)
    lib.config.set_table_expand_strategy(*expansion)
    p = programs.Program(seed, folder, nops)
    for _ in p.run():
        pass
    return p.result


alone = None


# ------------------------------------------------------------ scheduler
class Baton(object):
    """Only the thread holding the baton runs; it is passed on at random lines (or
    opcodes) of the library. A thread which gets nowhere (blocked by a lock of a
    waiting one) loses it."""

    def __init__(self, rng, n, probability, opcodes):
        self.rng, self.probability, self.opcodes = rng, probability, opcodes
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.current = rng.randrange(n)
        self.steps = 0
        self.switches = []

    def wait(self, me):
        with self.cond:
            while self.current != me:
                seen = self.steps
                if not self.cond.wait(0.2) and self.steps == seen and self.current != me:
                    self.current = me       # no progress: take it
                    self.cond.notify_all()

    def step(self, me):
        self.steps += 1
        if self.current != me:
            self.wait(me)
        if self.rng.random() < self.probability and len(self.alive) > 1:
            with self.cond:
                others = [x for x in self.alive if x != me]
                if not others:
                    return
                self.current = self.rng.choice(others)
                self.switches.append((self.steps, self.current))
                self.cond.notify_all()
            self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.current == me and self.alive:
                self.current = self.rng.choice(self.alive)
            self.steps += 1
            self.cond.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line'):
                self.step(me)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(HERE):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return tracer


def run_threads(progs, baton):
    errors = [None] * len(progs)

    def work(n):
        try:
            if baton is not None:
                baton.wait(n)
                sys.settrace(baton.tracer(n))
            try:
                for op in progs[n].run():
                    progs[n].done.append(op)
            finally:
                sys.settrace(None)
                if baton is not None:
                    baton.finish(n)
        except BaseException as e:
            errors[n] = (e, traceback.format_exc())
    threads = [threading.Thread(target=work, args=(n,), daemon=True) for n in range(len(progs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(300)
        if t.is_alive():
            raise Inconclusive('a thread does not end')
    return errors


def compare(c, prog, want, how):
    parts, log = prog.result
    c.ok(log == want[1], '%s: %s read something else than alone' % (how, prog.name),
         difference=next(((a, b) for a, b in zip(log + (None,), want[1] + (None,)) if a != b), None))
    diff = lib.parts_difference(want[0], parts)
    c.ok(diff is None, '%s: result of %s differs from running alone: %s' % (how, prog.name, diff))
    c.count('programs compared')


def case(c):
    global alone
    if alone is None:
        alone = Alone()
    rng = c.rng
    mode = rng.choice(('ops', 'ops', 'lines', 'lines', 'opcodes', 'opcodes', 'free'))
    c.count('mode ' + mode)
    n = {'ops': rng.randint(4, 9), 'lines': rng.randint(2, 3), 'opcodes': 2, 'free': rng.randint(4, 6)}[mode]
    nops = {'ops': None, 'lines': rng.randint(3, 8), 'opcodes': rng.randint(2, 6), 'free': rng.randint(6, 12)}[mode]
    progs, want = [], []
    expansion = (rng.choice(('all_less_maxcount', 'all_less_maxcount', 'all', 'all_but_last')),
                 rng.choice(((32, 32), (3, 3), (20, 12), (50, 50))))
    c.cleanup.append(lib.config.reset_table_expand_strategy)
    lib.config.set_table_expand_strategy(*expansion)
    folder = c.path('together')
    os.mkdir(folder)
    for i in range(n):
        seed = '%s:%s:%s' % (c.seed, c.index, i)
        want.append(alone.run(seed, c.path('alone%d' % i), nops, expansion))
        p = programs.Program(seed, folder, nops)
        p.done = []
        progs.append(p)
    c.log(mode, n, nops, expansion)
    if mode == 'ops':
        waiting = list(range(n))
        running, order = [], []
        width = rng.randint(2, 4)
        results = {}
        while running or waiting:
            while waiting and len(running) < width:
                i = waiting.pop(0)
                running.append((i, progs[i].run()))
            k = rng.randrange(len(running))
            i, g = running[k]
            try:
                order.append('%d:%s' % (i, next(g)))
                c.count('op ' + order[-1].split(':')[1])
            except StopIteration:
                del running[k]
                compare(c, progs[i], want[i], 'interleaved')
                progs[i] = None
                g = None
                c.count('documents dropped')
                if rng.random() < 0.7:
                    gc.collect()
                    c.count('collections')
            c.count('switches')
        c.log(order)
        c.signature = repr(order)
        return
    if mode == 'free':
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            errors = run_threads(progs, None)
        finally:
            sys.setswitchinterval(old)
        baton = None
    else:
        baton = Baton(random.Random(rng.random()), n, rng.choice((0.01, 0.05, 0.2, 0.6)), mode == 'opcodes')
        errors = run_threads(progs, baton)
        c.count('switches', len(baton.switches))
        c.count('lines traced', baton.steps)
        c.signature = repr(baton.switches)
    for p in progs:
        c.log(p.name, p.done)
        for op in p.done:
            c.count('op ' + op)
    for e in errors:
        if e is not None:
            c.fail('%s threads: %s: %s\n%s' % (mode, type(e[0]).__name__, e[0], '\n'.join(e[1].splitlines()[-8:])))
    for p, w in zip(progs, want):
        compare(c, p, w, mode + ' threads')
