"""C32: documents do not depend on the environment of the process."""
import json
import os
import pickle
import subprocess
import sys

from vlib import core, lib, odf

PROPERTY = 'C32'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: the same programs run in processes of different environments, all they read and wrote is compared'
RULE = ('Random programs (all document types and origins, edits, saves, dates, values, refused operations) run in a plain process and in processes with other hash '
        'seeds, locales, encodings, time zones, optimisation levels, garbage collection, temporary and current folders, streams, decimal contexts, registered '
        'namespaces, media type tables, threads. All results read, exceptions, members and their order, and files are the same.')
CASES = {'quick': 220, 'thorough': 2500}
PROGRAMS = 14
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ['hash', 'zone', 'ascii', 'latin streams', 'optimised', 'no docstrings', 'development', 'tempdir', 'empty']
PRE = ['gc always', 'gc never', 'decimal', 'locale', 'mimetypes', 'umask', 'no streams', 'no folder', 'logging', 'namespaces', 'imports', 'random', 'thread']
REQUIRED = ['programs', 'files compared', 'parts compared', 'results compared'] + ['environment ' + x for x in ENV + PRE]
ASSUMPTIONS = ['File names are ASCII (others depend on the encoding of the file system), and absolute paths.',
               'The default parser of lxml is the choice of the caller, the library uses it.', 'The time stamp of saving is local time and does not count.']
ZONES = ['UTC', 'XXX+11:30', 'YYY-14', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3']


def start(c, number, seeds, dims):
    rng = c.rng
    folder = c.path('env%d' % number)
    os.mkdir(folder)
    work = os.path.join(folder, 'work')
    os.mkdir(work)
    env = {'PYTHONHASHSEED': '0', 'TZ': 'UTC', 'LC_ALL': 'C.UTF-8', 'PATH': os.environ.get('PATH', ''), 'TMPDIR': folder, 'HOME': folder,
           'PYTHONDONTWRITEBYTECODE': '1'}
    flags = []
    for d in dims:
        if d == 'hash':
            env['PYTHONHASHSEED'] = str(rng.randint(1, 4294967295))
        elif d == 'zone':
            env['TZ'] = rng.choice(ZONES[1:])
        elif d == 'ascii':
            env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        elif d == 'latin streams':
            env['PYTHONIOENCODING'] = 'latin-1:strict'
        elif d == 'optimised':
            flags.append('-O')
        elif d == 'no docstrings':
            flags.append('-OO')
        elif d == 'development':
            flags += ['-X', 'dev', '-b']
        elif d == 'tempdir':
            env['TMPDIR'] = os.path.join(folder, 'other tmp')
            os.mkdir(env['TMPDIR'])
        elif d == 'empty':
            for k in ('PATH', 'HOME', 'TMPDIR', 'TZ'):
                env.pop(k, None)
    os.mkdir(os.path.join(folder, 'cwd'))
    out = os.path.join(folder, 'out')
    job = {'verif': HERE, 'repo': os.path.dirname(os.path.dirname(os.path.abspath(lib.ezodf.__file__))), 'seeds': seeds,
           'folder': work, 'out': out, 'pre': [d for d in dims if d in PRE]}
    p = subprocess.run([sys.executable] + flags + [os.path.join(HERE, 'vlib', 'envchild.py'), json.dumps(job)], env=env, cwd=os.path.join(folder, 'cwd'),
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    if p.returncode or not os.path.exists(out):
        return None, p.stderr.decode('utf-8', 'replace')[-600:]
    with open(out, 'rb') as f:
        return pickle.load(f), ''


def case(c):
    rng = c.rng
    seeds = ['env:%s:%d:%d' % (c.seed, c.index, i) for i in range(PROGRAMS)]
    plain, err = start(c, 0, seeds, [])
    if plain is None:
        c.fail('programs do not run at all: ' + err)
    c.count('programs', len(plain))
    for p in plain:
        if p[2] is not None:
            c.count('programs failed')
    for number in range(1, 4):
        # every dimension in turn, and some others
        dims = set([(ENV + PRE)[(c.index * 3 + number) % len(ENV + PRE)]] + rng.sample(ENV + PRE, rng.randint(0, 3)))
        if 'gc always' in dims:
            dims.discard('gc never')
        dims = sorted(dims)
        c.log(*dims)
        other, err = start(c, number, seeds, dims)
        if other is None:
            c.fail('programs do not run in the environment %s: %s' % (', '.join(dims), err))
        for d in dims:
            c.count('environment ' + d)
        where = 'environment %s: ' % ', '.join(dims)
        for a, b in zip(plain, other):
            compare(c, a, b, where)


STYLES = odf.q('office:styles')


def layoutless(x):
    """ Without the white space between styles. """
    if isinstance(x, dict):
        return dict((k, layoutless(v)) for k, v in x.items())
    if not isinstance(x, tuple) or len(x) != 4:
        return x
    tag, attrs, text, children = x
    if tag in (odf.q('office:document-styles'), odf.q('office:document')):
        return tag, attrs, text, tuple((layoutless(k), t) for k, t in children)
    if tag == STYLES:
        return tag, attrs, text, tuple((k, t.strip()) for k, t in children)
    return x


def compare(c, a, b, where):
    where += 'program %s: ' % a[0]
    c.same(b[2], a[2], where + 'error')
    for i, (x, y) in enumerate(zip(a[4], b[4])):
        if x != y:
            c.fail('%sresult %d: got %s, expected %s' % (where, i, core.short(y, 300), core.short(x, 300)))
        c.count('results compared')
    c.same((b[1], len(b[4])), (a[1], len(a[4])), where + 'steps')
    d = lib.parts_difference(layoutless(a[3]), layoutless(b[3]))
    c.ok(d is None, '%s%s' % (where, d))
    c.count('parts compared', len(a[3]))
    c.same(sorted(b[5]), sorted(a[5]), where + 'files')
    for name in a[5]:
        x, y = a[5][name], b[5][name]
        if isinstance(x, tuple) and isinstance(y, tuple):
            d = lib.parts_difference(layoutless(x[0]), layoutless(y[0]))
            c.ok(d is None, '%s%s: %s' % (where, name, d))
            c.same(y[1], x[1], '%s%s: order' % (where, name))
        else:
            c.same(y, x, where + name)
        c.count('files compared')
