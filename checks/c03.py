"""C03: a failed or interrupted save never destroys the document."""
import errno
import io
import os
import shutil

from vlib import faults, gen, lib, odf
from vlib.odf import q

PROPERTY = 'C03'
LEVEL = 'fault_enumeration'
RULE = ('A scenario is a document (new, opened by path/stream/bytes, flat XML, from template), its edits, a target '
        '(its own file, another existing file, a new name; with and without a backup from before; backup on or off). '
        'The file operations of the save below the scratch directory are counted by a preloaded shim, and the save is '
        'run again in a forked process for EVERY operation number with every fault mode: operation fails (ENOSPC, EIO, EACCES), '
        'the operation and all later writes fail, short write then failure, process dies before / after / in the middle '
        'of the operation, short write only, interrupted call. Additional faults: parts which cannot be serialised, '
        'missing and write-protected directories, vanished source, file size limit. Judged from outside by an '
        'independent reader. Non-trivial: at least one fault took effect; distinct by scenario and list of operations.')
CASES = {'quick': 64, 'thorough': 3000}
REQUIRED = ['fault points', 'faults fired', 'crashes', 'failed saves', 'retries', 'saves despite fault', 'mode fail',
            'mode fail-from', 'mode short-fail', 'mode crash-before', 'mode crash-after', 'mode crash-half',
            'mode short', 'serialisation failures', 'missing directory', 'kind opened', 'kind stream',
            'kind flat', 'kind new', 'target existing', 'target new', 'vanished source', 'saves before', 'existing backup', 'target is a link', 'empty target', 'backup is a directory']
ASSUMPTIONS = ['Death of the process, not of the machine: data handed to the kernel are kept.',
               'A single fault, a disk that stays full, or a death, during one save.']
ERRNOS = (errno.ENOSPC, errno.EIO, errno.EACCES)


class Scenario(object):
    pass


def build(c):
    rng = c.rng
    s = Scenario()
    s.what = ('opened', 'opened', 'stream', 'flat', 'new', 'template', 'bytes', 'opened')[c.index % 8]
    s.kind = rng.choice(('odt', 'ods', 'odp'))
    s.ext = s.kind if s.what != 'flat' else 'f' + s.kind
    s.files = {}
    s.source = None
    if s.what == 'flat':
        s.source = odf.xml(gen.flat_root(rng, s.kind))
    elif s.what == 'template':
        p = gen.package(rng, {'odt': 'ott', 'ods': 'ots', 'odp': 'otp'}[s.kind])
        p.mimetype_member = p.mimetype
        s.source = p.tobytes()
    elif s.what != 'new':
        p = gen.package(rng, s.kind)
        if rng.random() < 0.5:
            p.add('Pictures/big.png', gen.blob(rng, 30000), 'image/png')
            p.stored.add('Pictures/big.png')
        s.source = p.tobytes()
    s.folder = 'work'
    if s.what in ('opened', 'flat'):
        s.files['src.' + s.ext] = s.source
    elif s.what == 'template':
        s.files['t.tmpl'] = s.source
    # target
    s.own = s.what in ('opened', 'flat') and rng.random() < 0.6
    s.target = 'src.' + s.ext if s.own else 't.' + s.ext
    if not s.own and rng.random() < 0.6:
        s.files[s.target] = (gen.package(rng, s.kind).tobytes() if s.what != 'flat'
                             else odf.xml(gen.flat_root(rng, s.kind)))
        if rng.random() < 0.4:      # not a document
            s.files[s.target] = rng.choice((b'', b'', b'something', gen.blob(rng, 30000)))
    if not s.own and c.index % 16 in (4, 13):
        s.files[s.target] = b''
    if rng.random() < 0.5:
        s.files[s.target + '.bak'] = gen.package(rng, s.kind).tobytes()
    s.files['bystander'] = b'bystander'
    s.backup = rng.random() < 0.7
    s.link = s.target in s.files and rng.random() < 0.2     # the name of the document is a symbolic link
    s.before = [rng.choice(('tobytes', 'stream', 'stream', 'elsewhere')) for _ in range(rng.choice((0, 0, 1, 3)))]
    s.edits = rng.getrandbits(32)
    return s


def reset(c, s):
    folder = c.path(s.folder)
    if os.path.isdir(folder):
        shutil.rmtree(folder)
    os.makedirs(folder)
    for name, data in s.files.items():
        lib.write(os.path.join(folder, name), data)
    if s.link:
        os.rename(os.path.join(folder, s.target), os.path.join(folder, 'linked'))
        os.symlink('linked', os.path.join(folder, s.target))
    return folder


def open_document(c, s, folder):
    import random
    rng = random.Random(s.edits)
    if s.what in ('opened', 'flat'):
        doc = lib.opendoc(os.path.join(folder, 'src.' + s.ext))
    elif s.what in ('stream', 'bytes'):
        doc = lib.open_by(s.what, s.source)
    elif s.what == 'template':
        doc = lib.newdoc(filename=os.path.join(folder, s.target), template=os.path.join(folder, 't.tmpl'))
    else:
        doc = lib.newdoc(s.kind)
    doc.backup = s.backup
    for how in s.before:
        name = doc.docname
        if how == 'tobytes':
            doc.tobytes()
        elif how == 'stream' and s.what != 'flat':
            doc.saveas(io.BytesIO())
        elif how == 'elsewhere' and not s.own:
            doc.saveas(os.path.join(os.path.dirname(folder), 'elsewhere.' + s.ext))
            os.path.exists(os.path.join(os.path.dirname(folder), 'elsewhere.' + s.ext + '.bak')) and os.remove(
                os.path.join(os.path.dirname(folder), 'elsewhere.' + s.ext + '.bak'))
        doc.docname = name
    if s.kind == 'odt':
        for _ in range(rng.choice((1, 3, 300))):
            doc.body.append(lib.Paragraph(gen.text(rng)))
    elif s.kind == 'ods':
        doc.sheets.append(lib.Sheet('added', size=(rng.choice((2, 20)), 5)))
        doc.sheets['added']['A1'].set_value(gen.text(rng))
    doc.meta['title'] = 'edited ' + gen.word(rng)
    doc.meta['creation-date'] = '2010-01-01T00:00:00'
    if s.what != 'flat' and rng.random() < 0.5:
        doc.filemanager.register('Pictures/reg.bin', gen.blob(rng, rng.choice((0, 20000))), 'image/png')
    return doc


def complete(data, expected):
    """data is the complete new version"""
    try:
        return lib.without_stamp(lib.doc_parts(data)) == expected
    except Exception:
        return False


def do_save(s, doc, folder):
    target = os.path.join(folder, s.target)
    if doc.docname == target:
        doc.save()
    else:
        doc.saveas(target)


def judge_files(c, s, folder, expected, what, may_leave_temp):
    now = lib.listing(folder)
    target, bak = now.get(s.target), now.get(s.target + '.bak')
    old = s.files.get(s.target)
    ok_target = target is None or target == old or complete(target, expected)
    c.ok(ok_target, '%s: the target holds neither the previous nor the new version' % what,
         size=len(target or b''))
    if old is not None:
        c.ok(any(d is not None and (d == old or complete(d, expected)) for d in (target, bak)),
             '%s: no complete version left' % what, files=sorted(now))
    for name, data in s.files.items():
        if name not in (s.target, s.target + '.bak'):
            c.ok(now.get(name) == data, '%s: file %s changed' % (what, name))
    legal = set(s.files) | set((s.target, s.target + '.bak')) | set(['linked'] * s.link)
    if not may_leave_temp:
        c.same(sorted(set(now) - legal), [], what + ': files left behind')
        if s.target + '.bak' in s.files:
            c.ok(bak is not None, '%s: the existing backup is gone' % what)
        if s.target + '.bak' in now:
            c.ok(bak in (s.files.get(s.target + '.bak'), old), '%s: the backup is not a previous version' % what)
    return now


def attempt(c, s, folder, doc, arm, disarm):
    """Runs in the child: the save with the fault, then a retry without.
    Returns a report."""
    rep = {'error': None}
    arm()
    try:
        do_save(s, doc, folder)
    except BaseException as e:
        rep['error'] = '%s: %s' % (type(e).__name__, e)
    rep['ops'] = disarm()
    rep['fired'] = faults.fired()
    rep['listing'] = lib.listing(folder)
    rep['memory'] = lib.without_stamp(lib.doc_parts(doc.tobytes())) if not rep['error'] else None
    return rep


def child(c, s, folder, doc, arm, disarm, expected, what, undo=None):
    """In the forked process; returns (report, problem)."""
    rep = attempt(c, s, folder, doc, arm, disarm)
    rep.pop('memory')
    now = rep.pop('listing')
    if undo is not None:
        undo(doc)
    try:
        if rep['error']:
            judge_files(c, s, folder, expected, what, False)
            memory = lib.without_stamp(lib.doc_parts(doc.tobytes()))
            d = lib.parts_difference(expected, memory)
            c.ok(d is None, '%s: the document changed in memory: %s' % (what, d))
            previous = now.get(s.target)
            try:
                do_save(s, doc, folder)
            except Exception as e:
                c.fail('%s: retrying failed: %s: %s' % (what, type(e).__name__, e))
            rep['retried'] = True
            after = judge_files(c, s, folder, expected, what + ', retried', False)
            c.ok(complete(after.get(s.target, b''), expected), what + ': the retried save is not complete')
            if previous is not None and s.backup and s.what not in ('stream', 'bytes'):
                c.ok(after.get(s.target + '.bak') == previous,
                     what + ': the backup after retrying is not the previous version')
        else:
            c.ok(complete(now.get(s.target, b''), expected), what + ': success reported, target not complete')
            judge_files(c, s, folder, expected, what, False)
    except Exception as e:
        if type(e).__name__ == 'Violation':
            return rep, e.message, c.observations
        raise
    return rep, None, c.observations


def one_fault(c, s, k, mode, err, expected):
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    return run_fault(c, s, folder, doc, lambda: faults.arm(folder, k, mode, err), faults.disarm, expected,
                     '%s at operation %d%s' % (faults.NAMES[mode], k, ' (%s)' % errno.errorcode[err]
                                               if mode in (faults.FAIL, faults.FAIL_FROM, faults.SHORT_FAIL) else ''),
                     faults.NAMES[mode])


def run_fault(c, s, folder, doc, arm, disarm, expected, what, modename, undo=None):
    base = c.observations
    kind, value = faults.in_child(
        lambda: child(c, s, folder, doc, arm, disarm, expected, what, undo))
    c.count('fault points')
    if kind == 'crashed':
        c.count('crashes')
        c.count('mode ' + modename)
        now = judge_files(c, s, folder, expected, what, True)
        check_openable(c, s, folder, now, what)
        return None
    if kind != 'result':
        c.fail('%s: the process died or the harness failed: %s %s' % (what, kind, value))
    rep, problem, observations = value
    c.observations += observations - base
    if problem:
        c.fail(problem + ' [%s; after %d operations]' % (rep['error'], rep['ops']))
    if rep['fired']:
        c.count('faults fired')
        c.count('mode ' + modename)
    if rep['error']:
        c.count('failed saves')
    if rep.get('retried'):
        c.count('retries')
    elif rep['fired']:
        c.count('saves despite fault')
    return rep


def check_openable(c, s, folder, now, what):
    """After a crash the library opens what is there and can save it again."""
    name = s.target if s.target in now else s.target + '.bak'
    if name not in now or now[name] == s.files.get(s.target + '.bak'):
        return
    if now[name][:2] != b'PK' and now[name][:1] != b'<':    # was not a document before
        return
    path = os.path.join(folder, name)
    doc = lib.opendoc(path)
    if c.counters.get('crashes', 0) % 7 == 0:
        doc.save()
        c.ok(lib.parts_difference(lib.doc_parts(doc.tobytes()), lib.doc_parts(lib.read(path))) is None,
             what + ': saving after the crash')
        c.count('saved after crash')


class Unserialisable(object):
    def __init__(self, what):
        self.what = what

    def tobytes(self, *args, **kwargs):
        raise self.what('cannot be serialised')


def case(c):
    rng = c.rng
    s = build(c)
    c.count('kind ' + s.what)
    if s.before:
        c.count('saves before')
    c.count('target existing' if s.target in s.files else 'target new')
    if s.target + '.bak' in s.files:
        c.count('existing backup')
    if s.files.get(s.target) == b'':
        c.count('empty target')
    if s.link:
        c.count('target is a link')
    c.log(s.what, s.ext, 'before', s.before, 'target', s.target, 'own' if s.own else '', 'exists', s.target in s.files,
          'bak', s.target + '.bak' in s.files, 'backup', s.backup)
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    expected = lib.without_stamp(lib.doc_parts(doc.tobytes()))

    def counting():
        faults.arm(folder, -1, faults.COUNT)
        do_save(s, doc, folder)
        n = faults.disarm()
        return n, faults.oplog()
    kind, value = faults.in_child(counting)
    if kind != 'result':
        c.fail('save without a fault: %s %s' % (kind, value))
    n, ops = value
    c.log('operations', n, ' '.join(ops))
    c.count('operations of unfaulted saves', n)
    c.ok(n > 0, 'no file operation seen')
    thorough = c.tier == 'thorough'
    # quick: every operation is hit by one mode of each kind in turn, the first
    # and last ones and all but read/write by every mode
    plain_modes = (faults.FAIL, faults.SHORT_FAIL, faults.FAIL_FROM, faults.CRASH_BEFORE, faults.CRASH_AFTER,
                   faults.CRASH_HALF, faults.SHORT, faults.INTR)
    for k in range(n):
        special = ops[k] not in ('read', 'write') or k < 2 or k > n - 8
        for i, mode in enumerate(plain_modes):
            if not thorough and not special and (k + i + c.index) % 4:
                continue
            if mode in (faults.CRASH_HALF, faults.SHORT, faults.SHORT_FAIL) and ops[k] not in (
                    'read', 'write', 'pwrite', 'writev', 'sendfile', 'copy_file_range'):
                continue
            if mode == faults.FAIL_FROM and ops[k] in ('read', 'open-r'):
                continue
            errs = ERRNOS if thorough and mode == faults.FAIL else (ERRNOS[(k + c.index) % 3],)
            for err in errs:
                one_fault(c, s, k, mode, err, expected)
    # parts which cannot be serialised
    if s.what != 'flat':
        for bad in (Unserialisable(ValueError), Unserialisable(KeyboardInterrupt), Unserialisable(MemoryError), 17):
            folder = reset(c, s)
            doc = open_document(c, s, folder)
            want = dict(expected)

            def arm(doc=doc, bad=bad):
                doc.filemanager.register('zz/bad.bin', bad, 'x/y')

            def undo(doc):
                doc.filemanager.register('zz/bad.bin', b'good now', 'x/y')
            folder2 = folder
            probe = open_document(c, s, folder)
            probe.filemanager.register('zz/bad.bin', b'good now', 'x/y')
            want = lib.without_stamp(lib.doc_parts(probe.tobytes()))
            rep = run_fault(c, s, folder2, doc, arm, lambda: 0, want, 'serialisation failure (%s)' % (
                getattr(bad, 'what', bad),), 'serialise', undo)
            c.ok(rep['error'], 'a part which cannot be serialised was saved')
            c.count('serialisation failures')
    # directory does not exist (yet)
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    missing = os.path.join(folder, 'missing', 'x.' + s.ext)
    before = lib.listing(folder)
    c.raises(doc.saveas, missing)
    c.same(lib.listing(folder), before, 'files after saving into a missing directory')
    os.makedirs(os.path.dirname(missing))
    doc.saveas(missing)
    c.ok(complete(lib.read(missing), expected), 'retry into the created directory is not complete')
    c.count('missing directory')
    # the target is a directory
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    os.makedirs(os.path.join(folder, 'dir.' + s.ext, 'sub'))
    before = lib.listing(folder)
    c.raises(doc.saveas, os.path.join(folder, 'dir.' + s.ext))
    c.same(lib.listing(folder), before, 'files after saving over a directory')
    c.ok(os.path.isdir(os.path.join(folder, 'dir.' + s.ext, 'sub')), 'the directory is gone')
    do_save(s, doc, folder)
    c.ok(complete(lib.read(os.path.join(folder, s.target)), expected), 'save after refused saveas is not complete')
    c.count('target is a directory')
    # the place of the backup is taken by a directory
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    path = os.path.join(folder, 'kept.' + s.ext)
    lib.write(path, b'previous version')
    os.makedirs(os.path.join(path + '.bak', 'sub'))
    before = lib.listing(folder)
    try:
        doc.saveas(path)
    except Exception:
        c.same(lib.listing(folder), before, 'files after the save without a place for the backup')
        c.same(lib.read(path), b'previous version', 'target after the save without a place for the backup')
        c.count('backup is a directory')
        os.rename(path + '.bak', path + '.dir')
        doc.saveas(path)
        if os.path.exists(path + '.bak'):
            c.same(lib.read(path + '.bak'), b'previous version', 'backup')
    else:
        c.ok(not getattr(doc, 'backup', False) or s.what in ('stream', 'bytes'), 'saved without a backup')
    c.ok(complete(lib.read(path), expected), 'save beside a directory in place of the backup is not complete')
    # not writable for an unprivileged user
    folder = reset(c, s)
    doc = open_document(c, s, folder)
    os.chmod(c._tmpbase, 0o711)
    os.chmod(c.tmp, 0o755)
    os.chmod(folder, 0o555)
    before = lib.listing(folder)

    def unprivileged():
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return 'skipped'
        try:
            do_save(s, doc, folder)
        except Exception as e:
            return 'refused'
        return 'saved'
    kind, value = faults.in_child(unprivileged)
    os.chmod(folder, 0o755)
    if value != 'skipped':
        c.same((kind, value), ('result', 'refused'), 'saving into a write-protected directory')
        c.same(lib.listing(folder), before, 'files after saving into a write-protected directory')
        c.count('write-protected directory')
    # the source package vanished while the document was open
    if s.what == 'opened' and (s.own or 'elsewhere' not in s.before):
        folder = reset(c, s)
        doc = open_document(c, s, folder)
        src = os.path.join(folder, 'src.' + s.ext)
        os.rename(src, os.path.join(folder, 'moved'))
        other = os.path.join(folder, 'o.' + s.ext)
        before = lib.listing(folder)
        try:
            doc.saveas(other)
        except Exception:
            c.same(lib.listing(folder), before, 'files after the refused save of a document without source')
            os.rename(os.path.join(folder, 'moved'), src)
            doc.saveas(other)
        c.ok(complete(lib.read(other), expected), 'saved without the source: not complete')
        c.count('vanished source')
    c.signature = '%s %s' % (s.what, ' '.join(ops)) + repr((s.ext, s.own, s.backup, sorted(s.files)))
    c.nontrivial = c.counters.get('faults fired', 0) > 0
