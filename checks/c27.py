"""C27: no open files, no temporary files are left behind."""
import errno
import gc
import io
import os
import tempfile
import warnings
import zipfile

from vlib import faults, gen, lib, odf
from vlib.lib import ezodf
from ezodf.filemanager import check_zipfile_for_oasis_validity

PROPERTY = 'C27'
LEVEL = 'exploration'
RULE = ('Histories of 8 to 14 operations (open by path/stream/bytes, new, from template, read parts, edit, serialise, save to '
        'own file / other file / new file / stream / missing directory, probe validity) on several documents at once over packages and flat '
        'files, intact and damaged (truncated, overwritten bytes, wrong checksums, broken XML, wrong type), a third of the '
        'operations with an injected failure of a random file operation. After EVERY operation, with the exception of a '
        'failed one still alive and the garbage collector off: /proc/self/fd, ResourceWarnings, and the '
        'listing of all scratch folders (working directory and temporary directory included). After successful saves '
        'source, target or backup are renamed, deleted or overwritten in place and the other files read again. '
        'Non-trivial: at least 4 operations were judged; distinct by operations and outcomes.')
CASES = {'quick': 1400, 'thorough': 40000}
REQUIRED = ['ops', 'failed ops', 'faults fired', 'op open', 'op save', 'op template', 'op tobytes', 'op read', 'op probe',
            'op save stream', 'op new', 'route path', 'route stream', 'route bytes', 'damaged sources', 'huge sources', 'flat sources',
            'failed open', 'failed save', 'failed template', 'failed read', 'failed tobytes',
            'hostile rename', 'hostile delete', 'hostile overwrite', 'results kept', 'backups kept', 'checksum damage']
ASSUMPTIONS = ['CPython: a file object dropped without being closed is reported as ResourceWarning.',
               'A single failing file operation, or all writing operations from one on.']
TYPES = ('odt', 'ods', 'odp', 'odg')
TEMPLATES = {'odt': 'ott', 'ods': 'ots', 'odp': 'otp', 'odg': 'otg'}


def descriptors():
    out = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            out[int(fd)] = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            pass      # the descriptor of the listing itself
    return out


def checksum_damage(rng, data):
    """Change one byte inside the data of one member (or the checksum in the directory)."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        infos = [i for i in z.infolist() if i.compress_size > 0]
    info = rng.choice(infos)
    buf = bytearray(data)
    at = info.header_offset
    start = at + 30 + int.from_bytes(buf[at + 26:at + 28], 'little') + int.from_bytes(buf[at + 28:at + 30], 'little')
    pos = start + rng.randrange(info.compress_size)
    buf[pos] ^= 1 << rng.randrange(8)
    return bytes(buf)


def damage(c, data):
    rng = c.rng
    c.count('damaged sources')
    kind = rng.randrange(6)
    buf = bytearray(data)
    if kind == 0:
        return bytes(buf[:rng.randrange(len(buf))])
    if kind == 1:
        for _ in range(rng.randint(1, 8)):
            buf[rng.randrange(len(buf))] = rng.randrange(256)
        return bytes(buf)
    if kind == 2 and data[:2] == b'PK':
        # members can be listed but not be read: local header destroyed
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            info = rng.choice(z.infolist())
        buf[info.header_offset] ^= 0xff
        return bytes(buf)
    if kind == 3 and data[:2] == b'PK':
        p = odf.read_package(data)
        out = io.BytesIO()
        victim = rng.choice(sorted(p))
        with zipfile.ZipFile(out, 'w') as z:
            for name in p:
                value = p[name]
                if name == victim:
                    value = rng.choice((b'', value[:len(value) // 2], b'\xff\xfe', b'<a/>', b'text'))
                z.writestr(name, value)
        return out.getvalue()
    if data[:2] == b'PK':
        c.count('checksum damage')
        return checksum_damage(rng, data)
    return bytes(buf[:rng.randrange(len(buf))])


class Watch(object):
    """Runs operations and judges what they leave behind."""

    def __init__(self, c, folders):
        self.c = c
        self.folders = folders
        self.ops = []

    def listing(self):
        out = {}
        for folder in self.folders:
            for name, data in lib.listing(folder).items():
                out[os.path.join(folder, name)] = data
        return out

    def run(self, name, func, written=(), fault=None):
        """`written`: files the operation may create or change."""
        c = self.c
        before_fd, before = descriptors(), self.listing()
        error = result = None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always', ResourceWarning)
            if fault:
                faults.arm(*fault)
            try:
                result = func()
            except Exception as e:
                error = e
            finally:
                if fault:
                    faults.disarm()
            # the exception is alive here, as in a handler of the caller
            after_fd = descriptors()
            what = '%s (%s)' % (name, type(error).__name__ if error else 'ok')
            new = dict((fd, link) for fd, link in after_fd.items() if before_fd.get(fd) != link)
            c.ok(not new, what + ': open files remain', files=sorted(new.values()))
            if error is not None:
                error.__traceback__ = error.__context__ = error.__cause__ = None
        leaked = [str(w.message) for w in caught if issubclass(w.category, ResourceWarning)]
        c.ok(not leaked, what + ': files were dropped without being closed', warnings=leaked[:3])
        after = self.listing()
        created = sorted(set(after) - set(before) - set(written))
        if fault and error is not None and faults.fired() and 'unlink' in faults.oplog()[fault[1]]:
            # removing was made impossible by the injected failure
            c.ok(len(created) <= 1, what + ': files left behind', files=created)
            for path in created:
                os.remove(path)
            c.count('removal failed')
            created = []
        c.ok(not created, what + ': files left behind', files=created)
        for path in before:
            if path not in written:
                c.ok(after.get(path) == before[path], what + ': %s changed or vanished' % os.path.basename(path))
        if fault and faults.fired():
            c.count('faults fired')
        c.count('ops')
        c.count('op ' + name)
        if error is not None:
            c.count('failed ops')
            c.count('failed ' + name)
        self.ops.append((name, type(error).__name__ if error else 'ok', bool(fault)))
        c.log(self.ops[-1])
        return result, error


def case(c):
    rng = c.rng
    work, tmp, cwd = c.path('work'), c.path('tmp'), c.path('cwd')
    for folder in (work, tmp, cwd):
        os.makedirs(folder)
    old_cwd, old_tmp = os.getcwd(), tempfile.tempdir
    gc.collect()
    gc.disable()
    os.chdir(cwd)
    tempfile.tempdir = tmp
    try:
        history(c, Watch(c, (work, tmp, cwd)), work, cwd)
    finally:
        os.chdir(old_cwd)
        tempfile.tempdir = old_tmp
        gc.enable()


def make_source(c, n, work, template=False):
    rng = c.rng
    kind = rng.choice(TYPES)
    flat = rng.random() < 0.25 and not template
    if flat:
        c.count('flat sources')
        data = odf.xml(gen.flat_root(rng, kind))
        ext = 'f' + kind
    else:
        p = gen.package(rng, TEMPLATES[kind] if template else kind, huge=0.04)
        if template:
            p.mimetype_member = p.mimetype
        data = p.tobytes()
        if len(data) > 2 ** 20:
            c.count('huge sources')
        ext = kind
    if rng.random() < 0.3:
        data = damage(c, data)
    name = os.path.join(work, 's%d.%s' % (n, ext))
    lib.write(name, data)
    return name, data, flat, kind


def history(c, w, work, cwd):
    rng = c.rng
    docs = []       # (doc, source path or None, route)
    counter = [0]

    def fault():
        if rng.random() > 0.33:
            return None
        return (c.tmp, rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30)),
                rng.choice((faults.FAIL, faults.FAIL, faults.FAIL_FROM, faults.SHORT_FAIL, faults.SHORT, faults.INTR)),
                rng.choice((errno.ENOSPC, errno.EIO, errno.EACCES)))

    def fresh():
        counter[0] += 1
        return counter[0]

    def op_open():
        path, data, flat, kind = make_source(c, fresh(), work)
        route = 'path' if flat else rng.choice(('path', 'path', 'stream', 'bytes'))
        c.count('route ' + route)
        doc, error = w.run('open', lambda: lib.open_by(route, data, path), fault=fault())
        if doc is not None:
            docs.append((doc, path if route == 'path' else None, route))

    def op_new():
        kind = rng.choice(TYPES)
        name = os.path.join(work, 'n%d.%s' % (fresh(), kind))
        doc, error = w.run('new', lambda: lib.newdoc(kind, rng.choice((name, os.path.basename(name)))))
        c.ok(error is None, 'newdoc failed: %r' % error)
        docs.append((doc, None, 'new'))

    def op_template():
        path, data, flat, kind = make_source(c, fresh(), work, template=True)
        route = rng.choice(('path', 'path', 'stream', 'bytes'))
        given = {'path': path, 'stream': io.BytesIO(data), 'bytes': data}[route]
        if rng.random() < 0.1 and route == 'path':
            given = path + '.missing'
        name = os.path.join(work, 't%d.%s' % (counter[0], kind))
        doc, error = w.run('template', lambda: lib.newdoc(kind, name, given), fault=fault())
        if doc is not None:
            docs.append((doc, path if route == 'path' else None, route))

    def op_missing():
        name = os.path.join(work, rng.choice(('missing.odt', 'no/where.ods', '')))
        w.run('open', lambda: lib.opendoc(name))

    def op_read(doc, source, route):
        fm = getattr(doc, 'filemanager', None)
        if fm is None:
            w.run('read', lambda: len(list(doc.body)))
            return
        names = ['content.xml', 'mimetype', 'missing', 'Pictures/a.png', 'settings.xml', 'Thumbnails/thumbnail.png']
        name = rng.choice(names)
        get = rng.choice((fm.get_bytes, fm.get_text, fm.get_xml_element))
        w.run('read', lambda: get(name), fault=fault())

    def op_probe():
        path, data, flat, kind = make_source(c, fresh(), work)
        w.run('probe', lambda: check_zipfile_for_oasis_validity(path, odf.MIMETYPES[kind].encode()), fault=fault())

    def op_edit(doc, source, route):
        def edit():
            doc.meta['title'] = gen.plain(rng)
            if doc.doctype == 'odt':
                doc.body.append(lib.Paragraph(gen.text(rng) * rng.choice((1, 200))))
            if hasattr(doc, 'filemanager') and rng.random() < 0.3:
                doc.filemanager.register('Pictures/r%d.bin' % fresh(), gen.blob(rng, rng.choice((10, 30000))), 'image/png')
        w.run('edit', edit)

    def op_tobytes(doc, source, route):
        w.run('tobytes', doc.tobytes, fault=fault())

    def op_save_stream(doc, source, route):
        if not hasattr(doc, 'filemanager'):
            return
        out = io.BytesIO()
        w.run('save stream', lambda: doc.filemanager.save(out), fault=fault())
        c.ok(not out.closed, 'the stream of the caller was closed')

    def op_save(doc, source, route):
        r = rng.random()
        doc.backup = rng.random() < 0.7
        ext = os.path.splitext(source or 'x.' + doc.doctype)[1]
        if r < 0.35 and source is not None:
            target = source
        elif r < 0.5:
            target = os.path.join(work, 'over%d%s' % (fresh(), ext))
            lib.write(target, rng.choice((b'', b'other file', gen.package(rng, 'odt').tobytes())))
        elif r < 0.6:
            target = os.path.join(work, 'missing', 'x' + ext)
        elif r < 0.7:
            target = 'rel%d%s' % (fresh(), ext)        # relative to the working directory
        elif r < 0.75:
            target = os.path.join(work, 'dir%d' % fresh())
            os.mkdir(target)
        else:
            target = os.path.join(work, 'new%d%s' % (fresh(), ext))
        full = os.path.join(cwd, target)
        if not os.path.isdir(full) and rng.random() < 0.3 and os.path.isdir(os.path.dirname(full)):
            lib.write(full + '.bak', b'older backup')
        docname = doc.docname
        breaking = hasattr(doc, 'filemanager') and rng.random() < 0.1
        if breaking:
            doc.filemanager.register('Pictures/broken.bin', 5, '')
        written = (full, full + '.bak')
        f = fault()
        _, error = w.run('save', lambda: doc.saveas(target), written, fault=f)
        if breaking:
            c.ok(error is not None, 'a part which cannot be written was accepted')
            del doc.filemanager.directory['Pictures/broken.bin']
        if error is not None:
            doc.docname = docname
            return
        hostile(c, w, doc, source, full)

    for _ in range(rng.randint(8, 14)):
        r = rng.random()
        if not docs or r < 0.2:
            rng.choice((op_open, op_open, op_open, op_template, op_new, op_missing, op_probe))()
        else:
            one = rng.choice(docs)
            op = rng.choice((op_read, op_edit, op_tobytes, op_save_stream, op_save, op_save, op_save))
            op(*one)
    c.nontrivial = len(w.ops) >= 4
    c.signature = repr(w.ops)


def hostile(c, w, doc, source, target):
    """The files can be taken away immediately, the results stay."""
    rng = c.rng
    result = lib.read(target)
    bak = target + '.bak'
    backup = lib.read(bak) if os.path.exists(bak) else None
    what = rng.choice(('none', 'none', 'rename', 'delete', 'overwrite'))
    if what == 'none':
        return
    # which file is taken away
    victims = [p for p in (source, target, bak) if p and os.path.isfile(p)]
    victim = rng.choice(victims)
    kept = [(p, d) for p, d in ((target, result), (bak, backup)) if p != victim and d is not None]
    content = lib.read(victim)
    if what == 'rename':
        os.rename(victim, victim + '.moved')
        c.same(lib.read(victim + '.moved'), content, 'the renamed file')
    elif what == 'delete':
        os.remove(victim)
    else:
        with open(victim, 'r+b') as f:      # in place: reaches every link to the same file
            f.write(b'garbage' * 20)
    c.count('hostile ' + what)
    for path, data in kept:
        c.same(lib.read(path), data, '%s of %s changed %s' % (what, os.path.basename(victim), os.path.basename(path)))
        c.count('results kept' if path == target else 'backups kept')
    # the document in memory stays readable
    _, error = w.run('serialise after', lambda: lib.odf.canon(doc.body.xmlnode) and None)
    c.ok(error is None, 'reading the document after %s of %s: %r' % (what, os.path.basename(victim), error))
    if rng.random() < 0.7:   # put it back for the following operations
        if what == 'rename':
            os.rename(victim + '.moved', victim)
        else:
            lib.write(victim, content)
