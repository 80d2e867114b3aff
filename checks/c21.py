"""C21: opening gives the same document by every route, refuses what is none."""
import io
import os
import zipfile

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('Packages of all types with the type in the mimetype member, only in the manifest or only in the file name (also in upper case, '
        'with misleading names and manifests) and single-file XML documents (several encodings, prefixes, prologs, names) are opened by path, '
        'stream and bytes: type, what the objects show and what would be saved have to be equal by every route and equal to the independently '
        'read source. Damaged ones (truncated, bytes of managed parts altered, malformed or empty or foreign XML parts, unknown '
        'types) and other files (text, HTML, images, plain archives, directories, missing, other objects) have to raise an exception. '
        'The source file, its folder, its time stamps and the stream stay as they were. Distinct by log.')
CASES = {'quick': 7500, 'thorough': 90000}
REQUIRED = ['opened path', 'opened stream', 'opened bytes', 'opened flat', 'type by mimetype', 'type by manifest', 'type by name', 'refused',
            'truncated', 'altered', 'malformed', 'no document', 'unknown type', 'flat refused', 'content compared', 'flat compared', 'misleading name',
            'harmless damage', 'type unknown from data']
ASSUMPTIONS = ['Damage inside of members ezodf does not read is found when the document is saved, not when it is opened.',
               'A package without content.xml, styles.xml or meta.xml is not damaged: they are created.']


def view(doc, had_meta=True):
    out = [type(doc).__name__, doc.mimetype, doc.doctype]
    out.append([(x.kind, x.plaintext() if x.kind != 'Table' else x.name) for x in doc.body])
    for box in ('sheets', 'pages'):
        if hasattr(doc, box):
            out.append(list(getattr(doc, box).names()))
    if hasattr(doc, 'sheets'):
        out.append([[repr((x.value_type, x.value)) for x in row] for t in doc.sheets for row in t.rows()])
    for key in gen.META_SIMPLE:
        if key in ('creation-date', 'date') and not had_meta:      # set when opened
            continue
        try:
            out.append(doc.meta[key])
        except KeyError:
            out.append(None)
    out.append((list(doc.meta.keywords), list(doc.meta.usertags), sorted(doc.meta.count)))
    out.append([(v.name, v.type) for box in (doc.body.variables, doc.body.userfields) for v in box if hasattr(v, 'instances')])
    return out


def without_creation(parts):
    def strip(node):
        tag, attrs, text, children = node
        if tag == q('office:meta'):
            children = tuple(ch for ch in children if ch[0][0] != q('meta:creation-date'))
            children = tuple(ch for ch in children if ch[0][0] not in (q('dc:date'), q('meta:generator')))
        return (tag, attrs, text, tuple((strip(ch), tail) for ch, tail in children))
    return dict((k, strip(v) if k in ('meta.xml', 'flat') else v) for k, v in parts.items())


class Guard(object):
    """The folder of the sources must not change."""

    def __init__(self, c):
        self.c = c
        self.before = self.now()

    def now(self):
        out = lib.listing(self.c.tmp)
        return dict((n, (d, os.stat(os.path.join(self.c.tmp, n)).st_mtime_ns, os.stat(os.path.join(self.c.tmp, n)).st_ino)) for n, d in out.items())

    def check(self, what):
        got = self.now()
        self.c.same(sorted(got), sorted(self.before), what + ': files of the folder')
        for n in got:
            self.c.ok(got[n] == self.before[n], '%s: %s was touched' % (what, n))


NAMES = ('doc', 'D \xfcml', 'a.b.c', '.hidden', 'UPPER', 'x' * 60)


def package(c):
    rng = c.rng
    p = gen.package(rng)
    kind = p.kind
    how = rng.choice(('mimetype', 'mimetype', 'mimetype', 'manifest', 'name', 'none'))
    other = rng.choice([k for k in odf.MIMETYPES if k != kind])
    ext = kind
    if how == 'mimetype':
        p.mimetype_member = p.mimetype
        p.root_entry = rng.choice((p.mimetype, p.mimetype, None, odf.MIMETYPES[other]))
        if rng.random() < 0.15:
            p.manifest = False
        ext = rng.choice((kind, kind, other, 'zip', 'txt', ''))
    elif how == 'manifest':
        p.mimetype_member = None
        p.root_entry = p.mimetype
        p.manifest = True
        ext = rng.choice((kind, other, 'zip', ''))
    else:
        p.mimetype_member = p.root_entry = None
        p.manifest = rng.random() < 0.7
        ext = rng.choice((kind, kind.upper(), kind.capitalize()))
    if ext.lower() != kind:
        c.count('misleading name')
    data = p.tobytes()
    path = c.path(rng.choice(NAMES) + ('.' + ext if ext else ''))
    lib.write(path, data)
    guard = Guard(c)
    c.log('package', kind, how, os.path.basename(path), p.manifest, sorted(p.members))
    results = []
    for route in lib.ROUTES:
        if how in ('name', 'none') and route != 'path':
            c.raises(lib.open_by, route, data, path)
            c.count('type unknown from data')
            continue
        if route == 'stream':
            stream = io.BytesIO(data)
            stream.seek(rng.choice((0, 5, len(data))))
            doc = lib.opendoc(stream)
            c.ok(not stream.closed and stream.getvalue() == data, 'the stream was changed')
        elif route == 'path' and rng.random() < 0.3:
            os.chdir(c.tmp)
            doc = lib.opendoc(os.path.basename(path))
        else:
            doc = lib.open_by(route, data, path)
        c.same((doc.mimetype, doc.doctype), (odf.MIMETYPES[kind], kind), 'type of a document opened by %s, given by %s' % (route, how))
        results.append((route, view(doc, p.meta is not None), without_creation(lib.doc_parts(doc.tobytes()))))
        c.count('opened ' + route)
        guard.check('opened by ' + route)
    c.count('type by ' + ('name' if how == 'none' else how))
    for route, seen, parts in results[1:]:
        c.same(seen, results[0][1], 'seen by %s and %s' % (route, results[0][0]))
        d = lib.parts_difference(results[0][2], parts)
        c.ok(d is None, 'opened by %s and %s: %s' % (route, results[0][0], d))
    # what the objects show is what the source holds
    body = p.content.find(q('office:body'))[0]
    seen = results[0][1]
    names = [t.get(q('table:name')) for t in body if t.tag == q('table:table')] if odf.BODY[kind] == 'office:spreadsheet' else None
    if names is not None:
        c.same(seen[4], names, 'sheets')
    d = odf.part_difference(p.content, odf.parse(odf.read_package(doc.tobytes())['content.xml']), odf.content_allowed(kind))
    c.ok(d is None, 'content after opening: %s' % d)
    c.count('content compared')


def flat(c):
    rng = c.rng
    kind = rng.choice([k for k in odf.MIMETYPES if k not in ('oth', 'odm')])
    r = gen.flat_root(rng, kind)
    encoding = rng.choice(('UTF-8', 'UTF-8', 'UTF-16', 'ISO-8859-1', 'US-ASCII'))
    try:
        data = odf.xml(r, encoding)
    except UnicodeEncodeError:
        data = odf.xml(r)
    if encoding == 'UTF-8':
        head, rest = data.split(b'?>', 1)
        data = head + b'?>' + rng.choice((b'', b'\n<!-- note -->\n', b'\n<?pi data?>\n', b'\n<!DOCTYPE office:document [<!ENTITY e "v">]>\n')) + rest
        if rng.random() < 0.2:
            data = b'\xef\xbb\xbf' + data
    ext = rng.choice(('f' + kind, 'xml', kind, 'txt', ''))
    path = c.path(rng.choice(NAMES) + ('.' + ext if ext else ''))
    lib.write(path, data)
    guard = Guard(c)
    c.log('flat', kind, encoding, os.path.basename(path), len(data))
    doc = lib.opendoc(path)
    c.same((type(doc).__name__, doc.mimetype, doc.doctype), ('FlatXMLDocument', odf.MIMETYPES[kind], kind), 'type of the document')
    c.same(doc.docname, path, 'name of the document')
    again = lib.opendoc(path)
    had = r.find(q('office:meta')) is not None
    c.same(view(doc, had), view(again, had), 'opened twice')
    before = odf.parse(data)
    body = before.find(q('office:body'))[0]
    got = [(x.xmlnode.tag, odf.canon(x.xmlnode)) for x in doc.body if x.xmlnode.tag not in (q('text:variable-decls'), q('text:user-field-decls'))]
    want = [(x.tag, odf.canon(x)) for x in body if x.tag not in (q('text:variable-decls'), q('text:user-field-decls'))]
    c.ok([g[1] for g in got] == [w[1] for w in want] or odf.BODY[kind] in ('office:spreadsheet',) and [g[0] for g in got] == [w[0] for w in want],
         'the body holds other elements')
    guard.check('opened')
    c.count('opened flat')
    c.count('flat compared')


def refuse(c, source, what, label):
    guard = Guard(c)
    try:
        doc = lib.opendoc(source)
    except Exception as e:
        c.log(what, label, type(e).__name__)
        c.ok(not isinstance(e, (NameError, RecursionError)), 'no answer to %s: %r' % (label, e))
        if label.startswith('missing'):
            c.ok(isinstance(e, OSError), 'a missing file raises %r' % e)
    else:
        c.fail('%s was opened (%s)' % (what, label), doc=getattr(doc, 'mimetype', doc))
    c.observations += 1
    guard.check(what)
    if isinstance(source, io.BytesIO):
        c.ok(not source.closed, 'the stream was closed')
    c.count('refused')


def as_source(c, data, name=None):
    """By any route."""
    route = c.rng.choice(lib.ROUTES)
    path = c.path(name or c.rng.choice(NAMES) + c.rng.choice(('.odt', '.ods', '.fodt', '.xml', '')))
    lib.write(path, data)
    return route, {'path': path, 'stream': io.BytesIO(data), 'bytes': data}[route]


def damaged(c):
    rng = c.rng
    p = gen.package(rng, hostile=0)
    data = p.tobytes()
    what = rng.choice(('truncated', 'altered', 'altered', 'malformed', 'malformed', 'type', 'noise'))
    if what == 'truncated':
        cut = rng.choice((0, 1, 4, 30, 38, len(data) - 1, len(data) - 22, len(data) - 23, rng.randrange(len(data)), rng.randrange(len(data))))
        route, source = as_source(c, data[:cut])
        refuse(c, source, what, '%s cut at %d of %d' % (route, cut, len(data)))
        c.count('truncated')
    elif what == 'altered':
        name = rng.choice([n for n in ('content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml', 'mimetype') if n in p.members or n[0] in 'Mm' and n != 'meta.xml'])
        z = zipfile.ZipFile(io.BytesIO(data))
        info = z.getinfo(name)
        start = info.header_offset + 30 + int.from_bytes(data[info.header_offset + 26:info.header_offset + 28], 'little') + \
            int.from_bytes(data[info.header_offset + 28:info.header_offset + 30], 'little')
        pos = start + rng.randrange(info.compress_size)
        mode = rng.random()
        b = bytearray(data)
        if mode < 0.5:
            b[pos] ^= 1 << rng.randrange(8)
        elif mode < 0.75:
            n = min(rng.randint(1, 40), start + info.compress_size - pos)
            b[pos:pos + n] = b'\0' * n
        else:
            n = min(rng.randint(1, 40), start + info.compress_size - pos)
            b[pos:pos + n] = gen.blob(rng, n)
        if bytes(b) == data:
            return
        try:
            same = zipfile.ZipFile(io.BytesIO(bytes(b))).read(name) == z.read(name)
        except Exception:
            same = False
        route, source = as_source(c, bytes(b))
        if same:        # unused bits of the compressed data
            doc = lib.opendoc(source)
            c.count('harmless damage')
            return
        refuse(c, source, 'altered ' + name, '%s byte %d' % (route, pos - start))
        c.count('altered')
    elif what == 'malformed':
        name = rng.choice([n for n in ('content.xml', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml') if n in p.members or n[0] == 'M'])
        good = p.members[name] if name in p.members else p.manifest_bytes()
        bad = rng.choice((good[:rng.randrange(1, len(good) - 1)], b'', b'   ', b'text', good + b'<x/>', good.replace(b'>', b'', 1), b'\xff\xfe\xfd', b'\x00' * 50,
                          b'<a:b/>', b'\n' + good if good.startswith(b'<?xml') else b'&', E('office:nothing'), E('office:document'), gen.blob(rng, 300), good.replace(b'office:', b'offices:', 1) if b'office:' in good else b'<'))
        if not isinstance(bad, bytes):
            if name[0] == 'M' or bad.tag == q('office:document') and name == 'meta.xml':
                return
            bad = odf.xml(bad)
        if name[0] == 'M':
            p.manifest_bytes = lambda: bad
        else:
            p.members[name] = bad
        route, source = as_source(c, p.tobytes())
        refuse(c, source, 'malformed ' + name, '%s %r' % (route, bad[:30]))
        c.count('malformed')
    elif what == 'type':
        p.mimetype_member = rng.choice(('text/plain', odf.MIME, odf.MIME + 'texts', 'application/zip', '', 'odt', odf.MIME + 'text' + '\x00', odf.MIME + 'TEXT',
                                         odf.MIME + 'text\n', ' ' + odf.MIME + 'text', '\ufeff' + odf.MIME + 'text', odf.MIME + 'text;charset=utf-8'))
        if rng.random() < 0.3:
            p.root_entry, p.mimetype_member = p.mimetype_member.replace('\x00', ' '), None
        route, source = as_source(c, p.tobytes(), 'doc.odt')
        refuse(c, source, 'unknown type', '%s %r %r' % (route, p.mimetype_member, p.root_entry))
        c.count('unknown type')
    else:
        # noise around a package: still the same document or refused
        noisy = rng.choice((gen.blob(rng, 100) + data, data + gen.blob(rng, 100), b'#!/bin/sh\n' + data, data + b'\0' * 10))
        route, source = as_source(c, noisy)
        try:
            doc = lib.opendoc(source)
        except Exception as e:
            c.log('noise', type(e).__name__)
            return
        d = lib.parts_difference(without_creation(lib.doc_parts(lib.opendoc(data).tobytes())), without_creation(lib.doc_parts(doc.tobytes())))
        c.ok(d is None, 'a package with noise around it: %s' % d)
        c.count('harmless damage')


def other_file(c):
    rng = c.rng
    what = rng.choice(('text', 'html', 'png', 'archive', 'directory', 'missing', 'empty', 'object', 'xml', 'svg', 'gzip', 'nested'))
    if what == 'archive':
        buf = io.BytesIO()
        z = zipfile.ZipFile(buf, 'w')
        for i in range(rng.randint(0, 3)):
            z.writestr(rng.choice(('a.txt', 'b/c.txt', 'content.xml', 'word/document.xml', 'META-INF/MANIFEST.MF')) + str(i), gen.blob(rng))
        z.close()
        route, source = as_source(c, buf.getvalue(), rng.choice(('x.zip', 'x.jar', 'x.docx', 'x')))
    elif what == 'directory':
        os.mkdir(c.path('dir.odt'))
        source, route = c.path('dir.odt'), 'path'
    elif what == 'missing':
        route, source = 'path', rng.choice((c.path('none.odt'), c.path('no/folder.odt'), c.path('none.fodt'), '', 'nowhere.odt'))
    elif what == 'object':
        route, source = 'object', rng.choice((None, 5, 1.5, [], {}, object(), ('a',), lib.newdoc('odt'), bytearray(b'PK'), b'', io.BytesIO(), memoryview(b'PK')))
    elif what == 'nested':
        # a package inside of an archive
        buf = io.BytesIO()
        z = zipfile.ZipFile(buf, 'w')
        z.writestr('doc.odt', gen.package(rng, 'odt', hostile=0).tobytes())
        z.close()
        route, source = as_source(c, buf.getvalue(), 'x.zip')
    else:
        data = {'text': b'hello\n', 'html': b'<html><body><p>x</p></body></html>', 'png': b'\x89PNG\r\n\x1a\n' + gen.blob(rng, 300), 'empty': b'',
                'xml': odf.xml(rng.choice((E('office:document-content'), E('office:document-meta'), E('text:p'), E('foreign:x')))),
                'svg': b'<svg xmlns="http://www.w3.org/2000/svg"/>', 'gzip': b'\x1f\x8b\x08\0' + gen.blob(rng, 60)}[what]
        route, source = as_source(c, data)
    refuse(c, source, 'no document', '%s by %s' % (what, route))
    c.count('no document')


def damaged_flat(c):
    rng = c.rng
    r = gen.flat_root(rng, rng.choice(('odt', 'ods', 'odg')))
    data = odf.xml(r)
    what = rng.choice(('cut', 'mimetype', 'no mimetype', 'root', 'malformed', 'entity', 'stream'))
    if what == 'cut':
        data = data[:rng.randrange(1, len(data) - 1)]
    elif what == 'mimetype':
        r.set(q('office:mimetype'), rng.choice(('text/xml', '', odf.MIME + 'texts', odf.MIMETYPES['odt'] + ' ')))
        data = odf.xml(r)
    elif what == 'no mimetype':
        del r.attrib[q('office:mimetype')]
        data = odf.xml(r)
    elif what == 'root':
        r.tag = rng.choice((q('office:document-content'), q('office:body'), 'document', q('text:document')))
        data = odf.xml(r)
    elif what == 'malformed':
        pos = rng.randrange(60, len(data) - 20)
        data = data[:pos] + rng.choice((b'<', b'&', b'\x00', b'</office:document>', b'\xff')) + data[pos:]
        try:
            odf.parse(data)
            return       # still well formed, e.g. inside of a comment
        except Exception:
            pass
    elif what == 'entity':
        data = data.replace(b'<office:body>', b'<office:body>&undefined;', 1)
    if what == 'stream':      # only packages are supported there
        source = rng.choice((io.BytesIO(data), data))
    else:
        source = c.path('d.' + rng.choice(('fodt', 'xml', 'odt')))
        lib.write(source, data)
    refuse(c, source, 'damaged flat', what)
    c.count('flat refused')


def case(c):
    r = c.rng.random()
    c.log('case')
    if r < 0.4:
        package(c)
    elif r < 0.52:
        flat(c)
    elif r < 0.78:
        damaged(c)
    elif r < 0.9:
        other_file(c)
    else:
        damaged_flat(c)
