"""C29: documents are data, nothing but the document itself is read or written."""
import io
import os
import sys
import tempfile
import time
import zipfile

from lxml import etree

from vlib import gen, lib, odf, watch
from vlib.core import Inconclusive
from vlib.odf import E, q

PROPERTY = 'C29'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: recorder of open/connect/exec calls (LD_PRELOAD) and Python audit events over '
             'documents full of references to marked decoy files')
RULE = ('Packages and flat files of all types whose parts refer to decoy files (external entities, parameter entities, '
        'external DTDs with defaults, XInclude, xml:base, schema locations, stylesheets, linked sections, images, '
        'objects, tables, scripts; as path, relative path, file:, http: and ftp: address), whose member names climb out '
        'of the package, or whose entities or elements multiply or nest, are opened by every route or used as template, '
        'read completely, edited, serialised and saved. A preloaded recorder lists every file opened by Python or by '
        'libxml2, every connection and every process: only the source and the files of the target may occur. No decoy '
        'is changed, no text of a decoy occurs in the document or in what it writes, and what comes out is at most ten '
        'times (plus two megabytes) the size of what went in, within 20 s of CPU time.')
CASES = {'quick': 2400, 'thorough': 40000}
REQUIRED = ['route path', 'route stream', 'route bytes', 'template', 'flat', 'refused', 'opened', 'saved', 'serialised', 'read',
            'external entity', 'external dtd', 'parameter entity', 'includes', 'links', 'member names', 'expanding entities',
            'deep nesting', 'internal entity', 'calls recorded', 'sensor opens', 'sensor connects', 'sensor processes',
            'part content.xml', 'part styles.xml', 'part meta.xml', 'part META-INF/manifest.xml']
ASSUMPTIONS = ['Files of the Python installation and of the library may be opened at any time (modules, encodings).',
               'lxml calls the C library to open files and connections (asserted by a control run in every worker).']
KINDS = ('odt', 'ods', 'odp', 'odg')
TEMPLATES = {'odt': 'ott', 'ods': 'ots', 'odp': 'otp', 'odg': 'otg'}
INSTALLATION = tuple(sorted(set(os.path.realpath(p) + '/' for p in (
    sys.prefix, sys.base_prefix + '/lib', os.path.dirname(os.path.dirname(lib.ezodf.__file__)), '/usr/lib', '/usr/share/zoneinfo')))) + (
    '/proc/self/', '/dev/urandom', '/etc/localtime', '/dev/null')
DECOYS = ('secret.txt', 'part.xml', 'outer.dtd', 'Pictures/a.png', 'styles.css', 'script.py', 'object/content.xml', 'content.xml',
          'meta.xml', 'mimetype')
_controlled = False


def control(c):
    """The recorder has to see libxml2, sockets and processes."""
    global _controlled
    if _controlled:
        return
    dtd = c.path('control.dtd')
    lib.write(dtd, b'<!ENTITY e "v">')
    doc = c.path('control.xml')
    lib.write(doc, ('<!DOCTYPE a SYSTEM "%s"><a>&e;</a>' % dtd).encode())
    watch.start()
    try:
        r = etree.parse(doc, etree.XMLParser(load_dtd=True, resolve_entities=True, no_network=False)).getroot()
        import socket
        s = socket.socket()
        try:
            s.connect(('127.0.0.1', 9))
        except OSError:
            pass
        s.close()
        import subprocess
        try:
            subprocess.run(['/bin/true'])
        except OSError:
            pass
    finally:
        events = watch.stop()
    # lxml may refuse to expand, but the file is opened by the library beneath
    if not any(w == 'open-read' and a == dtd for w, a in events):
        raise Inconclusive('the recorder does not see files opened by libxml2: %r %r' % (r.text, events[:5]))
    if not any(w == 'network' for w, a in events) or not any(w == 'process' for w, a in events):
        raise Inconclusive('the recorder does not see connections and processes: %r' % events[:8])
    c.count('sensor opens')
    c.count('sensor connects')
    c.count('sensor processes')
    _controlled = True


def decoys(c, folder):
    """Marked files, which must not be touched; returns the mark."""
    mark = 'MARK%08xMARK' % c.rng.getrandbits(32)
    for name in DECOYS:
        path = os.path.join(folder, name)
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        if name.endswith('.dtd'):
            text = '<!ENTITY inner "%s"><!ATTLIST text:p text:style-name CDATA "%s">' % (mark, mark)
        elif name.endswith('.xml'):
            text = '<text:p xmlns:text="%s">%s</text:p>' % (odf.NS['text'], mark)
        elif name == 'script.py':
            text = 'raise SystemExit(%r)' % mark
        else:
            text = mark
        lib.write(path, text.encode())
    return mark


def address(c, folder, cwd, name):
    path = os.path.join(folder, name)
    return c.rng.choice((path, path, 'file://' + path, 'file:' + path, os.path.relpath(path, cwd), name, './' + name, '../' + os.path.basename(folder) + '/' + name,
                         'http://127.0.0.1:9/' + name, 'http://localhost/' + name, 'ftp://127.0.0.1/' + name, '//127.0.0.1/' + name))


def declare(data, doctype):
    """Insert a document type declaration in front of the root element."""
    at = 0
    while True:
        at = data.index(b'<', at)
        if data[at:at + 2] == b'<?':
            at = data.index(b'?>', at)
        elif data[at:at + 4] == b'<!--':
            at = data.index(b'-->', at)
        else:
            break
    return data[:at] + doctype.encode('utf-8') + data[at:]


def place(rng, root):
    """An element whose text can be changed."""
    nodes = [x for x in root.iter(q('text:p'), q('text:h'), q('text:span'), q('dc:title'), q('meta:keyword'), q('meta:user-defined'), q('dc:subject'))]
    return rng.choice(nodes) if nodes else None


def references(c, root, folder, cwd):
    """Links of all kinds, as a document may have them."""
    rng = c.rng

    def a(name):
        return address(c, folder, cwd, name)

    made = []
    XI = '{http://www.w3.org/2001/XInclude}include'
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(('xinclude', 'section', 'image', 'object', 'base', 'schema', 'stylesheet', 'script', 'link', 'table'))
        parent = place(rng, root)
        if parent is None:
            parent = root
        if what == 'xinclude':
            x = etree.Element(XI, href=a(rng.choice(('part.xml', 'secret.txt'))))
            if rng.random() < 0.5:
                x.set('parse', 'text')
        elif what == 'section':
            x = E('text:section', {'text:name': 'linked'}, E('text:section-source', {'xlink:href': a('content.xml'), 'xlink:type': 'simple', 'xlink:show': 'embed'}))
        elif what == 'image':
            x = E('draw:frame', {}, E('draw:image', {'xlink:href': a('Pictures/a.png'), 'xlink:type': 'simple', 'xlink:show': 'embed', 'xlink:actuate': 'onLoad'}))
        elif what == 'object':
            x = E('draw:frame', {}, E('draw:object', {'xlink:href': a('object')}))
        elif what == 'base':
            parent.set('{http://www.w3.org/XML/1998/namespace}base', a(''))
            made.append(what)
            continue
        elif what == 'schema':
            root.set('{http://www.w3.org/2001/XMLSchema-instance}schemaLocation', 'urn:x ' + a('part.xml'))
            made.append(what)
            continue
        elif what == 'stylesheet':
            x = etree.ProcessingInstruction('xml-stylesheet', 'type="text/xsl" href="%s"' % a('part.xml'))
        elif what == 'script':
            x = E('office:event-listeners', {}, E('script:event-listener', {'script:language': 'ooo:script', 'script:event-name': 'dom:load', 'xlink:href': a('script.py')}))
        elif what == 'table':
            x = E('table:table', {'table:name': 'linked'}, E('table:table-source', {'xlink:href': a('content.xml'), 'table:table-name': 'a'}), E('table:table-column'),
                  E('table:table-row', {}, E('table:table-cell')))
            parent = root.find('.//' + q('office:spreadsheet'))
            if parent is None:
                continue
        else:
            x = E('text:a', {'xlink:href': a('secret.txt')}, 'link')
        parent.append(x)
        made.append(what)
    return made


def arm(c, data, folder, cwd):
    """Returns (bytes of the part, what was done to it, legal text expected or None)."""
    rng = c.rng
    root = odf.parse(data)
    what = rng.choice(('external entity', 'external entity', 'external dtd', 'parameter entity', 'includes', 'links', 'links',
                       'internal entity', 'expanding entities', 'deep nesting'))
    name = odf.pretty(root.tag)
    node = place(rng, root)
    if node is None and what not in ('external dtd', 'parameter entity', 'includes', 'links'):
        what = 'external dtd'
    if what in ('includes', 'links'):
        references(c, root, folder, cwd)
        return odf.xml(root), what
    if what == 'deep nesting':
        n = rng.choice((300, 3000, 60000))
        node.text = 'PLACE'
        tag = 'text:span' if rng.random() < 0.5 else 'text:section'
        data = odf.xml(root).replace(b'PLACE', (('<%s>' % tag) * n + 'x' + ('</%s>' % tag) * n).encode(), 1)
        return data, what
    if what == 'internal entity':
        node.text = 'PLACE'
        return declare(odf.xml(root).replace(b'PLACE', b'&e;', 1), '<!DOCTYPE %s [<!ENTITY e "v w">]>' % name), what
    if what == 'expanding entities':
        node.text = 'PLACE'
        if rng.random() < 0.5:
            base, levels = rng.choice(((10, 7), (30, 5), (2, 23), (9, 7)))
            entities = ['<!ENTITY e0 "0123456789">']
            for i in range(1, levels + 1):
                entities.append('<!ENTITY e%d "%s">' % (i, ('&e%d;' % (i - 1)) * base))
            doctype = '<!DOCTYPE %s [%s]>' % (name, ''.join(entities))
            use = '&e%d;' % levels
        else:       # one long entity used often
            doctype = '<!DOCTYPE %s [<!ENTITY e "%s">]>' % (name, 'x' * 20000)
            use = '&e;' * rng.choice((500, 4000))
        return declare(odf.xml(root).replace(b'PLACE', use.encode(), 1), doctype), what
    if what == 'external entity':
        doctype = '<!DOCTYPE %s [<!ENTITY e SYSTEM "%s">]>' % (name, address(c, folder, cwd, rng.choice(('secret.txt', 'part.xml'))))
        if rng.random() < 0.3:
            doctype = doctype.replace('SYSTEM ', 'PUBLIC "-//X//Y//EN" ')
        data = odf.xml(root)
        if rng.random() < 0.75:
            node.text = 'PLACE'
            data = odf.xml(root).replace(b'PLACE', b'a&e;b', 1)
        return declare(data, doctype), what
    if what == 'external dtd':
        doctype = '<!DOCTYPE %s SYSTEM "%s">' % (name, address(c, folder, cwd, 'outer.dtd'))
        data = odf.xml(root)
        if node is not None and rng.random() < 0.4:
            node.text = 'PLACE'
            data = odf.xml(root).replace(b'PLACE', b'&inner;', 1)
        return declare(data, doctype), what
    doctype = '<!DOCTYPE %s [<!ENTITY %% p SYSTEM "%s"> %%p; ]>' % (name, address(c, folder, cwd, 'outer.dtd'))
    return declare(odf.xml(root), doctype), what


def read_all(doc):
    """Everything readable, by the public interface; returns the texts."""
    out = []
    for key in ('title', 'subject', 'description', 'creator'):
        try:
            out.append(doc.meta[key])
        except KeyError:
            pass
    out.extend(doc.meta.keywords)
    out.extend('%s %s' % x for x in doc.meta.usertags)

    def walk(x, depth):
        if not isinstance(x.xmlnode.tag, str):
            return
        if hasattr(x, 'plaintext') and depth < 6:
            out.append(x.plaintext())
        if depth < 12 and hasattr(x, '__iter__'):
            for child in x:
                walk(child, depth + 1)
    walk(doc.body, 0)
    if hasattr(doc, 'sheets'):
        for sheet in doc.sheets:
            for pos, cell in sheet.itercells():
                out.append('%s' % cell.value)
    if hasattr(doc, 'pages'):
        out.extend('%s' % p.name for p in doc.pages)
    return [x for x in out if x]


def edit(c, doc):
    doc.meta['title'] = 'edited'
    doc.meta.keywords.add('kw')
    if hasattr(doc, 'sheets'):
        doc.sheets += lib.Sheet('more', size=(2, 2))
        doc.sheets['more'][0, 0].set_value('x')
    elif hasattr(doc, 'pages'):
        doc.pages += lib.DrawingPage('more')
    else:
        doc.body += lib.Paragraph('edited')
    doc.inject_style('<style:style style:name="Injected" style:family="paragraph"/>')


def case(c):
    control(c)
    rng = c.rng
    cwd, folder, target = c.path('cwd'), c.path('decoys'), c.path('target')
    for d in (cwd, folder, target, c.path('tmp'), c.path('source')):
        os.mkdir(d)
    mark = decoys(c, folder)
    for name in DECOYS:       # relative names lead here, too
        p = os.path.join(cwd, name)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        lib.write(p, lib.read(os.path.join(folder, name)))
    flat = rng.random() < 0.25
    kind = rng.choice(KINDS)
    template = not flat and rng.random() < 0.15
    expected = None
    if flat:
        data, what = arm(c, odf.xml(gen.flat_root(rng, kind)), folder, cwd)
        size = len(data)
        route = 'path'
        c.count('flat')
    else:
        p = gen.package(rng, TEMPLATES[kind] if template else kind, hostile=0.2)
        if rng.random() < 0.15:
            what = 'member names'
            for name in rng.sample(('../decoys/secret.txt', os.path.join(folder, 'secret.txt'), 'a/../../decoys/part.xml', '../cwd/content.xml', '..\\evil.txt',
                                    '../../evil.txt', folder + '/new.txt', './/x.txt', '../target/evil.txt', 'C:\\evil.txt'), 3):
                p.add(name, gen.blob(rng, 50), rng.choice(('', 'image/png')))
        else:
            part = rng.choice([n for n in ('content.xml', 'content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml') if n in p.members or n[0] == 'M'])
            good = p.members[part] if part in p.members else p.manifest_bytes()
            armed, what = arm(c, good, folder, cwd)
            if part[0] == 'M':
                p.manifest_bytes = lambda: armed
            else:
                p.members[part] = armed
            c.count('part ' + part)
        data = p.tobytes()
        size = sum(map(len, odf.read_package(data).values())) if what in ('expanding entities', 'deep nesting') else 0
        route = rng.choice(lib.ROUTES)
    c.count(what)
    source = c.path('source/' + rng.choice(('d', '\xe4 x', 'file', 'http')) + '.' + ('f' + kind if flat else TEMPLATES[kind] if template else kind))
    lib.write(source, data)
    c.log(kind, 'flat' if flat else route, 'template' if template else 'document', what)
    c.count('route ' + route)
    os.chdir(cwd)
    c.cleanup.append(lambda: setattr(tempfile, 'tempdir', None))
    tempfile.tempdir = c.path('tmp')
    before = dict((d, lib.listing(c.path(d))) for d in ('cwd', 'decoys', 'source'))
    allowed_read = [source] if route == 'path' else []

    def observed(step, func, written=()):
        watch.start()
        started = time.process_time()
        error = result = None
        try:
            result = func()
        except Exception as e:
            error = e
        finally:
            cpu = time.process_time() - started
            events = watch.stop()
        c.count('calls recorded', len(events))
        for w, arg in events:
            path = os.path.normpath(arg) if w in ('open-read', 'open-write', 'change') else arg
            if w == 'library' or w == 'code':
                continue
            if w == 'open-read' and (path in allowed_read or path.startswith(INSTALLATION) or os.path.realpath(path).startswith(INSTALLATION)):
                continue
            if w in ('open-read', 'open-write', 'change') and (os.path.dirname(path) in written or path.startswith(c.path('tmp') + '/')):
                continue
            if w == 'open-write' and (path == '/dev/null' or '__pycache__' in path):
                continue
            c.fail('%s of a document with %s: %s %s' % (step, what, w, arg))
        c.ok(cpu < 20, '%s of a document with %s needs %.0f s' % (step, what, cpu))
        for d in before:
            if c.path(d) not in written:
                c.same(lib.listing(c.path(d)) == before[d], True, '%s of a document with %s: files in %s changed' % (step, what, d))
        for d in ('.', 'target'):
            names = set(os.listdir(c.path(d)))
            extra = names - {'cwd', 'decoys', 'target', 'tmp', 'source', 'control.dtd', 'control.xml'} if d == '.' else names - {os.path.basename(x) for x in (out, out + '.bak')}
            c.ok(not extra, '%s of a document with %s leaves files' % (step, what), files=sorted(extra))
        return result, error

    out = os.path.join(target, 'out.' + ('f' + kind if flat else kind))

    def open_it():
        if template:
            arg = source if route == 'path' else io.BytesIO(data) if route == 'stream' else data
            return lib.newdoc(kind, out, template=arg)
        return lib.open_by(route, data, source)

    doc, error = observed('opening', open_it)
    c.log('opened' if error is None else type(error).__name__)
    if template:
        c.count('template')
    if error is not None:
        c.count('refused')
        c.ok(what not in ('links', 'includes', 'member names', 'internal entity'), 'a document with %s is refused: %r' % (what, error))
        c.ok(not isinstance(error, (NameError, MemoryError)), 'opening raises %r' % error)
        return
    c.count('opened')

    def clean(data, step):
        blob = data
        if data[:2] == b'PK':
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                blob = b''.join(z.read(i) for i in z.infolist())
        c.ok(mark.encode() not in blob, '%s: text of another file in a document with %s' % (step, what))
        if size:
            c.ok(len(blob) <= 10 * size + (2 << 20), '%s: %d bytes became %d in a document with %s' % (step, size, len(blob), what))

    deep = what == 'deep nesting'
    texts, error = observed('reading', lambda: read_all(doc))
    if not deep:
        c.ok(error is None, 'reading fails: %r' % error)
        c.ok(not any(mark in t for t in texts), 'text of another file is read from a document with ' + what)
        if size:
            c.ok(max([len(t) for t in texts] or [0]) <= 10 * size + (2 << 20), 'a text of %d bytes became longer' % size)
    c.count('read')
    for step in rng.sample(('edit', 'serialise', 'save', 'save'), rng.randint(1, 4)):
        c.log(step)
        if step == 'edit':
            _, error = observed('editing', lambda: edit(c, doc))
            c.ok(error is None, 'editing fails: %r' % error)
        elif step == 'serialise':
            result, error = observed('serialising', doc.tobytes)
            c.ok(error is None, 'serialising fails: %r' % error)
            clean(result, step)
            c.count('serialised')
        else:
            result, error = observed('saving', lambda: doc.saveas(out), written=(target,))
            c.ok(error is None, 'saving fails: %r' % error)
            clean(lib.read(out), step)
            allowed_read.extend((out, source))
            c.count('saved')
