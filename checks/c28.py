"""C28: flat XML documents round-trip like packaged ones."""
import copy

from lxml import etree
from ezodf.xmlns import wrap

from vlib import gen, lib, odf, schema
from vlib.odf import E, q
from . import c01, c06, c22

PROPERTY = 'C28'
LEVEL = 'exploration'
RULE = ('Single-file documents of every type, with and without each optional section, with foreign elements, comments and text between the '
        'sections, in several encodings, with byte order mark, document type and comments outside of the root; random edits of the body, the '
        'meta data and the styles, reads, saves, saves to other files, serialisations and reopenings. After every write an '
        'independent parser compares the file with a model (the original plus the edits), checks root, type, namespaces and the order of the '
        'sections; the metadata of the document are compared with those the model has in the meta section of the file; the body is '
        'read element by element in parallel with a package holding the same body. Distinct by log.')
CASES = {'quick': 7200, 'thorough': 60000}
REQUIRED = ['sampled from the schema', 'written files', 'opened', 'without meta', 'without settings', 'without scripts', 'without fonts', 'without styles',
            'without automatic styles', 'without master styles', 'without body', 'with doctype', 'with comments outside', 'text between sections',
            'foreign sections', 'meta compared', 'parallel reads', 'parallel elements', 'reopened', 'write save', 'write saveas', 'write tobytes',
            'style edits', 'edits', 'encoding UTF-16', 'encoding ISO-8859-1', 'other prefixes', 'sheets', 'pages', 'backups', 'new documents'] + \
    ['type ' + t for t in ('odt', 'ods', 'odg', 'odp', 'odc', 'odi', 'ott', 'ots', 'odm')]
ASSUMPTIONS = ['Sections of the source are in the order of the standard.',
               'Comments and processing instructions outside of the root element and the DOCTYPE are not document content.']
SECTIONS = ['office:meta', 'office:settings', 'office:scripts', 'office:font-face-decls', 'office:styles',
            'office:automatic-styles', 'office:master-styles', 'office:body']
NAMES = {'office:meta': 'meta', 'office:settings': 'settings', 'office:scripts': 'scripts', 'office:font-face-decls': 'fonts',
         'office:styles': 'styles', 'office:automatic-styles': 'automatic styles', 'office:master-styles': 'master styles',
         'office:body': 'body'}
TYPES = ('odt', 'odt', 'ods', 'ods', 'odg', 'odp', 'odc', 'odi', 'ott', 'ots', 'otp', 'otg', 'odm', 'otc', 'oti', 'oth')


class Model(object):
    """What c01.edit expects, over the one tree."""

    def __init__(self, kind, root):
        self.kind, self.root = kind, root
        self.content = self.styles = self.meta = root
        self.added = {}
        self.new_meta = root.find(q('office:meta')) is None
        if self.new_meta:
            root.insert(0, E('office:meta'))
        if root.find(q('office:body')) is None:
            position = 0
            for n, el in enumerate(root):
                if el.tag in [q(t) for t in SECTIONS]:
                    position = n + 1
            root.insert(position, E('office:body'))
        if not len(root.find(q('office:body'))):
            root.find(q('office:body')).append(E(odf.BODY[kind]))

    @property
    def body(self):
        return self.content.find(q('office:body'))[0]


def styles_of(m):
    container = m.root.find(q('office:styles'))
    if container is None:
        container = E('office:styles')
        position = 0
        for n, el in enumerate(m.root):
            if isinstance(el.tag, str) and el.tag in [q(t) for t in SECTIONS[:4]]:
                position = n + 1
        m.root.insert(position, container)
    return container


def source(c):
    """(bytes, kind, model)"""
    rng = c.rng
    kind = TYPES[c.index % len(TYPES)]
    drop = rng.choice((0.0, 0.3, 0.6, 1.0))
    r = gen.flat_root(rng, kind, drop)
    if rng.random() < 0.15:
        r = schema.without_tables(schema.sampled(rng, 'office:document', kind))
        for x in r.findall(q('office:meta')):
            r.replace(x, gen.meta_section(rng)) # elements only once
        c.count('sampled from the schema')
    for tag in ('office:styles', 'office:automatic-styles', 'office:master-styles'):
        el = r.find(q(tag))
        if el is not None and rng.random() < drop / 3:
            r.remove(el)
    if rng.random() < 0.06:
        b = r.find(q('office:body'))
        if rng.random() < 0.5:
            r.remove(b)
            c.count('without body')
        else:
            b.remove(b[0])
            c.count('empty body')
    for tag in SECTIONS[:-1]:
        if r.find(q(tag)) is None:
            c.count('without ' + NAMES[tag])
    if rng.random() < 0.2 and r.find(q('office:body')) is not None:
        for n in range(rng.randint(1, 2)):
            r.insert(rng.randint(0, len(r)), rng.choice((E('foreign:section', {'foreign:x': '1'}, E('foreign:y', {}, 'z')),
                                                         etree.Comment(' between '), etree.ProcessingInstruction('pi', 'x'))))
        c.count('foreign sections')
    if rng.random() < 0.3:
        r.text = '\n '
        for el in r:
            el.tail = rng.choice(('\n ', '\n', None))
        c.count('text between sections')
    if rng.random() < 0.1:
        r.set(q('foreign:extra'), 'v')
    if rng.random() < 0.15:
        other = etree.Element(q('office:document'), nsmap={'o': odf.NS['office'], 'unused': 'urn:x:unused', None: 'urn:x:default',
                                                         't': odf.NS['text'], 'xlink': odf.NS['xlink']})
        other.text = r.text
        for k, v in r.attrib.items():
            other.set(k, v)
        other.extend(list(r))
        r = other
        c.count('other prefixes')
    encoding = rng.choice(('UTF-8', 'UTF-8', 'UTF-8', 'UTF-16', 'ISO-8859-1', 'US-ASCII'))
    c.count('encoding ' + encoding)
    text = etree.tostring(r, encoding='unicode')
    head = '<?xml version="1.0" encoding="%s"?>' % encoding
    if encoding == 'UTF-8' and rng.random() < 0.3:
        head = rng.choice(('', '<?xml version="1.0"?>\n', '\ufeff'))
    if rng.random() < 0.15:
        head += '\n<!DOCTYPE office:document>\n'
        c.count('with doctype')
    if rng.random() < 0.15:
        head += '<!-- before --><?pi before?>'
        text += '<!-- after -->\n'
        c.count('with comments outside')
    data = (head + text).encode(encoding, 'xmlcharrefreplace')
    return data, kind, odf.parse(data)


def split_meta(root, new_meta):
    """A copy of the tree without its meta section; state of the meta section;
    position among the sections."""
    root = copy.deepcopy(root)
    order = [odf.pretty(el.tag) for el in root if isinstance(el.tag, str) and odf.pretty(el.tag) in SECTIONS]
    extra = (q('meta:creation-date'),) if new_meta else ()
    drop = [q(t) for t in odf.STAMP] + list(extra)
    rest, stat = [], {}
    section = root.find(q('office:meta'))
    attrs = None
    if section is not None:
        attrs = dict(section.attrib)
        for child in section:
            if child.tag == q('meta:document-statistic'):
                stat.update(child.attrib)
            elif child.tag not in drop:
                rest.append(odf.canon(child))
        tail = section.tail or ''
        previous = section.getprevious()
        if previous is not None:
            previous.tail = (previous.tail or '') + tail
        else:
            root.text = (root.text or '') + tail
        root.remove(section)
    container = root.find(q('office:styles'))
    for child in container if container is not None else ():
        if not (child.tail or '').strip():
            child.tail = None       # layout between styles
    return root, (attrs, rest, stat), order


def verify(c, data, m, what):
    try:
        root = odf.parse(data)
    except etree.XMLSyntaxError as e:
        c.fail('%s wrote a file which is not well-formed: %s' % (what, e))
    c.count('written files')
    c.count('write ' + what)
    c.same(root.tag, q('office:document'), what + ': root')
    c.same(root.get(q('office:mimetype')), odf.MIMETYPES[m.kind], what + ': type in the file')
    expected, meta_a, order_a = split_meta(m.root, m.new_meta)
    actual, meta_b, order_b = split_meta(root, m.new_meta)
    allowed = {'office:document': SECTIONS, 'office:body': (odf.BODY[m.kind],), odf.BODY[m.kind]: odf.BODY_CONTAINERS}
    if m.new_meta:      # announces the created section
        actual.attrib.pop('{http://www.w3.org/2003/g/data-view#}transformation', None)
    d = odf.part_difference(expected, actual, allowed, 'file')
    c.ok(d is None, '%s: %s' % (what, d))
    c.same(meta_b, meta_a, what + ': meta section')
    c.same(order_b, sorted(order_b, key=SECTIONS.index), what + ': order of the sections')
    c.same(len(order_b), len(set(order_b)), what + ': sections occur once')
    c.same(odf.lost_prefixes(m.root, root), [], what + ': lost namespace prefixes')
    return root


def check_meta(c, doc, root, what):
    """The metadata of the document are those of the file."""
    s = c06.State()
    c06.load(root.find(q('office:meta')), s)
    c06.compare(c, doc, s, what)
    c.count('meta compared')


def check_document(c, doc, m, what):
    c.same(doc.mimetype, odf.MIMETYPES[m.kind], what + ': type')
    c.same(doc.doctype, m.kind, what + ': doctype')
    c.same(doc.body.xmlnode.tag, q(odf.BODY[m.kind]), what + ': body')
    base = odf.BODY[m.kind]
    if base == 'office:spreadsheet':
        c.same([s.name for s in doc.sheets], [t.get(q('table:name')) for t in m.body.findall(q('table:table'))], what + ': sheets')
        c.count('sheets')
    elif base in ('office:drawing', 'office:presentation'):
        c.same([p.name for p in doc.pages], [t.get(q('draw:name')) for t in m.body.findall(q('draw:page'))], what + ': pages')
        c.count('pages')


def parallel(c, doc, m):
    """The same body in a package is read in the same way."""
    rng = c.rng
    content = odf.root('office:document-content', attrs={'office:version': '1.2'})
    content.append(E('office:body', {}, copy.deepcopy(m.body)))
    p = odf.Pkg(m.kind)
    p.add('content.xml', odf.xml(content), 'text/xml')
    p.content, p.styles, p.meta = content, None, None
    other = lib.opendoc(p.tobytes())
    for d in (doc, other):
        c22.touch(d)
        c22.touch(d)
    a, b = list(doc.body.xmlnode.iter()), list(other.body.xmlnode.iter())
    c.same([x.tag for x in b], [x.tag for x in a], 'elements of the same body in a flat file and in a package')
    c.count('parallel reads')
    for x, y in zip(a, b):
        if not isinstance(x.tag, str) or rng.random() < 0.5:
            continue
        u, v = wrap(x), wrap(y)
        c.same(type(u), type(v), 'classes for ' + odf.pretty(x.tag))
        for name in c22.COMMON + c22.GETTERS.get(getattr(u, 'kind', ''), ()):
            if not hasattr(type(u), name.rstrip('()')):
                continue
            values = []
            for obj in (u, v):
                try:
                    values.append(c22.canonical(c22.read(obj, name)))
                except Exception as e:
                    values.append(type(e).__name__)
            c.same(values[0], values[1], '%s of %s in a flat file and in a package' % (name, odf.pretty(x.tag)))
        c.count('parallel elements')


def style_edit(c, doc, m):
    rng = c.rng
    container = styles_of(m)
    name = 'New%d' % rng.randint(0, 10 ** 9)
    s = gen.style(rng, name)
    doc.inject_style(odf.xml(s, declaration=False).decode())
    container.append(copy.deepcopy(s))
    if rng.random() < 0.5:
        doc.styles[name]['display-name'] = 'D'
        container[-1].set(q('style:display-name'), 'D')
    c.same(doc.styles[name]['name'], name, 'the injected style')
    c.count('style edits')
    c.log('style', name)


def style_reads(c, doc, m):
    for attr, tag in (('fonts', 'office:font-face-decls'), ('styles', 'office:styles'), ('automatic_styles', 'office:automatic-styles'),
                      ('master_styles', 'office:master-styles')):
        container = m.root.find(q(tag))
        names = [el.get(q('style:name')) for el in container if isinstance(el.tag, str)] if container is not None else []
        for el in container if container is not None else ():
            name = el.get(q('style:name')) if isinstance(el.tag, str) else None
            if name is None or names.count(name) > 1: # in several families
                continue
            got = getattr(doc, attr)[name]
            c.same(odf.canon(got.xmlnode), odf.canon(el), '%s[%r]' % (attr, name))


def case(c):
    rng = c.rng
    new = rng.random() < 0.12
    if new:
        kind, data = TYPES[c.index % len(TYPES)], None
        root = etree.Element(q('office:document'), nsmap={'office': odf.NS['office']})
        root.set(q('office:mimetype'), odf.MIMETYPES[kind])
    else:
        data, kind, root = source(c)
    m = Model(kind, root)
    c.count('type ' + kind)
    path = c.path(rng.choice(('doc.f' + kind, 'doc.xml', '\xfc b.fodt')))
    if new:
        c.log('new', kind)
        doc = lib.FlatXMLDocument(kind, filename=path)
        c.count('new documents')
    else:
        lib.write(path, data)
        c.log('open', kind, len(data))
        doc = lib.opendoc(path)
        c.count('opened')
    c.ok(isinstance(doc, lib.FlatXMLDocument), 'class of the document')
    check_document(c, doc, m, 'opened')
    if not m.new_meta:
        check_meta(c, doc, root, 'opened')
    style_reads(c, doc, m)
    read_body = rng.random() < 0.4
    previous = data
    for step in range(rng.randint(2, 8)):
        what = rng.choice(('edit', 'edit', 'edit', 'style', 'save', 'saveas', 'tobytes', 'reopen', 'read'))
        if what == 'edit':
            if m.root.find(q('office:styles')) is None and rng.random() < 0.3:
                styles_of(m)
            c01.edit(c, doc, m)
            continue
        if what == 'style':
            style_edit(c, doc, m)
            continue
        c.log(what)
        if what == 'read':
            for child in doc.body:
                child.plaintext()
            style_reads(c, doc, m)
            continue
        if what == 'save':
            doc.backup = rng.random() < 0.8
            if doc.backup and previous is not None and not lib.read(path) == previous:
                c.fail('the file changed between two saves')
            doc.save()
            out = lib.read(path)
            if doc.backup and previous is not None:
                c.same(lib.read(path + '.bak'), previous, 'the backup')
                c.count('backups')
            previous = out
        elif what == 'saveas':
            path = c.path('s%d.f%s' % (step, kind))
            doc.saveas(path)
            out = previous = lib.read(path)
        else:
            out = doc.tobytes()
        if what == 'reopen':
            path = c.path('r%d.f%s' % (step, kind))
            lib.write(path, out)
            previous = out
            doc = lib.opendoc(path)
            check_document(c, doc, m, 'reopened')
            check_meta(c, doc, odf.parse(out), 'reopened')
            c.count('reopened')
            continue
        written = verify(c, out, m, what)
        check_meta(c, doc, written, what)
    written = verify(c, doc.tobytes(), m, 'tobytes')
    check_meta(c, doc, written, 'tobytes')
    check_document(c, doc, m, 'at last')
    if read_body:
        parallel(c, doc, m)
