"""C22: reading and serialising never change a document."""
import copy
import gc
import io

import ezodf
from ezodf.xmlns import CN, wrap

from vlib import gen, lib, odf, schema, tables
from vlib.odf import E, q
from . import c19

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('On generated documents (new, packages, flat, with spans, variables, styles, repeated cells) long random sequences of reading operations: '
        'all documented properties, text, counts, iteration, find, index, cells, rows, columns, infos, spans, sheets, pages, metadata, '
        'variables, styles, package members, copies and serialisations, also failing ones. After each of them the canonical XML of all managed '
        'parts equals that of the beginning (taken when all tables have been touched, which expands repetitions) and a repeated read '
        'returns what it returned first. Then: two serialisations are equal, opening and serialising again (also with all tables touched) reaches a '
        'fixed point, and saving does, apart from the save stamp. Distinct by log.')
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = ['sampled from the schema', 'reads', 'repeated reads', 'failed reads', 'serialised twice', 'fixed points', 'save fixed points', 'read element', 'read table', 'read cell',
            'read sheets', 'read meta', 'read variable', 'read style', 'read package', 'read document', 'flat documents', 'new documents', 'handles dropped', 'disordered', 'sweeps']
ASSUMPTIONS = ['The first access to a table expands its repeated rows and cells (C08), NumberedParagraph.content of an empty paragraph and the header and '
               'footer of a page layout are created when they are asked for: these are documented edits. Wrapping the body of an '
               'embedded document creates its declarations, as opening does with the body of a document.']


def canonical(value):
    """Comparable form of what a read returned."""
    if hasattr(value, 'xmlnode'):
        return (type(value).__name__, odf.canon(value.xmlnode))
    if isinstance(value, (list, tuple)):
        return [canonical(v) for v in value]
    if isinstance(value, (str, bytes, int, float, bool, type(None))):
        return (type(value).__name__, repr(value))
    if hasattr(value, 'tag'):
        return odf.canon(value)
    if hasattr(value, '__next__') or isinstance(value, (map, filter)):
        return [canonical(v) for v in value]
    return type(value).__name__


GETTERS = {
    'Paragraph': ('cond_style_name', 'ID'), 'Hyperlink': ('name', 'href', 'target_frame'),
    'Heading': ('outline_level', 'restart_numbering', 'suppress_numbering', 'start_value', 'formatted_number'),
    'List': ('continue_numbering', 'header', 'iteritems()'), 'ListItem': ('start_value', 'formatted_number'),
    'NumberedParagraph': ('level', 'start_value', 'formatted_number'), 'Section': ('name', 'protected'),
    'TableRow': ('default_cell_style_name', 'visibility'), 'TableColumn': ('default_cell_style_name', 'visibility'),
    'Table': ('name', 'print_', 'protected', 'nrows()', 'ncols()', 'rows()', 'columns()', 'itercells()'),
    'Cell': ('formula', 'protected', 'content_validation_name', 'value', 'value_type', 'span', 'covered', 'display_form', 'currency'),
    'DrawingPage': ('name',), 'Spaces': ('count',), 'SimpleVariableSet': ('value', 'type', 'name'),
    'UserFieldGet': ('value', 'type', 'name')}
COMMON = ('text', 'tail', 'kind', 'textlen', 'plaintext()', 'style_name', 'TAG')


def read(obj, name):
    if name.endswith('()'):
        return getattr(obj, name[:-2])()
    return getattr(obj, name)


def has_content(node):
    return node.tag == q('text:numbered-paragraph') and (node.find(q('text:p')) is not None or node.find(q('text:h')) is not None)


def element(c, doc, nodes):
    rng = c.rng
    node = rng.choice(nodes)
    if rng.random() < 0.4:       # rare kinds of elements as well
        tag = rng.choice(sorted(set(n.tag for n in nodes)))
        node = rng.choice([n for n in nodes if n.tag == tag])
    obj = wrap(node)
    key = id(node)
    r = rng.random()
    if r < 0.5:
        names = [n for n in COMMON if n != 'style_name' or hasattr(type(obj), 'style_name')] + list(GETTERS.get(getattr(obj, 'kind', ''), ())) * 2
        names = [n for n in names if hasattr(type(obj), n.rstrip('()'))]
        if has_content(node):
            names += ['content'] * 4
            c.count('numbered paragraphs')
        name = rng.choice(names)
        return (key, name), lambda: read(obj, name)
    n = len(node)
    tags = [x.tag for x in node.iter() if isinstance(x.tag, str)]
    what = rng.choice(('len', 'iter', 'child', 'index', 'find', 'findall', 'attr', 'bool', 'root', 'slice', 'get_child'))
    if what == 'len':
        return (key, what), lambda: len(obj)
    if what == 'iter':
        return (key, what), lambda: list(obj)
    if what in ('child', 'get_child'):
        i = rng.randint(-n - 1, n + 1)
        if what == 'child':
            return (key, what, i), lambda: obj[i]
        return (key, what, i), lambda: obj.get_child(i)
    if what == 'index':
        if not n or not isinstance(node[0].tag, str):
            other = lib.Paragraph('x')
            return (key, what, 'other'), lambda: obj.index(other)
        i = rng.randrange(n)
        child = wrap(node[i]) if isinstance(node[i].tag, str) else obj[0]
        return (key, what, i), lambda: obj.index(child)
    if what in ('find', 'findall'):
        tag = rng.choice(tags + [q('text:p'), q('table:table'), q('text:nothing')])
        return (key, what, tag), lambda: getattr(obj, what)(tag)
    if what in ('attr', 'bool'):
        name = rng.choice(list(node.attrib) + [q('text:style-name'), q('text:none'), q('table:name')])
        if what == 'attr':
            return (key, what, name), lambda: obj.get_attr(name, 'default')
        return (key, what, name), lambda: obj.get_bool_attr(name)
    if what == 'root':
        return (key, what), lambda: obj.get_xmlroot().tag
    return (key, what), lambda: obj[0:1]


def table(c, doc, nodes):
    rng = c.rng
    ts = [n for n in nodes if n.tag == q('table:table')]
    if not ts:
        return None
    node = rng.choice(ts)
    t = wrap(node)
    r, k = t.nrows(), t.ncols()
    i, j = rng.randint(-r - 1, r), rng.randint(-k - 1, k)
    address = '%s%d' % (chr(65 + max(j, 0) % 26), max(i, 0) + 1)
    what, func = rng.choice((
        ('row', lambda: t.row(i)), ('row info', lambda: t.row_info(i)), ('column', lambda: t.column(j)), ('column info', lambda: t.column_info(j)),
        ('cell', lambda: t[i, j]), ('get_cell', lambda: t.get_cell((i, j))), ('address', lambda: t[address]), ('row a', lambda: t.row(address)),
        ('column a', lambda: t.column(address)), ('info a', lambda: t.row_info(address)), ('cinfo a', lambda: t.column_info(address)),
        ('rows', lambda: t.rows()), ('columns', lambda: t.columns()), ('itercells', lambda: t.itercells()), ('copy', lambda: t.copy('C')),
        ('copy none', lambda: t.copy())))
    return (id(node), what, i, j), func


def cell(c, doc, nodes):
    rng = c.rng
    ts = [n for n in nodes if n.tag == q('table:table')]
    if not ts:
        return None
    node = rng.choice(ts)
    t = wrap(node)
    if not t.nrows() or not t.ncols():
        return None
    i, j = rng.randrange(t.nrows()), rng.randrange(t.ncols())
    name = rng.choice(GETTERS['Cell'] + COMMON)
    return (id(node), 'cell', i, j, name), lambda: read(t[i, j], name)


def sheets(c, doc, nodes):
    rng = c.rng
    box = getattr(doc, 'sheets', None) or getattr(doc, 'pages', None)
    if box is None:
        return None
    names = [n for n in box.names() if n]
    n = len(names)
    i = rng.randint(-n - 1, n)
    name = rng.choice(names + ['none', ''])
    what, func = rng.choice((('len', lambda: len(box)), ('names', lambda: list(box.names())), ('iter', lambda: list(box)), ('[i]', lambda: box[i]),
                             ('[name]', lambda: box[name]), ('index', lambda: box.index(box[i])), ('index name', lambda: box.index(box[name])),
                             ('bad', lambda: box[None]), ('reversed', lambda: list(reversed(list(box))))))
    return ('sheets', what, i, name), func


def meta(c, doc, nodes):
    rng = c.rng
    m = doc.meta
    key = rng.choice(sorted(gen.META_SIMPLE) + ['title', 'date', 'unknown'])
    tags = [n for n, v in m.usertags] + ['none']
    tag = rng.choice(tags)
    count = rng.choice(sorted(m.count.TYPES) + ['unknown'])
    word = rng.choice(list(m.keywords) + ['none', ''])
    what, func = rng.choice((('[]', lambda: m[key]), ('[]', lambda: m[key]), ('keywords', lambda: list(m.keywords)), ('usertags', lambda: list(m.usertags)),
                             ('count', lambda: list(m.count)), ('in keywords', lambda: word in m.keywords), ('in tags', lambda: tag in m.usertags),
                             ('tag', lambda: m.usertags[tag]), ('typeof', lambda: m.usertags.typeof(tag)), ('count[]', lambda: m.count[count]),
                             ('tobytes', lambda: m.tobytes()), ('dict', lambda: sorted(dict(m.usertags)))))
    return ('meta', what, key, tag, count, word), func


def variable(c, doc, nodes):
    rng = c.rng
    which = rng.choice(('variables', 'userfields'))
    box = getattr(doc.body, which)
    names = [v.name for v in box if hasattr(v, 'instances')]
    name = rng.choice(names + ['unknown'])
    what, func = rng.choice((('[]', lambda: box[name]), ('in', lambda: name in box), ('value', lambda: box[name].value), ('type', lambda: box[name].type),
                             ('instances', lambda: list(box[name].instances)), ('instance values', lambda: [x.value for x in box[name].instances]),
                             ('iter', lambda: list(box)), ('name', lambda: box[name].name), ('len', lambda: len(box))))
    return (which, what, name), func


def style(c, doc, nodes):
    rng = c.rng
    packaged = hasattr(doc, 'content')
    owner = doc.styles if packaged else doc
    which = rng.choice(('fonts', 'styles', 'automatic_styles', 'master_styles'))
    box = getattr(owner, which)
    if packaged and rng.random() < 0.3 and which in ('fonts', 'automatic_styles'):
        box, which = getattr(doc.content, which), 'content ' + which
    names = [s.get(q('style:name')) for s in box.xmlnode if isinstance(s.tag, str) and s.get(q('style:name'))]
    name = rng.choice(names + ['none', None])

    def attribute():
        s = box[name]
        return [(k, s[k]) for k in sorted(getattr(s, 'ATTRIBUTEMAP', {}))]
    what, func = rng.choice((('[]', lambda: box[name]), ('attribute', attribute), ('unknown', lambda: box[name]['unknown'])))
    return (which, what, name), func


def package(c, doc, nodes):
    rng = c.rng
    if not hasattr(doc, 'filemanager'):
        return None
    fm = doc.filemanager
    name = rng.choice(('mimetype', 'settings.xml', 'Pictures/a.png', 'content.xml', 'none', 'META-INF/manifest.xml', '/'))
    what, func = rng.choice((('bytes', lambda: fm.get_bytes(name)), ('text', lambda: fm.get_text(name)), ('xml', lambda: fm.get_xml_element(name)),
                             ('has_zip', lambda: fm.has_zip()), ('find', lambda: fm.manifest.find(name)), ('manifest', lambda: fm.manifest.tobytes()),
                             ('content', lambda: doc.content.tobytes()), ('styles', lambda: doc.styles.tobytes(pretty_print=True)),
                             ('declared', lambda: doc.content.tobytes(xml_declaration=True))))
    return ('package', what, name), func


def document(c, doc, nodes):
    what = c.rng.choice(('mimetype', 'doctype', 'docname', 'backup', 'application_body_tag', 'tobytes', 'tobytes', 'body', 'plaintext'))
    if what == 'tobytes':
        return ('document', what), lambda: parts_list(doc.tobytes())
    if what == 'plaintext':
        return ('document', what), lambda: [x.plaintext() for x in doc.body]
    return ('document', what), lambda: getattr(doc, what)


def parts_list(data):
    return sorted(lib.doc_parts(data).items())


READS = {'element': element, 'table': table, 'cell': cell, 'sheets': sheets, 'meta': meta, 'variable': variable, 'style': style, 'package': package,
         'document': document}
WEIGHTED = ('element', 'element', 'element', 'table', 'table', 'cell', 'cell', 'sheets', 'meta', 'variable', 'style', 'package', 'document')


def repeat_some(rng, root):
    """Repetition attributes at random cells, rows and columns."""
    for el in list(root.iter(q('table:table-cell'), q('table:table-row'), q('table:table-column'))):
        if rng.random() < 0.1:
            el.set(tables.REP_ROWS if el.tag == q('table:table-row') else tables.REP_COLS, str(rng.choice((2, 3, 40))))


def disorder(c, root):
    """Valid XML which no office program writes: elements at unusual places, twice."""
    rng = c.rng
    for el in list(root.iter(q('text:list'))):
        head = el.find(q('text:list-header'))
        if head is None and rng.random() < 0.5:
            head = E('text:list-header', {}, E('text:p', {}, 'H'))
        if head is not None:
            el.insert(rng.randint(0, len(el)), head)
            c.count('disordered')
    for tag in ('dc:title', 'dc:date', 'meta:keyword', 'meta:user-defined', 'meta:document-statistic', 'text:variable-decl', 'text:variable-decls',
                'text:user-field-decl', 'style:style', 'style:font-face', 'table:title', 'office:forms', 'table:shapes', 'text:bookmark'):
        for el in list(root.iter(q(tag))):
            if rng.random() < 0.15:
                twin = copy.deepcopy(el)
                twin.tail = None
                for x in twin.iter(odf.etree.Element):
                    x.attrib.pop(odf.XMLID, None)
                el.getparent().insert(rng.randint(0, len(el.getparent())), twin)
                c.count('disordered')
    if root.tag == q('office:document') and rng.random() < 0.4:
        root.insert(rng.randrange(len(root)), rng.choice(list(root)))
        c.count('disordered')
    for el in root.iter(odf.etree.Element):
        if el.attrib and rng.random() < 0.01 and el.tag not in (q('office:document'), q('manifest:file-entry')):
            del el.attrib[rng.choice(sorted(el.attrib))]
            c.count('disordered')
    return root


def build(c, prefixes=True):
    rng = c.rng
    kind = rng.choice(('odt', 'odt', 'ods', 'ods', 'odg', 'odp', 'odc'))
    r = rng.random()
    if r < 0.15 and kind != 'odc':
        doc = lib.newdoc(kind)
        if kind == 'odt':
            c19.enrich(c, doc)
        elif kind == 'ods':
            doc.sheets.append(lib.Sheet('A', (3, 4)))
            doc.sheets['A'].set_cell_span((0, 1), (2, 2))
            doc.sheets['A']['A1'].set_value('a  b')
        c.count('new documents')
        return doc, kind, 'new'
    if r < 0.75:
        content = gen.content_root(rng, kind)
        if rng.random() < 0.25:
            content = schema.sampled(rng, 'office:document-content', kind, prefixes)
            c.count('sampled from the schema')
        if rng.random() < 0.3:
            repeat_some(rng, content)
        more = {}
        if rng.random() < 0.3:
            disorder(c, content)
            more = {'meta': disorder(c, gen.meta_root(rng)), 'styles': disorder(c, gen.styles_root(rng))}
        return lib.open_by(rng.choice(('stream', 'bytes')), gen.package(rng, kind, content=content, hostile=0.3, **more).tobytes()) if rng.random() < 0.7 else \
            opened_path(c, kind, gen.package(rng, kind, content=content, hostile=0, **more).tobytes()), kind, 'package'
    root = gen.flat_root(rng, kind)
    if rng.random() < 0.25:
        root = schema.sampled(rng, 'office:document', kind, prefixes)
        c.count('sampled from the schema')
    if rng.random() < 0.3:
        repeat_some(rng, root)
    if rng.random() < 0.3:
        disorder(c, root)
    c.count('flat documents')
    return opened_path(c, 'f' + kind, odf.xml(root)), kind, 'flat'


def opened_path(c, ext, data):
    path = c.path('source.' + ext)
    lib.write(path, data)
    return lib.opendoc(path)


def touch(doc):
    for node in list(doc.body.xmlnode.iter(q('table:table'))):
        if node.getroottree() is not None and any(a is doc.body.xmlnode for a in node.iterancestors()):
            wrap(node)
    for node in list(doc.body.xmlnode.iter(*[q(n) for n in odf.BODY.values()])):
        wrap(node)      # bodies of embedded documents
    if hasattr(doc, 'sheets'):
        list(doc.sheets)


def sweep(c, doc, before):
    """ Everything of every element, once. """
    m = doc.meta
    for node in [n for n in doc.body.xmlnode.iter() if isinstance(n.tag, str)]:
        obj = wrap(node)
        for name in COMMON + GETTERS.get(getattr(obj, 'kind', ''), ()) + (('content',) if has_content(node) else ()):
            try:
                canonical(read(obj, name))
            except Exception:
                c.count('failed reads')
    for name in ('variables', 'userfields'):
        for v in getattr(doc.body, name):
            if hasattr(v, 'instances'):
                for x in [v] + list(v.instances):
                    try:
                        x.name, x.type, x.value
                    except Exception:
                        c.count('failed reads')
    for func in [lambda k=k: m[k] for k in sorted(gen.META_SIMPLE)] + [lambda: list(m.keywords), lambda: list(m.usertags), lambda: list(m.count)]:
        try:
            func()
        except KeyError:
            pass
    for a, b in zip(before, c19.xml_state(doc)):
        if a != b:
            c.fail('reading everything changed the document: %s' % odf.first_difference(a, b, ''))
    c.count('sweeps')


def case(c):
    rng = c.rng
    doc, kind, origin = build(c)
    c.log(origin, kind)
    touch(doc)
    touch(doc)        # tables copied by the expansion
    before = c19.xml_state(doc)
    first = {}
    nodes = [n for n in doc.body.xmlnode.iter() if isinstance(n.tag, str)]
    for step in range(rng.randint(20, 60)):
        what = rng.choice(WEIGHTED)
        made = READS[what](c, doc, nodes)
        if made is None:
            continue
        key, func = made
        label = '%s %s' % (what, ' '.join(str(k) for k in key if not isinstance(k, int) or abs(k) < 1000))
        try:
            result = canonical(func())
        except Exception as e:
            result = ('exception', type(e).__name__)
            c.count('failed reads')
        c.log(label)
        c.count('reads')
        c.count('read ' + what)
        after = c19.xml_state(doc)
        for a, b in zip(before, after):
            if a != b:
                c.fail('reading (%s) changed the document: %s' % (label, odf.first_difference(a, b, '')))
        key = (what,) + key
        if key in first:
            c.count('repeated reads')
            c.same(result, first[key], 'the second reading of %s' % label)
        c.observations += 1
        first[key] = result
        if rng.random() < 0.03:
            gc.collect()
            c.count('handles dropped')
    if rng.random() < 0.5:
        sweep(c, doc, before)
    one, two = doc.tobytes(), doc.tobytes()
    d = lib.parts_difference(lib.doc_parts(one), lib.doc_parts(two))
    c.ok(d is None, 'two serialisations: %s' % d)
    if one[:2] == b'PK':
        c.same(odf.package_order(two), odf.package_order(one), 'order of the package members')
    else:
        c.ok(one == two, 'two serialisations differ')
    c.count('serialised twice')
    ext = kind if origin != 'flat' else 'f' + kind

    def reopen(data):
        if data[:2] == b'PK' and rng.random() < 0.6:
            return lib.open_by(rng.choice(('bytes', 'stream')), data)
        return opened_path(c, ext, data)
    again = reopen(one)
    if rng.random() < 0.5:
        touch(again)
    three = again.tobytes()
    d = lib.parts_difference(lib.doc_parts(one), lib.doc_parts(three))
    c.ok(d is None, 'opened and serialised again: %s' % d)
    four = reopen(three).tobytes()
    d = lib.parts_difference(lib.doc_parts(three), lib.doc_parts(four))
    c.ok(d is None, 'opened and serialised a third time: %s' % d)
    c.count('fixed points')
    path = c.path('out.' + ext)
    doc.saveas(path)
    s1 = lib.read(path)
    d = lib.parts_difference(lib.without_stamp(lib.doc_parts(one)), lib.without_stamp(lib.doc_parts(s1)))
    c.ok(d is None, 'saved: %s' % d)
    saved = lib.opendoc(path)
    if rng.random() < 0.5:
        touch(saved)
    saved.save()
    s2 = lib.read(path)
    d = lib.parts_difference(lib.without_stamp(lib.doc_parts(s1)), lib.without_stamp(lib.doc_parts(s2)))
    c.ok(d is None, 'opened and saved: %s' % d)
    # the stamp itself: the same elements, cycles go on
    a, b = [sorted(x.tag for x in stamp_section(s)) for s in (s1, s2)]
    c.same(b, a, 'elements of the metadata after the second save')
    c.count('save fixed points')


def stamp_section(data):
    r = odf.parse(odf.read_package(data)['meta.xml'] if data[:2] == b'PK' else data)
    return [x for x in r.find(q('office:meta')) if isinstance(x.tag, str)]
