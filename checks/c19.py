"""C19: a refused operation leaves document, objects and arguments as they were."""
import ezodf
from ezodf.xmlns import CN, etree

from vlib import gen, lib, odf, tables
from vlib.odf import E, q

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('Operations of all parts (tables, cells, spans, sheets, pages, child lists, element properties, white space text, metadata, '
        'variables, styles) are called with hostile arguments (indices and counts outside and at the limits, wrong types, '
        'objects of the wrong kind or with a parent, control characters, unknown names) on generated documents. For each call '
        'which raises an exception the canonical XML of all managed parts, a view by handles kept from the beginning and the '
        'arguments themselves are compared with those from before the call; in the end the document and one freshly opened from '
        'its serialisation get the same legal edits and have to agree. Distinct by log.')
CASES = {'quick': 3600, 'thorough': 80000}
REQUIRED = ['refused', 'accepted', 'refused table', 'refused cell', 'refused sheets', 'refused element', 'refused meta', 'refused variable',
            'refused style', 'refused text', 'overlapping spans', 'refused property', 'continued edits', 'flat documents', 'with arguments inside']
ASSUMPTIONS = ['Any exception counts as a refusal; which calls are refused is judged by C07, C09-C12, C14 and C25.']

BAD_TEXT = ('a\x00b', 'ok  \x00', 'x\x01', 'a  b\t\x0b', '\ud800', 'p\n\nq  \ufffe')


class Hostile(object):
    def __init__(self, rng, doc):
        self.rng, self.doc = rng, doc

    def index(self, n):
        return self.rng.choice((n, n + 1, -n - 1, -n, n - 1, 0, -1, 10 ** 9, -10 ** 9, 1.5, None, 'x', '', 'A0', 'A1', (0,), 2 ** 70, -2 ** 70, True))

    def count(self, n=1):
        return self.rng.choice((0, -1, n, n + 1, 1, -10 ** 9, 1.5, None, 'x', (1,), 2 ** 70 - 2 ** 70))

    def pos(self, t):
        rng = self.rng
        r, c = t.nrows(), t.ncols()
        return rng.choice(((r, 0), (0, c), (-r - 1, 0), (0, -c - 1), (r - 1, c - 1), (0, 0), (-1, -1), (0,), (0, 0, 0), ('a', 0), (None, None),
                           (0, 1.5), 'A0', '', 'ZZZ99999', '1A', 'A', 'a1', 'A1:B2', 'A-1', 'B' + str(r + 1), 1.5, None,
                           [0, 0], (rng.randint(-9, 9), rng.randint(-9, 9)), (2 ** 70, 0)))

    def size(self, t):
        rng = self.rng
        r, c = t.nrows(), t.ncols()
        return rng.choice(((r, c), (r + 1, 1), (1, c + 1), (0, 0), (0, 1), (1, 0), (-1, 1), (1, 1), (2, 2), (1.5, 2), ('2', '2'), None, 3, (2,),
                           (1, 2, 3), (None, 1), (rng.randint(-2, 4), rng.randint(-2, 4)), (r, '1'), (10 ** 9, 0)))

    def text(self):
        rng = self.rng
        return rng.choice(BAD_TEXT + (None, 5, b'bytes', b'\xff', ['l'], object, '', gen.text(rng)))

    def name(self):
        return self.rng.choice(BAD_TEXT + (None, 5, '', '   ', '\t', b'x', 'unknown', ('a',), 'N'))

    def thing(self):
        """Not always what is expected."""
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return rng.choice((None, 5, 'text', object(), etree.Element('x'), [], ezodf.Table, gen))
        if r < 0.7:
            return rng.choice((ezodf.Paragraph, ezodf.Cell, ezodf.Section, ezodf.ListHeader, ezodf.ListItem,
                               lambda x: ezodf.Sheet('N', (2, 2))))('new') if rng.random() < 0.8 else lib.DrawingPage('new')
        nodes = [n for n in self.doc.body.xmlnode.iter() if isinstance(n.tag, str)]
        return ezodf.base.GenericWrapper(xmlnode=rng.choice(nodes)) if rng.random() < 0.3 else lib_wrap(rng.choice(nodes))

    def value(self):
        rng = self.rng
        return rng.choice(BAD_TEXT + (None, '', 5, object(), ezodf.Paragraph('p'), ezodf.Section('s'), b'\x00', float('nan'), 10 ** 5000,
                                      Unprintable(), ['\x00'], True))


class Unprintable(object):
    def __str__(self):
        raise ZeroDivisionError('no text')
    __repr__ = object.__repr__


def lib_wrap(node):
    from ezodf.xmlns import wrap
    return wrap(node)


# -------------------------------------------------------------- operations
def table_op(h, t, w):
    rng = h.rng
    r, c = t.nrows(), t.ncols()
    ops = [
        ('insert_rows', h.index(r), h.count()), ('insert_columns', h.index(c), h.count()),
        ('append_rows', h.count()), ('append_columns', h.count()),
        ('delete_rows', h.index(r), h.count(r)), ('delete_columns', h.index(c), h.count(c)),
        ('delete_rows', rng.randint(-r, r), rng.choice((r, r + 1, r - 1))), ('delete_columns', rng.randint(-c, c), rng.choice((c, c + 1, c - 1))),
        ('set_cell_span', h.pos(t), h.size(t)), ('set_cell_span', (rng.randint(0, r), rng.randint(0, c)), h.size(t)),
        ('remove_cell_span', h.pos(t)), ('get_cell', h.pos(t)), ('set_cell', h.pos(t), h.thing()), ('set_cell', (0, 0), h.thing()),
        ('set_cell', h.pos(t), ezodf.Cell('c')), ('__getitem__', h.pos(t)), ('__setitem__', h.pos(t) if rng.random() < 0.5 else 'A1', h.thing()),
        ('row', h.index(r)), ('column', h.index(c)), ('row_info', h.index(r)), ('column_info', h.index(c)),
        ('copy', h.name()), ('=name', h.name()), ('=style_name', h.name()), ('=name', h.text()),
        ('index', h.thing()), ('remove', NotChild(h, t)), ('replace', NotChild(h, t), h.thing()), ('insert_before', NotChild(h, t), h.thing()),
        ('set_attr', h.name(), h.text()), ('reset', h.size(t) if rng.random() < 0.3 else rng.choice(((0, 1), (1, 0), ('a', 1), (1.5, 1), None, (2,), (-1, -1), ('2', '2')))),
        ('append', rng.choice((None, 5, 'x'))), ('set_child', 10 ** 6, h.thing()), ('insert', 'x', h.thing()), ('del_child', 10 ** 6),
        ('findall', h.name()), ('find', h.name()),
    ]
    return 'table', t, rng.choice(ops)


def overlapping(rng, t):
    """Make a span and return the call for another one which meets it, but
    starts elsewhere."""
    r, c = t.nrows(), t.ncols()
    if r * c < 3:
        return None
    def rectangle():
        i, j = rng.randrange(r), rng.randrange(c)
        return (i, j), (rng.randint(1, r - i), rng.randint(1, c - j))
    def inside(pos, size):
        return set((i, j) for i in range(pos[0], pos[0] + size[0]) for j in range(pos[1], pos[1] + size[1]))
    for _ in range(20):
        one, two = rectangle(), rectangle()
        if one[1] != (1, 1) and two[1] != (1, 1) and inside(*one) & inside(*two) and two[0] not in inside(*one):
            break
    else:
        return None
    try:
        t.set_cell_span(*one)
    except ValueError:
        pass
    return ('set_cell_span',) + two


class NotChild(object):
    """Stands for an object which is not child of the given one."""
    def __init__(self, h, parent):
        for _ in range(20):
            self.it = h.thing()
            if getattr(self.it, 'xmlnode', None) is None or self.it.xmlnode.getparent() is not parent.xmlnode:
                return
        self.it = ezodf.Paragraph('other')


def cell_op(h, t, w):
    rng = h.rng
    cell = t[rng.randrange(t.nrows()), rng.randrange(t.ncols())]
    vt = rng.choice(('float', 'string', 'currency', 'date', 'time', 'boolean', 'percentage', 'text', '', 'FLOAT', 5, None, 'x\x00'))
    ops = [('set_value', h.value()), ('set_value', h.value(), vt), ('set_value', h.value(), vt, rng.choice(('', 'EUR', 'E\x00', None, 5))),
           ('set_value', 5, 'currency', rng.choice(('\x00', 5, '', '\ud800'))),
           ('=display_form', h.text()), ('append_text', h.text()), ('append_text', 'x  y', h.name()), ('append_text', h.text(), 'style'),
           ('=style_name', h.name()), ('=formula', h.name()), ('=content_validation_name', h.name()), ('=protected', Unbool()),
           ('=value', 5), ('=span', (2, 2)), ('=currency', 'x'), ('=value_type', 'float'), ('=covered', True),
           ('set_child', h.index(len(cell)), rng.choice((None, 5))), ('insert', h.index(0), None)]
    return 'cell', cell, rng.choice(ops)


class Unbool(object):
    def __bool__(self):
        raise ZeroDivisionError('no truth')


def sheets_op(h, t, w):
    rng = h.rng
    box = h.doc.sheets if hasattr(h.doc, 'sheets') else h.doc.pages
    n = len(box)
    names = [x for x in box.names() if x] or ['none']
    wrong = rng.choice((None, 5, 'x', ezodf.Paragraph('p'), ezodf.Cell(1), object()))
    good = ezodf.Sheet('New', (2, 2)) if hasattr(h.doc, 'sheets') else lib.DrawingPage('New')
    other = lib.DrawingPage('New') if hasattr(h.doc, 'sheets') else ezodf.Sheet('New', (2, 2))
    bad = rng.choice((None, 1.5, (0,), n, -n - 1, 10 ** 9, 'unknown', '', b'x', 2 ** 70, ['x']))
    ops = [('__getitem__', bad), ('__delitem__', bad), ('__setitem__', bad, good), ('__setitem__', bad, wrong),
           ('__setitem__', rng.choice(names), wrong), ('__setitem__', 0, other), ('append', wrong), ('append', other), ('__iadd__', wrong),
           ('insert', rng.choice((None, 'x', (1,), '', 'A1')), good), ('insert', rng.randint(-n - 1, n + 1), wrong), ('insert', 0, other),
           ('index', good), ('index', wrong), ('__setitem__', bad, box[0] if n else good)]
    return 'sheets', box, rng.choice(ops)


def element_op(h, t, w):
    rng = h.rng
    nodes = [n for n in h.doc.body.xmlnode.iter() if isinstance(n.tag, str) and not tabular(n)]
    if not nodes:
        return None
    obj = lib_wrap(rng.choice(nodes))
    if not hasattr(obj, 'insert_before'):
        return None
    n = len(obj)
    child = h.thing()
    if inside_table(child) or obj.kind in ('Table', 'SpreadsheetBody'):
        child = rng.choice((None, 5, 'x'))
    ops = [('insert', rng.choice(('x', None, (1,), 2 ** 70)), child), ('insert', 0, rng.choice((None, 5, 'x'))), ('append', rng.choice((None, 5, 'x'))),
           ('set_child', rng.choice((n, -n - 1, 'x', None, 10 ** 9)), child), ('set_child', 0, rng.choice((None, 5))),
           ('del_child', rng.choice((n, -n - 1, 'x', None, 10 ** 9))), ('get_child', h.index(n)), ('__delitem__', n), ('__setitem__', n, child),
           ('remove', NotChild(h, obj)), ('replace', NotChild(h, obj), child), ('index', NotChild(h, obj)),
           ('insert_before', NotChild(h, obj), child), ('find', 5), ('__iadd__', None),
           ('append', ancestor(obj)), ('insert', 0, ancestor(obj)), ('set_child', 0, ancestor(obj)), ('replace', ancestor(obj), child),
           ('insert_before', ancestor(obj), child),
           ('set_attr', h.name(), h.text()), ('set_attr', 'x', rng.choice(('', None, 0, False))), ('=text', rng.choice(BAD_TEXT + (5, b'\xff'))),
           ('=tail', rng.choice(BAD_TEXT + (5, b'\xff'))), ('set_bool_attr', h.name(), Unbool())]
    return 'element', obj, rng.choice(ops)


def ancestor(obj):
    node = obj.xmlnode.getparent()
    return lib_wrap(node) if node is not None else None


TABULAR = set(q(x) for x in ('table:table', 'table:table-row', 'table:table-cell', 'table:covered-table-cell', 'table:table-column',
                             'table:table-header-rows', 'table:table-rows', 'table:table-row-group', 'table:table-columns',
                             'table:table-header-columns', 'table:table-column-group', 'office:spreadsheet', 'text:variable-decls',
                             'text:user-field-decls'))


def tabular(node):
    return node.tag in TABULAR


def inside_table(thing):
    node = getattr(thing, 'xmlnode', None)
    while node is not None:
        if tabular(node):
            return True
        node = node.getparent()
    return False


TEXTUAL = ('Paragraph', 'Heading', 'Span', 'Hyperlink')
PROPERTIES = {
    'Paragraph': ('style_name', 'cond_style_name', 'ID'), 'Span': ('style_name',), 'Hyperlink': ('style_name', 'name', 'href', 'target_frame'),
    'Heading': ('style_name', 'outline_level', 'restart_numbering', 'suppress_numbering', 'start_value', 'formatted_number'),
    'List': ('style_name', 'continue_numbering', 'header'), 'ListItem': ('start_value', 'formatted_number'),
    'NumberedParagraph': ('level', 'start_value', 'formatted_number'), 'Section': ('style_name', 'name', 'protected'),
    'TableRow': ('style_name', 'default_cell_style_name', 'visibility'), 'TableColumn': ('style_name', 'default_cell_style_name', 'visibility'),
    'Table': ('name', 'style_name', 'print_', 'protected'), 'Cell': ('style_name', 'formula', 'protected', 'content_validation_name'),
    'DrawingPage': ('name',), 'Spaces': ('count',), 'ListHeader': ()}


def property_op(h, t, w):
    rng = h.rng
    nodes = [n for n in h.doc.body.xmlnode.iter() if isinstance(n.tag, str)]
    if not nodes:
        return None
    for _ in range(60):
        obj = lib_wrap(rng.choice(nodes))
        names = PROPERTIES.get(getattr(obj, 'kind', None))
        if names:
            break
    else:
        return None
    name = rng.choice(names)
    value = rng.choice(BAD_TEXT + (None, '', 'x', 5.5, object(), Unbool(), Unprintable(), [], float('inf'), float('nan'), '1.5', b'\x00', ezodf.ListItem('i'), ezodf.Paragraph('p'),
                                   ['\x00']))
    if name == 'header' and rng.random() < 0.4 and len(obj):
        value = obj[0]     # most often a list item
    if rng.random() < 0.1:
        return 'property', obj, ('del ' + name,)
    return 'property', obj, ('=' + name, value)


def text_op(h, t, w):
    rng = h.rng
    nodes = [n for n in h.doc.body.xmlnode.iter(q('text:p'), q('text:h'), q('text:span'), q('text:a'))]
    if not nodes:
        return None
    obj = lib_wrap(rng.choice(nodes))
    text = rng.choice(BAD_TEXT + (None, 5, b'ab', ['a', 'b\x00'], [' ', ' ', '\n', None], object()))
    if isinstance(text, str) and rng.random() < 0.6:
        text = gen.text(rng) + text
    return 'text', obj, ('append_text', text)


def meta_op(h, t, w):
    rng = h.rng
    meta = h.doc.meta
    key = rng.choice(('title', 'date', 'editing-cycles', 'language', 'unknown', '', None, 5, 'dc:title'))
    ops = [(meta, ('__setitem__', key, rng.choice(BAD_TEXT + (5, b'\xff', [], object(), None)))), (meta, ('__getitem__', key)),
           (meta.keywords, ('add', h.text())), (meta.keywords, ('remove', h.text())),
           (meta.usertags, ('set', h.name(), h.value(), rng.choice((None, 'float', 'a\x00', 5, b'\xff')))),
           (meta.usertags, ('__setitem__', h.name(), h.value())), (meta.usertags, ('__delitem__', h.name())),
           (meta.usertags, ('__getitem__', h.name())), (meta.usertags, ('typeof', h.name())),
           (meta.usertags, ('update', rng.choice(({'a': 1, 'b': '\x00'}, {'a': 'x', '\x00': 1}, {'a': 1, 5: 2}, {'n': Unprintable()}, None, 5, [('a', 1)],
                                                  {'one': 1, 'two': 2, 'three': Unprintable()})))),
           (meta.count, ('__setitem__', rng.choice(('page', 'pages', '', None)), h.value())), (meta.count, ('__getitem__', h.name())),
           (meta.count, ('update', rng.choice(({'page': 1, 'pages': 2}, {'table': 5, 'x': 1}, {'word': '\x00'}, {'word': 3, 'cell': Unprintable()}, None,
                                               {'page': 3, 'table': '\x00'}))))]
    obj, op = rng.choice(ops)
    return 'meta', obj, op


def variable_op(h, t, w):
    rng = h.rng
    box = rng.choice((h.doc.body.variables, h.doc.body.userfields))
    names = [v.name for v in box if hasattr(v, 'instances')]
    ops = [(box, ('__getitem__', rng.choice(('unknown', None, 10 ** 6, '', 1.5, -9)))),
           (box, ('__setitem__', rng.choice(('unknown', None, 10 ** 6, '')), h.value()))]
    if names:
        name = rng.choice(names)
        ops += 3 * [(box, ('__setitem__', name, h.value())), (box[name], ('=value', h.value())), (box[name], ('=type', h.name()))]
        inst = list(box[name].instances)
        if inst:
            ops += 2 * [(rng.choice(inst), ('=value', h.value())), (rng.choice(inst), ('=type', h.name()))]
    obj, op = rng.choice(ops)
    return 'variable', obj, op


def style_op(h, t, w):
    rng = h.rng
    doc = h.doc
    st = doc.styles if hasattr(doc.styles, 'styles') else doc
    boxes = [getattr(st, n) for n in ('fonts', 'automatic_styles', 'master_styles')] + [st.styles]
    box = rng.choice(boxes)
    styles = [s for s in box.xmlnode if isinstance(s.tag, str) and s.get(q('style:name'))]
    name = rng.choice(styles).get(q('style:name')) if styles else 'none'
    ops = [(box, ('__getitem__', h.name())), (box, ('__setitem__', rng.choice((name, 'unknown')), rng.choice((None, 5, 'x', object(), '<a/>')))),
           (doc, ('inject_style', rng.choice(('<style:style', '', 'text', '<a:b/>', '<style:style>', '<style:style a="1" a="2"/>', '\x00', None, 5,
                                              '<style:style style:name="a\x01"/>', '</root><root>', b'<style:style/>'))))]
    if styles:
        s = lib_wrap(rng.choice(styles))
        if hasattr(s, 'ATTRIBUTEMAP'):
            keys = sorted(s.ATTRIBUTEMAP) + ['unknown', '', None]
            ops += [(s, ('__setitem__', rng.choice(keys), rng.choice(BAD_TEXT + (None, 5, [], b'\xff')))), (s, ('__getitem__', 'unknown'))]
        ops += [(box, ('__setitem__', name, wrapped_ancestor(box)))]
    obj, op = rng.choice(ops)
    return 'style', obj, op


def wrapped_ancestor(box):
    return ezodf.base.GenericWrapper(xmlnode=box.xmlnode.getparent())


# ---------------------------------------------------------------- snapshots
def xml_state(doc):
    if hasattr(doc, 'content'):
        roots = [doc.content.xmlnode, doc.styles.xmlnode, doc.meta.xmlnode]
    else:
        roots = [doc.xmlnode]
    return [odf.canon(r) for r in roots]


def arg_state(arg):
    if isinstance(arg, dict):
        return sorted((repr(k), repr(v)) for k, v in arg.items() if not isinstance(v, Unprintable))
    node = getattr(arg, 'xmlnode', None)
    if node is None or isinstance(arg, type):
        return None
    parent = node.getparent()
    return (parent, parent.index(node) if parent is not None else None, odf.canon(node))


def cell_view(x):
    try:
        value = x.value
    except ValueError as e:      # set_value() accepts any text for a number
        value = str(e)
    return (x.value_type, repr(value), x.style_name, x.formula, x.span, x.covered)


class View(object):
    """Handles kept from the beginning and what they show."""

    def __init__(self, doc):
        self.doc = doc
        self.tables = [lib_wrap(n) for n in doc.body.xmlnode.iter(q('table:table'))]
        self.blocks = [lib_wrap(n) for n in doc.body.xmlnode.iter(q('text:p'), q('text:h'), q('text:list'), q('text:section'))]

    def show(self):
        out = []
        for t in self.tables:
            out.append((t.name, t.nrows(), t.ncols(), [[cell_view(x) for x in row] for row in t.rows()],
                        [(t.column_info(i).style_name, t.column_info(i).visibility) for i in range(t.ncols())]))
        for b in self.blocks:
            out.append((b.kind, b.style_name, len(b), b.plaintext()))
        doc = self.doc
        for box in ('sheets', 'pages'):
            if hasattr(doc, box):
                out.append(list(getattr(doc, box).names()))
        out.append(sorted((v.name, repr(v.value), v.type) for b in (doc.body.variables, doc.body.userfields)
                          for v in b if hasattr(v, 'instances')))
        out.append((list(doc.meta.keywords), sorted(doc.meta.usertags), sorted(doc.meta.count)))
        return out


# ---------------------------------------------------------------- documents
def build(c):
    rng = c.rng
    kind = rng.choice(('odt', 'odt', 'odt', 'ods', 'ods', 'ods', 'odg', 'odp'))
    r = rng.random()
    if r < 0.2:
        doc = lib.newdoc(kind)
        if kind == 'odt':
            doc.body.append(lib.Paragraph('first  text'))
            doc.body.append(lib.Table('T', (3, 3)))
        elif kind == 'ods':
            doc.sheets.append(lib.Sheet('A', (3, 4)))
        else:
            doc.pages.append(lib.DrawingPage('p'))
        origin = 'new'
    elif r < 0.75:
        doc = lib.opendoc(gen.package(rng, kind, hostile=0).tobytes())
        origin = 'package'
    else:
        path = c.path('d.f' + kind)
        lib.write(path, odf.xml(gen.flat_root(rng, kind)))
        doc = lib.opendoc(path)
        origin = 'flat'
        c.count('flat documents')
    if kind == 'odt':
        enrich(c, doc)
        path = doc.docname          # declarations are read when a document is opened
        if origin == 'flat':
            lib.write(path, doc.tobytes())
            doc = lib.opendoc(path)
        else:
            doc = lib.opendoc(doc.tobytes())
    elif kind == 'ods' and rng.random() < 0.5:
        t = rng.choice(list(doc.sheets))
        if rng.random() < 0.2:
            t.xmlnode.set(q('table:name'), rng.choice(('', "'", 'It\'s')))
        if rng.random() < 0.3:
            t.style_name = ''
        if t.nrows() > 1 and t.ncols() > 1:
            try:
                t.set_cell_span((0, 0), (2, 2))
            except ValueError:
                pass
    c.log(origin, kind)
    return doc, kind


def enrich(c, doc):
    """Everything which has properties, and occurrences of variables."""
    rng = c.rng
    body = doc.body
    p = lib.Paragraph('Text  with \t spaces ')
    p.append(lib.Span('span', style_name='T1'))
    p.append(lib.Hyperlink('http://x', 'link'))
    body.append(p)
    body.append(lib.Heading('H', 2))
    lst = lib.ezlist(['a', 'b', 'c'])
    if rng.random() < 0.5:
        lst.header = lib.ListHeader('head')
    body.append(lst)
    s = lib.Section('S')
    s.append(lib.Paragraph('in'))
    s.append(lib.NumberedParagraph(lib.Paragraph('num')))
    body.append(s)
    for name in ('v1', 'v2'):
        if rng.random() < 0.7 and body.variables.xmlnode.find(CN('text:variable-decl') + '[@{%s}name="%s"]' % (odf.NS['text'], name)) is None:
            body.variables.xmlnode.append(E('text:variable-decl', {'text:name': name, 'office:value-type': 'string'}))
        p.xmlnode.append(E('text:variable-set', {'text:name': name, 'office:value-type': 'string'}, 'v'))
        p.xmlnode.append(E('text:user-field-get', {'text:name': 'u1'}, '3'))


# --------------------------------------------------- legal edits at the end
def edits(rng, doc):
    ts = list(doc.sheets) if hasattr(doc, 'sheets') else [lib_wrap(n) for n in doc.body.xmlnode.iter(q('table:table'))]
    for t in ts[:3]:
        if t.nrows() and t.ncols():
            t.append_rows(rng.randint(1, 2))
            t.insert_rows(rng.randrange(t.nrows()), 1)
            t.insert_columns(rng.randrange(t.ncols()), 2)
            t.append_columns(1)
            t[rng.randrange(t.nrows()), rng.randrange(t.ncols())].set_value(rng.randint(0, 99))
            t.delete_columns(rng.randrange(t.ncols()), 1)
            t.delete_rows(rng.randrange(t.nrows()), 1)
            t.column_info(-1).style_name = 'last'
            t.row_info(-1).style_name = 'last'
    if hasattr(doc, 'sheets'):
        doc.sheets.append(lib.Sheet('END', (1, 1)))
        doc.sheets.insert(0, lib.Sheet('BEGIN', (1, 2)))
    elif hasattr(doc, 'pages'):
        doc.pages.append(lib.DrawingPage('END'))
        doc.pages.insert(0, lib.DrawingPage('BEGIN'))
    else:
        doc.body.append(lib.Paragraph('END'))
    for n in list(doc.body.xmlnode.iter(q('text:p')))[:4]:
        lib_wrap(n).append_text(' more  text')
    for box in (doc.body.variables, doc.body.userfields):
        for v in list(box):
            if hasattr(v, 'instances'):
                box[v.name] = rng.choice((5, 'text', True))
    doc.meta['title'] = 'edited'
    doc.meta.keywords.add('kw')
    doc.meta.usertags['ut'] = 'x'
    doc.meta.count['page'] = 7
    doc.inject_style('<style:style style:name="injected" style:family="text"/>')


OPS = {'odt': (table_op, cell_op, element_op, element_op, property_op, property_op, text_op, meta_op, variable_op, style_op),
       'ods': (table_op, table_op, table_op, cell_op, cell_op, sheets_op, property_op, element_op, meta_op, style_op),
       'odg': (sheets_op, sheets_op, element_op, property_op, text_op, meta_op, style_op)}
OPS['odp'] = OPS['odg']


def perform(obj, op):
    name, args = op[0], op[1:]
    if name.startswith('='):
        return setattr(obj, name[1:], args[0])
    if name.startswith('del '):
        return delattr(obj, name[4:])
    return getattr(obj, name)(*args)


def case(c):
    rng = c.rng
    doc, kind = build(c)
    h = Hostile(rng, doc)
    view = View(doc)
    before, shown = xml_state(doc), view.show()
    for step in range(rng.randint(10, 30)):
        ts = [t for t in view.tables if t.nrows() and t.ncols() and t.get_xmlroot() is doc.body.get_xmlroot()]
        func = rng.choice(OPS[kind])
        if func in (table_op, cell_op):
            if not ts:
                continue
        t = rng.choice(ts) if ts else None
        made = func(h, t, None)
        if func is table_op and rng.random() < 0.15:
            op = overlapping(rng, t)
            if op is not None:
                c.count('overlapping spans')
                made = 'table', t, op
                before, view = xml_state(doc), View(doc)
                shown = view.show()
        if made is None:
            continue
        what, obj, op = made
        op = (op[0],) + tuple(a.it if isinstance(a, NotChild) else a for a in op[1:])
        args = [arg_state(a) for a in op[1:]]
        roots = [a.xmlnode.getroottree().getroot() for a in op[1:] if getattr(a, 'xmlnode', None) is not None and not isinstance(a, type)]
        inside = any(r in (doc.body.get_xmlroot(),) for r in roots)
        own = arg_state(obj)
        label = '%s.%s(%s)' % (type(obj).__name__, op[0], ', '.join(describe(a) for a in op[1:]))
        try:
            perform(obj, op)
        except c_errors as e:
            error = e
        else:
            error = None
        c.log(label, type(error).__name__ if error else 'accepted')
        if error is None:
            c.count('accepted')
            before, view = xml_state(doc), View(doc)
            shown = view.show()
            continue
        c.count('refused')
        c.count('refused ' + what)
        if inside:
            c.count('with arguments inside')
        after = xml_state(doc)
        for a, b in zip(before, after):
            if a != b:
                c.fail('%s was refused (%s) but changed the document: %s' % (label, short_error(error), odf.first_difference(a, b, '')))
        c.same([arg_state(a) for a in op[1:]], args, 'arguments of the refused %s' % label)
        c.same(arg_state(obj), own, 'object of the refused %s' % label)
        now = view.show()
        c.ok(now == shown, '%s was refused but the handles show another state' % label,
             got=first_other(now, shown), expected=first_other(shown, now))
        error = None
    # still usable, as a document just opened
    if hasattr(doc, 'content'):
        twin = lib.opendoc(doc.tobytes())
    else:
        lib.write(c.path('twin.f' + kind), doc.tobytes())
        twin = lib.opendoc(c.path('twin.f' + kind))
    seed = rng.random()
    import random
    try:
        edits(random.Random(seed), twin)
    except Exception as e:      # an accepted operation made something odd
        c.count('odd documents')
        c.log('twin', repr(e))
        return
    edits(random.Random(seed), doc)
    c.count('continued edits')
    difference = lib.parts_difference(lib.doc_parts(doc.tobytes()), lib.doc_parts(twin.tobytes()))
    c.ok(difference is None, 'the document goes another way than the reopened one: %s' % difference)


c_errors = Exception


def first_other(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x
    return (len(a), len(b))


def short_error(e):
    return '%s: %s' % (type(e).__name__, str(e)[:80])


def describe(a):
    if hasattr(a, 'xmlnode') and not isinstance(a, type):
        return '<%s>' % getattr(a, 'kind', type(a).__name__)
    if isinstance(a, int) and not isinstance(a, bool) and abs(a) > 10 ** 30:
        return 'huge'
    if callable(a) or type(a).__module__ not in ('builtins',):
        return type(a).__name__
    return ascii(a)[:40]
