"""C25: element properties read back as set and persist; constructors and list helpers."""
import gc

import ezodf
from ezodf.table import TableColumn, TableRow
from ezodf.xmlns import wrap

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('Documents (text, spreadsheet, drawing, presentation; packaged, flat, new) with every kind of element, built by constructors and list '
        'helpers (checked against the given items as XML and by the interface) or loaded from generated XML. Random sequences set and delete all documented '
        'properties with values of all accepted forms, also through fresh handles. A model holds all properties of all elements; after each '
        'set the whole model is compared, and the XML of all elements apart from the attributes which belong to the property is unchanged. Sometimes '
        'and in the end the document is saved by any route and reopened, and the model compared with the elements at the same places. Distinct by log.')
CASES = {'quick': 4500, 'thorough': 80000}
KINDS = ('Paragraph', 'Heading', 'Span', 'Hyperlink', 'List', 'ListItem', 'NumberedParagraph', 'Section', 'Table', 'TableRow', 'TableColumn', 'Cell',
         'DrawingPage', 'Spaces')
REQUIRED = ['properties set', 'properties deleted', 'defaults read', 'below limit', 'reopened', 'constructed', 'ezlist', 'ezlist with header', 'loaded',
            'flat documents', 'headers set', 'headers replaced', 'empty strings', 'covered cells'] + ['kind ' + k for k in KINDS]
ASSUMPTIONS = ['Levels below the limit are read as the limit; other values of loaded files are legal.',
               'Setting the target frame of a link also sets how it is shown, protecting sets a random key.']

# property: (attribute, type, default)
STR = 'str'
CATALOG = {
    'Span': {'style_name': ('text:style-name', STR, None)},
    'Paragraph': {'style_name': ('text:style-name', STR, None), 'cond_style_name': ('text:cond-style-name', STR, None), 'ID': ('text:id', STR, None)},
    'Heading': {'style_name': ('text:style-name', STR, None), 'outline_level': ('text:outline-level', 'limit', 1),
                'restart_numbering': ('text:restart-numbering', 'bool', False), 'suppress_numbering': ('text:is-list-header', 'bool', False),
                'start_value': ('text:start-value', 'start', None), 'formatted_number': ('text:number', 'number', None)},
    'Hyperlink': {'style_name': ('text:style-name', STR, None), 'name': ('office:name', STR, None), 'href': ('xlink:href', STR, None),
                  'target_frame': ('office:target-frame-name', 'frame', None)},
    'List': {'style_name': ('text:style-name', STR, None), 'continue_numbering': ('text:continue-numbering', 'bool', False)},
    'ListItem': {'start_value': ('text:start-value', 'start', None), 'formatted_number': ('text:number', 'number', None)},
    'NumberedParagraph': {'level': ('text:level', 'limit', 1), 'start_value': ('text:start-value', 'start', None),
                          'formatted_number': ('text:number', 'number', None)},
    'Section': {'style_name': ('text:style-name', STR, None), 'name': ('text:name', STR, None), 'protected': ('text:protected', 'protected', False)},
    'Table': {'name': ('table:name', 'tablename', None), 'style_name': ('table:style-name', STR, None), 'print_': ('table:print', 'bool', False),
              'protected': ('table:protected', 'protected', False)},
    'TableRow': {'style_name': ('table:style-name', STR, None), 'default_cell_style_name': ('table:default-cell-style-name', STR, None),
                 'visibility': ('table:visibility', 'visibility', 'visible')},
    'TableColumn': {'style_name': ('table:style-name', STR, None), 'default_cell_style_name': ('table:default-cell-style-name', STR, None),
                    'visibility': ('table:visibility', 'visibility', 'visible')},
    'Cell': {'style_name': ('table:style-name', STR, None), 'formula': ('table:formula', STR, None), 'protected': ('table:protect', 'bool', False),
             'content_validation_name': ('table:content-validation-name', STR, None)},
    'DrawingPage': {'name': ('draw:name', 'nonempty', None)},
    'Spaces': {'count': ('text:c', 'count', 1)},
}
DELETABLE = (STR, 'bool', 'limit')
KIND_OF = {'text:span': 'Span', 'text:p': 'Paragraph', 'text:h': 'Heading', 'text:a': 'Hyperlink', 'text:list': 'List', 'text:list-item': 'ListItem',
           'text:numbered-paragraph': 'NumberedParagraph', 'text:section': 'Section', 'table:table': 'Table', 'table:table-row': 'TableRow',
           'table:table-column': 'TableColumn', 'table:table-cell': 'Cell', 'table:covered-table-cell': 'Cell', 'draw:page': 'DrawingPage', 'text:s': 'Spaces'}
KIND_OF = dict((q(k), v) for k, v in KIND_OF.items())


def table_name(value):
    for x in '\t\r\'"':
        value = value.replace(x, ' ')
    return value.strip()


def from_xml(node, kind):
    """Independent reading of the properties from XML."""
    out = {}
    for prop, (attr, type_, default) in CATALOG[kind].items():
        if type_ == 'number':
            n = node.find(q(attr))
            out[prop] = None if n is None else n.text or ''
            continue
        raw = node.get(q(attr))
        if raw is None:
            out[prop] = default
        elif type_ in ('bool', 'protected'):
            out[prop] = raw == 'true'
        elif type_ == 'limit':
            out[prop] = max(1, int(raw))
        elif type_ in ('start', 'count'):
            out[prop] = int(raw)
        else:
            out[prop] = raw
    return out


def value_for(rng, type_):
    """(argument, value expected to be read, below limit)"""
    text = rng.choice(('Standard', 'P1', '\xc4 b', 'a&<>"\'b', ' x ', 'true', '0', 'of:=SUM([.A1:.B2])', 'http://x/?a=1&b=2#c', 'x' * 300, '\t', 'l\nm', '\r',
                       gen.text(rng, 10)))
    if type_ == STR:
        return text, text
    if type_ == 'nonempty':
        text = text or 'x'
        return text, text
    if type_ == 'frame':
        text = rng.choice(('_self', '_blank', '_parent', '_top', 'frame', '\xc4', 'my_blank', '_blank2', '_Blank', 'blank', '_blan')) if rng.random() < 0.8 else text or 'x'
        return text, text
    if type_ == 'tablename':
        if not table_name(text):
            text = 'N'
        return text, table_name(text)
    if type_ in ('bool', 'protected'):
        arg = rng.choice((True, False, True, False, 1, 0, 'yes', '', None, [], [0]))
        return arg, bool(arg)
    if type_ == 'visibility':
        v = rng.choice(('visible', 'collapse', 'filter'))
        return v, v
    if type_ == 'number':
        v = rng.choice(('1.', 'a)', '', '  ', '&', 5, 1.5, text))
        return v, str(v)
    n = rng.choice((1, 2, 3, 10, 999, 0, -1, -7, 2 ** 40))
    if type_ == 'count' and n > 1000:
        n = 7
    return rng.choice((n, n, str(n), float(n) if n < 2 ** 31 else n)), max(1, n)


class Run(object):
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.build()
        self.collect()

    # -------------------------------------------------------- documents
    def build(self):
        c, rng = self.c, self.rng
        self.kind = kind = rng.choice(('odt', 'odt', 'odt', 'ods', 'ods', 'odp', 'odg'))
        self.ext = kind
        r = rng.random()
        if r < 0.35:
            self.doc = lib.newdoc(kind)
        elif r < 0.7:
            self.doc = lib.open_by(rng.choice(('stream', 'bytes')), gen.package(rng, kind, hostile=0).tobytes())
            c.count('loaded')
        else:
            self.ext = 'f' + kind
            lib.write(c.path('source.' + self.ext), odf.xml(gen.flat_root(rng, kind)))
            self.doc = lib.opendoc(c.path('source.' + self.ext))
            c.count('loaded')
            c.count('flat documents')
        c.log(self.ext)
        if kind == 'ods':
            t = lib.Sheet(rng.choice(('A', 'B c', "it's", ' x')), (3, 3))
            self.doc.sheets.append(t)
            if rng.random() < 0.5:
                t.set_cell_span((0, 0), (2, 2))
                c.count('covered cells')
            self.constructed_cells(t)
        elif kind in ('odp', 'odg'):
            for name in ('P1', '\xc4 b'):
                p = lib.DrawingPage(name)
                c.same(p.name, name, 'name of a new page')
                self.doc.pages.append(p)
                p.append(lib.Paragraph('on the page'))
        else:
            for _ in range(rng.randint(2, 6)):
                self.doc.body.append(self.constructed())
        # elements as other programs write them
        if kind == 'odt' and rng.random() < 0.5:
            self.doc.body.append(wrap(E('text:h', {'text:outline-level': str(rng.randint(1, 9)), 'text:is-list-header': rng.choice(('true', 'false')),
                                                   'text:start-value': '4'}, E('text:number', {}, rng.choice('1a')))))
            self.doc.body.append(wrap(E('text:h')))
            self.doc.body.append(wrap(E('text:h', {'text:outline-level': rng.choice(('0', '-2', '1'))})))
            self.doc.body.append(wrap(E('text:numbered-paragraph', {'text:level': rng.choice(('0', '-1', '2'))}, E('text:p'))))
            self.doc.body.append(wrap(E('text:list', {'text:continue-numbering': rng.choice(('true', 'false'))}, E('text:list-item', {'text:start-value': '2'}))))
            self.doc.body.append(wrap(E('text:numbered-paragraph', {'text:level': '3'}, E('text:number'), E('text:p', {}, E('text:s', {'text:c': '3'}), E('text:s')))))

    def constructed_cells(self, t):
        rng, c = self.rng, self.c
        style = rng.choice((None, 'ce1'))
        cell = lib.Cell(rng.choice((1, 'x', True, None)), style_name=style)
        c.same(cell.style_name, style, 'style of a new cell')
        t[2, 2] = cell
        row = TableRow(4)
        c.same([x.tag for x in row.xmlnode], [q('table:table-cell')] * 4, 'cells of a new row')
        c.same(len(TableColumn()), 0, 'content of a new column')
        c.count('constructed')

    def items(self):
        rng = self.rng
        return [rng.choice(('', 'a', 'item', 'two  spaces', '\t', gen.text(rng, 8))) for _ in range(rng.choice((0, 1, 2, 3, 5)))]

    def constructed(self):
        """An element built by constructors, checked against what was given."""
        rng, c = self.rng, self.c
        style = rng.choice(('', '', 'S1', '\xc4'))
        text = rng.choice(('', 'text', 'a  b', 'a\tb\nc', gen.text(rng, 10)))
        what = rng.choice(('Paragraph', 'Heading', 'Hyperlink', 'Span', 'List', 'ezlist', 'ezlist', 'Section', 'NumberedParagraph', 'Table', 'Spaces', 'nested'))
        c.count('constructed')
        want = style or None
        if what == 'Paragraph':
            x = lib.Paragraph(text, style) if rng.random() < 0.5 else lib.Paragraph(style_name=style, text=text)
            self.expect(x, 'text:p', text, style_name=want, cond_style_name=None, ID=None)
        elif what == 'Heading':
            level = rng.choice((1, 2, 5, 0, -1, '3'))
            x = lib.Heading(text, level, style)
            self.expect(x, 'text:h', text, style_name=want, outline_level=max(1, int(level)), start_value=None, restart_numbering=False,
                        suppress_numbering=False, formatted_number=None)
        elif what in ('Hyperlink', 'Span'):
            x = lib.Paragraph('before ')
            if what == 'Span':
                y = lib.Span(text, style)
                self.expect(y, 'text:span', text, style_name=want)
            else:
                href = rng.choice(('http://x/?a&b', '#a|b', ''))
                y = lib.Hyperlink(href, text, style)
                self.expect(y, 'text:a', text, style_name=want, href=href or None, name=None, target_frame='_blank')
            x.append(y)
            c.ok(x[-1].xmlnode is y.xmlnode, 'appended element')
        elif what == 'Spaces':
            n = rng.choice((1, 2, 5, 0, -3))
            s = lib.Spaces(n)
            c.same(s.count, max(1, n), 'count of new spaces')
            x = lib.Paragraph('a')
            x.append(s)
        elif what == 'List':
            x = lib.List(style)
            c.same(x.style_name, want, 'style of a new list')
            c.same((len(x), x.header, x.continue_numbering), (0, None, False), 'new list')
            items = self.items()
            objects = [lib.ListItem(i) for i in items]
            for o in objects:
                c.same(x.append(o), o, 'result of append')
            self.items_of(x, items)
        elif what == 'ezlist':
            items = self.items()
            header = rng.choice(('', 'head', 'two  spaces'))
            given = rng.choice((list, tuple, iter, lambda y: (z for z in y)))(items)
            r = rng.random()
            if r < 0.4:
                x = lib.ezlist(given, header, style)
            elif r < 0.7:
                x = lib.ezlist(items=given, style_name=style, header=header)
            else:
                header, style, want = '', '', None
                x = lib.ezlist(given)
            c.same(x.style_name, want, 'style of ezlist()')
            self.items_of(x, items)
            if header:
                c.same(x.header.plaintext(), header, 'header of ezlist()')
                c.same([n.tag for n in x.xmlnode], [q('text:list-header')] + [q('text:list-item')] * len(items), 'content of ezlist()')
                c.count('ezlist with header')
            else:
                c.same(x.header, None, 'header of ezlist()')
                c.same([n.tag for n in x.xmlnode], [q('text:list-item')] * len(items), 'content of ezlist()')
            c.count('ezlist')
        elif what == 'Section':
            name = rng.choice(('', 'S', '\xc4 b'))
            x = lib.Section(name, style)
            c.same((x.name, x.style_name, x.protected, len(x)), (name or None, want, False, 0), 'new section')
            x.append(lib.Paragraph('in the section'))
        elif what == 'NumberedParagraph':
            p = rng.choice((lambda: lib.Paragraph(text), lambda: lib.Heading(text), lambda: None))()
            x = lib.NumberedParagraph(p)
            c.same((x.level, x.start_value, x.formatted_number, len(x)), (1, None, None, 0 if p is None else 1), 'new numbered paragraph')
            if p is not None:
                c.ok(x.content.xmlnode is p.xmlnode, 'content of a new numbered paragraph')
            else:
                y = x.content
                c.ok(x.content.xmlnode is y.xmlnode and y.kind == 'Paragraph' and len(x) == 1, 'created content of a numbered paragraph')
        elif what == 'Table':
            name = rng.choice(('T', 'a b', "it's", ' x\t'))
            size = (rng.randint(1, 3), rng.randint(1, 3))
            x = lib.Table(name, size) if rng.random() < 0.7 else lib.Table(name=name, size=size)
            c.same((x.name, x.nrows(), x.ncols(), x.style_name, x.protected), (table_name(name),) + size + (None, False), 'new table')
        else:
            x = lib.ezlist(['outer'])
            inner = lib.ezlist(['inner', 'second'], style_name='L2')
            x[0].append(inner)
            self.items_of(inner, ['inner', 'second'])
            c.same(len(list(x.iteritems())), 1, 'items of the outer list')
        return x

    def expect(self, x, tag, text, **props):
        self.c.same(x.xmlnode.tag, q(tag), 'tag')
        self.c.same(x.plaintext(), text, 'text of a new element')
        for name, value in props.items():
            self.c.same(getattr(x, name), value, '%s of a new %s' % (name, x.kind))

    def items_of(self, x, items):
        c = self.c
        found = list(x.iteritems())
        c.same([i.plaintext() for i in found], items, 'items of a list')
        c.same([i.kind for i in found], ['ListItem'] * len(items), 'kinds of the items')
        for i, text in zip(found, items):
            c.same([n.tag for n in i.xmlnode], [q('text:p')] if text else [], 'content of a list item')

    # -------------------------------------------------------- model
    def collect(self):
        body = self.doc.body.xmlnode
        for n in list(body.iter(q('table:table'))):
            wrap(n)
        self.nodes = [n for n in body.iter() if n.tag in KIND_OF]
        if len(self.nodes) > 90:
            keep = self.rng.sample(range(len(self.nodes)), 70)
            self.nodes = [self.nodes[i] for i in sorted(set(keep) | set(range(len(self.nodes) - 20, len(self.nodes))))]
        self.paths = [path_of(n, body) for n in self.nodes]
        self.kinds = [KIND_OF[n.tag] for n in self.nodes]
        self.handles = [wrap(n) for n in self.nodes]
        self.model = [from_xml(n, k) for n, k in zip(self.nodes, self.kinds)]
        for h, k, n in zip(self.handles, self.kinds, self.nodes):
            self.c.same(h.kind, k, 'kind of the object for %s' % odf.pretty(n.tag))
            self.c.count('kind ' + k)
        self.compare(self.handles, 'in the beginning')

    def compare(self, handles, when):
        c = self.c
        for i, (h, k, m) in enumerate(zip(handles, self.kinds, self.model)):
            for prop, want in m.items():
                got = getattr(h, prop)
                if got != want or type(got) is not type(want):
                    c.fail('%s: %s of %s %d is %r instead of %r' % (when, prop, k, i, got, want))
                if want == CATALOG[k][prop][2]:
                    c.count('defaults read')
            c.observations += 1

    def others(self, i, attrs, children):
        """XML of the body without the given attributes and children of element i."""
        return frame(self.doc.body.xmlnode, self.nodes[i], attrs, children)

    def set(self):
        c, rng = self.c, self.rng
        i = rng.randrange(len(self.nodes))
        kind = self.kinds[i]
        prop = rng.choice(sorted(CATALOG[kind]))
        attr, type_, default = CATALOG[kind][prop]
        attrs = {q(attr)}
        children = {q('text:number')} if type_ == 'number' else set()
        if type_ == 'frame':
            attrs.add(q('xlink:show'))
        if type_ == 'protected':
            attrs.add(q(attr.split(':')[0] + ':protection-key'))
        obj = self.handles[i] if rng.random() < 0.6 else wrap(self.nodes[i])
        before = self.others(i, attrs, children)
        if type_ in DELETABLE and q(attr) in self.nodes[i].attrib and rng.random() < 0.15:
            delattr(obj, prop)
            self.model[i][prop] = default
            c.ok(q(attr) not in self.nodes[i].attrib, 'deleted property %s is still stored' % prop)
            c.count('properties deleted')
            label = 'del %s.%s' % (kind, prop)
        else:
            arg, want = value_for(rng, type_)
            key = self.nodes[i].get(q(attr.split(':')[0] + ':protection-key'))
            setattr(obj, prop, arg)
            self.model[i][prop] = want
            c.count('properties set')
            if want == '':
                c.count('empty strings')
            if type_ in ('limit', 'start', 'count') and int(arg) < 1:
                c.count('below limit')
            label = '%s.%s = %r' % (kind, prop, arg)
            if type_ == 'protected' and want:
                c.ok(self.nodes[i].get(q(attr.split(':')[0] + ':protection-key')) not in (None, '', key), 'no new key for a protected ' + kind)
            if type_ == 'frame':
                c.same(self.nodes[i].get(q('xlink:show')), 'new' if want == '_blank' else 'replace', 'how a link is shown')
        c.log(label)
        after = self.others(i, attrs, children)
        c.ok(before == after, '%s changed something else' % label)
        self.compare(self.handles, label)

    def header(self):
        c, rng = self.c, self.rng
        lists = [i for i, k in enumerate(self.kinds) if k == 'List']
        if not lists:
            return self.set()
        i = rng.choice(lists)
        obj = wrap(self.nodes[i])
        had = obj.header is not None
        before = self.others(i, set(), {q('text:list-header')})
        h = lib.ListHeader(rng.choice(('head', 'x  y', '')))
        text = h.plaintext()
        obj.header = h
        c.ok(obj.header.xmlnode is h.xmlnode, 'header of the list')
        c.same(obj.header.plaintext(), text, 'text of the header')
        c.same([n.tag == q('text:list-header') for n in obj.xmlnode], [True] + [False] * (len(obj) - 1), 'place of the header')
        c.ok(self.others(i, set(), {q('text:list-header')}) == before, 'setting a header changed something else')
        c.count('headers replaced' if had else 'headers set')
        c.log('header')
        nodes = set(self.doc.body.xmlnode.iter())
        keep = [j for j, n in enumerate(self.nodes) if n in nodes]      # without the elements of the replaced header
        self.nodes, self.kinds, self.handles, self.model = ([x[j] for j in keep] for x in (self.nodes, self.kinds, self.handles, self.model))
        self.paths = [path_of(n, self.doc.body.xmlnode) for n in self.nodes]
        self.compare(self.handles, 'new list header')

    def reopen(self):
        c, rng = self.c, self.rng
        path = c.path('out.' + self.ext)
        self.paths = [path_of(n, self.doc.body.xmlnode) for n in self.nodes]
        if rng.random() < 0.6:
            self.doc.saveas(path)
            data = lib.read(path)
        else:
            data = self.doc.tobytes()
            lib.write(path, data)
        # what is written, by an independent reader
        r = odf.parse(odf.read_package(data)['content.xml'] if data[:2] == b'PK' else data)
        body = r.find(q('office:body')).find(q(odf.BODY[self.kind]))
        for p, k, m in zip(self.paths, self.kinds, self.model):
            c.same(from_xml(at(body, p), k), m, 'written properties of a ' + k)
        self.doc = lib.open_by(rng.choice(lib.ROUTES), data, path) if data[:2] == b'PK' else lib.opendoc(path)
        body = self.doc.body.xmlnode
        for n in list(body.iter(q('table:table'))):
            wrap(n)
        self.nodes = [at(body, p) for p in self.paths]
        self.handles = [wrap(n) for n in self.nodes]
        self.compare(self.handles, 'reopened')
        c.count('reopened')


def path_of(node, body):
    out = []
    while node is not body:
        out.append(node.getparent().index(node))
        node = node.getparent()
    return out[::-1]


def at(node, path):
    for i in path:
        node = node[i]
    return node


def frame(el, target, attrs, children):
    if not isinstance(el.tag, str):
        return odf.canon(el)
    mine = el is target
    pieces = [el.text or '']
    for x in el:
        if mine and x.tag in children:
            if x.tag == q('text:number'): # text stays where it was, in front of or behind the number
                pieces[-1] += x.tail or ''
        else:
            pieces += [frame(x, target, attrs, children), x.tail or '']
    return (el.tag, tuple(sorted(x for x in el.attrib.items() if not (mine and x[0] in attrs))), tuple(pieces))


def case(c):
    rng = c.rng
    run = Run(c)
    for _ in range(rng.randint(8, 25)):
        r = rng.random()
        if not run.nodes:
            break
        if r < 0.87:
            run.set()
        elif r < 0.93:
            run.header()
        else:
            run.reopen()
        if rng.random() < 0.05:
            gc.collect()
    run.reopen()
