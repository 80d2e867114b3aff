"""C31: what is valid OpenDocument stays valid."""
import copy
import io
import zipfile

from lxml import etree
from vlib import gen, lib, odf, schema
from vlib.odf import E, q

PROPERTY = 'C31'
LEVEL = 'exploration'
TECHNIQUE = 'runtime monitoring: every part of every document is validated against the OASIS schema (RelaxNG) while it is edited and saved'
RULE = ('Documents of all types, new ones and ones sampled at random from the schema itself (so of its whole vocabulary), packaged and flat, are edited by '
        'random histories of documented operations with permitted arguments. After every operation the whole trees, and at the end the saved '
        'and reopened parts are valid against the (strict) schema of OpenDocument 1.1 of OASIS.')
CASES = {'quick': 5000, 'thorough': 60000}
REQUIRED = ['sampled', 'new documents', 'flat', 'packaged', 'opened', 'validated', 'reopened', 'moved', 'groups', 'kind odt', 'kind ods', 'kind odp', 'kind odg',
            'op block', 'op text', 'op cell', 'op size', 'op span', 'op sheets', 'op pages', 'op style', 'op meta', 'op list', 'op number', 'op variable',
            'op attributes', 'op header', 'op settings']
ASSUMPTIONS = ['Attributes of OpenDocument 1.2 the library writes (grddl:transformation), and the value type noted where a variable is shown, do not count.',
               'Operations the standard has no place for (a paragraph between sheets, an unknown style attribute value) are the responsibility of the caller '
               'and not made.']
CONTENT = [q(x) for x in ('text:p', 'text:h', 'text:list', 'table:table', 'text:section', 'text:numbered-paragraph')]
SHOWN = [q(x) for x in ('text:variable-get', 'text:user-field-get', 'text:user-field-input')]


def invalid(root):
    root = etree.fromstring(etree.tostring(root) if not isinstance(root, bytes) else root)
    for e in root.iter(*SHOWN):
        for name in [a for a in e.attrib if a == q('office:value-type')]:
            del e.attrib[name]
    found = schema.problems(root)
    body = root.find(q('office:body'))
    if not found or body is None or not len(body):
        return found
    # libxml2 gets lost in large documents: what it finds has to be wrong on one sheet or page alone
    several = [x for x in body[0] if x.tag in (q('table:table'), q('draw:page'))]
    if len(several) < 2:
        return found
    for x in several:
        one = copy.deepcopy(root)
        content = one.find(q('office:body'))[0]
        same = [y for y in content if y.tag in (q('table:table'), q('draw:page'))]
        for y in same:
            if same.index(y) != several.index(x):
                content.remove(y)
        alone = schema.problems(one)
        if alone:
            return alone
    return []


class Editor(object):
    def __init__(self, c, doc, kind):
        self.c, self.rng, self.doc, self.kind = c, c.rng, doc, kind

    def roots(self):
        d = self.doc
        return [d.xmlnode] if isinstance(d, lib.FlatXMLDocument) else [d.content.xmlnode, d.styles.xmlnode, d.meta.xmlnode]

    def wrap(self, node):
        from ezodf.xmlns import wrap
        return wrap(node)

    def nodes(self, *tags):
        return list(self.doc.body.xmlnode.iter(*[q(t) for t in tags]))

    def pick(self, *tags):
        found = self.nodes(*tags)
        return self.wrap(self.rng.choice(found)) if found else None

    def name(self):
        return self.rng.choice(('Standard', 'N1', 'P_2', 'a.b', '\u00c4'))

    # ------------------------------------------------------------ text
    def new_block(self, depth=0):
        rng = self.rng
        what = rng.randrange(6 if depth < 2 else 2)
        if what == 0:
            x = lib.Paragraph(gen.text(rng), style_name=rng.choice(('', self.name())))
        elif what == 1:
            x = lib.Heading(gen.text(rng), outline_level=rng.randint(1, 9), style_name=rng.choice(('', self.name())))
        elif what == 2:
            x = lib.ezlist([gen.text(rng, minlen=1) for _ in range(rng.randint(0, 3))], header=rng.choice(('', 'head')), style_name=rng.choice(('', self.name())))
        elif what == 3:
            x = lib.Section(name=gen.plain(rng) or 'S', style_name=rng.choice(('', self.name())))
            for _ in range(rng.randint(0, 2)):
                x.append(self.new_block(depth + 1))
        elif what == 4:
            x = lib.Table(gen.label(rng), size=(rng.randint(1, 3), rng.randint(1, 3)))
        else:
            x = lib.NumberedParagraph(lib.Paragraph(gen.text(rng)))
            x.level = rng.randint(1, 4)
        return x

    def containers(self):
        """What takes any text content at its end."""
        out = [self.wrap(x) for x in self.nodes('text:section') if not self.odd(x)]
        if self.kind == 'odt' and not self.odd(self.doc.body.xmlnode):
            out += [self.doc.body] * 3
        return out

    @staticmethod
    def odd(x):
        """Not made of text content only, at its end."""
        if x.find(q('text:page-sequence')) is not None:
            return True
        return False

    def op_block(self):
        rng = self.rng
        found = self.containers()
        if not found:
            return False
        where = rng.choice(found)
        kids = [k for k in where.xmlnode if k.tag in CONTENT]
        how = rng.choice(('append', 'append', 'insert', 'insert', 'remove', 'replace', 'before', 'delete', 'set', 'move'))
        if how == 'append' or not kids:
            where.append(self.new_block())
            return True
        k = rng.choice(kids)
        at = where.index(self.wrap(k))
        if how == 'insert':
            where.insert(at, self.new_block())
        elif how == 'before':
            where.insert_before(self.wrap(k), self.new_block())
        elif how == 'remove':
            where.remove(self.wrap(k))
        elif how == 'delete':
            del where[at]
        elif how == 'replace':
            where.replace(self.wrap(k), self.new_block())
        elif how == 'set':
            where[at] = self.new_block()
        else:
            target = rng.choice(found)
            x = target.xmlnode
            while x is not None and x is not k:
                x = x.getparent()
            if x is None:
                target.append(self.wrap(k))
        return True

    def op_text(self):
        rng = self.rng
        p = self.pick('text:p', 'text:h')
        if p is None:
            return False
        what = rng.randrange(4)
        if what == 0:
            p.append_text(gen.text(rng))
        elif what == 1:
            p.append(lib.Span(gen.text(rng), style_name=rng.choice(('', self.name()))))
        elif what == 2:
            a = lib.Hyperlink('http://example.org', gen.text(rng), style_name=rng.choice(('', self.name())))
            a.name = gen.plain(rng)
            if rng.random() < 0.5:
                a.target_frame = rng.choice(('_blank', '_self', '_parent', '_top'))
            p.append(a)
        else:
            p.append(rng.choice((lib.Spaces(rng.randint(1, 5)), lib.Tabulator(), lib.LineBreak(), lib.SoftPageBreak())))
        return True

    def op_list(self):
        rng = self.rng
        what = rng.randrange(4)
        if what < 2:
            x = self.pick('text:list')
            if x is None:
                return False
            if what == 0:
                x.append(lib.ListItem(gen.text(rng)))
            else:
                x.header = lib.ListHeader(gen.text(rng))
            return True
        x = self.pick('text:list-item')
        if x is None:
            return False
        x.append(rng.choice((lib.Paragraph('p'), lib.Heading('h'), lib.ezlist(['a', 'b']))))
        return True

    def op_number(self):
        rng = self.rng
        x = self.pick('text:h', 'text:list-item', 'text:numbered-paragraph')
        if x is None:
            return False
        if rng.random() < 0.4:
            x.start_value = rng.randint(1, 9)
        else:
            x.formatted_number = rng.choice(('1.', '#2', 'IV'))
        return True

    def op_attributes(self):
        rng = self.rng
        x = self.pick('text:p', 'text:h', 'text:section', 'text:list', 'text:numbered-paragraph', 'table:table', 'text:span')
        if x is None:
            return False
        for name in {'Paragraph': ('style_name', 'cond_style_name'), 'Heading': ('style_name', 'outline_level', 'restart_numbering', 'suppress_numbering'),
                     'Section': ('style_name', 'name', 'protected'), 'List': ('style_name', 'continue_numbering'), 'NumberedParagraph': ('level', 'content'),
                     'Table': ('style_name', 'name', 'protected', 'print_'), 'Span': ('style_name',)}.get(x.kind, ()):
            if rng.random() < 0.5:
                if name == 'content':
                    x.content.append_text('x')
                elif name in ('outline_level', 'level'):
                    setattr(x, name, rng.randint(-1, 10))
                elif name in ('protected', 'print_', 'continue_numbering', 'restart_numbering', 'suppress_numbering'):
                    setattr(x, name, rng.random() < 0.5)
                else:
                    setattr(x, name, self.name())
        return True

    # ------------------------------------------------------------ tables
    def table(self):
        t = self.pick('table:table')
        if t is None or not t.nrows() or not t.ncols():
            return None
        if t.xmlnode.find(q('table:table-row-group')) is not None or t.xmlnode.find(q('table:table-header-rows')) is not None:
            self.c.count('groups')
        return t

    def op_cell(self):
        rng = self.rng
        t = self.table()
        if t is None:
            return False
        pos = rng.randrange(t.nrows()), rng.randrange(t.ncols())
        cell = t[pos]
        what = rng.randrange(8)
        if what < 4:
            self.value(cell)
        elif what == 4:
            new = lib.Cell(rng.choice((1, 'x', True, None)), style_name=rng.choice((None, self.name())))
            if not cell.covered and cell.span == (1, 1):
                t[pos] = new
        elif what == 5:
            cell.formula = rng.choice(('of:=1+1', '=A1'))
            cell.style_name = self.name()
            cell.protected = rng.random() < 0.5
            cell.content_validation_name = 'val1'
        elif what == 6 and cell.value_type not in (None, 'string'):
            cell.display_form = gen.text(rng)
        elif what == 7 and cell.value_type == 'string' and not any(x.tag in (q('text:a'),) for x in cell.xmlnode):
            cell.append_text(gen.text(rng), style_name=rng.choice((None, self.name())))
        return True

    def value(self, cell):
        rng = self.rng
        what = rng.randrange(9)
        if what == 0:
            cell.set_value(gen.text(rng))
        elif what == 1:
            cell.set_value(rng.choice((0, -7, 1.5, 1e300, 12345678901234567890)))
        elif what == 2:
            cell.set_value(rng.random() < 0.5)
        elif what == 3:
            cell.set_value(rng.random(), 'percentage')
        elif what == 4:
            cell.set_value(3.5, currency=rng.choice(('EUR', 'USD')))
        elif what == 5:
            cell.set_value(rng.choice(('2011-01-29', '2011-01-29T10:11:12')), 'date')
        elif what == 6:
            cell.set_value('PT1H2M3S', 'time')
        elif what == 7:
            cell.set_value(rng.choice((lib.Paragraph('p'), lib.Heading('h'))))
        else:
            cell.set_value('text', 'string')

    def op_size(self):
        rng = self.rng
        t = self.table()
        if t is None:
            return False
        op = rng.choice(('append_rows', 'insert_rows', 'delete_rows', 'delete_rows', 'append_columns', 'insert_columns', 'delete_columns', 'reset', 'clear'))
        rows = 'rows' in op
        if rng.random() < 0.3 and t.xmlnode.find(q('table:named-expressions')) is None:
            t.xmlnode.append(E('table:named-expressions'))
        if op == 'reset':
            if rng.random() < 0.3:
                t.reset(size=(rng.randint(1, 4), rng.randint(1, 4)))
        elif op == 'clear':
            if rng.random() < 0.3:
                t.clear()
        elif op.startswith('append'):
            getattr(t, op)(rng.randint(1, 3))
        else:
            n = t.nrows() if rows else t.ncols()
            count = rng.randint(1, max(1, n - 1)) if op.startswith('delete') else rng.randint(1, 2)
            if op.startswith('delete') and n < 2:
                return False
            getattr(t, op)(rng.randint(0, n - count) if op.startswith('delete') else rng.randrange(n), count)
        return True

    def op_span(self):
        rng = self.rng
        t = self.table()
        if t is None:
            return False
        pos = rng.randrange(t.nrows()), rng.randrange(t.ncols())
        if rng.random() < 0.3:
            t.remove_cell_span(pos)
        else:
            try:
                t.set_cell_span(pos, (rng.randint(1, 3), rng.randint(1, 3)))
            except ValueError:
                pass
        return True

    def op_header(self):
        rng = self.rng
        t = self.table()
        if t is None:
            return False
        x = t.row_info(rng.randrange(t.nrows())) if rng.random() < 0.5 else t.column_info(rng.randrange(t.ncols()))
        x.visibility = rng.choice(('visible', 'collapse', 'filter'))
        x.style_name = self.name()
        x.default_cell_style_name = self.name()
        return True

    # ------------------------------------------------------------ sheets and pages
    def op_sheets(self):
        rng = self.rng
        if not hasattr(self.doc, 'sheets'):
            return False
        s = self.doc.sheets
        how = rng.choice(('append', 'append', 'insert', 'delete', 'copy', 'set', 'from', 'name', 'move'))
        new = lib.Sheet(gen.label(rng), size=(rng.randint(1, 4), rng.randint(1, 4)))
        if how == 'append' or not len(s):
            s += new
        elif how == 'insert':
            s.insert(rng.randint(-1, len(s)), new)
        elif how == 'delete':
            del s[rng.randrange(len(s))]
        elif how == 'copy':
            s += s[rng.randrange(len(s))].copy(rng.choice((None, 'copy')))
        elif how == 'set':
            s[rng.randrange(len(s))] = new
        elif how == 'name':
            s[rng.randrange(len(s))].name = gen.label(rng)
        elif how == 'move':
            x = s[rng.randrange(len(s))]
            s.insert(rng.randrange(len(s)), x)
        else:
            other = self.doc.__class__ and lib.newdoc('ods')
            other.sheets += lib.Sheet('other', size=(2, 2))
            other.sheets[0][0, 0].set_value('moved')
            s.insert(0, other.sheets[0])
            self.c.count('moved')
        return True

    def op_pages(self):
        rng = self.rng
        if not hasattr(self.doc, 'pages'):
            return False
        p = self.doc.pages
        how = rng.choice(('append', 'append', 'insert', 'delete', 'set', 'name'))
        new = (lib.PresentationPage if self.kind == 'odp' else lib.DrawingPage)(gen.label(rng))
        new.set_attr(q('draw:master-page-name'), self.name()) # a page has to have one
        if how == 'append' or not len(p):
            p += new
        elif how == 'insert':
            p.insert(rng.randint(-1, len(p)), new)
        elif how == 'delete':
            del p[rng.randrange(len(p))]
        elif how == 'set':
            p[rng.randrange(len(p))] = new
        else:
            p[rng.randrange(len(p))].name = gen.label(rng)
        return True

    # ------------------------------------------------------------ everything else
    def op_variable(self):
        rng = self.rng
        body = self.doc.body
        which = rng.choice((body.variables, body.userfields))
        if self.kind in ('odt', 'ods', 'odp', 'odg') and rng.random() < 0.4:
            if which is body.variables:
                which.append(self.wrap(E('text:variable-decl', {'text:name': 'v%d' % rng.randint(0, 3), 'office:value-type': 'string'})))
            else:
                which.append(self.wrap(E('text:user-field-decl', {'text:name': 'v%d' % rng.randint(0, 3), 'office:value-type': 'string', 'office:string-value': 'a'})))
        names = [x.get(q('text:name')) for x in which.xmlnode if isinstance(x.tag, str)]
        if not names:
            return False
        name = rng.choice(names)
        p = self.pick('text:p')
        if p is not None and rng.random() < 0.5:
            if which is body.variables:
                p.append(self.wrap(E('text:variable-set', {'text:name': name, 'office:value-type': 'string'})))
            else:
                p.append(self.wrap(E('text:user-field-get', {'text:name': name})))
        which[name].value = rng.choice((1, 2.5, True, gen.text(rng)))
        return True

    def op_style(self):
        rng, doc = self.rng, self.doc
        flat = isinstance(doc, lib.FlatXMLDocument)
        styles = doc.styles if flat else doc.styles.styles
        name = 'S%d' % rng.randint(0, 9)
        what = rng.randrange(4)
        if what == 0:
            doc.inject_style('<style:style style:name="%s" style:family="paragraph"><style:text-properties fo:color="#ff0000"/></style:style>' % name)
        elif what == 1:
            found = [s for s in styles.xmlnode if s.tag == q('style:style')]
            if not found:
                return False
            s = self.wrap(rng.choice(found))
            s['display-name'] = gen.plain(rng)
            s['parent-style-name'] = self.name()
        elif what == 2:
            from ezodf.xmlns import fake_element
            styles[name] = fake_element('<style:style style:name="%s" style:family="text"/>' % name)
        else:
            auto = doc.automatic_styles if flat else doc.styles.automatic_styles
            found = [s for s in auto.xmlnode if s.tag == q('style:page-layout')]
            if found:
                layout = self.wrap(rng.choice(found))
            else:
                layout = self.wrap(E('style:page-layout', {'style:name': name}))
                auto['none'] = layout
            (layout.header if rng.random() < 0.5 else layout.footer)
            layout['page-usage'] = rng.choice(('all', 'left', 'right', 'mirrored'))
        return True

    def op_meta(self):
        rng, m = self.rng, self.doc.meta
        for _ in range(rng.randint(1, 3)):
            what = rng.randrange(7)
            if what == 0:
                m[rng.choice(('title', 'description', 'subject', 'creator', 'initial-creator', 'generator'))] = gen.text(rng)
            elif what == 1:
                m[rng.choice(('date', 'creation-date'))] = '2011-01-29T10:11:12'
                m['language'] = 'en'
                m['editing-cycles'] = '7'
            elif what == 2:
                m.keywords.add(gen.plain(rng))
                m.keywords.remove(gen.plain(rng))
            elif what == 3:
                m.usertags[gen.plain(rng) or 'n'] = gen.text(rng)
                v, t = rng.choice((('1.5', 'float'), ('true', 'boolean'), ('2011-01-29', 'date'), ('text', 'string'), ('PT1H', 'time')))
                m.usertags.set('typed', v, t)
            elif what == 4:
                m.count[rng.choice(sorted(m.count.TYPES))] = rng.choice((0, 1, rng.randint(0, 99)))
            elif what == 5:
                rng.choice((m.keywords.clear, m.usertags.clear, m.count.clear))()
            elif rng.random() < 0.3:
                m.clear()
        return True

    def op_settings(self):
        if not isinstance(self.doc, lib.FlatXMLDocument):
            return False
        s = self.doc.settings
        if not len(s):
            s.append(self.wrap(E('config:config-item-set', {'config:name': 'ooo:view'}, E('config:config-item', {'config:name': 'a', 'config:type': 'string'}, text='v'))))
        return True


TEXT = ['block'] * 5 + ['text'] * 3 + ['list', 'list', 'number', 'number', 'attributes', 'variable', 'variable', 'cell', 'size', 'span', 'header']
OPS = {'odt': TEXT, 'ods': ['sheets'] * 3 + ['cell'] * 4 + ['size'] * 5 + ['span', 'span', 'header', 'text', 'attributes', 'variable'],
       'odp': ['pages'] * 3 + ['text', 'list', 'number', 'cell', 'size', 'attributes', 'variable'],
       'odg': ['pages'] * 3 + ['text', 'list', 'number', 'cell', 'size', 'attributes', 'variable']}
ALL = ['style', 'style', 'meta', 'meta', 'settings']


def parts_of(data, flat):
    if flat:
        return [('document', data)]
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return [(n, z.read(n)) for n in ('content.xml', 'styles.xml', 'meta.xml')]


def case(c):
    rng = c.rng
    kind = rng.choice(('odt', 'odt', 'ods', 'ods', 'odp', 'odg'))
    flat = rng.random() < 0.25
    c.count('flat' if flat else 'packaged')
    c.count('kind ' + kind)
    if rng.random() < 0.25:
        doc = lib.FlatXMLDocument(kind) if flat else lib.newdoc(kind)
        c.count('new documents')
        origin = 'new'
    else:
        c.count('sampled')
        origin = 'sampled'
        if flat:
            data = odf.xml(schema.sampled(rng, 'office:document', kind))
            lib.write(c.path('in.f' + kind), data)
            doc = lib.opendoc(c.path('in.f' + kind))
        else:
            p = gen.package(rng, kind, hostile=0)
            for name, tag in (('content.xml', 'office:document-content'), ('styles.xml', 'office:document-styles'), ('meta.xml', 'office:document-meta')):
                p.members[name] = odf.xml(schema.sampled(rng, tag, kind if name == 'content.xml' else None))
            data = p.tobytes()
            lib.write(c.path('in.' + kind), data)
            doc = lib.open_by(rng.choice(lib.ROUTES), data, c.path('in.' + kind))
    e = Editor(c, doc, kind)
    c.log(origin, kind, 'flat' if flat else 'packaged')

    def look(what):
        for root in e.roots():
            p = invalid(root)
            c.ok(not p, 'invalid after %s: %s' % (what, ' / '.join(p)))
        c.count('validated', len(e.roots()))

    look('opening')
    c.count('opened')
    for _ in range(rng.randint(2, 9)):
        op = rng.choice(OPS[kind] + ALL)
        c.log(op)
        if getattr(e, 'op_' + op)():
            c.count('op ' + op)
            look(op)
    for n in range(rng.choice((1, 1, 2))):
        if rng.random() < 0.5:
            target = c.path('out%d.%s%s' % (n, 'f' if flat else '', kind))
            e.doc.saveas(target)
            data = lib.read(target)
        else:
            data = e.doc.tobytes()
            target = data
            if flat:
                target = c.path('bytes.f' + kind)
                lib.write(target, data)
        for name, part in parts_of(data, flat):
            p = invalid(part)
            c.ok(not p, 'invalid %s written: %s' % (name, ' / '.join(p)))
        e.doc = lib.opendoc(target)
        look('reopening')
        c.count('reopened')
        op = rng.choice(OPS[kind] + ALL)
        c.log(op)
        if getattr(e, 'op_' + op)():
            c.count('op ' + op)
            look(op)
