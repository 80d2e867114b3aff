"""C09: cell values read back as written, with their type, and persist."""
from ezodf.xmlns import wrap
from vlib import gen, lib, odf, tables
from vlib.odf import E, q

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('Random histories of set_value with every type (given or determined), currencies, text of any white space, '
        'paragraphs and headings as value, display forms, appended text, style, formula, protection and validation '
        'changes, refused calls, cell replacement and reopening on cells of new tables, stand-alone cells and loaded '
        'cells which carry left-overs of every value type. After every step value, type, currency, plain text, display '
        'form and the other properties equal a model, and the value attributes of the cells in the saved file are '
        'exactly those of the last value.')
CASES = {'quick': 2500, 'thorough': 90000}
REQUIRED = ['cells compared', 'file cells compared', 'set string', 'set float', 'set boolean', 'set currency',
            'set percentage', 'set date', 'set time', 'set paragraph', 'set heading', 'display form', 'append text',
            'style', 'formula', 'refused', 'reopened', 'type changed', 'loaded cells', 'constructor', 'stand-alone', 'display form beside annotations',
            'append text with style', 'formatted value free', 'formatted value other cell', 'formatted value text', 'formatted value own']
OFFICE = '{%s}' % odf.NS['office']
PLAIN = [q(t) for t in ('text:span', 'text:s', 'text:tab', 'text:line-break', 'text:a', 'text:bookmark')]
NUMERIC = ('float', 'percentage', 'currency')


class M(object):
    """Expected state of a cell."""

    def __init__(self):
        self.type = self.currency = self.style = self.formula = self.validation = None
        self.protected = False
        self.attr = None       # value of the value attribute
        self.paras = []        # texts of the paragraphs
        self.extras = []       # other content (annotations, shapes)
        self.closed = False    # the last child is no paragraph

    def value(self):
        if self.type == 'string':
            return '\n'.join(self.paras)
        return self.attr

    def text(self):
        return '\n'.join(self.paras)


def same_number(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return repr(a) == repr(b)       # -0.0 is not 0.0, NaN is NaN
    return a == b


def check(c, cell, m, what):
    c.same(cell.value_type, m.type, what + ': type')
    v = cell.value
    want = m.value()
    c.ok(same_number(v, want) and type(v) is type(want), what + ': value', got=v, want=want)
    c.same(cell.currency, m.currency, what + ': currency')
    c.same(cell.plaintext(), m.text(), what + ': plaintext')
    c.same(cell.display_form, m.text(), what + ': display form')
    c.same((cell.style_name, cell.formula, cell.protected, cell.content_validation_name),
           (m.style, m.formula, m.protected, m.validation), what + ': other properties')
    c.count('cells compared')


def check_el(c, el, m, what):
    """The cell in the saved file."""
    attrs = dict((k[len(OFFICE):], v) for k, v in el.attrib.items() if k.startswith(OFFICE))
    want = set()
    if m.type is not None:
        want.add('value-type')
        if m.attr is not None and m.type != 'string':
            want.add(tables.VALUE_ATTR[m.type].split(':')[1])
        if m.currency is not None:
            want.add('currency')
    c.same(sorted(set(attrs) - {'string-value'} if m.loaded else attrs), sorted(want), what + ': attributes in the file')
    if m.type is not None:
        c.same(attrs['value-type'], m.type, what + ': type in the file')
        if m.type in NUMERIC and m.attr is not None:
            c.ok(same_number(float(attrs['value']), m.attr), what + ': value in the file', got=attrs['value'], want=m.attr)
        elif m.type == 'boolean' and m.attr is not None:
            c.same(attrs['boolean-value'], 'true' if m.attr else 'false', what + ': value in the file')
        elif m.type in ('date', 'time') and m.attr is not None:
            c.same(attrs[m.type + '-value'], m.attr, what + ': value in the file')
    c.same(attrs.get('currency'), m.currency, what + ': currency in the file')
    if not m.loaded:
        c.same([tables.text_of(p) for p in el if p.tag in (q('text:p'), q('text:h'))], m.paras,
               what + ': paragraphs in the file')
    c.same([odf.canon(x) for x in el if x.tag not in (q('text:p'), q('text:h'))], m.extras, what + ': annotations and shapes in the file')
    c.count('file cells compared')


def new_value(rng):
    """(arguments of set_value, type, attribute, paragraphs, currency, counter)"""
    number = rng.choice((0, 1, -1, 7, 10 ** 6, 2 ** 53, 0.0, -0.5, 0.1, 1e300, 1e-7, 3.14159, 123456.789,
                         rng.randint(-10 ** 9, 10 ** 9), rng.uniform(-1e6, 1e6), rng.random(), -0.0, 1e16, 1.5e-320,
                         1.7976931348623157e308, 2 ** 63, -2 ** 64, 10 ** 21, float('nan'), float('inf'), float('-inf'), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)))
    r = rng.randrange(16)
    if r < 2:
        t = rng.choice((gen.text(rng), gen.plain(rng), '', '0', 'true', '12.5', ' ', '=A1', 'None', 'nan', '2010-01-31', gen.text(rng, 80)))
        if rng.random() < 0.004:
            t = gen.text(rng, 90000, minlen=32768)
        return (t,) if r or rng.random() < 0.5 else (t, 'string'), 'string', None, [t], None, 'set string'
    if r < 4:
        return (number,) if r == 2 else (number, 'float'), 'float', float(number), [], None, 'set float'
    if r == 4:
        v = rng.choice((True, False))
        return (v,), 'boolean', v, [], None, 'set boolean'
    if r == 5:
        v = rng.choice((True, False, 1, 0, 'x', ''))
        return (v, 'boolean'), 'boolean', bool(v), [], None, 'set boolean'
    if r < 8:
        cur = rng.choice(('EUR', 'USD', '\u20ac', 'a b', 'EURO', 'Bitcoin', 'US dollars & cents', gen.word(rng, 9), gen.plain(rng, 40)))
        args = rng.choice(((number, 'currency', cur), (number, None, cur), (number, 'float', cur), (number, 'percentage', cur), (number, 'string', cur)))
        return args, 'currency', float(number), [], cur, 'set currency'
    if r == 8:
        return (number, 'currency'), 'currency', float(number), [], None, 'set currency'
    if r == 9:
        return (number, 'percentage'), 'percentage', float(number), [], None, 'set percentage'
    if r == 10:
        v = rng.choice(('2010-01-31', '2010-01-31T10:11:12', '1899-12-30', '0001-01-01', '2010-01-31T10:11:12.123456789', '-0044-03-15', '12010-01-01', '2010-02-01T00:00:00Z'))
        return (v, 'date'), 'date', v, [], None, 'set date'
    if r == 11:
        v = rng.choice(('PT10H11M12S', 'PT0S', 'P1DT1H', '-PT1H', 'PT100H00M00.000001S', 'P1Y2M'))
        return (v, 'time'), 'time', v, [], None, 'set time'
    if r == 12:
        v = rng.choice(('12.5', '0', '-3', '1e5', '007', '.5'))
        return (v, 'float'), 'float', float(v), [], None, 'set float'
    t = gen.text(rng)
    if r == 13:
        return (lib.Paragraph(t),), 'string', None, [t], None, 'set paragraph'
    if r == 14:
        return (lib.Heading(t), rng.choice((None, 'string'))), 'string', None, [t], None, 'set heading'
    return (number, 'string'), 'string', None, [str(number)], None, 'set string'


def loaded_cell(rng):
    """A cell element with left-overs of several value types and its model."""
    m = M()
    m.loaded = True
    el = E('table:table-cell')
    t = rng.choice((None, 'string', 'float', 'percentage', 'currency', 'date', 'time', 'boolean'))
    values = {'value': '12.5', 'date-value': '2010-01-01', 'time-value': 'PT1S', 'boolean-value': 'true'}
    if t is not None:
        m.type = t
        el.set(q('office:value-type'), t)
        if t != 'string':
            name = tables.VALUE_ATTR[t]
            el.set(q(name), values[name.split(':')[1]])
            m.attr = {'boolean': True}.get(t, 12.5 if t in NUMERIC else values[name.split(':')[1]])
        if t == 'currency' and rng.random() < 0.7:
            el.set(q('office:currency'), 'GBP')
            m.currency = 'GBP'
        if t == 'string' and rng.random() < 0.3:
            el.set(q('office:string-value'), 'old')
    for tag in ('office:annotation', None, 'draw:frame'):
        if tag is not None:
            if rng.random() < 0.2:
                el.append(E(tag, {'svg:width': '1cm'}, E('text:p', {}, 'no content of the cell') if tag == 'office:annotation' else E('draw:image')))
                m.extras.append(odf.canon(el[-1]))
                m.closed = tag == 'draw:frame'
            continue
        for _ in range(rng.choice((0, 1, 1, 2))):
            text = gen.plain(rng)
            el.append(E(rng.choice(('text:p', 'text:p', 'text:h')), {}, text))
            m.paras.append(text)
    if rng.random() < 0.3:
        m.style = 'ce1'
        el.set(q('table:style-name'), 'ce1')
    if rng.random() < 0.3:
        m.formula = 'of:=1'
        el.set(q('table:formula'), 'of:=1')
    if rng.random() < 0.1:
        m.protected = True
        el.set(q('table:protect'), 'true')
    return el, m


def formatted(c, rng, cell, m, pos):
    """A value which is a paragraph with formatting: taken as it is."""
    where = rng.choice(('free', 'other cell', 'other cell', 'text', 'own'))
    own = [x for x in cell if x.kind in ('Paragraph', 'Heading')]
    if where == 'own' and not own:
        where = 'free'
    if where == 'own':
        p = rng.choice(own)
    else:
        el = gen.paragraph(rng, rng.choice(('text:p', 'text:p', 'text:h')))
        for x in list(el):
            if x.tag not in PLAIN:
                el.remove(x)
        el.set(q('text:style-name'), 'PX')
        el.tail = None
        p = wrap(el)
        if where == 'other cell':
            lib.Cell().append(p)
        elif where == 'text':
            lib.Section().append(lib.Paragraph('x'))
            owner = lib.Section()
            owner.append(p)
            if rng.random() < 0.5:
                owner.append(lib.Paragraph('behind'))
    p.xmlnode.tail = None
    was, text = odf.canon(p.xmlnode), tables.text_of(p.xmlnode)
    c.log('formatted', pos, where, odf.xml(p.xmlnode).decode())
    cell.set_value(p)
    apply(m, ((), 'string', None, [text], None))
    c.same(len(cell), 1, 'elements in a cell with one paragraph')
    c.same(odf.canon(cell.xmlnode[0]), was, 'the paragraph in the cell')
    c.count('formatted value')
    c.count('formatted value ' + where)


def apply(m, spec):
    args, m.type, m.attr, m.paras, m.currency = spec[:5]
    m.paras = list(m.paras)
    m.extras = []
    m.closed = False
    m.loaded = False


def case(c):
    rng = c.rng
    size = (rng.randint(1, 3), rng.randint(1, 3))
    models = {}
    if rng.random() < 0.5:
        doc = lib.newdoc('ods')
        doc.sheets += lib.Sheet('S', size=size)
        for i in range(size[0]):
            for j in range(size[1]):
                models[i, j] = M()
                models[i, j].loaded = False
        c.log('new', *size)
    else:
        t = E('table:table', {'table:name': 'S'})
        t.extend([E('table:table-column') for _ in range(size[1])])
        for i in range(size[0]):
            row = E('table:table-row')
            for j in range(size[1]):
                el, models[i, j] = loaded_cell(rng)
                row.append(el)
            t.append(row)
        content = odf.root('office:document-content', E('office:body', {}, E('office:spreadsheet', {}, t)),
                           attrs={'office:version': '1.2'})
        c.log('loaded', odf.xml(t).decode())
        doc = lib.opendoc(gen.package(rng, 'ods', content=content, hostile=0).tobytes())
        c.count('loaded cells')
    kept = {}
    for step in range(rng.randint(4, 20)):
        t = doc.sheets['S']
        pos = rng.choice(sorted(models))
        m = models[pos]
        cell = kept.get(pos) if pos in kept and rng.random() < 0.5 else t[pos]
        kept[pos] = cell
        op = rng.choice(('set', 'set', 'set', 'set', 'construct', 'display form', 'append text', 'style', 'formula',
                         'protected', 'validation', 'refused', 'reopen', 'alone', 'formatted'))
        if op == 'set':
            spec = new_value(rng)
            args = spec[0]
            c.log('set', pos, *args)
            if m.type is not None and m.type != spec[1]:
                c.count('type changed')
            if len(args) == 3 and args[1] is None:
                cell.set_value(args[0], currency=args[2])
            elif len(args) == 2 and rng.random() < 0.5:
                cell.set_value(args[0], value_type=args[1])
            else:
                cell.set_value(*args)
            apply(m, spec)
            c.count(spec[5])
        elif op == 'formatted':
            formatted(c, rng, cell, m, pos)
        elif op in ('construct', 'alone'):
            spec = new_value(rng)
            args = (spec[0] + (None, None))[:3]
            style = rng.choice((None, 'cs'))
            c.log(op, pos, style, *args)
            n = M()
            if rng.random() < 0.15:
                vtype = rng.choice(('string', 'float', 'boolean', 'date'))
                new = lib.Cell(value_type=vtype, style_name=style)
                n.type, n.loaded = vtype, False
            else:
                new = lib.Cell(args[0], args[1], args[2], style)
                apply(n, spec)
            n.style = style
            check(c, new, n, 'constructed')
            c.count('constructor')
            if op == 'alone':
                c.count('stand-alone')
                if n.type is not None:
                    spec = new_value(rng)
                    new.set_value(*spec[0])
                    apply(n, spec)
                    check(c, new, n, 'stand-alone')
            t[pos] = new
            kept[pos] = cell = new
            models[pos] = m = n
        elif op == 'display form':
            text = gen.text(rng)
            c.log(op, pos, text)
            if m.type in (None, 'string'):
                e = c.raises(setattr, cell, 'display_form', text)
                c.ok(isinstance(e, TypeError), 'display form of a %s cell raises %r' % (m.type, e))
            elif any(p.tag == q('text:h') for p in cell.xmlnode):
                continue
            else:
                cell.display_form = text
                if not m.paras:
                    m.closed = False
                m.paras[:1] = [text]
                m.loaded = False
                c.count(op)
                if m.extras:
                    c.count('display form beside annotations')
        elif op == 'append text':
            text = gen.text(rng)
            c.log(op, pos, text)
            if m.type != 'string':
                e = c.raises(cell.append_text, text)
                c.ok(isinstance(e, TypeError), 'append_text to a %s cell raises %r' % (m.type, e))
            else:
                style = rng.choice((None, None, 'T1', 'a b'))
                before = [odf.canon(x) for x in cell.xmlnode]
                if style is None:
                    cell.append_text(text)
                else:
                    cell.append_text(text, style_name=style)
                    c.count('append text with style')
                # one new last part with the style, everything before it stays
                node = cell.xmlnode[-1]
                after = [odf.canon(x) for x in cell.xmlnode]
                if m.closed or not before or before[-1][0] not in (q('text:p'), q('text:h')):
                    c.same((after[:-1], node.tag), (before, q('text:p')), 'append text: paragraphs')
                else:
                    c.same(after[:-1], before[:-1], 'append text: earlier content')
                    c.same(odf.canon(node)[3][:-1], before[-1][3], 'append text: earlier parts of the paragraph')
                    node = node[-1]
                    c.same(node.tag, q('text:span'), 'append text: new part')
                c.same(node.get(q('text:style-name')), style, 'append text: style')
                if m.closed:
                    m.paras.append(text)
                    m.closed = False
                else:
                    m.paras[-1:] = [(m.paras[-1] if m.paras else '') + text]
                m.loaded = False
                if cell.xmlnode.get(q('office:string-value')) is not None:
                    m.loaded = True
                c.count(op)
        elif op == 'style':
            m.style = cell.style_name = 's%d' % step
            c.log(op, pos)
            c.count(op)
        elif op == 'formula':
            m.formula = cell.formula = 'of:=[.A%d]+1' % (step + 1)
            c.log(op, pos)
            c.count(op)
        elif op == 'protected':
            m.protected = cell.protected = rng.choice((True, False))
            c.log(op, pos)
        elif op == 'validation':
            m.validation = cell.content_validation_name = 'val%d' % step
            c.log(op, pos)
        elif op == 'refused':
            args = rng.choice(((None,), (None, 'float'), ('x', 'unknown'), (1, 'Float'), ('', 'float'), ('', 'date'),
                               (lib.Span('x'),), (lib.Table(),), (5, '')))
            c.log(op, pos, *args)
            c.raises(cell.set_value, *args)
            c.count(op)
        else:
            c.log(op)
            if rng.random() < 0.5:
                data = doc.tobytes()
            else:
                doc.saveas(c.path('x.ods'))
                data = lib.read(c.path('x.ods'))
            check_file(c, data, models)
            doc = lib.opendoc(data)
            kept = {}
            c.count('reopened')
            for p in models:
                check(c, doc.sheets['S'][p], models[p], 'reopened %s' % (p,))
            continue
        check(c, cell, m, 'after ' + c.oplog[-1])
        other = rng.choice(sorted(models))
        check(c, t[other], models[other], 'cell %s after %s' % (other, c.oplog[-1]))
    for p in models:
        check(c, doc.sheets['S'][p], models[p], 'at the end %s' % (p,))
    check_file(c, doc.tobytes(), models)


def check_file(c, data, models):
    rows = tables.rows_of(tables.find_table(data, 'S'))
    for (i, j), m in models.items():
        check_el(c, tables.cells_of(rows[i][0])[j], m, 'cell %d, %d' % (i, j))
