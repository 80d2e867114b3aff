"""C23: copies are independent, edits touch only their target."""
import gc

import ezodf
from ezodf.xmlns import wrap

from vlib import gen, lib, odf, tables
from vlib.odf import q
from . import c22

PROPERTY = 'C23'
LEVEL = 'exploration'
RULE = ('Universes of one to three documents (packaged, flat, new; with sheets, text tables, sub tables, repeated rows and cells, spans, groups, '
        'styles) and detached tables, cells and paragraphs. Random sequences of table copies (placed into a document or not), cell assignments '
        'within and between tables, documents and detached cells, and edits of cells, rows, columns, tables, paragraphs, styles and metadata. '
        'A copy is compared with its original as XML and by the public view. After every step the canonical XML of all documents and detached '
        'objects, with only the permitted region masked (attributes and content of the edited cell, attributes of the edited row, ...), equals that '
        'from before the step; sometimes this is done on the serialised document as well. Distinct by log.')
CASES = {'quick': 2000, 'thorough': 60000}
REQUIRED = ['steps', 'copies', 'copies placed', 'copies edited', 'originals edited', 'cells assigned', 'assigned within table', 'assigned between tables',
            'assigned between documents', 'assigned to itself', 'detached cells assigned', 'used cells assigned again', 'cell edits', 'row edits', 'column edits', 'table edits',
            'paragraph edits', 'style edits', 'structure edits', 'meta edits', 'serialised edits', 'flat documents', 'sub tables', 'spans',
            'repeated expanded', 'identifiers']
ASSUMPTIONS = ['Objects other than cells of tables which are given as arguments are moved to their new place.',
               'The first access to a table expands its repetitions (C08).']


def masked(el, region):
    """canon() with a region of one element left out; region: dict element -> 'all', 'attributes' or 'children'."""
    mode = region.get(el)
    if mode == 'all':
        return '*'
    if not isinstance(el.tag, str):
        return odf.canon(el)
    attrs = tuple(sorted(el.attrib.items()))
    if mode == 'attributes':
        return (el.tag, '*', el.text or '', tuple((masked(x, region), x.tail or '') for x in el))
    if mode == 'children':
        return (el.tag, attrs, '*')
    if mode == 'cell':      # covered cells have another tag
        return ('cell',)
    return (el.tag, attrs, el.text or '', tuple((masked(x, region), x.tail or '') for x in el))


def difference(a, b, path=''):
    if a == b:
        return None
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 4):
        return '%s: %.200r -> %.200r' % (path, a, b)
    here = path + '/' + odf.pretty(a[0])
    if a[:3] != b[:3]:
        return '%s: %.300r -> %.300r' % (here, a[:3], b[:3])
    if len(a[3]) != len(b[3]):
        return '%s: %d children -> %d' % (here, len(a[3]), len(b[3]))
    for i, (x, y) in enumerate(zip(a[3], b[3])):
        if x[1] != y[1]:
            return '%s[%d] tail %r -> %r' % (here, i, x[1], y[1])
        d = difference(x[0], y[0], '%s[%d]' % (here, i))
        if d:
            return d
    return here + ' differs'


class Universe(object):
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.docs = []
        self.loose = []         # detached objects
        self.copies = set()     # ids of nodes of copied tables (kept alive by the wrappers)
        self.originals = set()
        self.kept = []
        for _ in range(self.rng.choice((1, 1, 2, 2, 3))):
            doc, kind, origin = c22.build(c, prefixes=False)     # see foreign_prefixes()
            c.log(origin, kind)
            if any(x.get(tables.REP_COLS) or x.get(tables.REP_ROWS) for x in doc.body.xmlnode.iter() if isinstance(x.tag, str)):
                c.count('repeated expanded')
            c22.touch(doc)
            if self.rng.random() < 0.3:
                for t in list(doc.body.xmlnode.iter(q('table:table'))):
                    tables.sprinkle_ids(self.rng, t)
                c.count('identifiers')
            cells = list(doc.body.xmlnode.iter(tables.CELL))
            for cell in self.rng.sample(cells, min(len(cells), self.rng.choice((0, 0, 1, 2)))):
                if len(cell) == 0:
                    cell.append(gen.table(self.rng, 'Sub', 2, 2))
                    c.count('sub tables')
            c22.touch(doc)
            if origin == 'flat':
                c.count('flat documents')
            self.docs.append(doc)
        for _ in range(self.rng.randint(1, 3)):
            self.loose.append(self.rng.choice((lambda: lib.Table('Loose', (2, 3)), lambda: lib.Cell('loose'), lambda: lib.Sheet('Loose', (3, 2)),
                                               lambda: lib.Paragraph('loose  text')))())

    def roots(self):
        out = []
        for doc in self.docs:
            if hasattr(doc, 'content'):
                out += [doc.content.xmlnode, doc.styles.xmlnode, doc.meta.xmlnode]
            else:
                out.append(doc.xmlnode)
        return out + [x.xmlnode for x in self.loose if x.xmlnode.getparent() is None]

    def state(self, region):
        roots = self.roots()
        return [(r, masked(r, region)) for r in roots]

    def tables(self):
        found = []
        for r in self.roots():
            found += [wrap(n) for n in r.iter(q('table:table'))]
        return [t for t in found if t.nrows() and t.ncols()]

    def nodes(self, *tags):
        return [n for r in self.roots() for n in r.iter(*[q(t) for t in tags])]


def show(t):
    """Public view of a table."""
    return (t.nrows(), t.ncols(), t.style_name, t.print_, t.protected,
            [(pos, cell.value_type, value(cell), cell.style_name, cell.formula, cell.span, cell.covered, cell.plaintext()) for pos, cell in t.itercells()],
            [(t.row_info(i).style_name, t.row_info(i).visibility) for i in range(t.nrows())],
            [(t.column_info(i).style_name, t.column_info(i).visibility) for i in range(t.ncols())])


def value(cell):
    try:
        return repr(cell.value)
    except ValueError as e:
        return str(e)


def pos_of(rng, t):
    return rng.randrange(t.nrows()), rng.randrange(t.ncols())


# every step returns (label, region, action[, after]); the region is taken before the action, after(u) checks
def copy_table(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    new = rng.choice((None, None, 'Copy', gen.label(rng)))
    place = rng.choice((None, None, 'place'))
    doc = rng.choice(u.docs)
    expected = list(odf.without_ids(odf.canon(t.xmlnode)))
    view = show(t)

    def action():
        x = t.copy(new)
        c.count('copies')
        name = new if new is not None else 'CopyOf' + (t.name or '')
        got = list(odf.canon(x.xmlnode))    # identifiers are unique: the copy has none
        attrs = dict(expected[1])
        attrs[q('table:name')] = ' '.join(name.replace('\t', ' ').replace("'", ' ').replace('"', ' ').replace('\r', ' ').split(' ')).strip()
        expected[1] = tuple(sorted(attrs.items()))
        c.ok(got == expected, 'copy of a table: %s' % odf.first_difference(tuple(expected), tuple(got), ''))
        c.same(show(x), view, 'public view of the copy')
        c.ok(x.xmlnode.getparent() is None, 'the copy is part of a document')
        alive = list(t.xmlnode.iter())
        mine = set(id(n) for n in alive)
        c.ok(not any(id(n) in mine for n in x.xmlnode.iter()), 'the copy shares elements with its original')
        u.kept.append((t, x))
        u.copies.add(id(x.xmlnode))
        u.originals.add(id(t.xmlnode))
        u.new = x
    region = {}
    if place:
        if hasattr(doc, 'sheets'):
            box, put = doc.body.xmlnode, lambda: doc.sheets.append(u.new)
        else:
            box, put = doc.body.xmlnode, lambda: doc.body.append(u.new)
        before = list(box)

        def action2():
            action()
            others = [odf.canon(n) for n in box]
            put()
            c.count('copies placed')
            c.ok(u.new.xmlnode.getparent() is box, 'the copy was not placed')
            rest = [n for n in box if n is not u.new.xmlnode]
            c.ok(len(rest) == len(before) and all(a is b for a, b in zip(rest, before)), 'other elements of the body were replaced')
            c.ok([odf.canon(n) for n in rest] == others, 'other elements of the body changed')
        return 'copy %r placed' % new, {box: 'children'}, action2, None

    def keep(u):
        u.loose.append(u.new)
    return 'copy %r' % new, region, action, keep


def assign(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    pos = pos_of(rng, t)
    target = t[pos].xmlnode
    loose = [x for x in u.loose if x.kind == 'Cell']
    r = rng.random()
    if r < 0.2:
        source = rng.choice(loose) if loose and rng.random() < 0.6 else lib.Cell(rng.choice((1, 'new', 'a  b', True)), style_name='ce9')
        s = None
    else:
        s = t if r < 0.5 else rng.choice(ts)
        source = s[pos_of(rng, s)] if rng.random() < 0.93 else s[pos]if pos[0] < s.nrows() and pos[1] < s.ncols() else s[0, 0]
    node = source.xmlnode
    if any(n is node for n in target.iterancestors()) or any(n is target for n in node.iterancestors()):
        return None     # cells of a sub table and the cell around it
    attached = node.getparent() is not None
    unchanged = expected = odf.canon(node)
    if attached and node is not target:
        expected = odf.without_ids(expected)
    how = rng.choice(('[]', 'set_cell', 'negative', 'address' if pos[1] < 26 else '[]'))
    place = (node.getparent(), node.getparent().index(node)) if attached else None
    row = target.getparent()
    column = row.index(target)
    size = (t.nrows(), t.ncols())
    region = {row: 'children'}
    others = [None if n is target else odf.canon(n) for n in row]

    def action():
        if how == '[]':
            t[pos] = source
        elif how == 'set_cell':
            t.set_cell(pos, source)
        elif how == 'negative':
            t.set_cell((pos[0] - size[0], pos[1] - size[1]), source)
        else:
            t['%s%d' % (chr(65 + pos[1]), pos[0] + 1)] = source
        c.count('cells assigned')
        c.same((t.nrows(), t.ncols()), size, 'size of the table after the assignment')
        now = t[pos].xmlnode
        c.ok(odf.canon(now) == expected, 'assigned cell: %s' % odf.first_difference(expected, odf.canon(now), ''))
        got = [None if i == column else odf.canon(n) for i, n in enumerate(row)]
        c.ok(got == others, 'other cells of the row changed')
        c.ok(row[column] is now, 'the cell is at another place')
        if attached:
            c.ok(node.getparent() is place[0], 'the assigned cell left its table')
            c.same(place[0].index(node), place[1], 'position of the assigned cell in its own row')
            c.same(odf.canon(node), unchanged, 'the assigned cell itself')
            if node is target:
                c.count('assigned to itself')
                c.ok(now is node, 'a cell assigned to its own place was replaced')
            else:
                c.ok(now is not node, 'two tables share a cell')
                c.count('assigned within table' if s is t else 'assigned between tables' if s is not None else 'used cells assigned again')
                if s is not None and s.get_xmlroot() is not t.get_xmlroot():
                    c.count('assigned between documents')
        else:
            c.count('detached cells assigned')
            if rng.random() < 0.5:
                u.loose.append(source)
        u.kept.append((target, source))
    return 'assign %s' % how, region, action, None


def edit_cell(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    cell = t[pos_of(rng, t)]
    mode = rng.choice(('value', 'value', 'style', 'formula', 'protected', 'display', 'text', 'append', 'validation', 'clear'))
    region = {cell.xmlnode: 'all'}
    if mode in ('style', 'formula', 'protected', 'validation'):
        region = {cell.xmlnode: 'attributes'}
    if mode in ('append', 'display'):
        region = {cell.xmlnode: 'children'}

    def action():
        if mode == 'value':
            cell.set_value(rng.choice((5, 'text', True, 'a  b', 'l\nm', 2.5)))
        elif mode == 'style':
            cell.style_name = 'edited'
        elif mode == 'formula':
            cell.formula = 'of:=1'
        elif mode == 'protected':
            cell.protected = not cell.protected
        elif mode == 'validation':
            cell.content_validation_name = 'val'
        elif mode == 'display' and cell.value_type not in (None, 'string'):
            cell.display_form = 'shown'
        elif mode == 'append':
            cell.append(lib.Paragraph('more'))
        elif mode == 'text' and cell.value_type == 'string':
            cell.append_text('more  text', style_name='T1')
        elif mode == 'clear':
            for _ in range(len(cell)):
                del cell[0]
        mark(u, c, t)
    c.count('cell edits')
    return 'cell ' + mode, region, action, None


def mark(u, c, t):
    for n in [t.xmlnode] + list(t.xmlnode.iterancestors()):
        if id(n) in u.copies:
            c.count('copies edited')
        if id(n) in u.originals:
            c.count('originals edited')


def edit_row(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    if rng.random() < 0.5:
        info = t.row_info(rng.randrange(t.nrows()))
        c.count('row edits')
        what = 'row'
    else:
        info = t.column_info(rng.randrange(t.ncols()))
        c.count('column edits')
        what = 'column'
    mode = rng.choice(('style_name', 'default_cell_style_name', 'visibility'))

    def action():
        setattr(info, mode, rng.choice(('visible', 'collapse', 'filter')) if mode == 'visibility' else 'edited%d' % rng.randint(1, 3))
        mark(u, c, t)
    return '%s %s' % (what, mode), {info.xmlnode: 'attributes'}, action, None


def edit_table(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    mode = rng.choice(('name', 'style', 'print', 'protected'))

    def action():
        if mode == 'name':
            t.name = 'Renamed%d' % rng.randint(1, 9)
        elif mode == 'style':
            t.style_name = 'taEdited'
        elif mode == 'print':
            t.print_ = not t.print_
        else:
            t.protected = not t.protected
        mark(u, c, t)
    c.count('table edits')
    return 'table ' + mode, {t.xmlnode: 'attributes'}, action, None


def structure(u, c, rng):
    ts = u.tables()
    if not ts:
        return None
    t = rng.choice(ts)
    mode = rng.choice(('insert_rows', 'append_rows', 'delete_rows', 'insert_columns', 'append_columns', 'delete_columns', 'span', 'span', 'unspan', 'clear', 'reset'))
    region = {t.xmlnode: 'children' if mode not in ('clear', 'reset') else 'all'}

    def action():
        try:
            if mode in ('insert_rows', 'delete_rows'):
                getattr(t, mode)(rng.randrange(t.nrows()), rng.randint(1, 2))
            elif mode in ('insert_columns', 'delete_columns'):
                getattr(t, mode)(rng.randrange(t.ncols()), rng.randint(1, 2))
            elif mode.startswith('append'):
                getattr(t, mode)(rng.randint(1, 2))
            elif mode == 'span':
                i, j = pos_of(rng, t)
                t.set_cell_span((i, j), (rng.randint(1, t.nrows() - i), rng.randint(1, t.ncols() - j)))
                c.count('spans')
            elif mode == 'unspan':
                t.remove_cell_span(pos_of(rng, t))
            elif rng.random() < 0.3:
                tail = t.tail       # layout
                getattr(t, mode)()
                t.tail = tail
        except (ValueError, IndexError):
            pass
        mark(u, c, t)
    c.count('structure edits')
    return mode, region, action, None


def edit_paragraph(u, c, rng):
    nodes = u.nodes('text:p', 'text:h')
    if not nodes:
        return None
    p = wrap(rng.choice(nodes))
    mode = rng.choice(('style', 'text', 'append', 'span', 'clear'))

    def action():
        if mode == 'style':
            p.style_name = 'edited'
        elif mode == 'text':
            p.text = 'edited'
        elif mode == 'append':
            p.append_text('more  \t text')
        elif mode == 'span':
            p.append(lib.Span('span', style_name='T9'))
        else:
            tail = p.tail
            p.clear()
            p.tail = tail
    c.count('paragraph edits')
    return 'paragraph ' + mode, {p.xmlnode: 'attributes' if mode == 'style' else 'all' if mode == 'clear' else 'children'}, action, None


def edit_style(u, c, rng):
    doc = rng.choice(u.docs)
    packaged = hasattr(doc, 'content')
    owner = doc.styles if packaged else doc
    boxes = [getattr(owner, n) for n in ('fonts', 'styles', 'automatic_styles', 'master_styles')]
    if packaged:
        boxes += [doc.content.automatic_styles, doc.content.fonts]
    box = rng.choice(boxes)
    named = [s for s in box.xmlnode if isinstance(s.tag, str) and s.get(q('style:name'))]
    first = dict((s.get(q('style:name')), s) for s in reversed(named))      # __getitem__ finds the first one
    usable = [s for s in first.values() if getattr(wrap(s), 'ATTRIBUTEMAP', None)]
    mode = rng.choice(('attribute', 'attribute', 'assign', 'inject', 'rename'))
    if mode in ('attribute', 'rename'):
        if not usable:
            return None
        name = rng.choice(usable).get(q('style:name'))
        style = box[name]
        keys = [k for k in sorted(style.ATTRIBUTEMAP) if k != 'name']
        region = {style.xmlnode: 'attributes'}

        def action():
            style[rng.choice(keys) if mode == 'attribute' else 'name'] = 'edited%d' % rng.randint(1, 9)
    elif mode == 'assign':
        new = wrap(gen.style(rng, rng.choice(named).get(q('style:name')) if named and rng.random() < 0.6 else 'New%d' % rng.randint(1, 99)))
        name = new['name']
        old = box._find(name) if hasattr(box, '_find') else None
        olds = [s for s in box.xmlnode if isinstance(s.tag, str) and s.get(q('style:name')) == name]
        region = {box.xmlnode: 'children'}
        others = [odf.canon(s) for s in box.xmlnode if s is not (olds[0] if olds else None)]

        def action():
            box[name] = new
            c.ok([odf.canon(s) for s in box.xmlnode if s is not new.xmlnode] == others, 'assigning a style changed other styles')
    else:
        if not packaged and not hasattr(doc, 'inject_style'):
            return None
        region = {owner.styles.xmlnode: 'children'}
        others = [odf.canon(s) for s in owner.styles.xmlnode]

        def action():
            doc.inject_style('<style:style style:name="In%d" style:family="text"/>' % rng.randint(1, 999))
            c.ok([odf.canon(s) for s in owner.styles.xmlnode][:-1] == others, 'injecting a style changed other styles')
    c.count('style edits')
    return 'style ' + mode, region, action, None


def edit_meta(u, c, rng):
    doc = rng.choice(u.docs)
    node = doc.meta.meta if hasattr(doc.meta, 'meta') else None
    section = doc.meta.xmlnode if doc.meta.xmlnode.tag == q('office:meta') else doc.meta.xmlnode.find(q('office:meta'))

    def action():
        r = rng.random()
        if r < 0.3:
            doc.meta['title'] = 'edited %d' % rng.randint(1, 9)
        elif r < 0.5:
            doc.meta.keywords.add('k%d' % rng.randint(1, 9))
        elif r < 0.8:
            doc.meta.usertags.set('t%d' % rng.randint(1, 9), 'v')
        else:
            doc.meta.count['page'] = rng.randint(1, 99)
    c.count('meta edits')
    return 'meta', {section: 'children'}, action, None


STEPS = (copy_table, copy_table, assign, assign, assign, assign, edit_cell, edit_cell, edit_cell, edit_row, edit_row, edit_table, structure, structure,
         edit_paragraph, edit_style, edit_meta)


CONTENT = ('<{o}:document-content xmlns:{o}="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:{t}="urn:oasis:names:tc:opendocument:xmlns:table:1.0"'
           ' {o}:version="1.2"><{o}:body><{o}:spreadsheet><{t}:table {t}:name="{name}"><{t}:table-column/><{t}:table-row><{t}:table-cell{more}/></{t}:table-row>'
           '</{t}:table></{o}:spreadsheet></{o}:body></{o}:document-content>')


def foreign_prefixes(c):
    """ A cell of a document with prefixes like ns0 is assigned to a cell of another one, and a sheet is moved.

    lxml drops the declarations of the namespaces which the target has, even if the remaining declarations reuse their new prefixes.
    """
    for move in ('assign', 'append'):
        docs = []
        for o, t, name, more in (('ns0', 'ns1', 'A', ''), ('ns1', 'ns0', 'B', ' xmlns:ns1="urn:example:foreign:1" ns1:x="1"')):
            p = gen.package(c.rng, 'ods', content=odf.parse(CONTENT.format(o=o, t=t, name=name, more=more).encode()), hostile=0)
            docs.append(lib.open_by('bytes', p.tobytes()))
        a, b = docs
        c.log('foreign prefixes', move)
        if move == 'assign':
            a.sheets[0][0, 0] = b.sheets[0][0, 0]
        else:
            a.sheets.append(b.sheets[0])
        names = [x.tag for x in odf.parse(odf.read_package(a.tobytes())['content.xml']).iter() if str(x.tag).endswith('cell')]
        c.ok(names == [q('table:table-cell')] * (1 if move == 'assign' else 2), '%s between documents which use a prefix for other namespaces: cells are %s' % (move, names),
             mechanism='prefix-clash')


def case(c):
    rng = c.rng
    if c.index == 0:
        foreign_prefixes(c)
    u = Universe(c)
    for step in range(rng.randint(10, 30)):
        made = rng.choice(STEPS)(u, c, rng)
        if made is None:
            continue
        label, region, action, after = made
        c.log(label)
        # wrapping tables of detached content expands it
        before = u.state(region)
        serialise = rng.random() < 0.1
        if serialise:
            saved = [lib.doc_parts(d.tobytes()) for d in u.docs]
        action()
        now = dict((id(r), m) for r, m in u.state(region))
        for root, m in before:
            if id(root) not in now:
                c.ok(root.getparent() is not None and root.tag in (q('table:table-cell'), q('table:covered-table-cell')), 'an object disappeared')
                continue
            if now[id(root)] != m:
                c.fail('%s changed something else: %s' % (label, difference(m, now[id(root)])))
        c.count('steps')
        c.observations += 1
        if serialise:
            touched = set(id(n.getroottree().getroot()) for n in region)
            for d, old in zip(u.docs, saved):
                new = lib.doc_parts(d.tobytes())
                roots = [d.content.xmlnode, d.styles.xmlnode, d.meta.xmlnode] if hasattr(d, 'content') else [d.xmlnode]
                names = ('content.xml', 'styles.xml', 'meta.xml') if len(roots) == 3 else ('flat',)
                for name, r in zip(names, roots):
                    if id(r) in touched:
                        new.pop(name, None), old.pop(name, None)
                diff = lib.parts_difference(old, new)
                c.ok(diff is None, '%s changed another part of the saved document: %s' % (label, diff))
            c.count('serialised edits')
        if after:
            after(u)
        if rng.random() < 0.05:
            gc.collect()
    # the saved documents contain exactly this
    for d in u.docs:
        parts = lib.doc_parts(d.tobytes())
        name, root = ('content.xml', d.content.xmlnode) if hasattr(d, 'content') else ('flat', d.xmlnode)
        c.ok(parts[name] == odf.canon(root), 'the written document differs from the edited one')
