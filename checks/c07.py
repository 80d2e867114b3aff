"""C07: tables are a rectangular matrix under every row/column operation."""
from vlib import gen, lib, odf, tables
from vlib.odf import E, q

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('Random histories (6 to 30 operations) of append/insert/delete of rows and columns with positive, negative '
        'and refused indices and counts, cell assignment, cell edits, row/column information, clear and reset on new '
        'tables, loaded tables (grouped rows and columns, missing and surplus column declarations, foreign children), '
        'tables of text documents and tables nested in cells. After every operation the whole table seen by '
        'rows(), columns(), itercells(), row_info and column_info equals a model of plain lists, and at random points '
        'so does the table read from the saved file by an independent reader, with neighbouring tables unchanged.')
CASES = {'quick': 4800, 'thorough': 60000}
REQUIRED = ['states compared', 'files compared', 'append_rows', 'insert_rows', 'delete_rows', 'append_columns',
            'insert_columns', 'delete_columns', 'set_cell', 'set_value', 'row style', 'column style', 'clear', 'reset',
            'refused', 'reopened', 'negative index', 'origin new', 'origin loaded', 'origin text', 'origin nested',
            'grouped rows', 'grouped columns', 'surplus columns', 'missing columns', 'visibility', 'children behind the rows', 'comments', 'large tables']
EMPTY = (None, None, None, None)


class Model(object):
    """rows: [info, path, [cell]]; columns: [info, path]; cell: [obs, canon]"""

    def new_row(self):
        return [dict(), None, [self.new_cell() for _ in range(self.ncols())]]

    @staticmethod
    def new_cell():
        return [EMPTY, (q('table:table-cell'), (), '', ())]

    def ncols(self):
        return len(self.rows[0][2])

    def reset(self, nrows, ncols):
        self.rows = [[dict(), None, [self.new_cell() for _ in range(ncols)]] for _ in range(nrows)]
        self.columns = [[dict(), None] for _ in range(ncols)]
        self.others, self.notes = [], []
        self.sides = []

    def load(self, el):
        self.rows = []
        for row, path in tables.rows_of(el):
            self.rows.append([dict(row.attrib), path, [[tables.observe(x) if tables.is_simple(x) else None, odf.canon(x)]
                                                       for x in tables.cells_of(row)]])
        self.columns = [[dict(col.attrib), path] for col, path in tables.columns_of(el)]
        self.others, self.notes = tables.others_of(el), tables.notes_of(el)
        self.sides = tables.sides_of(el)
        while len(self.columns) < self.ncols():
            self.columns.append([dict(), None])


def view(c, t, m, what):
    """Compare the table seen by the API with the model."""
    n, k = len(m.rows), m.ncols()
    c.same((t.nrows(), t.ncols()), (n, k), what + ': size')
    got = [[tables.api(x) for x in row] for row in t.rows()]
    if what == 'loaded':
        for row, values in zip(m.rows, got):
            for x, value in zip(row[2], values):
                if x[0] is None:      # rich content: taken from the library
                    x[0] = value
    want = [[x[0] for x in row[2]] for row in m.rows]
    if got != want:
        for i in range(max(len(got), len(want))):
            c.same(got[i] if i < len(got) else None, want[i] if i < len(want) else None, '%s: row %d' % (what, i))
    c.observations += 1
    way = c.rng.randrange(4)
    if way == 0:
        cols = [[tables.api(x) for x in col] for col in t.columns()]
        c.same(cols, [[row[j] for row in want] for j in range(k)], what + ': columns()')
    elif way == 1:
        cells = [(pos, tables.api(x)) for pos, x in t.itercells()]
        c.same(cells, [((i, j), want[i][j]) for i in range(n) for j in range(k)], what + ': itercells()')
    elif way == 2:
        i, j = c.rng.randrange(-n, n), c.rng.randrange(-k, k)
        c.same([tables.api(x) for x in t.row(i)], want[i], what + ': row(%d)' % i)
        c.same([tables.api(x) for x in t.column(j)], [row[j] for row in want], what + ': column(%d)' % j)
        c.same(tables.api(t[i, j]), want[i][j], what + ': cell')
    for i, row in enumerate(m.rows):
        info = t.row_info(i)
        c.same((info.style_name, info.visibility), (row[0].get(q('table:style-name')), row[0].get(
            q('table:visibility'), 'visible')), '%s: information of row %d' % (what, i))
    for j in range(k):
        info, col = t.column_info(j), m.columns[j][0]
        c.same((info.style_name, info.visibility, info.default_cell_style_name), (
            col.get(q('table:style-name')), col.get(q('table:visibility'), 'visible'),
            col.get(q('table:default-cell-style-name'))), '%s: information of column %d' % (what, j))
    c.count('states compared')


def file_view(c, el, m, what):
    c.ok(el is not None, what + ': the table is not in the file')
    rows = tables.rows_of(el)
    c.same(len(rows), len(m.rows), what + ': rows in the file')
    k = m.ncols()
    for i, ((row, path), want) in enumerate(zip(rows, m.rows)):
        cells = tables.cells_of(row)
        c.same(len(row), k, '%s: elements of row %d in the file' % (what, i))
        for x, (obs, canon) in zip(cells, want[2]):
            if canon is None:
                c.same(tables.observe(x), obs, '%s: a cell of row %d in the file' % (what, i))
            else:
                c.ok(odf.canon(x) == canon, '%s: a cell of row %d in the file was changed' % (what, i),
                     was=odf.shown(canon, 300), now=odf.shown(odf.canon(x), 300))
        c.same(dict(row.attrib), want[0], '%s: attributes of row %d in the file' % (what, i))
        if want[1] is not None:
            c.same(path, want[1], '%s: groups of row %d in the file' % (what, i))
    cols = tables.columns_of(el)
    c.same(len(cols), len(m.columns), what + ': column declarations in the file')
    for j, ((col, path), want) in enumerate(zip(cols, m.columns)):
        c.same(dict(col.attrib), want[0], '%s: attributes of column %d in the file' % (what, j))
        if want[1] is not None:
            c.same(path, want[1], '%s: groups of column %d in the file' % (what, j))
    c.same(tables.others_of(el), m.others, what + ': other children of the table')
    c.same(tables.notes_of(el), m.notes, what + ': comments outside of cells')
    c.same(tables.sides_of(el), m.sides, what + ': places of the other children of the table')
    if 'behind the rows' in m.sides:
        c.count('children behind the rows')
    # consumers need all columns in front of all rows
    tops = [x.tag for x in el if x.tag in [tables.ROW, tables.COL] + tables.ROW_GROUPS + tables.COL_GROUPS]
    firstrow = [n for n, tag in enumerate(tops) if tag in [tables.ROW] + tables.ROW_GROUPS]
    lastcol = [n for n, tag in enumerate(tops) if tag in [tables.COL] + tables.COL_GROUPS]
    c.ok(max(lastcol) < min(firstrow), what + ': column declarations behind rows')
    c.count('files compared')


def source(c, name, size):
    rng = c.rng
    el = gen.table(rng, name, *size)
    cols = tables.columns_of(el)
    r = rng.random()
    if r < 0.15:
        for col, path in cols[rng.randint(0, len(cols) - 1):]:
            col.getparent().remove(col)
        c.count('missing columns')
        for g in list(el.iter(*tables.COL_GROUPS)):
            if len(g) == 0 and g.getparent() is not None:
                g.getparent().remove(g)
    elif r < 0.3:
        for _ in range(rng.randint(1, 3)):
            cols[-1][0].addnext(E('table:table-column', {'table:style-name': 'surplus'}))
        c.count('surplus columns')
    if any(path for row, path in tables.rows_of(el)):
        c.count('grouped rows')
    if any(path for col, path in tables.columns_of(el)):
        c.count('grouped columns')
    if rng.random() < 0.1:
        tables.sprinkle(rng, el)
        c.count('comments')
    return el


def case(c):
    rng = c.rng
    origin = rng.choice(('new', 'loaded', 'loaded', 'text', 'nested'))
    NAME = 'T' if origin == 'new' or rng.random() < 0.8 else rng.choice(("It's", 'a "b"', ' T ', "'"))     # also names set_name would change
    kind = 'odt' if origin == 'text' else 'ods'
    m = Model()
    c.count('origin ' + origin)
    size, limits, steps = (rng.randint(1, 6), rng.randint(1, 6)), (25, 25), rng.randint(6, 30)
    counts = (1, 1, 1, 2, 3, 5)
    if rng.random() < 0.03:     # more than any limit somebody could think of
        steps, counts = rng.randint(3, 6), (1, 40, 130, 260, 520, 1100)
        size, limits = rng.choice((((rng.randint(1, 300), 1), (1000, 2)), ((1, rng.randint(1, 300)), (2, 1000))))
        c.count('large tables')
    tall, wide = limits
    neighbour = None
    if origin == 'new':
        doc = lib.newdoc(kind)
        if rng.random() < 0.1:
            doc.sheets += lib.Sheet('T')
            size = (10, 10)
            c.count('default size')
        else:
            doc.sheets += lib.Sheet('T', size=size)
        m.reset(*size)
    else:
        el = source(c, NAME, size)
        neighbour = gen.table(rng, 'N', 2, 2)
        b = E('office:text') if kind == 'odt' else E('office:spreadsheet')
        if origin == 'nested':
            el.set(q('table:is-sub-table'), 'true')
            outer = gen.table(rng, 'Outer', 2, 2, rich=False)
            cell = tables.cells_of(tables.rows_of(outer)[0][0])[0]
            for x in list(cell):
                cell.remove(x)
            cell.attrib.clear()
            cell.append(el)
            b.extend([outer, neighbour])
        else:
            b.extend([el, neighbour])
        m.load(el)
        neighbour = odf.canon(neighbour)
        content = odf.root('office:document-content', E('office:body', {}, b), attrs={'office:version': '1.2'})
        doc = lib.opendoc(gen.package(rng, kind, content=content, hostile=0).tobytes())

    def handle(doc):
        if origin == 'nested':
            return doc.sheets['Outer'][0, 0].get_child(0)
        if kind == 'odt':
            return [x for x in doc.body if x.kind == 'Table' and x.name == NAME][0]
        return doc.sheets[NAME]

    def check_file(data, what):
        file_view(c, tables.find_table(data, NAME), m, what)
        if neighbour is not None:
            c.same(odf.canon(tables.find_table(data, 'N')), neighbour, what + ': neighbouring table')

    t = handle(doc)
    c.log(origin, len(m.rows), m.ncols(), 'decls', len(m.columns))
    view(c, t, m, 'loaded')
    if rng.random() < 0.3:
        check_file(doc.tobytes(), 'loaded')
    serial = 0
    for step in range(steps):
        n, k = len(m.rows), m.ncols()
        op = rng.choice(('append_rows', 'insert_rows', 'insert_rows', 'delete_rows', 'delete_rows', 'append_columns',
                         'insert_columns', 'insert_columns', 'delete_columns', 'delete_columns', 'set_cell',
                         'set_cell', 'set_value', 'set_value', 'row style', 'column style', 'visibility', 'clear',
                         'reset', 'refused', 'file', 'reopen'))
        if op in ('clear', 'reset', 'reopen') and rng.random() < 0.6:
            continue
        count = rng.choice(counts)
        if 'rows' in op and tall < 10 or 'columns' in op and wide < 10:
            count = 1       # wide or tall, not both
        if op in ('append_rows', 'insert_rows') and n > tall or op in ('append_columns', 'insert_columns') and k > wide:
            continue
        i, j = rng.randrange(-n, n), rng.randrange(-k, k)
        serial += 1
        value = 'v%d' % serial
        if op == 'append_rows':
            c.log(op, count)
            t.append_rows(count) if count > 1 or rng.random() < 0.5 else t.append_rows()
            m.rows.extend([m.new_row() for _ in range(count)])
        elif op == 'insert_rows':
            c.log(op, i, count)
            t.insert_rows(i, count) if count > 1 or rng.random() < 0.5 else t.insert_rows(i)
            p = i % n
            m.rows[p:p] = [m.new_row() for _ in range(count)]
            if i < 0:
                c.count('negative index')
        elif op == 'delete_rows':
            if n == 1:
                continue
            count = min(count, n - 1)
            p = rng.randint(0, n - count)
            i = p - n if rng.random() < 0.5 else p
            c.log(op, i, count)
            t.delete_rows(i, count) if count > 1 or rng.random() < 0.5 else t.delete_rows(i)
            del m.rows[p:p + count]
        elif op == 'append_columns':
            c.log(op, count)
            t.append_columns(count) if count > 1 or rng.random() < 0.5 else t.append_columns()
            for row in m.rows:
                row[2].extend(m.new_cell() for _ in range(count))
            m.columns[k:k] = [[dict(), None] for _ in range(count)]
        elif op == 'insert_columns':
            c.log(op, j, count)
            t.insert_columns(j, count) if count > 1 or rng.random() < 0.5 else t.insert_columns(j)
            p = j % k
            for row in m.rows:
                row[2][p:p] = [m.new_cell() for _ in range(count)]
            m.columns[p:p] = [[dict(), None] for _ in range(count)]
            if j < 0:
                c.count('negative index')
        elif op == 'delete_columns':
            if k == 1:
                continue
            count = min(count, k - 1)
            p = rng.randint(0, k - count)
            j = p - k if rng.random() < 0.5 else p
            c.log(op, j, count)
            t.delete_columns(j, count) if count > 1 or rng.random() < 0.5 else t.delete_columns(j)
            for row in m.rows:
                del row[2][p:p + count]
            del m.columns[p:p + count]
        elif op == 'set_cell':
            style = rng.choice((None, 'ce9'))
            c.log(op, i, j, value, style)
            cell = lib.Cell(value, style_name=style)
            way = rng.randrange(3)
            if way == 0:
                t[i, j] = cell
            elif way == 1:
                t.set_cell((i, j), cell)
            else:
                i, j = i % n, j % k
                t[address(i, j)] = cell
            m.rows[i][2][j] = [('string', value, style, None), None]
        elif op == 'set_value':
            v, obs = rng.choice(((value, ('string', value)), (step + 0.5, ('float', step + 0.5)),
                                 (True, ('boolean', True)), (0, ('float', 0.0))))
            c.log(op, i, j, v)
            t[i, j].set_value(v)
            old = m.rows[i][2][j][0]
            m.rows[i][2][j] = [obs + old[2:], None]
        elif op == 'row style':
            c.log(op, i, value)
            t.row_info(i).style_name = value
            m.rows[i][0][q('table:style-name')] = value
        elif op == 'column style':
            c.log(op, j, value)
            if rng.random() < 0.3:
                t.column_info(j).default_cell_style_name = value
                m.columns[j % k][0][q('table:default-cell-style-name')] = value
            else:
                t.column_info(j).style_name = value
                m.columns[j % k][0][q('table:style-name')] = value
        elif op == 'visibility':
            v = rng.choice(('collapse', 'filter', 'visible'))
            c.log(op, i, v)
            if rng.random() < 0.5:
                t.row_info(i).visibility = v
                m.rows[i][0][q('table:visibility')] = v
            else:
                t.column_info(j).visibility = v
                m.columns[j % k][0][q('table:visibility')] = v
        elif op == 'clear':
            c.log(op)
            t.clear()
            m.reset(n, k)
        elif op == 'reset':
            size = (rng.randint(1, 6), rng.randint(1, 6))
            c.log(op, size)
            if rng.random() < 0.1 and tall >= 10 <= wide:
                t.reset()
                size = (10, 10)
                c.count('default size')
            else:
                t.reset(size=size) if rng.random() < 0.5 else t.reset(size)
            m.reset(*size)
        elif op == 'refused':
            func, args = rng.choice((
                (t.insert_rows, (rng.choice((n, n + 3, -n - 1, -n - 4)), 1)), (t.insert_rows, (i, rng.choice((0, -1)))),
                (t.append_rows, (rng.choice((0, -2)),)), (t.append_columns, (rng.choice((0, -2)),)),
                (t.insert_columns, (rng.choice((k, k + 2, -k - 1)), 2)), (t.insert_columns, (j, rng.choice((0, -1)))),
                (t.delete_rows, (0, n)), (t.delete_rows, (0, n + 2)), (t.delete_rows, (i, 0)),
                (t.delete_rows, (n, 1)), (t.delete_rows, (-n - 1, 1)), (t.delete_columns, (0, k)),
                (t.delete_columns, (j, -1)), (t.delete_columns, (k, 1)), (t.delete_columns, (-k - 1, 1)),
                (t.delete_rows, (-1, 2)), (t.delete_columns, (-1, 2)), (t.delete_rows, (n - 1, 2)),
                (t.delete_columns, (k - 1, 2)), (t.reset, ((0, 3),)), (t.reset, ((3, 0),))))
            c.log(op, func.__name__, *args)
            c.raises(func, *args)
        elif op == 'file':
            c.log(op)
            check_file(doc.tobytes(), 'step %d' % step)
            continue
        else:
            c.log(op)
            if rng.random() < 0.5:
                data = doc.tobytes()
            else:
                doc.saveas(c.path('x.' + kind))
                data = lib.read(c.path('x.' + kind))
            check_file(data, 'saved')
            if rng.random() < 0.7:
                doc = lib.opendoc(data)
                t = handle(doc)
            c.count('reopened')
            op = 'reopen'
        if op != 'reopen':
            c.count(op)
        if rng.random() < 0.3:
            t = handle(doc)
        c.same(t.name, NAME, 'name after ' + c.oplog[-1])
        view(c, t, m, 'after ' + c.oplog[-1])
    check_file(doc.tobytes(), 'at the end')


def address(row, col):
    s = ''
    col += 1
    while col:
        col, rest = divmod(col - 1, 26)
        s = chr(65 + rest) + s
    return s + str(row + 1)
