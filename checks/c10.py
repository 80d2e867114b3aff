"""C10: cell spans cover exactly their rectangle and never overlap."""
from vlib import gen, lib, odf, tables
from vlib.odf import E, q
from checks.c07 import address

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('Random histories of set_cell_span and remove_cell_span (fitting, overlapping, nested, touching, malformed '
        'and out-of-range rectangles, by tuple and by address), cell edits and reopening on new tables, loaded tables '
        'with spans and their copies. After every call the span and covered flag of every cell, its content and style '
        'equal a model of disjoint rectangles; a refused call changes nothing; the tags and span attributes in the '
        'saved file are those of the model. Spans which exceed the table after rows or columns were deleted '
        'can be removed, too.')
CASES = {'quick': 6000, 'thorough': 80000}
REQUIRED = ['states compared', 'files compared', 'set', 'removed', 'refused overlap', 'refused size', 'refused limits',
            'refused position', 'removed nothing', 'reopened', 'loaded spans', 'edited', 'size one', 'whole table',
            'copied', 'grouped', 'large tables', 'removed exceeding']


def free(spans, rect):
    i, j, n, k = rect
    for a, b, r, s in spans:
        if a < i + n and i < a + r and b < j + k and j < b + s:
            return False
    return True


def view(c, t, spans, cells, what):
    heads = dict(((i, j), (n, k)) for i, j, n, k in spans)
    covered = set((a, b) for i, j, n, k in spans for a in range(i, i + n) for b in range(j, j + k) if (a, b) != (i, j))
    c.same((t.nrows(), t.ncols()), (1 + max(p[0] for p in cells), 1 + max(p[1] for p in cells)), what + ': size')
    for pos, cell in t.itercells():
        c.same(cell.span, heads.get(pos, (1, 1)), '%s: span of %s' % (what, pos))
        c.same(cell.covered, pos in covered, '%s: covered flag of %s' % (what, pos))
        c.same(tables.api(cell), cells[pos], '%s: content of %s' % (what, pos))
        c.same(cell.kind, 'Cell', '%s: kind of %s' % (what, pos))
    c.count('states compared')


SPAN_ROWS, SPAN_COLS = q('table:number-rows-spanned'), q('table:number-columns-spanned')
SPANS = (SPAN_ROWS, SPAN_COLS, q('table:number-matrix-rows-spanned'), q('table:number-matrix-columns-spanned'))


class Cells(dict):
    """(type, value, style, formula) by position, and everything a cell holds besides its span in `full`."""
    def __init__(self):
        self.full = {}


def full(el):
    tag, attrs, text, children = odf.canon(el)
    return (tuple(a for a in attrs if a[0] not in SPANS), text, children)


def file_view(c, el, spans, cells, what):
    heads = dict(((i, j), (n, k)) for i, j, n, k in spans)
    covered = set((a, b) for i, j, n, k in spans for a in range(i, i + n) for b in range(j, j + k) if (a, b) != (i, j))
    for i, (row, path) in enumerate(tables.rows_of(el)):
        for j, cell in enumerate(row):
            c.same(cell.tag, tables.COVERED if (i, j) in covered else tables.CELL, '%s: tag of %d, %d' % (what, i, j))
            rows, cols = cell.get(SPAN_ROWS), cell.get(SPAN_COLS)
            if (i, j) in covered:
                c.ok(rows in (None, '1') and cols in (None, '1'), '%s: span attributes of covered cell %d, %d' % (what, i, j))
            else:
                c.same((int(rows or 1), int(cols or 1)), heads.get((i, j), (1, 1)), '%s: span of %d, %d' % (what, i, j))
            c.same(tables.observe(cell), cells[i, j], '%s: content of %d, %d' % (what, i, j))
            c.same(full(cell), cells.full[i, j], '%s: everything else of %d, %d' % (what, i, j))
    c.count('files compared')


def case(c):
    rng = c.rng
    nrows, ncols = rng.randint(1, 7), rng.randint(1, 7)
    if rng.random() < 0.02:
        nrows, ncols = rng.choice(((30, 30), (1, 600), (700, 1), (3, 300), (260, 3), (rng.randint(8, 25), rng.randint(8, 25))))
        c.count('large tables')
    spans, cells = [], Cells()
    el = gen.table(rng, 'S', nrows, ncols, rich=False)
    loaded = rng.random() < 0.6
    rows = [r for r, p in tables.rows_of(el)]
    if any(p for r, p in tables.rows_of(el)):
        c.count('grouped')
    if loaded:
        for _ in range(rng.randint(0, 5)):
            i, j = rng.randrange(nrows), rng.randrange(ncols)
            n, k = rng.randint(1, min(max(3, nrows // 2), nrows - i)), rng.randint(1, min(max(3, ncols // 2), ncols - j))
            if (n, k) == (1, 1) or not free(spans, (i, j, n, k)):
                continue
            spans.append((i, j, n, k))
            for a in range(i, i + n):
                for b in range(j, j + k):
                    rows[a][b].tag = tables.COVERED
            rows[i][j].tag = tables.CELL
            if n > 1 or rng.random() < 0.7:
                rows[i][j].set(SPAN_ROWS, str(n))
            if k > 1 or rng.random() < 0.7:
                rows[i][j].set(SPAN_COLS, str(k))
            c.count('loaded spans')
    for i in range(nrows):
        for j in range(ncols):
            cells[i, j] = tables.observe(rows[i][j])
            cells.full[i, j] = full(rows[i][j])
    content = odf.root('office:document-content', E('office:body', {}, E('office:spreadsheet', {}, el)),
                       attrs={'office:version': '1.2'})
    doc = lib.opendoc(gen.package(rng, 'ods', content=content, hostile=0).tobytes())
    t = doc.sheets['S']
    c.log('table', nrows, ncols, sorted(spans))
    view(c, t, spans, cells, 'loaded')
    for step in range(rng.randint(4, 18)):
        op = rng.choice(('set', 'set', 'set', 'set', 'near', 'remove', 'remove', 'remove other', 'limits', 'size',
                         'position', 'edit', 'reopen', 'copy'))
        i, j = rng.randrange(nrows), rng.randrange(ncols)
        if op in ('set', 'near'):
            if op == 'near' and spans:
                # close to the border of an existing rectangle
                a, b, r, s = rng.choice(spans)
                i = max(0, min(nrows - 1, a + rng.choice((-1, 0, r - 1, r))))
                j = max(0, min(ncols - 1, b + rng.choice((-1, 0, s - 1, s))))
            n, k = rng.randint(1, nrows - i), rng.randint(1, ncols - j)
            if rng.random() < 0.5:
                n, k = min(n, 2), min(k, 2)
            if rng.random() < (0.3 if nrows * ncols > 49 else 0.05):
                i = j = 0
                n, k = nrows, ncols
            pos = rng.choice(((i, j), address(i, j), address(i, j).lower()))
            c.log('set', pos, (n, k))
            if free(spans, (i, j, n, k)):
                t.set_cell_span(pos, (n, k))
                c.count('set')
                if (n, k) != (1, 1):
                    spans.append((i, j, n, k))
                else:
                    c.count('size one')
                if (n, k) == (nrows, ncols):
                    c.count('whole table')
            else:
                e = c.raises(t.set_cell_span, pos, (n, k))
                c.ok(isinstance(e, ValueError), 'overlapping span raises %r' % e)
                c.count('refused overlap')
        elif op == 'remove':
            if not spans:
                continue
            n = rng.randrange(len(spans))
            i, j = spans[n][:2]
            pos = rng.choice(((i, j), address(i, j)))
            c.log(op, pos)
            t.remove_cell_span(pos)
            del spans[n]
            c.count('removed')
        elif op == 'remove other':
            if (i, j) in [s[:2] for s in spans]:
                continue
            c.log(op, (i, j))
            try:
                t.remove_cell_span((i, j))     # nothing to remove, refusing is fine too
            except Exception as e:
                c.log(type(e).__name__)
            c.count('removed nothing')
        elif op == 'limits':
            if rng.random() < 0.5:
                size = (nrows - i + rng.randint(1, 3), rng.randint(1, ncols - j))
            else:
                size = (rng.randint(1, nrows - i), ncols - j + rng.randint(1, 3))
            c.log(op, (i, j), size)
            c.raises(t.set_cell_span, (i, j), size)
            c.count('refused limits')
        elif op == 'size':
            size = rng.choice(((0, 1), (1, 0), (-1, 1), (1, -1), (0, 0), (1,), (1, 1, 1), ('x', 1), (None, 2), 5, 'A1'))
            c.log(op, (i, j), size)
            c.raises(t.set_cell_span, (i, j), size)
            c.count('refused size')
        elif op == 'position':
            pos = rng.choice(((nrows, 0), (0, ncols), (-nrows - 1, 0), (0, -ncols - 1), address(nrows, 0), 'A0', '', 'x',
                              (0,), None, (0, 0, 0), (nrows + 5, ncols + 5)))
            c.log(op, pos)
            c.raises(t.set_cell_span, pos, rng.choice(((1, 1), (2, 2))))
            c.raises(t.remove_cell_span, pos)
            c.count('refused position')
        elif op == 'edit':
            c.log(op, (i, j), step)
            t[i, j].set_value('v%d' % step)
            cells[i, j] = ('string', 'v%d' % step) + cells[i, j][2:]
            cells.full[i, j] = full(t[i, j].xmlnode)
            c.count('edited')
        elif op == 'copy':
            c.log(op)
            other = t.copy('C')
            view(c, other, spans, cells, 'copy')
            if spans:
                other.remove_cell_span(spans[0][:2])
            try:
                other.set_cell_span((0, 0), (nrows, ncols))
            except ValueError:
                pass
            c.count('copied')
        else:
            c.log(op)
            data = doc.tobytes()
            file_view(c, tables.find_table(data, 'S'), spans, cells, 'saved')
            doc = lib.opendoc(data)
            t = doc.sheets['S']
            c.count('reopened')
        view(c, t, spans, cells, 'after ' + c.oplog[-1])
    file_view(c, tables.find_table(doc.tobytes(), 'S'), spans, cells, 'at the end')
    if spans and rng.random() < 0.3:
        cut(c, t, spans, cells, nrows, ncols)
        file_view(c, tables.find_table(doc.tobytes(), 'S'), spans, cells, 'after cutting the table')


def cut(c, t, spans, cells, nrows, ncols):
    """Delete trailing rows and columns, then remove the spans, also those which exceed the table."""
    rng = c.rng
    rows = rng.randint(1 + max(s[0] for s in spans), nrows)
    cols = rng.randint(1 + max(s[1] for s in spans), ncols)
    if rows < nrows:
        t.delete_rows(rows, nrows - rows)
    if cols < ncols:
        t.delete_columns(cols, ncols - cols)
    c.log('cut', rows, cols)
    for i, j in list(cells):
        if i >= rows or j >= cols:
            del cells[i, j]
    rng.shuffle(spans)
    while spans:
        i, j, n, k = spans.pop()
        c.log('remove', (i, j), (n, k))
        t.remove_cell_span((i, j))
        if i + n > rows or j + k > cols:
            c.count('removed exceeding')
        # the other rectangles still stand, as far as they are inside of the table
        heads = dict((s[:2], s[2:]) for s in spans)
        covered = set((x, y) for a, b, r, s in spans for x in range(a, a + r) for y in range(b, b + s)
                      if x < rows and y < cols) - set(heads)
        for pos, cell in t.itercells():
            c.same(cell.span, heads.get(pos, (1, 1)), 'span of %s in the cut table' % (pos,))
            c.same(cell.covered, pos in covered, 'covered flag of %s in the cut table' % (pos,))
            c.same(tables.api(cell), cells[pos], 'content of %s in the cut table' % (pos,))
