"""C08: repeated rows, columns and cells are expanded as configured."""
from vlib import gen, lib, odf, tables
from vlib.odf import E, q

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('Tables with random repetition counts of rows, cells (covered and rich ones too) and column declarations '
        '(below, at and above maxcount, in groups and outside, short rows, missing and surplus column declarations) '
        'are loaded under every strategy and random maxcounts, several sheets with different configurations after '
        'each other, resets of the configuration in between, in spreadsheets, text documents and flat documents. The '
        'matrix seen by the API and the table in the saved file equal the result of an independent expansion of the '
        'source; then random copies are edited and all others have to stay as they are.')
CASES = {'quick': 1600, 'thorough': 60000}
REQUIRED = ['identifiers', 'strategy all', 'strategy all_but_last', 'strategy all_less_maxcount', 'strategy reset', 'strategy default',
            'rows at maxcount', 'cells at maxcount', 'columns at maxcount', 'rows below maxcount',
            'cells below maxcount', 'short rows', 'grouped', 'copies edited', 'row copies edited',
            'column copies edited', 'origin text', 'origin flat', 'reopened', 'comments', 'large tables', 'long runs', 'rows without cells']


def repeat(rng, limit, maxn):
    r = rng.random()
    if r < 0.45:
        return 1
    if r < 0.75:
        return rng.randint(2, 4)
    return min(maxn, max(1, limit + rng.choice((-1, 0, 1, 5))))


def source(c, name, maxcount, big=False):
    """table element and its logical content [(row attr, path, n, [(cell, n)])], [(attr, path, n)]"""
    rng = c.rng
    el = gen.table(rng, name, *(rng.choice(((600, 1), (1100, 1), (2, 2), (1, 300))) if big else (rng.randint(1, 4), rng.randint(1, 4))))
    maxn = 40 if max(maxcount) <= 16 else 12
    large = []
    if big and len(tables.rows_of(el)) < 10:        # long runs in one direction
        large = [rng.choice((tables.REP_COLS, tables.REP_ROWS))]
        maxn = 2
        c.count('long runs')
    elif big:
        c.count('large tables')
        maxn = 3
    for row, path in tables.rows_of(el):
        n = repeat(rng, maxcount[0], maxn)
        if n > 1 or rng.random() < 0.1:
            row.set(tables.REP_ROWS, str(n))
        if n >= maxcount[0]:
            c.count('rows at maxcount')
        elif n > 1:
            c.count('rows below maxcount')
        if path:
            c.count('grouped')
        if tables.REP_ROWS in large and rng.random() < 0.7:
            row.set(tables.REP_ROWS, str(rng.choice((255, 256, 1000, 1025))))
        cells = tables.cells_of(row)
        if rng.random() < 0.25 and len(cells) > 1:
            row.remove(cells.pop())
            c.count('short rows')
        if rng.random() < 0.02:
            for cell in cells:
                row.remove(cell)
            cells = []
            c.count('rows without cells')
        for cell in cells:
            if rng.random() < 0.1:
                cell.tag = tables.COVERED
            n = repeat(rng, maxcount[1], maxn)
            if n > 1 or rng.random() < 0.1:
                cell.set(tables.REP_COLS, str(n))
            if n >= maxcount[1]:
                c.count('cells at maxcount')
            elif n > 1:
                c.count('cells below maxcount')
            if tables.REP_COLS in large and rng.random() < 0.7:
                cell.set(tables.REP_COLS, str(rng.choice((255, 256, 702, 1025))))
    if not any(tables.cells_of(row) for row, path in tables.rows_of(el)):
        tables.rows_of(el)[0][0].append(E('table:table-cell'))
    cols = tables.columns_of(el)
    for col, path in cols:
        n = repeat(rng, maxcount[1], maxn)
        if n > 1 or rng.random() < 0.1:
            col.set(tables.REP_COLS, str(n))
        if n >= maxcount[1]:
            c.count('columns at maxcount')
    if rng.random() < 0.08:
        tables.sprinkle(rng, el)
        c.count('comments')
    if rng.random() < 0.2:
        tables.sprinkle_ids(rng, el)
        c.count('identifiers')
    return el


def count_of(el, name):
    return int(el.get(name, '1'))


def single(el, *names):
    """Canonical form of the element without repetition."""
    tag, attrs, text, children = odf.without_ids(odf.canon(el))
    return (tag, tuple(a for a in attrs if a[0] not in names), text, children)


def expand(el, strategy, maxcount):
    """Rows [(attributes, path, [cell])] and columns [(attributes, path)] of the loaded table."""
    def times(n, last, limit):
        if strategy == 'all':
            return n
        if strategy == 'all_but_last':
            return 1 if last else n
        return n if n < limit else 1
    rows = []
    src = tables.rows_of(el)
    for i, (row, path) in enumerate(src):
        cells = tables.cells_of(row)
        out = []
        for j, cell in enumerate(cells):
            out.extend([(single(cell, tables.REP_COLS), cell)] * times(
                count_of(cell, tables.REP_COLS), j == len(cells) - 1, maxcount[1]))
        attrs = dict(row.attrib)
        attrs.pop(tables.REP_ROWS, None)
        attrs.pop(odf.XMLID, None)
        for _ in range(times(count_of(row, tables.REP_ROWS), i == len(src) - 1, maxcount[0])):
            rows.append([attrs, path, list(out)])
    width = max(len(r[2]) for r in rows)
    blank = E('table:table-cell')
    for r in rows:
        r[2].extend([(odf.canon(blank), blank)] * (width - len(r[2])))
    columns = []
    src = tables.columns_of(el)
    for j, (col, path) in enumerate(src):
        attrs = dict(col.attrib)
        attrs.pop(tables.REP_COLS, None)
        attrs.pop(odf.XMLID, None)
        columns.extend([(attrs, path)] * times(count_of(col, tables.REP_COLS), j == len(src) - 1, maxcount[1]))
    while len(columns) < width:
        columns.append(({}, None))
    return rows, columns, (tables.others_of(el), tables.notes_of(el)), odf.ids_of(el)


def check_api(c, t, rows, columns, what):
    c.same((t.nrows(), t.ncols()), (len(rows), len(rows[0][2])), what + ': size')
    for i, row in enumerate(t.rows()):
        c.same(len(row), len(rows[i][2]), '%s: cells of row %d' % (what, i))
        for j, cell in enumerate(row):
            src = rows[i][2][j][1]
            if tables.is_simple(src):
                c.same(tables.api(cell), tables.observe(src), '%s: cell %d, %d' % (what, i, j))
            c.same(cell.covered, src.tag == tables.COVERED, '%s: covered %d, %d' % (what, i, j))
        c.same(t.row_info(i).style_name, rows[i][0].get(q('table:style-name')), '%s: row style %d' % (what, i))
    for j in range(t.ncols()):
        c.same(t.column_info(j).style_name, columns[j][0].get(q('table:style-name')), '%s: column style %d' % (what, j))


def check_file(c, data, name, expected, what):
    rows, columns, others, ids = expected
    el = tables.find_table(data, name)
    got = tables.rows_of(el)
    c.same(len(got), len(rows), what + ': rows in the file')
    for i, (row, path) in enumerate(got):
        attrs = dict(row.attrib)
        c.ok(attrs.pop(tables.REP_ROWS, '1') == '1', what + ': repetition of rows in the file')
        attrs.pop(odf.XMLID, None)
        c.same(attrs, rows[i][0], '%s: attributes of row %d in the file' % (what, i))
        c.same(path, rows[i][1], '%s: groups of row %d in the file' % (what, i))
        cells = tables.cells_of(row)
        c.same(len(cells), len(rows[i][2]), '%s: cells of row %d in the file' % (what, i))
        for j, cell in enumerate(cells):
            c.ok(cell.get(tables.REP_COLS, '1') == '1', what + ': repetition of cells in the file')
            now = single(cell, tables.REP_COLS)
            was = rows[i][2][j][0]
            if now != was:
                c.fail('%s: cell %d, %d in the file: %s' % (what, i, j, odf.first_difference(was, now)))
            c.observations += 1
    got = tables.columns_of(el)
    c.same(len(got), len(columns), what + ': column declarations in the file')
    for j, (col, path) in enumerate(got):
        attrs = dict(col.attrib)
        c.ok(attrs.pop(tables.REP_COLS, '1') == '1', what + ': repetition of columns in the file')
        attrs.pop(odf.XMLID, None)
        c.same(attrs, columns[j][0], '%s: attributes of column %d in the file' % (what, j))
        if columns[j][1] is not None:
            c.same(path, columns[j][1], '%s: groups of column %d in the file' % (what, j))
    c.same((tables.others_of(el), tables.notes_of(el)), others, what + ': other children')
    if what == 'saved':
        c.same(odf.ids_of(el), ids, 'identifiers in the file')
    else:
        now = odf.ids_of(el)
        c.ok(len(set(now)) == len(now) and set(now) <= set(ids), what + ': identifiers in the file', ids=now)
    c.same(dict(el.attrib)[q('table:name')], name, what + ': name')


def configure(c):
    """Set the configuration, returns (strategy, maxcount) in force."""
    rng, config = c.rng, lib.config
    r = rng.random()
    if r < 0.15:
        config.set_table_expand_strategy('all', (2, 2))
        config.reset_table_expand_strategy()
        c.count('strategy reset')
        result = ('all_less_maxcount', (32, 32))
    elif r < 0.25:
        strategy = rng.choice(('all_less_maxcount', 'all', 'all_but_last'))
        config.set_table_expand_strategy('all', (3, 3))
        config.set_table_expand_strategy(strategy)
        c.count('strategy default')
        result = (strategy, (32, 32))
    else:
        strategy = rng.choice(('all', 'all_but_last', 'all_less_maxcount', 'all_less_maxcount'))
        maxcount = (rng.choice((1, 2, 3, 5, 8, 16)), rng.choice((1, 2, 3, 4, 7, 12)))
        if rng.random() < 0.06:
            maxcount = (rng.choice((64, 300, 2000)), rng.choice((64, 300, 2000)))
        config.set_table_expand_strategy(strategy, maxcount)
        result = (strategy, maxcount)
    c.count('strategy ' + result[0])
    c.log('config', *result)
    return result


def case(c):
    rng = c.rng
    c.cleanup.append(lib.config.reset_table_expand_strategy)
    lib.config.reset_table_expand_strategy()
    origin = rng.choice(('ods', 'ods', 'ods', 'text', 'flat'))
    c.count('origin ' + origin)
    for round_ in range(rng.randint(1, 3)):
        strategy, maxcount = configure(c) if round_ or rng.random() < 0.9 else ('all_less_maxcount', (32, 32))
        limits = maxcount if strategy == 'all_less_maxcount' else (rng.randint(2, 12), rng.randint(2, 12))
        big = rng.random() < 0.015
        names = ['S%d' % n for n in range(1 if big else rng.randint(1, 2))]
        els = [source(c, n, limits, big) for n in names]
        b = E('office:text' if origin == 'text' else 'office:spreadsheet')
        b.extend(els)
        kind = 'odt' if origin == 'text' else 'ods'
        expected = dict((n, expand(e, strategy, maxcount)) for n, e in zip(names, els))
        c.log(origin, [(len(r), len(r[0][2])) for r, k, o, i in expected.values()])
        if origin == 'flat':
            r = odf.root('office:document', E('office:body', {}, b), attrs={
                'office:version': '1.2', 'office:mimetype': odf.MIMETYPES['ods']})
            lib.write(c.path('x.fods'), odf.xml(r))
            doc = lib.opendoc(c.path('x.fods'))
        else:
            content = odf.root('office:document-content', E('office:body', {}, b), attrs={'office:version': '1.2'})
            doc = lib.opendoc(gen.package(rng, kind, content=content, hostile=0).tobytes())

        def handles(doc):
            if origin == 'text':
                return dict((t.name, t) for t in doc.body if t.kind == 'Table')
            return dict((n, doc.sheets[n]) for n in names)
        found = handles(doc)
        if rng.random() < 0.5:
            # has no influence on tables which are loaded already
            lib.config.set_table_expand_strategy(rng.choice(('all', 'all_but_last')))
        for n in names:
            check_api(c, found[n], *expected[n][:2], what='loaded')
        data = doc.tobytes()
        for n in names:
            check_file(c, data, n, expected[n], 'saved')
        if rng.random() < 0.3:
            lib.config.set_table_expand_strategy(strategy, maxcount)
            doc = lib.opendoc(data) if origin != 'flat' else doc
            found = handles(doc)
            for n in names:
                check_api(c, found[n], *expected[n][:2], what='reopened')
            c.count('reopened')
        edit(c, doc, found, names, expected)


def edit(c, doc, found, names, expected):
    """Edits of single cells, rows and columns do not reach their copies."""
    rng = c.rng
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(names)
        t, (rows, columns, others, ids) = found[n], expected[n]
        i, j = rng.randrange(len(rows)), rng.randrange(len(rows[0][2]))
        r = rng.random()
        if r < 0.5:
            c.log('edit cell', n, i, j)
            value = 'edited %d' % rng.randrange(1000)
            cell = t[i, j]
            cell.set_value(value)
            src = rows[i][2][j][1]
            new = E(odf.pretty(src.tag))
            for k, v in src.attrib.items():
                if k != tables.REP_COLS and not k.startswith('{%s}' % odf.NS['office']):
                    new.set(k, v)
            new.set(q('office:value-type'), 'string')
            new.append(E('text:p', {}, value))
            rows[i][2][j] = (odf.without_ids(odf.canon(new)), new)
            c.count('copies edited')
        elif r < 0.75:
            c.log('edit row', n, i)
            t.row_info(i).style_name = 'edited'
            rows[i][0] = dict(rows[i][0])
            rows[i][0][q('table:style-name')] = 'edited'
            c.count('row copies edited')
        else:
            c.log('edit column', n, j)
            t.column_info(j).style_name = 'edited'
            attrs = dict(columns[j][0])
            attrs[q('table:style-name')] = 'edited'
            columns[j] = (attrs, columns[j][1])
            c.count('column copies edited')
    data = doc.tobytes()
    for n in names:
        check_file(c, data, n, expected[n], 'after edits')
        check_api(c, found[n], *expected[n][:2], what='after edits')
