"""C11: all ways to address a cell agree."""
from vlib import gen, lib, odf, tables
from vlib.odf import E, q
from checks.c07 import address

PROPERTY = 'C11'
LEVEL = 'exploration'
RULE = ('Every cell of random tables (new, loaded with groups and repetition, with spans, after row and column '
        'operations, nested; 1x1 to 12x12, and wide ones of up to 18300 columns) is reached by every route: tuple, '
        'negative indices, addresses in every case, get_cell, row(), column() by index and by address, rows(), '
        'columns(), itercells(). Unique values written by one route are read by all others and found at that place '
        'of the saved file; the column names come from an independent bijective base-26 counter. Malformed and '
        'out-of-range references have to raise and leave the table as it is.')
CASES = {'quick': 2700, 'thorough': 40000}
REQUIRED = ['cells reached', 'written', 'replaced', 'refused address', 'refused range', 'wide tables', 'two letters',
            'three letters', 'four letters', 'lower case', 'info agreed', 'after operations', 'origin loaded', 'origin new',
            'origin spans', 'files compared', 'row and column by address']
MALFORMED = ('', 'A', '1', 'A0', 'a00', 'A-1', '1A', 'A1 ', ' A1', 'A1\n', '\nA1', '$A$1', 'A1:B2', '\xc41', 'A\uff11', 'A\u0661',
             'A1.0', 'A 1', 'S.A1', 'A+1', 'A1A', 'A1A1', '@1', '[1', '`1', '{1', 'A1\x00', '-A1', 'R1C1', '1,1', 'A\u00b2',
             '\u212a1', '\u01311', 'A1;', '.A1', 'A,1', 'A\t1', b'A1', None, 1.5, 0.0, {0: 0}, (0,), (), (0, 0, 0),
             ('A', 1), ('A1',), (0.5, 0), (0, 0.5), (None, 0), (0, None), ('0', '0'), (0, '0'), ((0, 0),), frozenset([0]))


def names():
    """Column names in order: A..Z, AA..ZZ, AAA.. (independent of arithmetic)"""
    import itertools
    import string
    n = 1
    while True:
        for letters in itertools.product(string.ascii_uppercase, repeat=n):
            yield ''.join(letters)
        n += 1


def column_names(count, cache=[]):
    if len(cache) < count:
        it = names()
        del cache[:]
        for _ in range(max(count, 800)):
            cache.append(next(it))
    return cache


def anycase(rng, s):
    r = rng.randrange(3)
    if r == 0:
        return s
    if r == 1:
        return s.lower()
    return ''.join(rng.choice((ch.lower(), ch)) for ch in s)


ROUTES = ('tuple', 'negative', 'mixed', 'address', 'lower', 'get_cell', 'get_cell negative', 'row', 'row negative',
          'row address', 'column', 'column negative', 'column address', 'rows', 'columns', 'itercells')


def reach(rng, t, route, i, j, n, k, cols):
    if route == 'tuple':
        return t[i, j]
    if route == 'negative':
        return t[i - n, j - k]
    if route == 'mixed':
        return t[(i, j - k) if rng.random() < 0.5 else (i - n, j)]
    if route == 'address':
        return t[cols[j] + str(i + 1)]
    if route == 'lower':
        return t[anycase(rng, cols[j]).swapcase() + str(i + 1)]
    if route == 'get_cell':
        return t.get_cell((i, j))
    if route == 'get_cell negative':
        return t.get_cell((i - n, j - k))
    if route == 'row':
        return t.row(i)[j]
    if route == 'row negative':
        return t.row(i - n)[j]
    if route == 'row address':
        return t.row(anycase(rng, rng.choice(cols[:k])) + str(i + 1))[j]
    if route == 'column':
        return t.column(j)[i]
    if route == 'column negative':
        return t.column(j - k)[i]
    if route == 'column address':
        return t.column(anycase(rng, cols[j]) + str(rng.randint(1, n)))[i]
    if route == 'rows':
        return list(t.rows())[i][j]
    if route == 'columns':
        return list(t.columns())[j][i]
    return dict(t.itercells())[i, j]


def refuse(c, t, n, k, cols):
    rng = c.rng
    before = odf.canon(t.xmlnode)
    for _ in range(6):
        bad = rng.choice(MALFORMED)
        c.log('malformed', bad)
        what = rng.randrange(6)
        if what == 0:
            c.raises(t.__getitem__, bad)
        elif what == 1:
            c.raises(t.__setitem__, bad, lib.Cell('bad'))
        elif what == 2:
            c.raises(t.set_cell_span, bad, (1, 1))
        elif what == 3:
            c.raises(t.get_cell, bad)
        elif isinstance(bad, str):
            c.raises((t.row, t.column, t.row_info, t.column_info)[rng.randrange(4)], bad)
        c.count('refused address')
    for _ in range(6):
        row = rng.choice((n, n + 1, n + 100, 10 ** 9))
        col = rng.choice((k, k + 1, k + 26, k + 676, 10 ** 9))
        far = column_names(800)[min(col, 799)] if k < 799 else 'ZZZZ'
        tries = [(t.__getitem__, (row, 0)), (t.__getitem__, (0, col)), (t.__getitem__, (-1 - row, 0)),
                 (t.__getitem__, (0, -1 - col)), (t.__getitem__, (row, col)), (t.__getitem__, (-1, -1 - col)),
                 (t.__getitem__, (-1 - row, -1)),
                 (t.__getitem__, 'A%d' % (row + 1)), (t.__getitem__, far + '1'), (t.get_cell, (row, 0)),
                 (t.get_cell, (0, -1 - col)), (t.row, row), (t.row, -1 - row), (t.column, col), (t.column, -1 - col),
                 (t.row, 'A%d' % (row + 1)), (t.column, far + '1'), (t.row_info, row), (t.row_info, -1 - row),
                 (t.column_info, col), (t.column_info, -1 - col), (t.row_info, 'A%d' % (row + 1)),
                 (t.column_info, far + '1'), (t.__getitem__, 'ABCDEFGHIJ1'), (t.__getitem__, 'A99999999999999999999')]
        func, arg = rng.choice(tries)
        c.log('out of range', func.__name__, arg)
        c.raises(func, arg)
        if func == t.__getitem__:
            c.raises(t.__setitem__, arg, lib.Cell('bad'))
        c.count('refused range')
    c.ok(odf.canon(t.xmlnode) == before, 'refused references changed the table')


def wide(c):
    """A table with columns up to AAAA and beyond."""
    rng = c.rng
    k = rng.choice((27, 30, 52, 53, 200, 701, 702, 703, 730, 1400, 18279, 18300))
    cols = column_names(k)
    t = lib.Table('W', size=(rng.choice((1, 2)) if k < 2000 else 1, k))
    n = t.nrows()
    c.log('wide', n, k)
    c.count('wide tables')
    picks = set(p for p in (0, 25, 26, 27, 51, 52, 77, 78, 675, 676, 677, 700, 701, 702, 703, 727, 728, 1377, 1378, 18252,
                            18277, 18278, 18279, k - 1) if p < k)
    picks.update(rng.randrange(k) for _ in range(20))
    picks = sorted(picks)
    for j in picks:
        i = rng.randrange(n)
        value = '%d/%d' % (i, j)
        if rng.random() < 0.5:
            t[anycase(rng, cols[j]) + str(i + 1)] = lib.Cell(value)
        else:
            t[i, j].set_value(value)
        for route in ('tuple', 'negative', 'address', 'lower', 'row address', 'get_cell', 'column address', 'row'):
            if route in ('row address', 'row') and rng.random() < 0.8 and k > 2000:
                continue
            c.same(reach(rng, t, route, i, j, n, k, cols).value, value, 'route %s of %s%d' % (route, cols[j], i + 1))
            c.count('cells reached')
        t.column_info(anycase(rng, cols[j]) + '1').style_name = 'c%d' % j
        c.same(t.column_info(j).style_name, 'c%d' % j, 'column information of %s' % cols[j])
        c.count({1: 'one letter', 2: 'two letters', 3: 'three letters', 4: 'four letters'}[len(cols[j])])
    row = t.row(0)
    for j in range(0, k):
        got = row[j].value
        if got is not None:
            c.same(int(got.split('/')[1]), j, 'column of the value')
    values = [x.value for r in t.rows() for x in r if x.value is not None]
    c.ok(len(values) >= len(picks) and len(set(values)) == len(values), 'values were lost or doubled')
    for bad in (cols[k - 1] + '0', cols[k - 1] + 'A', column_names(k + 1)[k] + '1', 'A' + cols[k - 1] + '1'
                if len(cols[k - 1]) > 2 or k < 677 else 'ZZZZZ1'):
        c.log('out of range', bad)
        c.raises(t.__getitem__, bad)
        c.raises(t.column_info, bad)
        c.raises(t.column, bad)
        c.count('refused range')


def case(c):
    rng = c.rng
    if rng.random() < 0.06:
        return wide(c)
    origin = rng.choice(('new', 'loaded', 'loaded', 'spans'))
    c.count('origin ' + origin)
    n, k = rng.randint(1, 6), rng.randint(1, 6)
    if rng.random() < 0.1:
        n, k = rng.randint(1, 12), rng.randint(1, 35)
    doc = lib.newdoc('ods')
    if origin == 'new':
        doc.sheets += lib.Table('S', size=(n, k))
    else:
        el = gen.table(rng, 'S', n, k, rich=False)
        if rng.random() < 0.5:
            row = rng.choice(tables.rows_of(el))[0]
            row.set(tables.REP_ROWS, '2')
            rng.choice(row.getchildren()).set(tables.REP_COLS, '3')
            for col, path in tables.columns_of(el)[-1:]:
                col.set(tables.REP_COLS, '3')
        content = odf.root('office:document-content', E('office:body', {}, E('office:spreadsheet', {}, el)),
                           attrs={'office:version': '1.2'})
        doc = lib.opendoc(gen.package(rng, 'ods', content=content, hostile=0).tobytes())
    t = doc.sheets['S']
    if origin == 'spans' and t.nrows() > 1 and t.ncols() > 1:
        t.set_cell_span((0, 0), (2, 1))
        t.set_cell_span((0, 1), (1, t.ncols() - 1))
    rounds = rng.randint(1, 3)
    for round_ in range(rounds):
        n, k = t.nrows(), t.ncols()
        cols = column_names(k)
        c.log('table', n, k)
        values = {}
        for i in range(n):
            for j in range(k):
                values[i, j] = 'r%dc%d.%d' % (i, j, round_)
        order = sorted(values)
        rng.shuffle(order)
        for i, j in order:
            route = rng.choice(ROUTES)
            if rng.random() < 0.3 and origin != 'spans':
                pos = rng.choice(((i, j), (i - n, j - k), anycase(rng, cols[j]) + str(i + 1)))
                if isinstance(pos, tuple) and rng.random() < 0.5:
                    t.set_cell(pos, lib.Cell(values[i, j]))
                else:
                    t[pos] = lib.Cell(values[i, j])
                c.count('replaced')
            else:
                reach(rng, t, route, i, j, n, k, cols).set_value(values[i, j])
            c.count('written')
        rng.shuffle(order)
        for i, j in order[:40]:
            for route in (ROUTES if n * k < 12 else rng.sample(ROUTES, 5)):
                c.same(reach(rng, t, route, i, j, n, k, cols).value, values[i, j],
                       'cell %d, %d by %s' % (i, j, route))
                c.count('cells reached')
                c.count('lower case' if route == 'lower' else 'route ' + route)
        for i in range(n):
            c.same([x.value for x in t.row(i)], [values[i, j] for j in range(k)], 'row %d' % i)
            t.row_info(i).style_name = 'r%d' % i
        for j in range(k):
            c.same([x.value for x in t.column(j)], [values[i, j] for i in range(n)], 'column %d' % j)
            t.column_info(j).style_name = 'k%d' % j
        i, j = rng.randrange(n), rng.randrange(k)
        for info in (t.row_info(i), t.row_info(i - n), t.row_info(anycase(rng, rng.choice(cols[:k])) + str(i + 1))):
            c.same(info.style_name, 'r%d' % i, 'information of row %d' % i)
        for info in (t.column_info(j), t.column_info(j - k), t.column_info(anycase(rng, cols[j]) + str(rng.randint(1, n)))):
            c.same(info.style_name, 'k%d' % j, 'information of column %d' % j)
        c.count('info agreed')
        c.count('row and column by address')
        refuse(c, t, n, k, cols)
        el = tables.find_table(doc.tobytes(), 'S')
        for i, (row, path) in enumerate(tables.rows_of(el)):
            c.same([tables.observe(x)[1] for x in tables.cells_of(row)], [values[i, j] for j in range(k)],
                   'row %d in the file' % i)
        c.count('files compared')
        if round_ + 1 < rounds:
            for _ in range(rng.randint(1, 4)):
                op = rng.choice(('insert_rows', 'insert_columns', 'append_rows', 'append_columns', 'delete_rows',
                                 'delete_columns', 'reset'))
                c.log(op)
                if op.startswith('insert') or op.startswith('delete'):
                    size = t.nrows() if op.endswith('rows') else t.ncols()
                    if op.startswith('insert') or size > 1:
                        getattr(t, op)(rng.randrange(-size, size))
                elif op == 'reset':
                    t.reset((rng.randint(1, 4), rng.randint(1, 4)))
                else:
                    getattr(t, op)()
                c.count('after operations')
