"""Independent reading of <table:table> elements (saved files) and views of
tables by the public API."""
from . import odf
from .odf import q

ROW, COL = q('table:table-row'), q('table:table-column')
ROW_GROUPS = [q('table:table-header-rows'), q('table:table-row-group'), q('table:table-rows')]
COL_GROUPS = [q('table:table-header-columns'), q('table:table-column-group'), q('table:table-columns')]
CELL, COVERED = q('table:table-cell'), q('table:covered-table-cell')
REP_COLS, REP_ROWS = q('table:number-columns-repeated'), q('table:number-rows-repeated')


def walk(el, tag, groups, path=()):
    out = []
    for child in el:
        if child.tag == tag:
            out.append((child, path))
        elif child.tag in groups:
            out.extend(walk(child, tag, groups, path + (odf.pretty(child.tag),)))
    return out


def rows_of(table):
    return walk(table, ROW, ROW_GROUPS)


def columns_of(table):
    return walk(table, COL, COL_GROUPS)


def cells_of(row):
    return [c for c in row if c.tag in (CELL, COVERED)]


def others_of(table):
    """Canonical children which are neither rows nor columns."""
    skip = [ROW, COL] + ROW_GROUPS + COL_GROUPS
    return [odf.canon(c) for c in table if c.tag not in skip and isinstance(c.tag, str)]


def notes_of(table):
    """Texts of the comments and processing instructions outside of cells."""
    out = []

    def visit(el):
        for c in el:
            if not isinstance(c.tag, str):
                out.append(c.text)
            elif c.tag in [ROW, COL] + ROW_GROUPS + COL_GROUPS:
                visit(c)
    visit(table)
    return sorted(out)


def sprinkle(rng, table):
    """Comments and processing instructions outside of cells."""
    places = [table] + [x for x in table.iter(ROW, *(ROW_GROUPS + COL_GROUPS))]
    for n in range(rng.randint(1, 5)):
        place = rng.choice(places)
        note = odf.etree.Comment('note %d' % n) if rng.random() < 0.7 else odf.etree.ProcessingInstruction('pi', 'n%d' % n)
        place.insert(rng.randint(0, len(place)), note)


def sprinkle_ids(rng, table):
    """xml:id identifiers of columns, rows, cells and their content."""
    for x in table.iter(COL, ROW, CELL, COVERED, q('text:p'), q('text:list')):
        if x.get(odf.XMLID) is None and rng.random() < 0.2:
            x.set(odf.XMLID, 'id%d' % rng.randint(1, 10 ** 9))


def sides_of(table):
    """Where the other children are, as far as the rows are concerned."""
    rows = [n for n, c in enumerate(table) if c.tag in [ROW] + ROW_GROUPS]
    skip = [ROW, COL] + ROW_GROUPS + COL_GROUPS
    return ['behind the rows' if rows and n > rows[-1] else 'in front of the last row'
            for n, c in enumerate(table) if c.tag not in skip and isinstance(c.tag, str)]


VALUE_ATTR = {'float': 'office:value', 'percentage': 'office:value', 'currency': 'office:value',
              'date': 'office:date-value', 'time': 'office:time-value', 'boolean': 'office:boolean-value'}


def text_of(el):
    """Text of a paragraph as a consumer shows it (no white space collapsing)."""
    out = [el.text or '']
    for c in el:
        if c.tag == q('text:s'):
            out.append(' ' * int(c.get(q('text:c'), '1')))
        elif c.tag == q('text:tab'):
            out.append('\t')
        elif c.tag == q('text:line-break'):
            out.append('\n')
        elif isinstance(c.tag, str):
            out.append(text_of(c))
        out.append(c.tail or '')
    return ''.join(out)


def observe(cell):
    """(value type, value, style, formula) of a cell element."""
    t = cell.get(q('office:value-type'))
    if t == 'string':
        v = '\n'.join(text_of(p) for p in cell if p.tag in (q('text:p'), q('text:h')))
    elif t in VALUE_ATTR:
        v = cell.get(q(VALUE_ATTR[t]))
        if VALUE_ATTR[t] == 'office:value' and v is not None:
            v = float(v)
        elif t == 'boolean' and v is not None:
            v = v == 'true'
    else:
        v = None
    return (t, v, cell.get(q('table:style-name')), cell.get(q('table:formula')))


def api(cell):
    """The same by the public interface."""
    return (cell.value_type, cell.value, cell.style_name, cell.formula)


def find_table(data, name, member='content.xml'):
    r = odf.parse(odf.read_package(data)[member] if data[:2] == b'PK' else data)
    found = [t for t in r.iter(q('table:table')) if t.get(q('table:name')) == name]
    return found[0] if found else None


def is_simple(cell):
    """Nothing but paragraphs of text without white space elements."""
    return all(p.tag == q('text:p') and len(p) == 0 for p in cell)
