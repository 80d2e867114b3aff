"""Seeded generators of texts, names, XML parts and whole packages."""
from lxml import etree

from .odf import E, NS, MIMETYPES, BODY, Pkg, q, root, xml, XMLID

LETTERS = 'abcxyzABCXYZ019'
PUNCT = '.,;:!?<>&"\'()[]{}%$#@+-*/=_|~^`\\'
UNI = '\xe4\xf6\xfc\xdf\xe9\xf1\u20ac\u03a9\u0416\u4e2d\u6587\u05d0\u0627\u0301\u200b\u200d\u2028\u2029\xa0\x85\xad\ufffd\ufeff\U0001f600\U00010400\u3000\u2003'


def text(rng, maxlen=24, ws=True, minlen=0):
    """XML-legal text without carriage return."""
    n = rng.randint(minlen, maxlen)
    style = rng.random()
    out = []
    while len(out) < n:
        r = rng.random()
        if ws and r < (0.5 if style < 0.35 else 0.2):
            kind = rng.random()
            if kind < 0.6:
                out.extend(' ' * rng.choice((1, 1, 1, 2, 2, 3, 4, 7)))
            elif kind < 0.8:
                out.extend('\t' * rng.choice((1, 1, 2)))
            else:
                out.extend('\n' * rng.choice((1, 1, 2)))
        elif r < 0.75 or not ws and r < 0.8:
            out.append(rng.choice(LETTERS))
        elif r < 0.9:
            out.append(rng.choice(PUNCT))
        else:
            out.append(rng.choice(UNI))
    return ''.join(out[:n]) if n else ''


def word(rng, n=6):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(1, n)))


def label(rng):
    """Non-empty name without leading/trailing white space."""
    s = rng.choice(('', 'N', '\xdc', '1', 'a b', '$')) + word(rng) + rng.choice(
        ('', ' 2', '\xe9', '.x', '&', '<', ' b c', '/'))
    return s


def plain(rng, maxlen=12):
    """Non-empty text without white space other than inner single spaces."""
    return ' '.join(word(rng) + rng.choice(('', '', '\xe4', '&', '<', '"'))
                    for _ in range(rng.randint(1, 3)))[:maxlen].strip() or 'x'


def number_text(rng):
    return rng.choice(('0', '1', '-1', '12.5', '1e10', '-0.25', '3', '1000000', '0.1'))


# ---------------------------------------------------------------- XML content
def paragraph(rng, tag='text:p', depth=0):
    p = E(tag)
    if rng.random() < 0.1:
        p.set(XMLID, 'id%d' % rng.randint(1, 10 ** 9))
    if tag == 'text:h':
        p.set(q('text:outline-level'), str(rng.randint(1, 4)))
    if rng.random() < 0.4:
        p.set(q('text:style-name'), rng.choice(('Standard', 'P1', 'Text_20_body')))
    parts = []
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < 0.45:
            parts.append(plain(rng) + rng.choice(('', ' ')))
            if rng.random() < 0.1:
                parts.append(rng.choice((' ', ' ', '\xa0', '\r', ' \r', '\u2028')))
        elif r < 0.6:
            parts.append(E('text:span', {'text:style-name': 'T%d' % rng.randint(1, 3)},
                           rng.choice(('', '', '', ' ')) + plain(rng) if rng.random() < 0.9 else ' '))
            if rng.random() < 0.3: # white space between two elements is content
                parts.append(' ')
                parts.append(E('text:span', {}, plain(rng)))
        elif r < 0.67:
            parts.append(E('text:s', {'text:c': str(rng.choice((1, 2, 3, 5)))} if rng.random() < .5 else {}))
        elif r < 0.72:
            parts.append(E('text:tab'))
        elif r < 0.77:
            parts.append(E('text:line-break'))
        elif r < 0.82:
            parts.append(E('text:a', {'xlink:href': 'http://example.org/?a=1&b=2',
                                      'xlink:type': 'simple'}, plain(rng)))
        elif r < 0.86:
            parts.append(E('text:bookmark', {'text:name': word(rng)}))
        elif r < 0.9 and depth == 0:
            parts.append(E('text:note', {'text:id': 'ftn1', 'text:note-class': 'footnote'},
                           E('text:note-citation', {}, '1'),
                           E('text:note-body', {}, paragraph(rng, depth=1))))
        elif r < 0.93 and depth == 0:
            parts.append(E('draw:frame', {'draw:name': 'F', 'svg:width': '2cm'},
                           E('draw:image', {'xlink:href': 'Pictures/a.png'})))
        elif r < 0.96:
            parts.append(E('foreign:thing', {'foreign:a': 'of:=[.A1]', 'plain': '1'}, plain(rng)))
        else:
            parts.append(etree.Comment(' c '))
    for part in parts:
        if isinstance(part, str):
            if len(p):
                p[-1].tail = (p[-1].tail or '') + part
            else:
                p.text = (p.text or '') + part
        else:
            p.append(part)
    return p


def cell(rng, rich=True, value=None):
    r = rng.random()
    c = E('table:table-cell')
    if rng.random() < 0.3:
        c.set(q('table:style-name'), 'ce%d' % rng.randint(1, 4))
    if rng.random() < 0.08:                 # the defaults, as some producers write them
        c.set(q('table:number-rows-spanned'), '1')
        c.set(q('table:number-columns-spanned'), '1')
    if r < 0.25:
        if rng.random() < 0.06:
            more_of_cell(rng, c)
        return c
    if r < 0.55:
        c.set(q('office:value-type'), 'string')
        c.append(E('text:p', {}, value or plain(rng)))
        if rng.random() < 0.2:
            c.append(E('text:p', {}, plain(rng)))
    elif r < 0.75:
        v = number_text(rng)
        c.set(q('office:value-type'), 'float')
        c.set(q('office:value'), v)
        c.append(E('text:p', {}, v))
        if rng.random() < 0.3:
            c.set(q('table:formula'), 'of:=SUM([.A1:.B2])')
    elif r < 0.82:
        c.set(q('office:value-type'), 'currency')
        c.set(q('office:currency'), 'EUR')
        c.set(q('office:value'), number_text(rng))
    elif r < 0.88:
        c.set(q('office:value-type'), 'boolean')
        c.set(q('office:boolean-value'), rng.choice(('true', 'false')))
    elif r < 0.94:
        c.set(q('office:value-type'), 'date')
        c.set(q('office:date-value'), '2010-01-%02d' % rng.randint(1, 28))
    elif rich:
        c.set(q('office:value-type'), 'string')
        c.append(E('office:annotation', {'office:display': 'true'}, E('dc:creator', {}, 'me'),
                   E('text:p', {}, 'note')))
        c.append(paragraph(rng))
    if rng.random() < 0.12:
        more_of_cell(rng, c)
    return c


def more_of_cell(rng, c):
    """What cells of real documents hold in addition."""
    what = rng.random()
    if what < 0.3:          # several lines
        c.extend([E('text:p', {}, plain(rng)) if rng.random() < 0.7 else E('text:p')
                  for _ in range(rng.randint(2, 5))])
    elif what < 0.45:
        c.set(q('table:formula'), 'of:=[.B1]&"x"')
        c.append(E('text:p', {}, plain(rng)))
    elif what < 0.55:
        c.append(E('text:h', {'text:outline-level': '1'}, plain(rng)))
    elif what < 0.65:
        c.append(E('draw:frame', {'table:end-cell-address': 'Sheet0.C3'}, E('draw:image', {'xlink:href': 'Pictures/a.png'})))
    elif what < 0.75:
        c.set(q('table:content-validation-name'), 'val1')
        c.set(q('table:protect'), rng.choice(('true', 'false')))
    elif what < 0.85:
        c.append(E('text:list', {}, E('text:list-item', {}, E('text:p', {}, plain(rng)))))
    elif c.get(q('office:value-type')) == 'string':
        c.set(q('office:string-value'), plain(rng))
        if rng.random() < 0.5:
            del c[:]
    elif c.get(q('office:value-type')) is None:
        c.set(q('office:value'), '3')       # value without a type


def table(rng, name, nrows=None, ncols=None, rich=True, groups=True):
    """A table without repetition, with one declaration for each column."""
    nrows = nrows or rng.randint(1, 5)
    ncols = ncols or rng.randint(1, 5)
    t = E('table:table', {'table:name': name})
    if rng.random() < 0.4:
        t.set(q('table:style-name'), 'ta1')
    if rich and rng.random() < 0.3:
        for key, value in (('table:print', 'false'), ('table:print-ranges', 'T.A1:T.B2'), ('table:protected', 'true'), ('table:protection-key', 'k3y='),
                           ('table:is-sub-table', 'true'), ('table:template-name', 'tpl'), ('table:use-banding-rows-styles', 'true'),
                           ('foreign:table', 'x'), ('table:protection-key-digest-algorithm', 'urn:x')):
            if rng.random() < 0.3:
                t.set(q(key), value)
    for tag in ('table:title', 'table:desc', 'table:table-source', 'office:dde-source', 'table:scenario'):
        if rich and rng.random() < 0.05:
            t.append(E(tag, {}, plain(rng)) if tag in ('table:title', 'table:desc') else E(tag, {'foreign:a': '1'}))
    if rich and rng.random() < 0.2:
        t.append(E('office:forms', {'form:automatic-focus': 'false'}))
    if rich and rng.random() < 0.2:
        t.append(E('table:shapes', {}, E('draw:rect', {'svg:width': '1cm'})))
    cols = []
    for i in range(ncols):
        c = E('table:table-column')
        if rng.random() < 0.5:
            c.set(q('table:style-name'), 'co%d' % rng.randint(1, 5))
        if rng.random() < 0.2:
            c.set(q('table:default-cell-style-name'), 'Default')
        if rng.random() < 0.15:
            c.set(q('table:visibility'), rng.choice(('collapse', 'filter', 'visible')))
        if rng.random() < 0.05:
            c.set(q('foreign:col'), str(i))
        cols.append(c)
    rows = []
    for i in range(nrows):
        r = E('table:table-row')
        if rng.random() < 0.5:
            r.set(q('table:style-name'), 'ro%d' % rng.randint(1, 5))
        if rng.random() < 0.2:
            r.set(q('table:visibility'), rng.choice(('collapse', 'filter', 'visible')))
        if rng.random() < 0.1:
            r.set(q('table:default-cell-style-name'), 'Default')
        if rng.random() < 0.05:
            r.set(q('foreign:row'), str(i))
        r.extend([cell(rng, rich) for _ in range(ncols)])
        rows.append(r)
    extend_grouped(rng, t, cols, 'table:table-header-columns', 'table:table-column-group',
                   'table:table-columns', groups)
    extend_grouped(rng, t, rows, 'table:table-header-rows', 'table:table-row-group',
                   'table:table-rows', groups)
    if rich and rng.random() < 0.25:
        t.append(E('table:named-expressions', {}, E('table:named-range', {'table:name': 'local'})))
    return t


def extend_grouped(rng, parent, items, header, group, plural, groups=True):
    """Put items (columns or rows) into `parent`, some inside of grouping elements."""
    items = list(items)
    mode = rng.random() if groups else 1.0
    if mode < 0.15 and len(items) > 1:
        k = rng.randint(1, len(items) - 1)
        h = E(header)
        h.extend(items[:k])
        parent.append(h)
        parent.extend(items[k:])
    elif mode < 0.3 and items:
        k = rng.randint(0, len(items) - 1)
        m = rng.randint(k + 1, len(items))
        g = E(group)
        g.extend(items[k:m])
        parent.extend(items[:k])
        parent.append(g)
        parent.extend(items[m:])
    elif mode < 0.38 and len(items) > 1:
        k = rng.randint(1, len(items) - 1)
        h = E(header)
        h.extend(items[:k])
        g2 = E(group)
        g2.extend(items[k:])
        g = E(group, {}, h, g2)
        parent.append(g)
    elif mode < 0.45:
        g = E(plural)
        g.extend(items)
        parent.append(g)
    elif mode < 0.55:
        mixed_groups(rng, parent, items, header, group, plural, 3)
    else:
        parent.extend(items)


def mixed_groups(rng, parent, items, header, group, plural, depth):
    """Runs of items plain, in any grouping element, and in groups of groups."""
    while items:
        k = rng.randint(1, len(items))
        run, items = items[:k], items[k:]
        kind = rng.choice((None, header, plural, group, group))
        if kind is None:
            parent.extend(run)
            continue
        g = E(kind)
        parent.append(g)
        if kind == group and depth:
            mixed_groups(rng, g, run, header, group, plural, depth - 1)
        else:
            g.extend(run)


def decls(rng):
    out = []
    if rng.random() < 0.5:
        out.append(E('text:variable-decls', {}, E('text:variable-decl', {
            'text:name': 'v1', 'office:value-type': 'string'})))
    if rng.random() < 0.5:
        out.append(E('text:sequence-decls', {}, E('text:sequence-decl', {
            'text:name': 'Table', 'text:display-outline-level': '0'})))
    if rng.random() < 0.5:
        out.append(E('text:user-field-decls', {}, E('text:user-field-decl', {
            'text:name': 'u1', 'office:value-type': 'float', 'office:value': '3'})))
    return out


def epilogue(rng):
    out = []
    if rng.random() < 0.5:
        out.append(E('table:named-expressions', {}, E('table:named-range', {
            'table:name': 'nr', 'table:cell-range-address': '$S.$A$1'})))
    if rng.random() < 0.4:
        out.append(E('table:database-ranges', {}, E('table:database-range', {
            'table:name': 'db', 'table:target-range-address': 'S.A1:S.B2'})))
    if rng.random() < 0.2:
        out.append(E('table:data-pilot-tables'))
    if rng.random() < 0.2:
        out.append(E('table:dde-links'))
    return out


def text_block(rng, depth=0):
    r = rng.random()
    if r < 0.45:
        return paragraph(rng)
    if r < 0.6:
        return paragraph(rng, 'text:h')
    if r < 0.75:
        lst = E('text:list', {'text:style-name': 'L1'})
        if rng.random() < 0.3:
            lst.append(E('text:list-header', {}, paragraph(rng)))
        for _ in range(rng.randint(1, 3)):
            lst.append(E('text:list-item', {}, paragraph(rng)))
        return lst
    if r < 0.85 and depth == 0:
        s = E('text:section', {'text:name': 'Sect', 'text:style-name': 'S'})
        s.extend([text_block(rng, 1) for _ in range(rng.randint(0, 2))])
        return s
    if r < 0.95:
        return table(rng, label(rng), rng.randint(1, 3), rng.randint(1, 3))
    if r < 0.96:
        return E('text:soft-page-break')
    if r < 0.98:
        np = E('text:numbered-paragraph', {'text:list-id': 'l1'})
        if rng.random() < 0.6:
            np.set(q('text:level'), str(rng.randint(1, 5)))
        if rng.random() < 0.5:
            np.set(q('text:style-name'), 'L1')
        if rng.random() < 0.3:
            np.set(q('text:start-value'), str(rng.randint(1, 9)))
        if rng.random() < 0.4:
            np.append(E('text:number', {}, '1.'))
        np.append(paragraph(rng, rng.choice(('text:p', 'text:h'))))
        return np
    what = rng.randrange(4)
    if what == 0 and depth < 3:
        return E('text:list', {}, E('text:list-item', {'text:start-value': '3'}, paragraph(rng), E(
            'text:list', {'text:continue-numbering': 'true'}, E('text:list-item', {}, text_block(rng, depth + 1)))))
    if what == 1:
        return E('text:table-of-content', {'text:name': 'Toc', 'text:protected': 'true'},
                 E('text:table-of-content-source', {'text:outline-level': '3'}),
                 E('text:index-body', {}, E('text:index-title', {'text:name': 'Head'}, paragraph(rng)), paragraph(rng)))
    if what == 2:
        return E('draw:rect', {'svg:width': '1cm'}, paragraph(rng))
    return E('text:change', {'text:change-id': 'ct1'})


def body(rng, kind):
    b = E(BODY[kind])
    base = BODY[kind]
    if base == 'office:text':
        if rng.random() < 0.3:
            b.set(q('text:use-soft-page-breaks'), 'true')
        if rng.random() < 0.3:
            b.append(E('office:forms', {'form:automatic-focus': 'false'}))
        if rng.random() < 0.2:
            b.append(E('text:tracked-changes', {}, E('text:changed-region', {XMLID: 'ct1'})))
        b.extend(decls(rng))
        b.extend([text_block(rng) for _ in range(rng.randint(0, 6))])
        b.extend(epilogue(rng))
    elif base == 'office:spreadsheet':
        if rng.random() < 0.3:
            b.append(E('table:calculation-settings', {'table:case-sensitive': 'false'}))
        if rng.random() < 0.3:
            b.append(E('table:content-validations', {}, E('table:content-validation', {
                'table:name': 'val1', 'table:condition': 'of:cell-content()>1'})))
        b.extend([table(rng, 'Sheet%d' % i) for i in range(rng.randint(1, 3))])
        b.extend(epilogue(rng))
    elif base in ('office:drawing', 'office:presentation'):
        for i in range(rng.randint(0, 3)):
            p = E('draw:page', {'draw:name': 'page%d' % i, 'draw:master-page-name': 'Default'},
                  E('draw:frame', {'draw:layer': 'layout'}, E('draw:text-box', {}, paragraph(rng))))
            if base == 'office:presentation':
                p.append(E('presentation:notes', {'draw:style-name': 'dp2'}))
            b.append(p)
        if base == 'office:presentation' and rng.random() < 0.5:
            b.append(E('presentation:settings', {'presentation:mouse-visible': 'false'}))
    elif base == 'office:chart':
        b.append(E('chart:chart', {'chart:class': 'chart:bar'},
                   E('chart:title', {}, E('text:p', {}, 'T')), E('chart:plot-area')))
    else:
        b.append(E('draw:frame', {}, E('draw:image', {'xlink:href': 'Pictures/a.png'})))
    return b


def style(rng, name, family='paragraph'):
    s = E('style:style', {'style:name': name, 'style:family': family})
    if rng.random() < 0.35:
        s.set(q('style:display-name'), rng.choice((name, name.replace('_20_', ' '), plain(rng))))
    if rng.random() < 0.2:
        s.set(q('style:class'), rng.choice(('text', 'extra', '')))
    if rng.random() < 0.5:
        s.set(q('style:parent-style-name'), 'Standard')
    if rng.random() < 0.5:
        s.append(E('style:text-properties', {'fo:font-size': '12pt', 'fo:color': '#ff0000'}))
    if rng.random() < 0.3:
        s.append(E('style:paragraph-properties', {'fo:margin': '1cm'},
                   E('style:tab-stops', {}, E('style:tab-stop', {'style:position': '2cm'}))))
    return s


def date_style(rng):
    """A data style, its literals are often just a space."""
    d = E('number:date-style', {'style:name': 'N%d' % rng.randint(30, 90),
                                'number:automatic-order': 'true'}, E('number:day'))
    for tag in ('number:month', 'number:year'):
        d.append(E('number:text', {}, rng.choice((' ', '. ', '/', '\xa0', '  '))))
        d.append(E(tag, {'number:style': 'long'}))
    if rng.random() < 0.3:
        d.append(E('style:map', {'style:condition': 'value()>=0', 'style:apply-style-name': 'N1'}))
    return d


def fonts(rng):
    f = E('office:font-face-decls')
    for i in range(rng.randint(0, 2)):
        f.append(E('style:font-face', {'style:name': 'Font%d' % i, 'svg:font-family': "'A B'"}))
    return f


PRETTY = 0.12
STRUCTURE = frozenset(q(n) for n in (
    'office:document-content', 'office:document-styles', 'office:document', 'office:body',
    'office:styles', 'office:master-styles', 'style:page-layout', 'style:master-page', 'office:text', 'office:spreadsheet', 'office:drawing',
    'office:presentation', 'office:automatic-styles', 'office:font-face-decls', 'style:style',
    'table:table', 'table:table-row', 'table:table-cell', 'table:covered-table-cell', 'table:table-row-group',
    'table:table-rows', 'table:table-header-rows', 'table:table-column-group', 'table:table-columns',
    'table:table-header-columns', 'text:list', 'text:list-item', 'text:list-header', 'text:section',
    'draw:page', 'draw:frame', 'draw:text-box', 'text:variable-decls', 'text:user-field-decls',
    'text:sequence-decls', 'table:named-expressions'))


def indent(element, space='\n'):
    """Pretty-print the elements without mixed content."""
    if element.tag not in STRUCTURE or not len(element):
        return
    nodes = [element.text] + [child.tail for child in element]
    inner = space + '  '
    if not any((s or '').strip() for s in nodes):
        element.text = inner
        for child in element:
            child.tail = inner
        element[-1].tail = space
    for child in element:
        indent(child, inner)


def bulky(rng, r):
    """Make the part larger than any buffer."""
    if rng.random() < 0.03:
        r.insert(rng.randint(0, len(r)), etree.Comment('bulk ' * rng.choice((3000, 8000, 30000))))
    return r


def content_root(rng, kind, minimal=False):
    r = root('office:document-content', attrs={'office:version': '1.2'})
    if not minimal:
        if rng.random() < 0.8:
            r.append(E('office:scripts'))
        if rng.random() < 0.8:
            r.append(fonts(rng))
        if rng.random() < 0.8:
            a = E('office:automatic-styles')
            a.extend([style(rng, 'P%d' % i) for i in range(rng.randint(0, 3))])
            if rng.random() < 0.3:
                a.append(date_style(rng))
            r.append(a)
    r.append(E('office:body', {}, body(rng, kind)))
    if rng.random() < 0.1:
        r.append(etree.ProcessingInstruction('pi', 'data'))
    if rng.random() < PRETTY:
        indent(r)
    return bulky(rng, r)


def styles_root(rng):
    r = root('office:document-styles', attrs={'office:version': '1.2'})
    if rng.random() < 0.7:
        r.append(fonts(rng))
    if rng.random() < 0.9:
        s = E('office:styles')
        s.append(E('style:default-style', {'style:family': 'paragraph'}))
        s.extend([style(rng, n) for n in ('Standard', 'Heading', 'Text_20_body')[:rng.randint(0, 3)]])
        s.append(E('text:outline-style', {'style:name': 'Outline'}))
        if rng.random() < 0.4:
            s.append(date_style(rng))
        r.append(s)
    if rng.random() < 0.8:
        a = E('office:automatic-styles')
        if rng.random() < 0.7:
            a.append(E('style:page-layout', {'style:name': 'Mpm1'},
                       E('style:page-layout-properties', {'fo:page-width': '21cm'}),
                       E('style:header-style'), E('style:footer-style')))
        r.append(a)
    if rng.random() < 0.8:
        m = E('office:master-styles')
        m.append(E('style:master-page', {'style:name': 'Standard', 'style:page-layout-name': 'Mpm1'},
                   E('style:header', {}, paragraph(rng))))
        r.append(m)
    if rng.random() < PRETTY:
        indent(r)
    return bulky(rng, r)


META_SIMPLE = {
    'title': 'dc:title', 'description': 'dc:description', 'subject': 'dc:subject',
    'initial-creator': 'meta:initial-creator', 'creator': 'dc:creator',
    'creation-date': 'meta:creation-date', 'date': 'dc:date', 'language': 'dc:language',
    'generator': 'meta:generator', 'editing-cycles': 'meta:editing-cycles',
}


def meta_section(rng, cycles=None):
    m = E('office:meta')
    if cycles is None and rng.random() < 0.06:
        return m                # nothing known about the document
    names = [n for n in META_SIMPLE if n != 'editing-cycles' and rng.random() < 0.6]
    rng.shuffle(names)
    for n in names:
        value = '2009-01-02T03:04:05' if n in ('date', 'creation-date') else plain(rng)
        m.append(E(META_SIMPLE[n], {}, value))
        if rng.random() < 0.06:
            m[-1].set(rng.choice((q('foreign:id'), '{http://www.w3.org/XML/1998/namespace}lang')), 'de')
    if cycles is None and rng.random() < 0.6:
        cycles = str(rng.randint(1, 40))
    if cycles is not None:
        m.append(E('meta:editing-cycles', {}, cycles))
    for n in sorted(set(word(rng) for _ in range(rng.randint(0, 3)))):
        m.append(E('meta:keyword', {}, n))
        if rng.random() < 0.1:
            m.append(E('meta:keyword', {}, n))
    for n in sorted(set(word(rng) for _ in range(rng.randint(0, 3)))):
        u = E('meta:user-defined', {'meta:name': n}, plain(rng))
        if rng.random() < 0.5:
            u.set(q('meta:value-type'), rng.choice(('string', 'float', 'date')))
        m.append(u)
    if rng.random() < 0.5:
        m.append(E('meta:editing-duration', {}, 'PT1H2M3S'))
    if rng.random() < 0.3:
        m.append(E('meta:template', {'xlink:href': '../t.ott', 'meta:date': '2009-01-01T00:00:00'}))
    if rng.random() < 0.3:
        m.append(E('foreign:thing', {'foreign:a': '1'}, E('foreign:b', {}, plain(rng))))
    if rng.random() < 0.6:
        st = E('meta:document-statistic')
        for k in rng.sample(['page', 'table', 'word', 'paragraph', 'cell', 'image'], rng.randint(0, 4)):
            st.set(q('meta:%s-count' % k), str(rng.randint(0, 999)))
        if rng.random() < 0.25:
            st.set(rng.choice((q('meta:picture-count'), q('foreign:page-count'), q('meta:word'), '{urn:%s}word-count' % ('x' * 42), 'page-count',
                               q('meta:x-count'))), rng.choice(('5', 'x')))
        m.append(st)
    if rng.random() < 0.2:
        m.insert(0, etree.Comment(' meta '))
    return m


def meta_root(rng, cycles=None):
    r = root('office:document-meta', attrs={'office:version': '1.2'})
    r.append(meta_section(rng, cycles))
    return r


def blob(rng, n=None):
    n = rng.choice((0, 1, 10, 300, 5000)) if n is None else n
    return bytes(rng.getrandbits(8) for _ in range(n))


def huge_blob(rng):
    """More than any buffer on the way; random or well compressible."""
    n = rng.choice((2 ** 16, 2 ** 20, 2 ** 20, 2 ** 21, 3 * 2 ** 20)) + rng.choice((-1, 0, 1, 4097))
    if rng.random() < 0.5:
        return rng.randbytes(n)
    piece = rng.randbytes(rng.choice((1, 100, 5000)))
    return (piece * (n // len(piece) + 1))[:n]


ENCODINGS = ('UTF-8', 'UTF-8', 'UTF-8', 'UTF-8', 'UTF-16', 'US-ASCII')


def package(rng, kind=None, kinds=None, hostile=0.5, content=None, styles=None, meta=None, huge=0.0):
    """A package full of things ezodf does not manage."""
    kind = kind or rng.choice(kinds or ('odt', 'ods', 'odg', 'odp', 'odt', 'ods', 'ott', 'ots',
                                        'otg', 'otp', 'odc', 'odi', 'odm', 'oth'))
    p = Pkg(kind)
    p.content = content_root(rng, kind) if content is None else content
    p.add('content.xml', xml(p.content, rng.choice(ENCODINGS)), 'text/xml')
    p.styles = p.meta = None
    if styles is not None or rng.random() < 0.92:
        p.styles = styles_root(rng) if styles is None else styles
        p.add('styles.xml', xml(p.styles, rng.choice(ENCODINGS)), 'text/xml')
    if meta is not None or rng.random() < 0.92:
        p.meta = meta_root(rng) if meta is None else meta
        p.add('meta.xml', xml(p.meta, rng.choice(ENCODINGS)), 'text/xml')
    if rng.random() < 0.8:
        p.add('settings.xml', b'<?xml version="1.0"?>\n<office:document-settings xmlns:office="%s">'
              b'\n  <office:settings/>\r\n</office:document-settings>\n' % NS['office'].encode(), 'text/xml')
    for name, media in (
            ('Pictures/a.png', 'image/png'), ('Pictures/\xfcml\xe4ut.png', 'image/png'),
            ('Thumbnails/thumbnail.png', None), ('Configurations2/', 'application/vnd.sun.xml.ui.configuration'),
            ('Configurations2/images/Bitmaps/', ''), ('Configurations2/accelerator/current.xml', ''),
            ('layout-cache', 'application/binary'), ('Object 1/content.xml', 'text/xml'),
            ('Object 1/', MIMETYPES['odc']), ('Object 1/meta.xml', 'text/xml'),
            ('Object 1/mimetype', ''), ('manifest.rdf', 'application/rdf+xml'),
            ('Basic/script-lc.xml', 'text/xml'), ('META-INF/documentsignatures.xml', None),
            ('META-INF/other', None), ('META-INF/manifest.xml.sig', None), ('META-INF/Manifest.xml', ''), ('META-INF/manifest', ''), ('META-INF/', ''),
            ('backup/content.xml', 'text/xml'), ('content.xml.bak', ''), ('empty', ''),
            ('Mimetype', ''), ('MIMETYPE', ''), ('mimetype2', 'text/plain'), ('Content.xml', 'text/xml'), ('content.xml/x', ''),
            ('a' * 200 + '/' + 'b' * 100, 'a/b'), ('back\\slash.txt', ''), ('./dot', ''), ('settings.xml~', None), ('x/META-INF/manifest.xml', ''), ('unlisted.bin', None)):
        if rng.random() < 0.3:
            data = b'' if name.endswith('/') else blob(rng)
            p.add(name, data, media)
            if rng.random() < 0.3:
                p.stored.add(name)
    if huge and rng.random() < huge:
        for i in range(rng.choice((20, 40, 300, 1100))):
            p.add('many/%d' % i, b'%d' % i, rng.choice(('', 'image/png', None)))
    if huge and rng.random() < huge:
        name = rng.choice(('Pictures/huge.jpg', 'media/film.mp4', 'aa huge'))
        p.add(name, huge_blob(rng), rng.choice(('image/jpeg', '', None)))
        if rng.random() < 0.5:
            p.stored.add(name)
    if rng.random() < 0.2:
        p.entry_attrs['content.xml'] = {'manifest:version': '1.2'}
    for name in list(p.members):
        if rng.random() < 0.1 and name not in ('content.xml', 'styles.xml', 'meta.xml'):
            p.entry_attrs[name] = {'manifest:version': '1.1', 'foreign:x': 'y'}
    for name in p.members:
        if rng.random() < 0.1:
            p.zipattrs[name] = rng.choice((
                {'external_attr': 0}, {'external_attr': 0o120777 << 16},      # symbolic link
                {'external_attr': (0o40755 << 16) | 0x10}, {'external_attr': 0o4755 << 16},
                {'comment': b'a comment'}, {'date_time': (1980, 1, 1, 0, 0, 0)},
                {'date_time': (2107, 12, 31, 23, 59, 58)}, {'create_system': 0, 'external_attr': 0x26},
                {'extra': b'UT\x05\x00\x01\x00\x00\x00\x00'}, {'internal_attr': 1}))
    if rng.random() < hostile:
        p.order = list(p.members)
        rng.shuffle(p.order)
        p.mimetype_first = rng.random() < 0.5
        p.mimetype_stored = rng.random() < 0.5
        if rng.random() < 0.3:
            p.mimetype_extra = b'\xfe\xca\x00\x00'
        p.manifest_noise = rng.random() < 0.4
        p.manifest_seed = rng.choice((None, rng.random()))
        if rng.random() < 0.3:
            p.comment = b'archive comment'
        if rng.random() < 0.15:
            p.mimetype_member = None
        elif rng.random() < 0.15:
            p.root_entry = None
    return p


def flat_root(rng, kind, drop=0.3, nons=()):
    """<office:document> of a single-file document."""
    r = root('office:document', attrs={'office:version': '1.2', 'office:mimetype': MIMETYPES[kind]})
    parts = []
    if rng.random() > drop:
        parts.append(meta_section(rng))
    if rng.random() > drop:
        parts.append(E('office:settings', {}, E('config:config-item-set', {'config:name': 'ooo:view'})))
    if rng.random() > drop:
        parts.append(E('office:scripts', {}, E('office:script', {'script:language': 'ooo:Basic'})))
    if rng.random() > drop:
        parts.append(fonts(rng))
    st = styles_root(rng)
    for part in list(st):
        if part.tag != q('office:font-face-decls'):
            parts.append(part)
    parts.append(E('office:body', {}, body(rng, kind)))
    r.extend(parts)
    if rng.random() < 0.2:
        embed(rng, r)
    if rng.random() < PRETTY:
        indent(r)
    return bulky(rng, r)


def embed(rng, r):
    """Put a complete document (an object) into a paragraph."""
    places = r.findall('.//' + q('text:p'))
    if places:
        inner = E('office:document', {'office:mimetype': MIMETYPES['odc'], 'office:version': '1.2'})
        inner.append(meta_section(rng))
        if rng.random() < 0.5:
            inner.append(E('office:styles', {}, style(rng, 'Inner')))
        inner.append(E('office:body', {}, E('office:chart', {}, E('text:variable-decls'), E('text:user-field-decls'), E('chart:chart', {}, E('chart:title', {}, E('text:p', {}, 'T'))))))
        rng.choice(places).append(E('draw:frame', {}, E('draw:object', {}, inner)))
