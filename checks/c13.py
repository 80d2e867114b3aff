"""C13: text with any white space survives encoding, editing and saving."""
import copy

from vlib import gen, lib, odf, tables
from vlib.odf import E, q

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('Texts of every kind of white space (runs, leading, trailing, tabs, line breaks, mixed with other Unicode '
        'spaces, markup characters and astral characters; a quarter of the cases enumerate all short words over '
        'space, tab, newline and a letter) are given to paragraphs, headings, spans, links, list items and headers, '
        'cells, at construction or in up to six pieces, alone and nested in elements of documents. plaintext and '
        'textlen are compared with the text before and after saving; the text nodes of the stored XML are decoded by '
        'an independent white-space-collapsing consumer, which has to get the same text. Elements encoded by the '
        'harness (other equivalent encodings) are read as well.')
CASES = {'quick': 8000, 'thorough': 150000}
REQUIRED = ['texts', 'pieces', 'reopened', 'consumer', 'kind Paragraph', 'kind Heading', 'kind Span', 'kind Hyperlink',
            'kind ListItem', 'kind ListHeader', 'kind Cell', 'tabs', 'newlines', 'space runs', 'leading space', 'trailing space',
            'empty', 'foreign encodings', 'long texts', 'more blocks', 'appended to the last block', 'cells with an element as value', 'many pieces', 'nested pieces', 'enumerated words']
SHORT = ' \t\na'


def consumer(el):
    """Text of a paragraph after the white space processing of ODF 1.2, 6.1.2/6.1.3"""
    out = []      # characters; ' ' from text nodes marked as collapsible

    def put(text):
        for ch in text or '':
            out.append((' ', True) if ch in ' \t\r\n' else (ch, False))

    def walk(e):
        put(e.text)
        for k in e:
            if k.tag == q('text:s'):
                out.extend([(' ', False)] * int(k.get(q('text:c'), '1')))
            elif k.tag == q('text:tab'):
                out.append(('\t', False))
            elif k.tag == q('text:line-break'):
                out.append(('\n', False))
            else:
                walk(k)
            put(k.tail)
    walk(el)
    res = []
    for ch, soft in out:
        if soft and (not res or res[-1][1]):
            continue
        res.append((ch, soft))
    while res and res[-1][1]:
        res.pop()
    return ''.join(ch for ch, soft in res)


def acceptable(text):
    """What a consumer may show: a single leading or trailing space may be gone."""
    out = {text}
    if text.startswith(' '):
        out.add(text[1:])
    out.update([t[:-1] for t in list(out) if t.endswith(' ')])
    return out


def raw_ok(c, el, text, what):
    """No white space which a consumer would change is stored inside of the text."""
    nodes = [n for n in el.itertext()]
    for n in nodes:
        c.ok('\t' not in n and '\n' not in n and '  ' not in n, what + ': white space in stored text', node=n, text=text)
    got = consumer(el)
    c.ok(got in acceptable(text), what + ': text shown by a consumer', got=got, text=text,
         xml=odf.xml(el, declaration=False).decode())
    c.count('consumer')


def stored(obj, kind):
    """The paragraph-like element which holds the text."""
    el = odf.parse(odf.xml(obj.xmlnode)) if obj is not None else None
    return el


def some_text(c):
    rng = c.rng
    r = rng.random()
    if r < 0.25:
        n = rng.randrange(4 ** 6)
        length = rng.randint(0, 6)
        c.count('enumerated words')
        return ''.join(SHORT[(n >> (2 * i)) & 3] for i in range(length))
    if r < 0.5:
        return ''.join(rng.choice(('  ', '   ', ' ', '\t', '\n', 'x', '\xa0', '\u2003', 'yz', '\x85', '\u2028', ' a '))
                       for _ in range(rng.randint(0, 8)))
    if r < 0.6:
        return rng.choice(('', ' ', '  ', '\t', '\n', ' ' * 50, 'a' + ' ' * 300 + 'b', '\t' * 20, '\n\n\n', ' \t \n ', 'a '))
    if r < 0.605:
        c.count('long texts')
        return ''.join(gen.text(rng, 40) for _ in range(rng.choice((30, 300)))) + rng.choice(('', ' ' * 5000, ' ' * 70000 + '.', 'x' * 70000))
    return gen.text(rng, 40)


def classify(c, text):
    if '\t' in text:
        c.count('tabs')
    if '\n' in text:
        c.count('newlines')
    if '  ' in text:
        c.count('space runs')
    if text.startswith(' '):
        c.count('leading space')
    if text.endswith(' '):
        c.count('trailing space')
    if not text:
        c.count('empty')


def nested(c, text):
    """A link or span with the text, sometimes split or wrapped again."""
    rng = c.rng
    obj = lib.Hyperlink('http://y', text) if rng.random() < 0.3 else lib.Span(text, rng.choice(('', 'T1')))
    if rng.random() < 0.3:
        outer = lib.Span('')
        outer.append(obj)
        if rng.random() < 0.3:
            outer.append(lib.Span())
        obj = outer
    return obj


def build(c, kind, pieces):
    rng = c.rng
    first = pieces[0]
    if kind == 'Paragraph':
        return lib.Paragraph(first) if rng.random() < 0.5 else lib.Paragraph(text=first, style_name='S')
    if kind == 'Heading':
        return lib.Heading(first, rng.randint(1, 3))
    if kind == 'Span':
        return lib.Span(first, 'S')
    if kind == 'Hyperlink':
        return lib.Hyperlink('http://x', first)
    if kind == 'ListItem':
        return lib.ListItem(first)
    if kind == 'ListHeader':
        return lib.ListHeader(first)
    if rng.random() < 0.25:
        cell = lib.Cell()
        cell.set_value(rng.choice((lib.Heading, lib.Paragraph))(first))
        c.count('cells with an element as value')
        return cell
    return lib.Cell(first, 'string')


def reencode(rng, text):
    """Another valid encoding of text as paragraph."""
    p = E('text:p')
    last = None

    def put(s):
        if last is None:
            p.text = (p.text or '') + s
        else:
            last.tail = (last.tail or '') + s
    n = 0
    while n < len(text):
        ch = text[n]
        run = 1
        if ch == ' ':
            run = len(text) - n - len(text[n:].lstrip(' '))
            if rng.random() < 0.3:
                run = rng.randint(1, run)
            el = E('text:s')
            if run > 1 or rng.random() < 0.5:
                el.set(q('text:c'), str(run))
            if rng.random() < 0.05:
                p.append(el)
                last = el
                el = E('text:s', {'text:c': '0'})
        elif ch in '\t\n':
            el = E('text:tab' if ch == '\t' else 'text:line-break')
        else:
            el = None
            if rng.random() < 0.1:
                el = E('text:span', {}, ch)
            elif rng.random() < 0.05:
                put(ch)
                el = E('text:soft-page-break')
        if el is None:
            put(ch)
        else:
            p.append(el)
            last = el
        n += run
    return p


def case(c):
    rng = c.rng
    items = []
    doc = lib.newdoc(rng.choice(('odt', 'odt', 'ods')))
    sheet = None
    if doc.doctype == 'ods':
        sheet = lib.Sheet('S', size=(8, 2))
        doc.sheets += sheet
    for n in range(rng.randint(1, 6)):
        kind = rng.choice(('Paragraph', 'Paragraph', 'Heading', 'Span', 'Hyperlink', 'ListItem', 'ListHeader', 'Cell'))
        if (kind == 'Cell') != (sheet is not None):
            kind = 'Cell' if sheet is not None else 'Paragraph'
        pieces = [some_text(c) for _ in range(rng.choice((1, 1, 1, 2, 3, 6)))]
        if rng.random() < 0.003:
            pieces.extend(rng.choice(('', ' ', 'a', '\t', 'b  ')) for _ in range(rng.choice((50, 200))))
            c.count('many pieces')
        if rng.random() < 0.15:
            # one text cut into pieces anywhere
            whole = pieces[0]
            cuts = sorted(rng.randint(0, len(whole)) for _ in range(rng.randint(1, 5)))
            pieces = [whole[a:b] for a, b in zip([0] + cuts, cuts + [len(whole)])]
        c.log(kind, *[repr(p) for p in pieces])
        obj = build(c, kind, pieces)
        target = obj
        if kind in ('ListItem', 'ListHeader'):
            if not pieces[0]:
                obj.append(lib.Paragraph(''))
            target = obj.get_child(0)
        text = pieces[0]
        check_obj(c, obj, target, text, kind + ' constructed')
        for p in pieces[1:]:
            if rng.random() < 0.25 and kind != 'Cell':
                # a piece as element of its own
                if text.endswith(' '):
                    p = p.lstrip(' ')
                target.append(nested(c, p))
                c.count('nested pieces')
            else:
                target.append_text(p)
            text += p
            check_obj(c, obj, target, text, kind + ' appended')
            c.count('pieces')
        if kind in ('ListItem', 'ListHeader', 'Cell') and rng.random() < 0.3:
            # further blocks are further lines
            texts = [text]
            for _ in range(rng.randint(1, 3)):
                texts.append(some_text(c))
                block = rng.choice((lib.Paragraph, lib.Heading))(texts[-1])
                obj.append(block)
                raw_ok(c, block.xmlnode, texts[-1], kind + ' with more blocks')
                if kind == 'Cell' and rng.random() < 0.5:
                    more = some_text(c)
                    obj.append_text(more)
                    texts[-1] += more
                    c.count('appended to the last block')
                    raw_ok(c, block.xmlnode, texts[-1], kind + ' with more text in the last block')
            raw_ok(c, target.xmlnode if kind != 'Cell' else target.xmlnode[0], text, kind)
            text = '\n'.join(texts)
            c.same(obj.plaintext(), text, kind + ' with more blocks: plaintext')
            c.same(obj.textlen, len(text), kind + ' with more blocks: textlen')
            c.count('more blocks')
            kind += '+'
        classify(c, text)
        c.count('kind ' + kind.strip('+'))
        c.count('texts')
        if kind[-1] != '+':
            raw_ok(c, target.xmlnode if kind != 'Cell' else target.get_child(0).xmlnode, text, kind)
        # place it in the document
        if kind.strip('+') == 'Cell':
            sheet[n, 0] = obj
        elif kind in ('Span', 'Hyperlink'):
            p = doc.body.append(lib.Paragraph())
            p.append(obj)
        elif kind.strip('+') in ('ListItem', 'ListHeader'):
            lst = doc.body.append(lib.List())
            lst.append(obj)
        else:
            doc.body.append(obj)
        items.append((kind, text, n))
    alien = some_text(c)
    p = reencode(rng, alien)
    if sheet is None:
        wrapper = doc.body.append(lib.Paragraph(xmlnode=p))
        c.same(wrapper.plaintext(), alien, 'text of an element encoded by someone else')
        c.same(wrapper.textlen, len(alien), 'textlen of an element encoded by someone else')
        items.append(('alien', alien, -1))
        c.count('foreign encodings')
        raw = copy.deepcopy(p)
        for el in raw.iter():   # line feeds and tabs as in pretty-printed documents
            el.tail = rng.choice(('', '\n', '\t ')) + (el.tail or '') + rng.choice(('', '\n', '\n  ', '\t'))
            if el.tag in (q('text:p'), q('text:span'), q('text:a')):
                el.text = rng.choice(('', '\n', '\t ')) + (el.text or '') + rng.choice(('', '\n', '\n  ', '\t'))
        raw.tail = None
        raw = lib.Paragraph(xmlnode=raw)
        c.same(raw.textlen, len(raw.plaintext()), 'textlen of an element with raw line feeds')
    data = doc.tobytes()
    if rng.random() < 0.3:
        doc.saveas(c.path('x.' + doc.doctype))
        data = lib.read(c.path('x.' + doc.doctype))
    doc = lib.opendoc(data)
    found = []
    if sheet is None:
        blocks = [b for b in doc.body if b.kind in ('Paragraph', 'Heading', 'List')]
        c.same(len(blocks), len(items), 'blocks after reopening')
        for (kind, text, n), b in zip(items, blocks):
            if kind.strip('+') in ('Span', 'Hyperlink', 'ListItem', 'ListHeader'):
                b = b.get_child(0)
            found.append((kind, text, b))
    else:
        for kind, text, n in items:
            found.append((kind, text, doc.sheets['S'][n, 0]))
    for kind, text, b in found:
        c.same(b.plaintext(), text, kind + ' after reopening')
        c.same(b.textlen, len(text), kind + ' textlen after reopening')
        if kind.strip('+') == 'Cell':
            c.same(b.value, text, 'cell value after reopening')
        if kind != 'alien' and kind[-1] != '+':
            el = b.get_child(0) if kind in ('ListItem', 'ListHeader', 'Cell') else b
            raw_ok(c, el.xmlnode, text, kind + ' in the file')
        if kind == 'Paragraph' and rng.random() < 0.3:
            more = some_text(c)
            b.append_text(more)
            c.same(b.plaintext(), text + more, 'appended after reopening')
            raw_ok(c, b.xmlnode, text + more, 'appended after reopening')
        c.count('reopened')


def check_obj(c, obj, target, text, what):
    c.same(obj.plaintext(), text, what + ': plaintext')
    c.same(obj.textlen, len(text), what + ': textlen')
    c.same(target.plaintext(), text, what + ': plaintext of the text element')
    c.same(target.textlen, len(text), what + ': textlen of the text element')
