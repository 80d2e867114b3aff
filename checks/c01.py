"""C01: saving never loses or alters package content that was not edited."""
import copy
import io
import os

from vlib import gen, lib, odf, schema
from vlib.odf import E, q

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('A random package of any type (unmanaged members of many names, stored and deflated, listed and '
        'unlisted in the manifest, XML parts in several encodings with foreign markup) is opened by path, '
        'stream or bytes; a random sequence of edits, registered members, saves, saveas, tobytes, saves '
        'to streams and reopenings follows, and after every write an independent reader compares each '
        'member, manifest entry and XML part with a model holding the original plus the edits. '
        'Non-trivial: at least one write was compared; distinct by the log of operations.')
CASES = {'quick': 2700, 'thorough': 60000}
REQUIRED = ['sampled from the schema', 'written packages', 'unmanaged members', 'huge members', 'many members', 'registered members', 'manifest entries',
            'content parts', 'source gone', 'route path', 'route stream', 'route bytes', 'write save', 'write saveas',
            'write tobytes', 'write stream', 'reopened', 'edits', 'replaced another file']
ASSUMPTIONS = ['Source packages have unique member names and at most one manifest entry per path.',
               'Comments and processing instructions outside of the root element and the DOCTYPE of XML parts '
               'are not document content.']

MANAGED = ('content.xml', 'styles.xml', 'meta.xml')


class Model(object):
    def __init__(self, p):
        self.kind = p.kind
        self.members = dict((n, d) for n, d in p.members.items() if n not in MANAGED)
        self.entries = {}
        if p.manifest:
            for name, entry in odf.manifest_entries(p.manifest_bytes()):
                self.entries[name] = entry
        self.content = copy.deepcopy(p.content)
        self.styles = None if p.styles is None else copy.deepcopy(p.styles)
        self.meta = None if p.meta is None else copy.deepcopy(p.meta)
        self.new_meta = p.meta is None
        if self.meta is None:
            self.meta = E('office:document-meta', {}, E('office:meta'))
        self.added = {}

    @property
    def body(self):
        return self.content.find(q('office:body'))[0]


EPILOGUE = [q(n) for n in ('table:named-expressions', 'table:database-ranges', 'table:data-pilot-tables',
                           'table:consolidation', 'table:dde-links', 'presentation:settings')]


def append_position(body, tag=None):
    if tag is not None:
        same = body.findall(q(tag))
        if same:
            return body.index(same[-1]) + 1
    pos = len(body)
    while pos and body[pos - 1].tag in EPILOGUE:
        pos -= 1
    return pos


def rows_of(tab):
    out = []
    for child in tab:
        if child.tag == q('table:table-row'):
            out.append(child)
        elif child.tag in (q('table:table-header-rows'), q('table:table-row-group'), q('table:table-rows')):
            out.extend(rows_of(child))
    return out


def edit(c, doc, m):
    """One random edit, applied to the document and to the model."""
    rng = c.rng
    base = odf.BODY[m.kind]
    choices = ['title', 'keyword', 'usertag', 'count'] + ['register'] * 2 * hasattr(doc, 'filemanager')
    if m.styles is not None and m.styles.find(q('office:styles')) is not None:
        choices.append('inject')
    if base == 'office:text':
        choices += ['append', 'append', 'remove']
    elif base == 'office:spreadsheet':
        choices += ['sheet', 'delsheet', 'rename', 'cellstyle', 'cellvalue']
    elif base in ('office:drawing', 'office:presentation'):
        choices += ['page', 'delpage', 'renamepage']
    what = rng.choice(choices)
    text = gen.plain(rng)
    c.count('edits')
    c.log('edit', what, text)
    meta = m.meta.find(q('office:meta'))
    if what == 'title':
        key = rng.choice(('title', 'subject', 'description', 'creator'))
        doc.meta[key] = text
        el = meta.find(q(gen.META_SIMPLE[key]))
        if el is None:
            el = E(gen.META_SIMPLE[key])
            meta.append(el)
        el.text = text
    elif what == 'keyword':
        doc.meta.keywords.add(text)
        if text not in [k.text for k in meta.findall(q('meta:keyword'))]:
            meta.append(E('meta:keyword', {}, text))
    elif what == 'usertag':
        doc.meta.usertags.set(text, 'v', 'string')
        for el in meta.findall(q('meta:user-defined')):
            if el.get(q('meta:name')) == text:
                break
        else:
            el = E('meta:user-defined', {'meta:name': text})
            meta.append(el)
        el.text = 'v'
        el.set(q('meta:value-type'), 'string')
    elif what == 'count':
        n = rng.randint(0, 99)
        doc.meta.count['word'] = n
        el = meta.find(q('meta:document-statistic'))
        if el is None:
            el = E('meta:document-statistic')
            meta.append(el)
        el.set(q('meta:word-count'), str(n))
    elif what == 'register':
        name = rng.choice(('Pictures/new1.png', 'Pictures/\xfcnew.png', 'data.bin', 'sub/dir/x.xml',
                           'settings.xml', 'Pictures/a.png'))
        media = rng.choice(('image/png', '', 'text/xml', 'application/x-foo'))
        value = rng.choice((gen.blob(rng), 'text \xe4\u20ac ' + text, b''))
        doc.filemanager.register(name, value, media)
        m.added[name] = (value.encode('utf-8') if not isinstance(value, bytes) else value, media)
    elif what == 'inject':
        s = gen.style(rng, 'New%d' % rng.randint(0, 10 ** 9))
        doc.inject_style(odf.xml(s, declaration=False).decode())
        m.styles.find(q('office:styles')).append(s)
    elif what == 'append':
        doc.body.append(lib.Paragraph(text))
        m.body.insert(append_position(m.body), E('text:p', {}, text))
    elif what == 'remove':
        mine = m.body.findall(q('text:p'))
        if mine:
            k = rng.randrange(len(mine))
            doc.body.remove(list(doc.body.findall(q('text:p')))[k])
            m.body.remove(mine[k])
    elif what == 'sheet':
        doc.sheets.append(lib.Sheet(text, size=(2, 3)))
        t = E('table:table', {'table:name': text.replace('"', ' ').strip()})
        t.extend([E('table:table-column') for _ in range(3)])
        for _ in range(2):
            t.append(E('table:table-row', {}, *[E('table:table-cell') for _ in range(3)]))
        m.body.insert(append_position(m.body, 'table:table'), t)
    elif what in ('delsheet', 'rename', 'cellstyle', 'cellvalue'):
        mine = m.body.findall(q('table:table'))
        if mine:
            k = rng.randrange(len(mine))
            if what == 'delsheet' and len(mine) > 1:
                del doc.sheets[k]
                m.body.remove(mine[k])
            elif what == 'rename':
                doc.sheets[k].name = 'R' + text.replace('"', '')
                mine[k].set(q('table:name'), ('R' + text.replace('"', '')).strip())
            else:
                rows = rows_of(mine[k])
                r = rng.randrange(len(rows))
                col = rng.randrange(len(rows[r]))
                cell = doc.sheets[k][r, col]
                if what == 'cellstyle':
                    cell.style_name = 'zz'
                    rows[r][col].set(q('table:style-name'), 'zz')
                else:
                    cell.set_value(5)
                    x = rows[r][col]
                    for a in list(x.attrib):
                        if a in (q('office:value'), q('office:currency'), q('office:boolean-value'),
                                 q('office:date-value'), q('office:string-value')):
                            del x.attrib[a]
                    for child in list(x):
                        x.remove(child)
                    x.set(q('office:value-type'), 'float')
                    x.set(q('office:value'), '5')
    else:
        mine = m.body.findall(q('draw:page'))
        if what == 'page':
            doc.pages.append(lib.DrawingPage(text))
            m.body.insert(append_position(m.body, 'draw:page'), E('draw:page', {'draw:name': text}))
        elif mine:
            k = rng.randrange(len(mine))
            if what == 'delpage':
                del doc.pages[k]
                m.body.remove(mine[k])
            else:
                doc.pages[k].name = text
                mine[k].set(q('draw:name'), text)


def meta_state(root, extra_drop=()):
    drop = [q(t) for t in odf.STAMP + tuple(extra_drop)]
    section = root.find(q('office:meta'))
    stat = {}
    rest = []
    for child in section:
        if child.tag == q('meta:document-statistic'):
            stat.update(child.attrib)
        elif child.tag not in drop:
            rest.append(odf.canon(child))
    return rest, stat, [odf.canon(e) for e in root if e is not section]


def verify(c, data, m, what):
    try:
        members = odf.read_package(data)
    except odf.BadPackage as e:
        c.fail('%s wrote a bad package: %s' % (what, e))
    c.count('written packages')
    c.count('write ' + what)
    expected = set(m.members) | set(MANAGED) | set(m.added) | set(['mimetype', 'META-INF/manifest.xml'])
    c.same(sorted(members), sorted(expected), what + ': members')
    for name, value in m.members.items():
        if name not in m.added:
            c.ok(members[name] == value, '%s: member %s altered' % (what, name),
                 got=members[name], expected=value)
            c.count('unmanaged members')
    entries = odf.manifest_entries(members['META-INF/manifest.xml'])
    for name, (value, media) in m.added.items():
        c.ok(members[name] == value, '%s: registered member %s altered' % (what, name),
             got=members[name], expected=value)
        got = [dict(e[1]).get(q('manifest:media-type')) for n, e in entries if n == name]
        c.same(got, [media], '%s: media types of registered member %s' % (what, name))
        c.count('registered members')
    for name, entry in m.entries.items():
        got = [e for n, e in entries if n == name]
        if name == '/' or name in MANAGED or name in m.added:
            c.same(len(got), 1, '%s: manifest entries for %s' % (what, name))
            ignore = q('manifest:media-type')
            a = [x for x in entry[1] if x[0] != ignore]
            b = [x for x in got[0][1] if x[0] != ignore]
            c.same(b, a, '%s: attributes of the manifest entry for %s' % (what, name))
        else:
            c.same(got, [entry], '%s: manifest entry of %s' % (what, name))
        c.count('manifest entries')
    legal = set(m.entries) | set(MANAGED) | set(m.added) | set(['/', 'mimetype'])
    c.same(sorted(set(n for n, e in entries) - legal), [], what + ': foreign manifest entries')

    content = odf.parse(members['content.xml'])
    c.ok(True, '')
    d = odf.part_difference(m.content, content, odf.content_allowed(m.kind), 'content.xml')
    c.ok(d is None, '%s: %s' % (what, d))
    c.same(odf.lost_prefixes(m.content, content), [], what + ': lost namespace prefixes of content.xml')
    c.count('content parts')
    styles = odf.parse(members['styles.xml'])
    expected = None if m.styles is None else copy.deepcopy(m.styles)
    for part in (styles, expected):
        container = None if part is None else part.find(q('office:styles'))
        for child in container if container is not None else ():
            if not (child.tail or '').strip():
                child.tail = None       # layout between styles
    if m.styles is not None:
        d = odf.part_difference(expected, styles, odf.STYLES_ALLOWED, 'styles.xml')
        c.ok(d is None, '%s: %s' % (what, d))
        c.same(odf.lost_prefixes(m.styles, styles), [], what + ': lost namespace prefixes of styles.xml')
    else:
        d = odf.part_difference(E('office:document-styles'), styles, odf.STYLES_ALLOWED, 'styles.xml')
        c.ok(d is None, '%s: %s' % (what, d))
    meta = odf.parse(members['meta.xml'])
    extra = ('meta:creation-date',) if m.new_meta else ()
    a, b = meta_state(m.meta, extra), meta_state(meta, extra)
    c.same(b, a, what + ': meta data')
    if not m.new_meta:
        c.same(dict(meta.attrib), dict(m.meta.attrib), what + ': attributes of the meta data')


def source_gone(c, doc, m):
    """The file of the document is removed: its members are unreachable, the
    next save can refuse to work but never drops them."""
    for name in os.listdir(c.path('')):
        os.remove(c.path(name))
    target = c.path('gone.' + m.kind)
    for write in (lambda: doc.tobytes(), lambda: doc.saveas(target)):
        try:
            out = write()
        except EnvironmentError:
            c.count('source gone')
            continue
        verify(c, lib.read(target) if out is None else out, m, 'source gone')
        c.count('source gone')


def case(c):
    rng = c.rng
    parts = {}
    kind = None
    if rng.random() < 0.12:
        kind = rng.choice(('odt', 'ods', 'odp', 'odg', 'odc', 'ott'))
        parts = dict(content=schema.without_tables(schema.sampled(rng, 'office:document-content', kind)), styles=schema.sampled(rng, 'office:document-styles'),
                     meta=schema.sampled(rng, 'office:document-meta'))
        if parts['meta'].find(q('office:meta')) is None:
            parts['meta'] = None
        c.count('sampled from the schema')
    p = gen.package(rng, kind, huge=0.06, **parts)
    if any(len(d) > 2 ** 20 for d in p.members.values()):
        c.count('huge members')
    if len(p.members) > 1000:
        c.count('many members')
    data = p.tobytes()
    m = Model(p)
    route = rng.choice(lib.ROUTES)
    path = c.path('doc.' + p.kind)
    lib.write(path, data)
    c.log('open', p.kind, route, sorted(p.members))
    c.count('route ' + route)
    doc = lib.open_by(route, data, path)
    named = route == 'path'
    current = path if named else None
    used = set([path])  # sources of this document
    for step in range(rng.randint(2, 8)):
        what = rng.choice(('edit', 'edit', 'edit', 'save', 'saveas', 'tobytes', 'stream', 'reopen', 'read'))
        if what == 'edit':
            edit(c, doc, m)
            continue
        if step and route == 'path' and named and rng.random() < 0.05:
            what = 'gone'
        c.log(what)
        if what == 'gone':
            source_gone(c, doc, m)
            return
        if what == 'read':
            for child in doc.body:
                child.plaintext()
            continue
        if what == 'save':
            if not named:
                continue
            doc.save()
            out = lib.read(current)
        elif what == 'saveas':
            current = c.path(rng.choice(('a', 'b', '\xfcn\xef', 'c d')) + '.' + p.kind)
            if rng.random() < 0.3 and current not in used:
                # another document, or anything else, has this name
                other = gen.package(rng, p.kind)
                other.add('Pictures/other.png', b'other', 'image/png')
                lib.write(current, other.tobytes() if rng.random() < 0.8 else gen.blob(rng))
                c.count('replaced another file')
            used.add(current)
            doc.saveas(current)
            named = True
            out = lib.read(current)
        elif what == 'tobytes':
            out = doc.tobytes()
        elif what == 'stream':
            s = io.BytesIO()
            doc.saveas(s)
            named = False
            out = s.getvalue()
        else:
            out = doc.tobytes()
            route = rng.choice(lib.ROUTES)
            current = c.path('r%d.%s' % (step, p.kind))
            used.add(current)
            lib.write(current, out)
            doc = lib.open_by(route, out, current)
            named = route == 'path'
            m.members.update((n, v[0]) for n, v in m.added.items())
            entries = dict(odf.manifest_entries(odf.read_package(out)['META-INF/manifest.xml']))
            for n in m.added:
                m.entries[n] = entries.get(n)
            m.added = {}
            m.new_meta = m.new_meta
            c.count('reopened')
            continue
        verify(c, out, m, what)
    verify(c, doc.tobytes(), m, 'tobytes')
