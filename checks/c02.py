"""C02: every package written is a well-formed OpenDocument package."""
import io
import zipfile

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('New documents of every type, opened packages (with mimetype member compressed, not first, with extra '
        'field or missing, noisy manifests, duplicate member names) and documents from templates are edited, '
        'get members registered and are written by every route in random order; a strict reader of the raw zip '
        'structure, manifest and XML parts judges every result, which is then opened again by a random route. '
        'Non-trivial: at least one package was judged; distinct by the log of operations.')
CASES = {'quick': 4000, 'thorough': 60000}
KINDS = sorted(odf.MIMETYPES)
REQUIRED = (['judged packages', 'reopened', 'origin new', 'origin opened', 'origin template',
             'write save', 'write saveas', 'write tobytes', 'write stream'] + ['new ' + k for k in KINDS])
ASSUMPTIONS = ['Formula documents (odf, otf) are not supported by the library and not generated.',
               'Manifests of source packages have at most one entry per path.']
PARTS = ('content.xml', 'styles.xml', 'meta.xml')


def duplicate(rng, data):
    buf = io.BytesIO(data)
    z = zipfile.ZipFile(buf, 'a')
    names = [n for n in z.namelist() if n not in PARTS + ('mimetype', 'META-INF/manifest.xml')]
    if names:
        n = rng.choice(names)
        z.writestr(n, z.read(n))
    z.close()
    return buf.getvalue()


def case(c):
    rng = c.rng
    origin = rng.choice(('new', 'new', 'opened', 'opened', 'template'))
    registered, xmlparts, types = [], [], dict.fromkeys(PARTS, 'text/xml')
    if origin == 'new':
        kind = KINDS[c.index % len(KINDS)]
        doc = lib.newdoc(kind) if kind != 'odt' or rng.random() < 0.7 else lib.newdoc()
        c.count('new ' + kind)
        filename = c.path('n.' + kind)
        c.log('newdoc', kind)
    else:
        p = gen.package(rng, hostile=0.8, kinds=sorted(odf.TEMPLATE_OF) if origin == 'template' else None)
        if origin == 'template':
            p.mimetype_member = p.mimetype_member or p.mimetype
        data = p.tobytes()
        if rng.random() < 0.15:
            data = duplicate(rng, data)
            c.count('duplicate source members')
        kind = p.kind
        route = rng.choice(lib.ROUTES)
        filename = c.path('in.' + kind)
        lib.write(filename, data)
        c.log(origin, kind, route, sorted(p.members), p.mimetype_member, p.root_entry)
        if origin == 'opened':
            doc = lib.open_by(route, data, filename)
        else:
            kind = odf.TEMPLATE_OF[kind]
            src = {'path': filename, 'stream': io.BytesIO(data), 'bytes': data}[route]
            filename = c.path('out.' + kind)
            doc = lib.newdoc(filename=filename, template=src)
    c.count('origin ' + origin)
    c.same(doc.mimetype, odf.MIMETYPES[kind], 'mimetype of the document')
    c.same(doc.doctype, kind, 'type of the document')
    for step in range(rng.randint(1, 6)):
        what = rng.choice(('register', 'meta', 'body', 'style', 'save', 'saveas', 'tobytes', 'stream'))
        c.log(what)
        if what == 'register':
            name = rng.choice(('Pictures/p1.png', 'x.xml', 'data', 'Pictures/a.png', 'settings.xml',
                               '\u4e2d/\xfc.bin', 'Data', 'pictures/P1.PNG', 'data ', 'Content.xml', 'data/x'))
            if name.endswith('.xml') and rng.random() < 0.8:
                types[name] = rng.choice(('text/xml', 'application/xml', 'application/vnd.x+xml'))
                doc.filemanager.register(name, '<a>%s</a>' % gen.word(rng), types[name])
                xmlparts.append(name)
            else:
                types[name] = rng.choice(('image/png', 'image/jpeg', 'application/octet-stream', ''))
                content = rng.choice((b'', 'x\xe4', gen.blob(rng)))
                if types[name]:
                    doc.filemanager.register(name, content, types[name])
                else:
                    doc.filemanager.register(name, content)     # unknown type
                    c.count('registered without type')
                xmlparts[:] = [n for n in xmlparts if n != name]
            registered.append(name)
            continue
        if what == 'meta':
            doc.meta['title'] = gen.text(rng)
            doc.meta.keywords.add(gen.word(rng))
            continue
        if what == 'body':
            if odf.BODY[kind] == 'office:text':
                doc.body.append(lib.Paragraph(gen.text(rng)))
            elif odf.BODY[kind] == 'office:spreadsheet':
                doc.sheets.append(lib.Sheet(gen.label(rng), size=(2, 2)))
                doc.sheets[-1]['A1'].set_value(gen.text(rng))
            elif odf.BODY[kind] in ('office:drawing', 'office:presentation'):
                doc.pages.append(lib.DrawingPage(gen.label(rng)))
            continue
        if what == 'style':
            doc.inject_style('<style:style style:name="S%d" style:family="text"/>' % step)
            continue
        if what == 'save':
            if origin != 'new' and doc.docname is None or not doc.docname or not isinstance(doc.docname, str):
                doc.docname = filename
            doc.save()
            data = lib.read(doc.docname)
        elif what == 'saveas':
            name = c.path(rng.choice(('x', 'y\xfc')) + '.' + kind)
            doc.saveas(name)
            data = lib.read(name)
        elif what == 'tobytes':
            data = doc.tobytes()
        else:
            s = io.BytesIO()
            doc.saveas(s)
            doc.docname = None
            data = s.getvalue()
        judge(c, data, kind, registered, xmlparts, types, what)
    judge(c, doc.tobytes(), kind, registered, xmlparts, types, 'tobytes')


def judge(c, data, kind, registered, xmlparts, types, what):
    c.count('judged packages')
    c.count('write ' + what)
    problems = odf.wellformed_package_problems(data, odf.MIMETYPES[kind], PARTS + tuple(set(xmlparts)),
                                               tuple(set(registered) - set(xmlparts)))
    c.same(problems, [], 'problems of the package written by ' + what)
    members = odf.read_package(data)
    listed = dict((name, dict(attrs[1]).get(q('manifest:media-type'))) for name, attrs in odf.manifest_entries(members['META-INF/manifest.xml']))
    c.same(dict((n, listed.get(n)) for n in types), types, 'media types of the written parts')
    for part, tag in zip(PARTS, ('content', 'styles', 'meta')):
        r = odf.parse(members[part])
        c.same(odf.pretty(r.tag), 'office:document-' + tag, 'root of ' + part)
        if part == 'content.xml':
            bodies = r.findall(q('office:body'))
            c.same([[odf.pretty(e.tag) for e in b if isinstance(e.tag, str)] for b in bodies],
                   [[odf.BODY[kind]]], 'bodies of the content')
    path = c.path('again.' + kind)
    lib.write(path, data)
    again = lib.open_by(c.rng.choice(lib.ROUTES), data, path)
    c.same((again.doctype, again.mimetype), (kind, odf.MIMETYPES[kind]), 'type after reopening')
    c.count('reopened')
