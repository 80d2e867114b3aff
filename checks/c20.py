"""C20: documents from templates have the content, not the template's fate."""
import gc
import io
import os

from vlib import gen, lib, odf
from vlib.odf import q
from . import c01

PROPERTY = 'C20'
LEVEL = 'exploration'
RULE = ('Random packages of all template types (and plain documents used as template) with unmanaged members; one to three '
        'documents are made of the same template by path, stream and bytes under names or without; interleaved random edits, '
        'saves, saves under other names, serialisations and discards. Each written package is compared by an independent '
        'reader with a model (the template plus the edits of this document only), its type in mimetype member, manifest and '
        'object is the non-template type; after each step the template and all other files have their old bytes and only the '
        'expected files exist. Distinct by log.')
CASES = {'quick': 2700, 'thorough': 50000}
REQUIRED = ['documents', 'written packages', 'unmanaged members', 'template path', 'template stream', 'template bytes', 'interleaved', 'unnamed refused',
            'discarded', 'saved', 'saved again', 'reopened', 'edits', 'folders compared', 'plain document as template',
            'ott', 'ots', 'otg', 'otp', 'otc', 'oti', 'refused templates', 'saved elsewhere', 'type known by manifest', 'type known by name']
ASSUMPTIONS = ['A document is not saved under the name of its template.']

KINDS = ('ott', 'ott', 'ots', 'ots', 'otg', 'otp', 'otc', 'oti', 'odt', 'ods', 'odg', 'odm')


class Doc(object):
    def __init__(self, doc, model, name, route):
        self.doc, self.model, self.name, self.route = doc, model, name, route
        self.saved = 0


def case(c):
    rng = c.rng
    if rng.random() < 0.06:
        return refused(c)
    kind = rng.choice(KINDS)
    target = odf.TEMPLATE_OF.get(kind, kind)
    p = gen.package(rng, kind)
    # the type is known by the member, by the manifest or by the name of the file
    known = rng.choice(('member', 'member', 'member', 'both', 'both', 'both', 'both', 'both', 'manifest', 'name'))
    p.mimetype_member = p.mimetype if known in ('member', 'both') else None
    p.root_entry = p.mimetype if known in ('both', 'manifest') else None
    c.count('type known by ' + known)
    data = p.tobytes()
    path = c.path('template.' + kind)
    lib.write(path, data)
    stream = io.BytesIO(data)
    os.mkdir(c.path('cwd'))
    os.chdir(c.path('cwd'))
    c.count(kind if target != kind else 'plain document as template')
    c.log(kind, known, sorted(p.members))
    expected = {'template.' + kind: data}      # files of the folder
    docs = []

    def make():
        route = rng.choice(lib.ROUTES) if known != 'name' else 'path'
        stream.seek(rng.choice((0, 0, 3, rng.randrange(len(data)), len(data))))
        template = {'path': path, 'stream': stream, 'bytes': data}[route]
        named = rng.random() < 0.75
        name = c.path(rng.choice(('new', 'n\xe4me', 'a b', 'x.y')) + '%d.%s' % (len(docs), target)) if named else ''
        doctype = rng.choice((target, kind, 'odt', 'ods'))
        c.log('new', route, os.path.basename(name), doctype)
        doc = lib.newdoc(doctype, name, template=template) if rng.random() < 0.7 else \
            lib.newdoc(filename=name, template=template)
        c.same(doc.mimetype, odf.MIMETYPES[target], 'type of the new document')
        c.same(doc.doctype, target, 'type of the new document')
        c.same(doc.docname, name, 'name of the new document')
        c.count('template ' + route)
        c.count('documents')
        d = Doc(doc, c01.Model(p), name, route)
        docs.append(d)
        if rng.random() < 0.4:
            verify(d, doc.tobytes(), 'tobytes')

    def verify(d, written, what):
        c01.verify(c, written, d.model, what)
        members = odf.read_package(written)
        c.same(members['mimetype'], odf.MIMETYPES[target].encode(), what + ': mimetype member')
        root = [dict(e[1]).get(q('manifest:media-type')) for n, e in odf.manifest_entries(members['META-INF/manifest.xml']) if n == '/']
        c.same(root, [odf.MIMETYPES[target]], what + ': type in the manifest')
        problems = odf.wellformed_package_problems(written, odf.MIMETYPES[target], ('content.xml', 'styles.xml', 'meta.xml'))
        c.ok(not problems, what + ': ' + '; '.join(problems))

    def folder(what):
        got = lib.listing(c.tmp)
        c.same(sorted(got), sorted(expected), what + ': files')
        for name, value in expected.items():
            c.ok(got[name] == value, '%s: %s has other content' % (what, name))
        c.ok(stream.getvalue() == data and not stream.closed, what + ': the stream of the template was changed')
        c.count('folders compared')

    make()
    for step in range(rng.randint(3, 14)):
        op = rng.choice(('make', 'edit', 'edit', 'edit', 'edit', 'save', 'save', 'save', 'saveas', 'tobytes', 'discard', 'reopen'))
        live = [d for d in docs if d.doc is not None]
        if op == 'make' or not live:
            if len(docs) < 3:
                make()
                folder('after making a document')
            continue
        d = rng.choice(live)
        if len(live) > 1:
            c.count('interleaved')
        c.log(op, docs.index(d))
        if op == 'edit':
            c01.edit(c, d.doc, d.model)
        elif op == 'tobytes':
            verify(d, d.doc.tobytes(), 'tobytes')
        elif op == 'discard':
            d.doc = None
            gc.collect()
            c.count('discarded')
        elif op == 'reopen':
            out = d.doc.tobytes()
            doc = lib.opendoc(out)
            c.same((doc.mimetype, doc.doctype), (odf.MIMETYPES[target], target), 'type of the reopened document')
            c.count('reopened')
        elif op == 'save' and not d.name:
            error = c.raises(d.doc.save)
            c.log(type(error).__name__)
            c.count('unnamed refused')
        else:
            if op == 'saveas':
                d.name = c.path('other%d.%s' % (docs.index(d), target))
                d.saved = 0
                before = os.path.exists(d.name)
                d.doc.saveas(d.name)
                d.saved = 1 if before else 0
                c.count('saved elsewhere')
            else:
                d.doc.save()
            name = os.path.basename(d.name)
            if name in expected and d.route == 'path':
                expected[name + '.bak'] = expected[name]
            written = lib.read(d.name)
            verify(d, written, 'save')
            c.count('saved again' if d.saved else 'saved')
            d.saved += 1
            expected[name] = written
        folder('after ' + op)
    docs = live = d = None
    gc.collect()
    folder('at the end')


def refused(c):
    """What is not a package is no template."""
    rng = c.rng
    data = gen.package(rng, 'ott', hostile=0).tobytes()
    kinds = [b'', b'text', data[:rng.randint(1, len(data) - 30)], odf.xml(gen.flat_root(rng, 'odt')), gen.blob(rng, 200)]
    bad = rng.choice(kinds)
    path = c.path('t.ott')
    lib.write(path, bad)
    route = rng.choice(lib.ROUTES + ('missing',))
    target = {'path': path, 'bytes': bad, 'stream': io.BytesIO(bad), 'missing': c.path('none.ott')}[route]
    c.log('refused', route, kinds.index(bad), len(bad))
    c.raises(lib.newdoc, 'odt', c.path('new.odt'), target)
    p = gen.package(rng, 'ott', hostile=0)
    p.mimetype_member = p.mimetype = rng.choice(('application/zip', 'text/plain-template', odf.MIME + 'unknown-template', ''))
    c.raises(lib.newdoc, 'odt', c.path('new.odt'), p.tobytes())
    c.same(lib.listing(c.tmp), {'t.ott': bad}, 'files')
    c.count('refused templates')
