"""C04: backups hold exactly the previous version, the target the latest."""
import io
import os

from vlib import gen, lib, odf
from vlib.odf import q

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('Histories of edits, saves, saveas to new and existing names, backup switched on and off, foreign files '
        'placed under target and backup names, several documents (new, opened by path, stream or bytes, flat XML, '
        'from templates) working in one directory tree with absolute and relative names. A model of the directory '
        '(file name to exact bytes) predicts every file after every step; the written target is compared with the '
        'in-memory document taken just before. Non-trivial: at least one file was written; distinct by the log.')
CASES = {'quick': 3600, 'thorough': 50000}
REQUIRED = ['directory compared', 'target compared', 'backup made', 'backup off', 'no backup for streams',
            'first version', 'kind flat', 'kind new', 'kind opened', 'kind stream', 'kind template', 'saveas',
            'save', 'relative name', 'stale backup replaced']


def canon_doc(doc):
    return lib.without_stamp(lib.doc_parts(doc.tobytes()))


class Doc(object):
    pass


def make(c, model, n):
    rng = c.rng
    d = Doc()
    what = rng.choice(('new', 'opened', 'opened', 'stream', 'bytes', 'flat', 'flat', 'template'))
    d.kind = rng.choice(('odt', 'ods', 'odp', 'odg'))
    d.streamed = what in ('stream', 'bytes')
    d.name = None
    d.backup = True
    src = 'src%d.%s' % (n, d.kind)
    if what == 'new':
        d.ext = d.kind
        if rng.random() < 0.5:
            d.doc = lib.newdoc(d.kind)
        else:
            d.name = new_name(c, d)
            d.doc = lib.newdoc(d.kind, filename=d.name)
    elif what == 'flat':
        d.ext = 'f' + d.kind
        src = 'src%d.%s' % (n, d.ext)
        data = odf.xml(gen.flat_root(rng, d.kind))
        lib.write(c.path(src), data)
        model[src] = data
        d.name = c.path(src)
        d.doc = lib.opendoc(d.name)
    else:
        d.ext = d.kind
        data = gen.package(rng, d.kind).tobytes()
        if what == 'opened':
            lib.write(c.path(src), data)
            model[src] = data
            d.name = c.path(src)
            d.doc = lib.opendoc(d.name)
        elif what == 'template':
            tkind = {'odt': 'ott', 'ods': 'ots', 'odp': 'otp', 'odg': 'otg'}[d.kind]
            p = gen.package(rng, tkind)
            p.mimetype_member = p.mimetype
            src = 'tmpl%d.%s' % (n, tkind)
            model[src] = p.tobytes()
            lib.write(c.path(src), model[src])
            route = rng.choice(lib.ROUTES)
            d.streamed = route != 'path'
            d.name = new_name(c, d)
            d.doc = lib.newdoc(filename=d.name, template={
                'path': c.path(src), 'stream': io.BytesIO(model[src]), 'bytes': model[src]}[route])
        else:
            d.doc = lib.open_by(what, data)
    c.count('kind ' + ('stream' if what == 'bytes' else what))
    c.log('doc', n, what, d.kind, d.name and os.path.basename(d.name))
    return d


def new_name(c, d):
    rng = c.rng
    name = rng.choice(('a', 'b', 'c d', '\xfcber\u4e2d', 'a.b.c', 'x.bak', '.hidden', 'NOEXT', '-dash', "q'uote",
                       'sub/a', 'sub/b'))
    if name not in ('NOEXT', 'x.bak'):
        name += '.' + d.ext
    if rng.random() < 0.3:
        c.count('relative name')
        return rng.choice(('', './')) + name
    return c.path(name)


def edit(c, d):
    rng = c.rng
    r = rng.random()
    if r < 0.4:
        d.doc.meta['title'] = gen.plain(rng)
    elif r < 0.7:
        d.doc.meta.usertags.set(gen.word(rng), gen.plain(rng))
    elif odf.BODY[d.kind] == 'office:text':
        d.doc.body.append(lib.Paragraph(gen.text(rng)))
    else:
        d.doc.inject_style('<style:style style:name="%s" style:family="text"/>' % gen.word(rng, 12))


def case(c):
    rng = c.rng
    model = {}
    os.makedirs(c.path('sub'))
    os.chdir(c.tmp)
    for name in ('bystander.txt', 'a.odt', 'b.ods.bak', 'sub/a.odt', 'a.odt.bak', 'sub/other', 'x.tmp'):
        if rng.random() < 0.4:
            model[name] = gen.blob(rng, 40)
            lib.write(c.path(name), model[name])
    docs = [make(c, model, n) for n in range(rng.randint(1, 3))]
    for step in range(rng.randint(2, 9)):
        d = rng.choice(docs)
        what = rng.choice(('edit', 'edit', 'save', 'save', 'saveas', 'toggle', 'place', 'reopen', 'tobytes'))
        c.log(what, docs.index(d))
        if what == 'edit':
            edit(c, d)
        elif what == 'tobytes':
            d.doc.tobytes()
        elif what == 'toggle':
            d.backup = d.doc.backup = not d.backup
        elif what == 'place' and d.name:
            # somebody else writes files under the target or backup name;
            # not the source of an open package, which has to stay available
            name = os.path.relpath(d.name, c.tmp) + rng.choice(('.bak', '.tmp', '~'))
            model[name] = gen.blob(rng, 30)
            lib.write(c.path(name), model[name])
        elif what == 'reopen' and d.name and os.path.relpath(d.name, c.tmp) in model:
            rel = os.path.relpath(d.name, c.tmp)
            try:
                odf.read_package(model[rel]) if d.ext == d.kind else odf.parse(model[rel])
            except Exception:
                continue
            d.doc = lib.opendoc(d.name)
            d.streamed = False
            d.backup = True
            d.kind = d.doc.doctype
        elif what in ('save', 'saveas'):
            save(c, d, docs, model, what)
        check_directory(c, model, what)


def save(c, d, docs, model, what):
    rng = c.rng
    if what == 'saveas' or not d.name:
        what = 'saveas'
        others = [os.path.realpath(o.name) for o in docs if o is not d and o.name]
        for _ in range(20):
            name = new_name(c, d)
            # a package open elsewhere is the source of that document
            if os.path.realpath(name) not in others:
                break
        else:
            return
        d.name = name
    rel = os.path.relpath(d.name, c.tmp)
    before = canon_doc(d.doc)
    c.log('   ->', rel, 'backup', d.backup, 'exists', rel in model)
    if what == 'save':
        d.doc.save()
    else:
        d.doc.saveas(d.name)
    c.count(what)
    c.same(d.doc.backup, d.backup, 'backup flag after ' + what)
    c.same(d.doc.docname, d.name, 'name of the document after ' + what)
    data = lib.read(c.path(rel))
    diff = lib.parts_difference(before, lib.without_stamp(lib.doc_parts(data)))
    c.ok(diff is None, 'target differs from the document at the time of saving: %s' % diff)
    diff = lib.parts_difference(lib.doc_parts(d.doc.tobytes()), lib.doc_parts(data))
    c.ok(diff is None, 'target differs from the document after saving: %s' % diff)
    c.count('target compared')
    if rel in model:
        if not d.backup:
            c.count('backup off')
        elif d.streamed and d.ext == d.kind:
            c.count('no backup for streams')
        else:
            if rel + '.bak' in model:
                c.count('stale backup replaced')
            model[rel + '.bak'] = model[rel]
            c.count('backup made')
    else:
        c.count('first version')
    model[rel] = data


def check_directory(c, model, what):
    now = lib.listing(c.tmp)
    c.same(sorted(now), sorted(model), 'files after ' + what)
    for name, data in model.items():
        c.ok(now[name] == data, 'file %s changed by %s' % (name, what), got=now[name], expected=data)
    c.count('directory compared')
