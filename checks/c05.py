"""C05: saving stamps the metadata and changes nothing else in it."""
import datetime
import io

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('New, opened, flat and template documents whose meta section has the stamp elements present, missing, '
        'unreadable and in any order among known, foreign and commented content go through random histories of '
        'save, saveas, save to stream, tobytes, reading, metadata edits (the stamp elements included) and reopening. '
        'After every write the meta section of the written file is compared with a model (count of saves, time '
        'window of the save, everything else unchanged and in order). Non-trivial: at least one save; distinct by log.')
CASES = {'quick': 5400, 'thorough': 60000}
REQUIRED = ['saves', 'tobytes', 'reads', 'reopened', 'cycles missing', 'cycles unreadable', 'cycles number',
            'kind flat', 'kind packaged', 'kind new', 'kind template', 'stream saves', 'foreign elements', 'stamp elements with attributes']
STAMP = [q(t) for t in odf.STAMP]
UNREADABLE = ('abc', '', 'x1', 'one', '1.5', '--1', '\u4e8c', 'NaN')

GENERATOR = lib.newdoc('odt').meta['generator']     # what this library calls itself


def section_of(data):
    if data[:2] == b'PK':
        r = odf.parse(odf.read_package(data)['meta.xml'])
    else:
        r = odf.parse(data)
    sections = r.findall(q('office:meta'))
    return r, sections


def state(c, data):
    """(stamp dict, rest) of the meta section of a written document"""
    r, sections = section_of(data)
    c.same(len(sections), 1, 'number of meta sections')
    stamp, rest, stat = {}, [], {}
    for child in sections[0]:
        if child.tag in STAMP:
            c.ok(child.tag not in stamp, 'duplicate %s' % odf.pretty(child.tag))
            stamp[child.tag] = child.text or ''
            if child.attrib:
                rest.append((child.tag, 'attributes', sorted(child.attrib.items())))
                c.count('stamp elements with attributes')
        elif child.tag == q('meta:document-statistic'):
            stat.update(child.attrib)
        else:
            rest.append(odf.canon(child))
    return stamp, rest, stat


def now():
    return datetime.datetime.now()


def case(c):
    rng = c.rng
    origin = rng.choice(('packaged', 'packaged', 'flat', 'new', 'template'))
    cycles_kind = rng.choice(('missing', 'unreadable', 'number', 'number'))
    cycles = {'missing': None, 'unreadable': rng.choice(UNREADABLE),
              'number': str(rng.choice((0, 1, 2, 9, 41, 99, 999, 32767, 65535, 123456789, 2 ** 31 - 1, 2 ** 31, 2 ** 63, -1, -2, -7)))}[cycles_kind]
    meta = gen.meta_section(rng, cycles=cycles or '')
    if cycles is None:
        for el in meta.findall(q('meta:editing-cycles')):
            meta.remove(el)
        if rng.random() < 0.25:
            for el in list(meta):
                meta.remove(el)
            c.count('empty section')
    if rng.random() < 0.4:
        meta.append(E('foreign:date', {'foreign:name': 'date'}, 'x'))
        meta.insert(0, E('meta:date-string', {}, 'v'))
        c.count('foreign elements')
    if rng.random() < 0.3:
        meta.append(E('meta:print-date', {}, '2001-01-01T00:00:00'))
        meta.append(E('meta:printed-by', {}, 'p'))
    kind = rng.choice(('odt', 'ods', 'odp', 'odg'))
    name = c.path('d.' + kind)
    c.log(origin, kind, 'cycles', cycles)
    streamed = False
    if origin == 'new':
        doc = lib.newdoc(kind)
        count = 0
        cycles_kind = 'missing'
        rest = stat = None
    else:
        if origin == 'flat':
            r = gen.flat_root(rng, kind)
            for el in r.findall(q('office:meta')):
                r.remove(el)
            r.insert(rng.randint(0, 1), meta)
            data = odf.xml(r)
            name = c.path('d.f' + kind)
            lib.write(name, data)
            doc = lib.opendoc(name)
        else:
            mroot = odf.root('office:document-meta', meta, attrs={'office:version': '1.2'})
            tkind = kind if origin == 'packaged' else {'odt': 'ott', 'ods': 'ots', 'odp': 'otp', 'odg': 'otg'}[kind]
            p = gen.package(rng, tkind, meta=mroot)
            p.mimetype_member = p.mimetype
            data = p.tobytes()
            route = rng.choice(lib.ROUTES)
            lib.write(name, data)
            if origin == 'packaged':
                doc = lib.open_by(route, data, name)
                streamed = route != 'path'
            else:
                doc = lib.newdoc(filename=c.path('o.' + kind), template={
                    'path': name, 'stream': io.BytesIO(data), 'bytes': data}[route])
        stamp0, rest, stat = state(c, data)
        try:
            count = int(cycles)
        except (TypeError, ValueError):
            count = 0
        stamp = stamp0
    c.count('kind ' + origin)
    c.count('cycles ' + cycles_kind)
    if origin == 'new':
        stamp, rest, stat = state(c, doc.tobytes())
        count = int(stamp.get(q('meta:editing-cycles'), 0))
    named = origin in ('flat', 'template') or (origin == 'packaged' and not streamed)
    for step in range(rng.randint(2, 8)):
        what = rng.choice(('save', 'save', 'saveas', 'stream', 'tobytes', 'read', 'edit', 'restamp', 'reopen'))
        c.log(what)
        if what == 'read':
            read_all(doc)
            c.count('reads')
            what = 'tobytes'
        if what == 'edit':
            key = rng.choice(('title', 'creator', 'subject', 'creation-date', 'initial-creator', 'language'))
            value = gen.plain(rng)
            doc.meta[key] = value
            tag = q(gen.META_SIMPLE[key])
            for n, e in enumerate(rest):
                if e[0] == tag:
                    rest[n] = (tag, e[1], value, ())
                    break
            else:
                rest.append((tag, (), value, ()))
            continue
        if what == 'restamp':
            key, tag = rng.choice((('date', 'dc:date'), ('generator', 'meta:generator'),
                                   ('editing-cycles', 'meta:editing-cycles')))
            value = rng.choice(('7', 'zzz', '2001-01-01T00:00:00', '9999-01-01T00:00:00', '', GENERATOR + '-x', GENERATOR[:-1], GENERATOR.upper()))
            doc.meta[key] = value
            stamp[q(tag)] = value
            if key == 'editing-cycles':
                count = 7 if value == '7' else 0
            continue
        if what == 'tobytes':
            data = doc.tobytes()
            got = state(c, data)
            c.same(got[0], stamp, 'stamp in tobytes()')
            c.same(got[1], rest, 'metadata in tobytes()')
            c.same(got[2], stat, 'statistics in tobytes()')
            c.count('tobytes')
            continue
        if what == 'reopen':
            data = doc.tobytes()
            ext = name.rsplit('.', 1)[1] if origin == 'flat' else kind
            name = c.path('re%d.%s' % (step, ext))
            lib.write(name, data)
            doc = lib.opendoc(name)
            named = True
            c.count('reopened')
            continue
        if what == 'save' and not named:
            continue
        if what == 'stream' and origin == 'flat':
            continue
        t0 = now()
        if what == 'save':
            doc.save()
            data = lib.read(doc.docname)
        elif what == 'saveas':
            target = c.path('t%d.%s' % (step, kind))
            doc.saveas(target)
            data = lib.read(target)
            named = True
        else:
            s = io.BytesIO()
            doc.saveas(s)
            data = s.getvalue()
            named = False
            c.count('stream saves')
        t1 = now()
        count += 1
        got, grest, gstat = state(c, data)
        c.count('saves')
        c.same(got.get(q('meta:editing-cycles')), str(count), 'editing cycles after ' + what)
        check_date(c, got.get(q('dc:date'), ''), t0, t1)
        c.same(got.get(q('meta:generator'), ''), GENERATOR, 'generator after ' + what)
        c.ok('ezodf' in got.get(q('meta:generator'), '').lower(), 'generator after save',
             got=got.get(q('meta:generator')))
        c.same(grest, rest, 'other metadata after ' + what)
        c.same(gstat, stat, 'statistics after ' + what)
        stamp = got
        # the document in memory says the same
        c.same(doc.meta['editing-cycles'], str(count), 'editing cycles in memory')
        c.same(doc.meta['date'], got[q('dc:date')], 'date in memory')


def check_date(c, text, t0, t1):
    try:
        date = datetime.datetime.fromisoformat(text)
    except ValueError:
        c.fail('date is %r' % text)
    if '.' not in text:
        t0 = t0.replace(microsecond=0)
    if date.tzinfo is not None:
        date = date.astimezone().replace(tzinfo=None)
    c.ok(t0 <= date <= t1, 'date is not the time of the save', date=text, window=(str(t0), str(t1)))


def read_all(doc):
    for key in gen.META_SIMPLE:
        try:
            doc.meta[key]
        except KeyError:
            pass
    list(doc.meta.keywords), list(doc.meta.usertags), list(doc.meta.count)
    'x' in doc.meta.keywords, 'x' in doc.meta.usertags
    for child in doc.body:
        child.plaintext()
