"""C06: metadata, keywords, user tags and statistics behave as map and set."""
import io

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('Random histories of every operation of the metadata, keyword, user tag and statistics containers '
        '(legal and unknown names, empty and hostile texts, adds of present and removals of missing entries, '
        'update, clear, the clearing of everything) on new, opened (with foreign elements around) and flat documents, '
        'with reopening in between. After every operation the complete state seen through the API equals a model of '
        'plain dictionaries and lists; the written file is compared too. Distinct by log.')
CASES = {'quick': 2700, 'thorough': 60000}
REQUIRED = ['unreadable statistics', 'many entries', 'states compared', 'reopened', 'meta set', 'meta get unknown', 'keyword add', 'keyword remove',
            'keyword clear', 'tag set', 'tag item', 'tag delete', 'tag delete unknown', 'tag update', 'tag clear',
            'tag type', 'count set', 'count unknown', 'count update', 'count clear', 'clear all', 'kind flat',
            'foreign content compared', 'handles taken before']
TYPES = ['page', 'table', 'draw', 'image', 'object', 'ole-object', 'paragraph', 'word', 'character', 'row', 'frame',
         'sentence', 'syllable', 'non-whitespace-character', 'cell']
VALUE_TYPES = ('string', 'float', 'date', 'time', 'boolean')


class Held(object):
    """ The containers of a document, as taken once. """
    def __init__(self, meta):
        self.meta = meta
        self.keywords, self.usertags, self.count = meta.keywords, meta.usertags, meta.count

    def __getitem__(self, key):
        return self.meta[key]

    def __setitem__(self, key, value):
        self.meta[key] = value

    def clear(self):
        self.meta.clear()


class State(object):
    def __init__(self):
        self.meta, self.keywords, self.tags, self.count = {}, [], {}, {}


def load(section, s):
    for key, tag in gen.META_SIMPLE.items():
        el = section.find(q(tag))
        if el is not None:
            s.meta[key] = el.text or ''
    for el in section.findall(q('meta:keyword')):
        s.keywords.append(el.text or '')
    for el in section.findall(q('meta:user-defined')):
        s.tags[el.get(q('meta:name'))] = (el.text or '', el.get(q('meta:value-type'), 'string'))
    el = section.find(q('meta:document-statistic'))
    if el is not None:
        for t in TYPES:
            v = el.get(q('meta:%s-count' % t))
            if v is not None:
                try:
                    s.count[t] = int(v)
                except ValueError:      # unreadable: the default
                    s.count[t] = 0


def compare(c, doc, s, what, m=None):
    m = m or doc.meta
    for key in gen.META_SIMPLE:
        if key in s.meta:
            c.same(m[key], s.meta[key], '%s: meta[%r]' % (what, key))
        else:
            try:
                v = m[key]
            except KeyError:
                continue
            c.fail('%s: meta[%r] is %r, not KeyError' % (what, key, v))
    c.same(list(m.keywords), s.keywords, what + ': keywords')
    got = list(m.usertags)
    c.same(len(got), len(s.tags), what + ': number of user tags')
    c.same(dict(got), dict((k, v[0]) for k, v in s.tags.items()), what + ': user tags')
    for name, (value, vtype) in s.tags.items():
        c.ok(name in m.usertags, '%s: user tag %r is missing' % (what, name))
        c.same(m.usertags[name], value, '%s: user tag %r' % (what, name))
        c.same(m.usertags.typeof(name), vtype, '%s: type of user tag %r' % (what, name))
    for t in TYPES:
        c.same(m.count[t], s.count.get(t, 0), '%s: count[%r]' % (what, t))
    got = list(m.count)
    c.same(sorted(got), sorted(s.count.items()), what + ': iteration over statistics')
    c.count('states compared')


STATS = frozenset(q('meta:%s-count' % t) for t in TYPES)


ANY = []


def same_foreign(c, data, around, what):
    got = foreign(data)
    if ANY in around:
        got = [x for x in got if not isinstance(x, list)] + [ANY]
    c.same(got, around, what)


def foreign(data):
    r = odf.parse(odf.read_package(data)['meta.xml']) if data[:2] == b'PK' else odf.parse(data)
    section = r.find(q('office:meta'))
    known = [q(t) for t in gen.META_SIMPLE.values()] + [q('meta:keyword'), q('meta:user-defined'),
                                                       q('meta:document-statistic')]
    stats = [sorted((k, v) for k, v in e.attrib.items() if k not in STATS) for e in section.findall(q('meta:document-statistic'))]
    return [odf.canon(e) for e in section if e.tag not in known] + [s for s in stats if s]


def some_name(rng, present):
    if present and rng.random() < 0.6:
        return rng.choice(sorted(present))
    return rng.choice((gen.word(rng, 2), gen.plain(rng), gen.plain(rng) * rng.choice((1, 30, 500)), 'a', 'A', '', ' ', 'a ', 'title', '\xe4', 'x"y', "x'y", '<&>'))


def any_value(rng):
    return some_value(rng) if rng.random() < 0.7 else rng.choice((0, 0.0, False, True, 5, -1, 1.5, 1e22, 10 ** 20))


def some_value(rng):
    if rng.random() < 0.02:
        return gen.plain(rng) * rng.choice((50, 300, 9000))
    return rng.choice((gen.plain(rng), '', '0', ' ', gen.text(rng), gen.text(rng), gen.plain(rng),
                       rng.choice(('string', 'float', 'date', 'time', 'boolean', 'true', 'None'))))


def case(c):
    rng = c.rng
    s = State()
    origin = rng.choice(('new', 'packaged', 'packaged', 'flat'))
    kind = rng.choice(('odt', 'ods', 'odg'))
    c.log(origin, kind)
    c.count('kind ' + origin)
    if origin == 'new':
        doc = lib.newdoc(kind)
        data = doc.tobytes()
    else:
        section = gen.meta_section(rng)
        stat = section.find(q('meta:document-statistic'))
        if stat is not None and rng.random() < 0.3:
            stat.set(q('meta:%s-count' % rng.choice(TYPES)), rng.choice(('', 'many', '1.5', '-3', '0x10')))
            c.count('unreadable statistics')
        if rng.random() < 0.06:
            for i in range(rng.choice((20, 150, 300))):
                section.append(E('meta:keyword', {}, 'k%d' % i))
                section.append(E('meta:user-defined', {'meta:name': 'n%d' % i}, 'v%d' % i))
            c.count('many entries')
        if origin == 'flat':
            r = gen.flat_root(rng, kind)
            for el in r.findall(q('office:meta')):
                r.remove(el)
            r.insert(0, section)
            data = odf.xml(r)
            lib.write(c.path('x.f' + kind), data)
            doc = lib.opendoc(c.path('x.f' + kind))
        else:
            p = gen.package(rng, kind, meta=odf.root('office:document-meta', section))
            data = p.tobytes()
            doc = lib.opendoc(data)
    r = odf.parse(odf.read_package(data)['meta.xml']) if data[:2] == b'PK' else odf.parse(data)
    load(r.find(q('office:meta')), s)
    around = foreign(data)
    held = Held(doc.meta)
    compare(c, doc, s, 'opened')
    for step in range(rng.randint(4, 16)):
        what = rng.choice(('meta set', 'meta set', 'meta get unknown', 'keyword add', 'keyword add', 'keyword remove',
                           'keyword contains', 'keyword clear', 'tag set', 'tag set', 'tag item', 'tag item',
                           'tag delete', 'tag delete', 'tag update', 'tag clear', 'tag type', 'count set', 'count set',
                           'count unknown', 'count update', 'count clear', 'clear all', 'reopen'))
        if what in ('keyword clear', 'tag clear', 'count clear', 'clear all') and rng.random() < 0.6:
            continue
        if rng.random() < 0.5:
            m = held
            c.log('held')
            c.count('handles taken before')
        else:
            m = doc.meta
        if what == 'meta set':
            key, value = rng.choice(sorted(gen.META_SIMPLE)), some_value(rng)
            c.log(what, key, value)
            m[key] = value
            s.meta[key] = value
        elif what == 'meta get unknown':
            key = rng.choice(('xyz', '', 'Title', 'dc:title', 'keyword', 'user-defined'))
            c.log(what, key)
            e = c.raises(m.__getitem__, key)
            c.ok(isinstance(e, KeyError), 'unknown metadata name raises %r' % e)
            e = c.raises(m.__setitem__, key, 'v')
            c.ok(isinstance(e, KeyError), 'setting an unknown metadata name raises %r' % e)
        elif what.startswith('keyword'):
            word = some_name(rng, s.keywords)
            c.log(what, word)
            if what == 'keyword add':
                m.keywords.add(word)
                if word not in s.keywords:
                    s.keywords.append(word)
            elif what == 'keyword remove':
                m.keywords.remove(word)
                if word in s.keywords:
                    s.keywords.remove(word)
            elif what == 'keyword contains':
                c.same(word in m.keywords, word in s.keywords, 'keyword %r' % word)
            else:
                m.keywords.clear()
                s.keywords = []
        elif what == 'tag set':
            name, value = some_name(rng, s.tags), any_value(rng)
            vtype = rng.choice(VALUE_TYPES + (None,))
            c.log(what, name, value, vtype)
            if vtype is None:
                m.usertags.set(name, value)
            else:
                m.usertags.set(name, value, vtype)
            s.tags[name] = (str(value), vtype or 'string')
        elif what == 'tag item':
            name, value = some_name(rng, s.tags), any_value(rng)
            c.log(what, name, value)
            m.usertags[name] = value
            s.tags[name] = (str(value), 'string')
        elif what == 'tag delete':
            name = some_name(rng, s.tags)
            c.log(what, name)
            if name in s.tags:
                del m.usertags[name]
                del s.tags[name]
            else:
                c.count('tag delete unknown')
                for func in (m.usertags.__delitem__, m.usertags.__getitem__, m.usertags.typeof):
                    e = c.raises(func, name)
                    c.ok(isinstance(e, KeyError), 'unknown user tag raises %r' % e)
                c.ok(name not in m.usertags, 'unknown user tag is contained')
        elif what == 'tag update':
            d = dict((some_name(rng, s.tags), any_value(rng)) for _ in range(rng.randint(0, 3)))
            c.log(what, d)
            m.usertags.update(d)
            for k, v in d.items():
                s.tags[k] = (str(v), 'string')
        elif what == 'tag clear':
            c.log(what)
            m.usertags.clear()
            s.tags = {}
        elif what == 'tag type':
            name = some_name(rng, s.tags)
            if name in s.tags:
                c.same(m.usertags.typeof(name), s.tags[name][1], 'type of tag')
        elif what == 'count set':
            name, value = rng.choice(TYPES), rng.choice((0, 1, 17, 10 ** 9, 2 ** 31, 2 ** 40, -1, -5))
            c.log(what, name, value)
            m.count[name] = value
            s.count[name] = value
        elif what == 'count unknown':
            name = rng.choice(('pages', '', 'Page', 'page-count', 'x'))
            c.log(what, name)
            for func, args in ((m.count.__getitem__, (name,)), (m.count.__setitem__, (name, 3))):
                e = c.raises(func, *args)
                c.ok(isinstance(e, KeyError), 'unknown statistic raises %r' % e)
        elif what == 'count update':
            d = dict((rng.choice(TYPES), rng.randint(0, 99)) for _ in range(rng.randint(0, 3)))
            c.log(what, d)
            m.count.update(d)
            s.count.update(d)
        elif what == 'count clear':
            c.log(what)
            m.count.clear()
            s.count = {}
            around = [x for x in around if not isinstance(x, list)] + [ANY]    # attributes of the cleared element: free
        elif what == 'clear all':
            c.log(what)
            m.clear()
            s = State()
            around = []
        else:
            if rng.random() < 0.5:
                data = doc.tobytes()
            else:
                name = c.path('s.' + (kind if origin != 'flat' else 'f' + kind))
                doc.saveas(name)
                data = lib.read(name)
                for key in ('date', 'generator', 'editing-cycles'):
                    s.meta[key] = doc.meta[key]
            c.log('reopen')
            same_foreign(c, data, around, 'other elements of the meta section')
            c.count('foreign content compared')
            check_file(c, data, s)
            name = c.path('r.' + (kind if origin != 'flat' else 'f' + kind))
            lib.write(name, data)
            doc = lib.opendoc(name)
            held = Held(doc.meta)
            c.count('reopened')
            what = 'reopened'
        c.count(what) if what != 'reopened' else None
        compare(c, doc, s, what)
        compare(c, doc, s, what + ' (handles)', held)
    same_foreign(c, doc.tobytes(), around, 'other elements of the meta section at the end')


def check_file(c, data, s):
    r = odf.parse(odf.read_package(data)['meta.xml']) if data[:2] == b'PK' else odf.parse(data)
    t = State()
    load(r.find(q('office:meta')), t)
    tags = [e.tag for e in r.find(q('office:meta'))]
    for tag in list(gen.META_SIMPLE.values()) + ['meta:document-statistic']:
        c.ok(tags.count(q(tag)) <= 1, 'more than one %s in the file' % tag)
    c.same(t.meta, s.meta, 'metadata in the file')
    c.same(t.keywords, s.keywords, 'keywords in the file')
    c.same(t.tags, s.tags, 'user tags in the file')
    c.same(t.count, s.count, 'statistics in the file')
