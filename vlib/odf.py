"""Independent OpenDocument reader/writer: nothing in here uses ezodf.

Namespaces, element builder, canonical form of XML trees, zip packages and a
validator for written packages.
"""
import random
import io
import struct
import zipfile

from lxml import etree

O = 'urn:oasis:names:tc:opendocument:xmlns:'
NS = {
    'office': O + 'office:1.0', 'style': O + 'style:1.0', 'text': O + 'text:1.0',
    'table': O + 'table:1.0', 'draw': O + 'drawing:1.0', 'fo': O + 'xsl-fo-compatible:1.0',
    'meta': O + 'meta:1.0', 'number': O + 'datastyle:1.0', 'svg': O + 'svg-compatible:1.0',
    'chart': O + 'chart:1.0', 'dr3d': O + 'dr3d:1.0', 'form': O + 'form:1.0',
    'script': O + 'script:1.0', 'config': O + 'config:1.0', 'presentation': O + 'presentation:1.0',
    'manifest': O + 'manifest:1.0', 'anim': O + 'animation:1.0', 'of': O + 'of:1.2',
    'xlink': 'http://www.w3.org/1999/xlink', 'dc': 'http://purl.org/dc/elements/1.1/',
    'math': 'http://www.w3.org/1998/Math/MathML', 'ooo': 'http://openoffice.org/2004/office',
    'grddl': 'http://www.w3.org/2003/g/data-view#',
    'loext': 'urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0',
    'foreign': 'urn:example:foreign:1',
}
XMLID = '{http://www.w3.org/XML/1998/namespace}id'
MIME = 'application/vnd.oasis.opendocument.'
MIMETYPES = {
    'odt': MIME + 'text', 'ott': MIME + 'text-template',
    'odg': MIME + 'graphics', 'otg': MIME + 'graphics-template',
    'odp': MIME + 'presentation', 'otp': MIME + 'presentation-template',
    'ods': MIME + 'spreadsheet', 'ots': MIME + 'spreadsheet-template',
    'odc': MIME + 'chart', 'otc': MIME + 'chart-template',
    'odi': MIME + 'image', 'oti': MIME + 'image-template',
    'odm': MIME + 'text-master', 'oth': MIME + 'text-web',
}
BODY = {
    'odt': 'office:text', 'ott': 'office:text', 'odm': 'office:text', 'oth': 'office:text',
    'odg': 'office:drawing', 'otg': 'office:drawing',
    'odp': 'office:presentation', 'otp': 'office:presentation',
    'ods': 'office:spreadsheet', 'ots': 'office:spreadsheet',
    'odc': 'office:chart', 'otc': 'office:chart', 'odi': 'office:image', 'oti': 'office:image',
}
TEMPLATE_OF = {'ott': 'odt', 'otg': 'odg', 'otp': 'odp', 'ots': 'ods', 'otc': 'odc', 'oti': 'odi'}


def q(name):
    if name.startswith('{') or ':' not in name:
        return name
    prefix, local = name.split(':')
    return '{%s}%s' % (NS[prefix], local)


def pretty(name):
    if not isinstance(name, str):
        return '#comment'
    for prefix, uri in NS.items():
        if name.startswith('{%s}' % uri):
            return prefix + ':' + name[len(uri) + 2:]
    return name


def E(tag, attrs=None, *children, **kw):
    """Element with attributes {'p:name': value}; children: elements and texts."""
    el = etree.Element(q(tag), nsmap=kw.get('nsmap'))
    for k, v in (attrs or {}).items():
        el.set(q(k), str(v))
    last = None
    for child in children:
        if isinstance(child, str):
            if last is None:
                el.text = (el.text or '') + child
            else:
                last.tail = (last.tail or '') + child
        else:
            el.append(child)
            last = child
    return el


def root(tag, *children, **kw):
    nsmap = dict(NS)
    nsmap.pop('manifest')
    for prefix in kw.get('drop', ()):
        nsmap.pop(prefix, None)
    return E(tag, kw.get('attrs'), *children, nsmap=nsmap)


def xml(el, encoding='UTF-8', declaration=True):
    return etree.tostring(el, encoding=encoding, xml_declaration=declaration)


def parse(data):
    return etree.fromstring(data)


# ------------------------------------------------------------- canonical form
def canon(el, drop=None):
    """Nested tuples (tag, attributes, text, ((child, tail), ...)).

    drop(el) -> True leaves out an element (its tail text stays)."""
    tag = el.tag
    if not isinstance(tag, str):
        kind = '#pi' if el.tag is etree.ProcessingInstruction else '#comment'
        if el.tag is etree.Entity:
            kind = '#entity'
        return (kind, (), el.text or '', ())
    text = el.text or ''
    children = []
    for child in el:
        if drop is not None and drop(child):
            if children:
                children[-1] = (children[-1][0], children[-1][1] + (child.tail or ''))
            else:
                text += child.tail or ''
            continue
        children.append((canon(child, drop), child.tail or ''))
    return (tag, tuple(sorted(el.attrib.items())), text, tuple(children))


def without_ids(c):
    """Canonical tree without xml:id attributes (copies of elements do not have them)."""
    tag, attrs, text, children = c
    return (tag, tuple(a for a in attrs if a[0] != XMLID), text,
            tuple((without_ids(child), tail) for child, tail in children))


def ids_of(*elements):
    """All xml:id identifiers, sorted."""
    return sorted(x.get(XMLID) for el in elements for x in el.iter(etree.Element) if x.get(XMLID) is not None)


def shown(c, limit=1500):
    """Readable form of a canonical tree."""
    tag, attrs, text, children = c
    s = '<' + pretty(tag) + ''.join(' %s=%r' % (pretty(k), v) for k, v in attrs) + '>' + text
    for child, tail in children:
        s += shown(child, limit) + tail
    s += '</>'
    return s if len(s) < limit else s[:limit] + '...'


def first_difference(a, b, path=''):
    """Text describing the first difference of two canonical trees or None."""
    if a == b:
        return None
    here = path + '/' + pretty(a[0])
    if a[0] != b[0]:
        return '%s: element %s instead of %s' % (here, pretty(b[0]), pretty(a[0]))
    if a[1] != b[1]:
        return '%s: attributes %s instead of %s' % (
            here, {pretty(k): v for k, v in b[1]}, {pretty(k): v for k, v in a[1]})
    if a[2] != b[2]:
        return '%s: text %r instead of %r' % (here, b[2][:200], a[2][:200])
    for n, ((ca, ta), (cb, tb)) in enumerate(zip(a[3], b[3])):
        d = first_difference(ca, cb, here + '[%d]' % n)
        if d:
            return d
        if ta != tb:
            return '%s[%d]/%s: tail %r instead of %r' % (here, n, pretty(ca[0]), tb[:200], ta[:200])
    return '%s: %d children instead of %d: %s' % (
        here, len(b[3]), len(a[3]),
        shown(b[3][len(a[3])][0] if len(b[3]) > len(a[3]) else a[3][len(b[3])][0], 200))


# ------------------------------------------------------------------- packages
class Pkg(object):
    """A package to be written by the harness."""

    def __init__(self, kind):
        self.kind = kind
        self.mimetype = MIMETYPES[kind]
        self.mimetype_member = self.mimetype      # None: no such member
        self.mimetype_first = True
        self.mimetype_stored = True
        self.mimetype_extra = b''
        self.root_entry = self.mimetype           # media type of '/', None: no entry
        self.members = {}       # name -> bytes (without mimetype, manifest)
        self.media = {}         # name -> media type or None (no manifest entry)
        self.entry_children = {}  # name -> element put into the manifest entry
        self.entry_attrs = {}
        self.manifest = True
        self.manifest_noise = False
        self.manifest_seed = None       # entries in another order
        self.order = None
        self.stored = set()
        self.zipattrs = {}      # name -> attributes of the ZipInfo
        self.comment = b''
        self.doctype = b''

    def add(self, name, data, media=''):
        self.members[name] = data
        self.media[name] = media

    def manifest_bytes(self):
        m = etree.Element(q('manifest:manifest'), nsmap={'manifest': NS['manifest']})
        m.set(q('manifest:version'), '1.2')
        if self.manifest_noise:
            m.append(etree.Comment(' written by the harness '))
        if self.root_entry is not None:
            m.append(E('manifest:file-entry', {'manifest:full-path': '/',
                                               'manifest:version': '1.2',
                                               'manifest:media-type': self.root_entry}))
        names = list(self.media)
        if self.manifest_seed is not None:
            random.Random(self.manifest_seed).shuffle(names)
        for name in names:
            media = self.media[name]
            if media is None:
                continue
            e = E('manifest:file-entry', {'manifest:full-path': name,
                                          'manifest:media-type': media})
            for k, v in self.entry_attrs.get(name, {}).items():
                e.set(q(k), v)
            if name in self.entry_children:
                e.append(self.entry_children[name])
            m.append(e)
        data = etree.tostring(m, encoding='UTF-8')
        return b'<?xml version="1.0" encoding="UTF-8"?>\n' + self.doctype + data

    def tobytes(self):
        buf = io.BytesIO()
        z = zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED)

        def put(name, data, stored=False, extra=b''):
            info = zipfile.ZipInfo(name, (2001, 2, 3, 4, 5, 6))
            info.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
            info.extra = extra
            info.external_attr = 0o640 << 16
            for key, value in self.zipattrs.get(name, {}).items():
                setattr(info, key, value)
            z.writestr(info, data)

        def put_mimetype():
            if self.mimetype_member is not None:
                put('mimetype', self.mimetype_member.encode(), self.mimetype_stored,
                    self.mimetype_extra)
        names = self.order or list(self.members)
        if self.mimetype_first:
            put_mimetype()
        for name in names:
            put(name, self.members[name], name in self.stored)
        if not self.mimetype_first:
            put_mimetype()
        if self.manifest:
            put('META-INF/manifest.xml', self.manifest_bytes())
        z.comment = self.comment
        z.close()
        return buf.getvalue()


class BadPackage(Exception):
    pass


def read_package(data):
    """Members of a package as dict, refuses what a strict consumer refuses."""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = z.infolist()
        names = [i.filename for i in infos]
        if len(names) != len(set(names)):
            raise BadPackage('duplicate member names: %s' % sorted(
                n for n in set(names) if names.count(n) > 1))
        return dict((n, z.read(n)) for n in names)
    except BadPackage:
        raise
    except Exception as e:
        raise BadPackage('%s: %s' % (type(e).__name__, e))


def package_order(data):
    return [i.filename for i in zipfile.ZipFile(io.BytesIO(data)).infolist()]


def manifest_entries(data):
    """List of (full-path, canonical entry)."""
    m = parse(data)
    return [(e.get(q('manifest:full-path')), canon(e)) for e in m
            if isinstance(e.tag, str) and e.tag == q('manifest:file-entry')]


def wellformed_package_problems(data, mimetype, written_xml=(), other_parts=()):
    """Problems of a written package seen by a strict consumer (C02)."""
    problems = []
    if data[:4] != b'PK\x03\x04':
        return ['does not start with a local file header']
    (sig, version, flags, method, mtime, mdate, crc, csize, usize, nlen, elen) = struct.unpack(
        '<4sHHHHHIIIHH', data[:30])
    name = data[30:30 + nlen]
    if name != b'mimetype':
        problems.append('first member is %r' % name)
    else:
        if method != 0:
            problems.append('mimetype is compressed')
        if elen != 0:
            problems.append('mimetype has an extra field')
        if data[38:38 + len(mimetype)] != mimetype.encode():
            problems.append('mimetype is %r' % data[38:38 + len(mimetype)])
        if not flags & 8 and usize != len(mimetype):
            problems.append('mimetype has %d bytes' % usize)
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        infos = z.infolist()
    except Exception as e:
        return problems + ['not readable as zip: %s' % e]
    if infos[0].filename != 'mimetype' or infos[0].header_offset != 0:
        problems.append('mimetype is not the first member')
    names = [i.filename for i in infos]
    for n in sorted(set(names)):
        if names.count(n) != 1:
            problems.append('member %r occurs %d times' % (n, names.count(n)))
    try:
        bad = z.testzip()
        if bad is not None:
            problems.append('member %r has a bad CRC' % bad)
        if z.read('mimetype') != mimetype.encode():
            problems.append('mimetype holds %r' % z.read('mimetype'))
    except Exception as e:
        return problems + ['not readable: %s: %s' % (type(e).__name__, e)]
    for n in tuple(written_xml) + ('META-INF/manifest.xml',):
        if n not in names:
            problems.append('member %r is missing' % n)
            continue
        try:
            parse(z.read(n))
        except Exception as e:
            problems.append('%r does not parse: %s' % (n, e))
    if 'META-INF/manifest.xml' in names:
        try:
            entries = manifest_entries(z.read('META-INF/manifest.xml'))
        except Exception as e:
            return problems
        paths = [p for p, c in entries]
        for n in ('/',) + tuple(written_xml) + tuple(other_parts):
            if paths.count(n) != 1:
                problems.append('manifest has %d entries for %r' % (paths.count(n), n))
        if 'META-INF/manifest.xml' in paths:
            problems.append('manifest lists itself')
        for p, c in entries:
            if p == '/' and dict(c[1]).get(q('manifest:media-type')) != mimetype:
                problems.append("media type of '/' is %r" % dict(c[1]).get(q('manifest:media-type')))
    return problems


# -------------------------------------------------------- comparison of parts
CONTENT_CONTAINERS = ('office:scripts', 'office:font-face-decls', 'office:automatic-styles',
                      'office:body')
BODY_CONTAINERS = ('text:variable-decls', 'text:user-field-decls')
STYLES_CONTAINERS = ('office:font-face-decls', 'office:styles', 'office:automatic-styles',
                     'office:master-styles')


def is_empty(el):
    return len(el) == 0 and not el.attrib and not (el.text or '').strip()


def part_difference(expected, actual, allowed, path=''):
    """First difference between two elements; children of `actual` which are
    empty, whose tag is in allowed[tag of parent] and is missing in `expected`
    may be there in addition."""
    def drop_for(exp, act):
        tags = allowed.get(pretty(exp.tag), ())
        have = set(c.tag for c in exp)
        return [c for c in act if isinstance(c.tag, str) and pretty(c.tag) in tags
                and c.tag not in have and is_additional(c)]

    def is_additional(c):
        # an added container holds nothing but added containers
        tags = allowed.get(pretty(c.tag), ())
        return not c.attrib and not (c.text or '').strip() and all(
            isinstance(k.tag, str) and pretty(k.tag) in tags and is_additional(k) for k in c)

    if expected.tag != actual.tag:
        return '%s: element %s instead of %s' % (path, pretty(actual.tag), pretty(expected.tag))
    here = path + '/' + pretty(expected.tag)
    if not isinstance(expected.tag, str) or pretty(expected.tag) not in allowed:
        d = first_difference(canon(expected), canon(actual), path)
        return d
    if dict(expected.attrib) != dict(actual.attrib):
        return '%s: attributes %s instead of %s' % (here, dict(actual.attrib), dict(expected.attrib))
    added = drop_for(expected, actual)
    text = (actual.text or '')
    kept = []
    for c in actual:
        if c in added:
            if kept:
                kept[-1][1] += c.tail or ''
            else:
                text += c.tail or ''
        else:
            kept.append([c, c.tail or ''])
    if text != (expected.text or ''):
        return '%s: text %r instead of %r' % (here, text, expected.text)
    for n, (e, (a, tail)) in enumerate(zip(expected, kept)):
        d = part_difference(e, a, allowed, here + '[%d]' % n)
        if d:
            return d
        if (e.tail or '') != tail:
            return '%s[%d]: tail %r instead of %r' % (here, n, tail, e.tail)
    if len(expected) != len(kept):
        extra = kept[len(expected)][0] if len(kept) > len(expected) else expected[len(kept)]
        return '%s: %d children instead of %d (%s)' % (
            here, len(kept), len(expected), shown(canon(extra), 200))
    return None


def lost_prefixes(expected_root, actual_root):
    """Namespace declarations of the original root which are not there anymore
    (attribute values like formulas refer to prefixes)."""
    return sorted(str(p) for p, uri in expected_root.nsmap.items()
                  if actual_root.nsmap.get(p) != uri)


def content_allowed(kind):
    return {'office:document-content': CONTENT_CONTAINERS, 'office:body': (BODY[kind],),
            BODY[kind]: BODY_CONTAINERS}


STYLES_ALLOWED = {'office:document-styles': STYLES_CONTAINERS}
STAMP = ('dc:date', 'meta:generator', 'meta:editing-cycles')
