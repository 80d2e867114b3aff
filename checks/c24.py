"""C24: injected and assigned styles are found and saved unchanged."""
import re

import ezodf
from lxml import etree
from ezodf.xmlns import wrap

from vlib import gen, lib, odf
from vlib.odf import E, NS, q

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('For packaged, flat and new documents of all types a model holds the ordered styles of every container (fonts, common, automatic and '
        'master styles of styles.xml, fonts and automatic styles of content.xml). Random sequences inject snippets (with and without own namespace '
        'declarations, nested properties, comments, entities, CDATA, significant white space, all style elements), assign new and existing names, move '
        'styles between containers, set attributes, rename, look up (also missing names), save by all routes and reopen. After each step the '
        'XML of all containers equals the model and lookups find the styles by name; written files are parsed independently. Distinct by log.')
CASES = {'quick': 6000, 'thorough': 90000}
REQUIRED = ['injected', 'injected with text', 'injected with leading comment', 'assigned new', 'replaced', 'assigned itself', 'moved', 'missing names', 'looked up', 'attributes set',
            'renamed', 'attributes read', 'reopened', 'saved', 'flat documents', 'packaged documents', 'new documents', 'page layouts', 'refused snippets',
            'kept handles', 'headers and footers']
ASSUMPTIONS = ['Styles are injected under names which the container does not use yet, and assigned under their own name.',
               'White space around an injected element is not part of it.']

PREFIXES = ('office', 'xlink', 'dc', 'meta', 'ooo', 'grddl', 'manifest', 'style', 'text', 'table', 'draw', 'fo', 'number', 'svg', 'chart', 'dr3d', 'math',
            'form', 'script', 'of', 'config', 'presentation', 'anim')
MORE = {'ooow': 'http://openoffice.org/2004/writer', 'oooc': 'http://openoffice.org/2004/calc', 'dom': 'http://www.w3.org/2001/xml-events',
        'rpt': 'http://openoffice.org/2005/report', 'xhtml': 'http://www.w3.org/1999/xhtml', 'tableooo': 'http://openoffice.org/2009/table',
        'css3t': 'http://www.w3.org/TR/css3-text/', 'xforms': 'http://www.w3.org/2002/xforms', 'xsd': 'http://www.w3.org/2001/XMLSchema',
        'xsi': 'http://www.w3.org/2001/XMLSchema-instance', 'field': 'urn:openoffice:names:experimental:ooo-ms-interop:xmlns:field:1.0',
        'formx': 'urn:openoffice:names:experimental:ooxml-odf-interop:xmlns:form:1.0',
        'smil': 'urn:oasis:names:tc:opendocument:xmlns:smil-compatible:1.0'}

STYLE_KEYS = {'name': 'style:name', 'display-name': 'style:display-name', 'family': 'style:family', 'parent-style-name': 'style:parent-style-name',
              'next-style-name': 'style:next-style-name', 'list-style-name': 'style:list-style-name', 'master-page-name': 'style:master-page-name',
              'auto-update': 'style:auto-update', 'data-style-name': 'style:data-style-name', 'class': 'style:class',
              'default-outline-level': 'style:default-outline-level'}
LAYOUT_KEYS = {'name': 'style:name', 'page-usage': 'style:page-usage'}
KEYS = {q('style:style'): STYLE_KEYS, q('style:page-layout'): LAYOUT_KEYS}


def new_style(rng, name):
    """A style element with everything in it."""
    r = rng.random()
    if r < 0.45:
        s = gen.style(rng, name, rng.choice(('paragraph', 'text', 'table-cell', 'graphic', 'chart')))
        for prefix in rng.sample(PREFIXES, 2):
            if rng.random() < 0.4:
                s.append(E(prefix + ':any-properties', {rng.choice(PREFIXES) + ':a': gen.plain(rng), 'plain': '1'}))
        if rng.random() < 0.4:
            prefix = rng.choice(sorted(MORE))
            x = etree.SubElement(s, '{%s}thing' % MORE[prefix], nsmap={prefix: MORE[prefix]})
            x.set('{%s}a' % MORE[prefix], 'b')
    elif r < 0.6:
        s = E('number:date-style', {'style:name': name, 'number:language': 'de'}, E('number:day', {'number:style': 'long'}),
              E('number:text', {}, rng.choice((' ', '. ', '\n', '\t', '\xa0', '%s %d %', '{0}', 'a'))), E('number:month'), E('number:text', {}, gen.text(rng, 6, minlen=1)))
    elif r < 0.7:
        s = E('text:list-style', {'style:name': name}, E('text:list-level-style-bullet', {'text:level': '1', 'text:bullet-char': rng.choice('\u2022-%<&"')},
                                                      E('style:list-level-properties', {'text:space-before': '0.5cm'})))
    elif r < 0.85:
        s = E('style:page-layout', {'style:name': name}, E('style:page-layout-properties', {'fo:page-width': '21cm'}))
        if rng.random() < 0.5:
            s.append(E('style:header-style', {}, E('style:header-footer-properties', {'fo:min-height': '1cm'})))
            if rng.random() < 0.3:
                s[-1].insert(0, etree.Comment(' header '))
    elif r < 0.93:
        s = E('style:master-page', {'style:name': name, 'style:page-layout-name': 'Mpm1'}, E('style:header', {}, gen.paragraph(rng)))
    else:
        s = E('style:font-face', {'style:name': name, 'svg:font-family': "'A %s B'" % rng.choice('\xe4&<"%')})
    if rng.random() < 0.2:
        s.append(etree.Comment(' 100% '))
    if rng.random() < 0.2:
        s.set('{http://www.w3.org/XML/1998/namespace}' + rng.choice(('space', 'lang')), 'preserve')
    return s


XMLNS = 'http://www.w3.org/XML/1998/namespace'
PREFIX_OF = dict([(NS[p], p) for p in PREFIXES] + [(u, p) for p, u in MORE.items()] + [(XMLNS, 'xml'), (NS['foreign'], 'foreign')])
DECLARATIONS = dict([(p, NS[p]) for p in PREFIXES] + list(MORE.items()))


def prefixed(name):
    if not name.startswith('{'):
        return name
    uri, local = name[1:].split('}')
    return '%s:%s' % (PREFIX_OF[uri], local)


def escaped(text, quote=False):
    text = text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    return text.replace('"', '&quot;').replace('\t', '&#9;').replace('\n', '&#10;') if quote else text


def markup(rng, el, declared=''):
    """XML text of an element with the prefixes used by everyone."""
    if not isinstance(el.tag, str):
        return '<!--%s-->' % el.text + escaped(el.tail or '')
    name = prefixed(el.tag)
    if name.startswith('foreign:'):
        declared += ' xmlns:foreign="%s"' % NS['foreign']
    attrs = ''.join(' %s="%s"' % (prefixed(k), escaped(v, True)) for k, v in el.attrib.items())
    text = el.text or ''
    text = '<![CDATA[%s]]>' % text if text and rng.random() < 0.2 and ']]>' not in text and '\r' not in text else escaped(text)
    inner = text + ''.join(markup(rng, x) + escaped(x.tail or '') * isinstance(x.tag, str) for x in el)
    if not inner and rng.random() < 0.7:
        return '<%s%s%s/>' % (name, declared, attrs)
    return '<%s%s%s>%s</%s>' % (name, declared, attrs, inner, name)


def snippet(rng, el):
    """XML text of an element as found in a content.xml."""
    declared = ''
    if rng.random() < 0.25:
        declared = ''.join(' xmlns:%s="%s"' % x for x in DECLARATIONS.items())
    elif rng.random() < 0.1:
        declared = ' xmlns:style="%s"' % NS['style']
    text = markup(rng, el, declared)
    if rng.random() < 0.2 and '<![CDATA[' not in text:
        text = re.sub('[\x80-\U0010ffff]', lambda m: '&#%d;' % ord(m.group()), text)
    if rng.random() < 0.3:
        text = rng.choice(('\n', '  ', '\t\n ')) + text + rng.choice(('\n', ' ', '\n\n'))
    return text


def parsed(rng, el):
    """A new element with the content of el."""
    return etree.fromstring(markup(rng, el, ''.join(' xmlns:%s="%s"' % x for x in DECLARATIONS.items())))


class Model(object):
    """Ordered canonical children of every container."""
    def __init__(self, doc):
        self.boxes = dict((name, [odf.canon(s) for s in box.xmlnode]) for name, box in containers(doc).items())


def containers(doc):
    names = ('fonts', 'styles', 'automatic_styles', 'master_styles')
    if hasattr(doc, 'content'):
        out = dict((n, getattr(doc.styles, n)) for n in names)
        out['content fonts'] = doc.content.fonts
        out['content automatic_styles'] = doc.content.automatic_styles
        return out
    return dict((n, getattr(doc, n)) for n in names)


MEMBER = {'fonts': 'office:font-face-decls', 'styles': 'office:styles', 'automatic_styles': 'office:automatic-styles',
          'master_styles': 'office:master-styles'}


def written(data):
    out = {}
    for name, tag in MEMBER.items():
        if data[:2] == b'PK':
            members = odf.read_package(data)
            out[name] = odf.parse(members['styles.xml']).findall(q(tag))
            if name in ('fonts', 'automatic_styles'):
                out['content ' + name] = odf.parse(members['content.xml']).findall(q(tag))
        else:
            out[name] = odf.parse(data).findall(q(tag))
    return out


def name_of(canonical):
    return dict(canonical[1]).get(q('style:name')) if isinstance(canonical[0], str) else None


def with_attribute(canonical, key, value):
    attrs = dict(canonical[1])
    attrs[key] = value
    return (canonical[0], tuple(sorted(attrs.items())), canonical[2], canonical[3])


class Run(object):
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        rng = c.rng
        kind = rng.choice(('odt', 'odt', 'ods', 'odg', 'odp', 'odc', 'odi', 'ott'))
        r = rng.random()
        self.ext = kind
        if r < 0.2:
            self.doc = lib.newdoc(kind)
            c.count('new documents')
        elif r < 0.6:
            data = gen.package(rng, kind, hostile=0).tobytes()
            lib.write(c.path('source.' + kind), data)
            self.doc = lib.open_by(rng.choice(lib.ROUTES), data, c.path('source.' + kind))
            c.count('packaged documents')
        else:
            self.ext = 'f' + kind
            lib.write(c.path('source.' + self.ext), odf.xml(gen.flat_root(rng, kind)))
            self.doc = lib.opendoc(c.path('source.' + self.ext))
            c.count('flat documents')
        c.log(self.ext, type(self.doc).__name__)
        self.model = Model(self.doc)
        self.kept = []      # (box name, style name, handle)
        self.number = 0

    @property
    def boxes(self):
        return containers(self.doc)

    def fresh(self):
        self.number += 1
        return self.rng.choice(('N%d', '\xdcber%d', 'a_20_b%d', 'x.y-%d', 'P%d ', ' %d', "it's%d", '"q"%d', 'a&lt;%d', '<%d', '\u4e2d%d', '0%d')) % self.number

    def pick(self, only=None):
        """(box, position) of a named style."""
        all_ = [(b, i) for b, styles in sorted(self.model.boxes.items()) for i, s in enumerate(styles)
                if name_of(s) and (only is None or s[0] in only) and [name_of(x) for x in styles].index(name_of(s)) == i]
        return self.rng.choice(all_) if all_ else None

    # ---- steps
    def inject(self):
        rng, c = self.rng, self.c
        el = new_style(rng, self.fresh())
        expected = odf.canon(el)
        text = snippet(rng, el)
        if rng.random() < 0.15:
            text = '<!-- from the clipboard -->' + rng.choice(('', '\n')) + text
            c.count('injected with leading comment')
        if expected[2] or any(x[2] for x in descendants(expected)):
            c.count('injected with text')
        if rng.random() < 0.5:
            self.doc.inject_style(text)
        else:
            self.doc.inject_style(text, where='styles.xml')
        self.model.boxes['styles'].append(expected)
        c.count('injected')
        return 'inject ' + odf.pretty(el.tag)

    def refused(self):
        text = self.rng.choice(('<style:style', '', 'text', '<unknown:style style:name="x"/>', '<style:style style:name="a" style:name="b"/>', '<style:style></style:other>',
                                '<style:style style:name="\x01"/>', '&nothing;'))
        e = self.c.raises(self.doc.inject_style, text)
        self.c.ok(e is not None, 'snippet %r was accepted' % text)
        self.c.count('refused snippets')
        return 'refused'

    def assign(self):
        rng, c = self.rng, self.c
        r = rng.random()
        found = self.pick()
        if r < 0.35 or found is None:
            box = rng.choice(sorted(self.model.boxes))
            name = self.fresh()
            el = parsed(rng, new_style(rng, name))
            self.boxes[box][name] = wrap(el)
            self.model.boxes[box].append(odf.canon(el))
            c.count('assigned new')
            return 'assign new'
        box, i = found
        name = name_of(self.model.boxes[box][i])
        if r < 0.7:
            el = parsed(rng, new_style(rng, name))
            self.boxes[box][name] = wrap(el)
            self.model.boxes[box][i] = odf.canon(el)
            self.kept = [k for k in self.kept if k[:2] != (box, name)]
            c.count('replaced')
            return 'replace'
        if r < 0.8:
            self.boxes[box][name] = self.boxes[box][name]
            c.count('assigned itself')
            return 'assign itself'
        other = rng.choice(sorted(self.model.boxes))
        if other == box:
            return 'nothing'
        moved = self.model.boxes[box].pop(i)
        names = [name_of(s) for s in self.model.boxes[other]]
        self.boxes[other][name] = self.boxes[box][name]
        if name in names:
            self.model.boxes[other][names.index(name)] = moved
        else:
            self.model.boxes[other].append(moved)
        self.kept = [k for k in self.kept if k[1] != name]
        c.count('moved')
        return 'move'

    def attribute(self):
        rng, c = self.rng, self.c
        found = self.pick(KEYS)
        if found is None:
            return 'nothing'
        box, i = found
        model = self.model.boxes[box][i]
        keys = KEYS[model[0]]
        key = rng.choice(sorted(keys))
        value = rng.choice(('true', '12', 'a b', '\xe4', '', ' x ', 'Standard', 'a&b<"\'', '\t', gen.text(rng, 8)))
        style = self.boxes[box][name_of(model)]
        old = name_of(model)
        if key == 'name':
            value = self.fresh()
            c.count('renamed')
        style[key] = value
        self.model.boxes[box][i] = with_attribute(model, q(keys[key]), value)
        c.same(style[key], value, 'attribute %s' % key)
        c.count('attributes set')
        if key == 'name':
            self.kept = [(b, value if (b, n) == (box, old) else n, h) for b, n, h in self.kept]
        if rng.random() < 0.4:
            self.kept.append((box, value if key == 'name' else old, style))
        return 'set ' + key

    def look(self):
        rng, c = self.rng, self.c
        boxes = self.boxes
        for box, styles in sorted(self.model.boxes.items()):
            names = [name_of(s) for s in styles]
            for name in set(names):
                if not name:
                    continue
                s = boxes[box][name]
                want = styles[names.index(name)]
                c.ok(odf.canon(s.xmlnode) == want, 'style %r of %s: %s' % (name, box, odf.first_difference(want, odf.canon(s.xmlnode), '')))
                c.count('looked up')
                if want[0] in KEYS:
                    attrs = dict(want[1])
                    for key, attr in KEYS[want[0]].items():
                        c.same(s[key], attrs.get(q(attr)), 'attribute %s of style %r' % (key, name))
                    c.count('attributes read')
                    e = c.raises(lambda: s['unknown'])
                    c.ok(isinstance(e, KeyError), 'unknown style attribute: %r' % e)
                if want[0] == q('style:page-layout'):
                    c.count('page layouts')
                    c.same(type(s).__name__, 'PageLayout', 'type of the page layout')
                if want[0] == q('style:style'):
                    c.same(type(s).__name__, 'Style', 'type of the style')
            for name in ('missing', '', 'N', 'n1', 'styles', None) + tuple(rng.sample(sorted(x for l in self.model.boxes.values() for x in map(name_of, l) if x), 1)
                                                                        if any(map(name_of, self.model.boxes['styles'])) else ()):
                if name in names:
                    continue
                e = c.raises(lambda: boxes[box][name])
                c.ok(isinstance(e, KeyError), 'missing name %r in %s: %r' % (name, box, e))
                c.count('missing names')
        for box, name, handle in self.kept:
            names = [name_of(s) for s in self.model.boxes[box]]
            if name in names:
                c.ok(odf.canon(handle.xmlnode) == self.model.boxes[box][names.index(name)], 'kept handle of style %r' % name)
                c.count('kept handles')
        return 'look'

    def header(self):
        """Properties of the header of a page layout: found or created, never changed."""
        found = self.pick({q('style:page-layout')})
        if found is None:
            return 'nothing'
        box, i = found
        style = self.boxes[box][name_of(self.model.boxes[box][i])]
        before = odf.canon(style.xmlnode)
        which = self.rng.choice(('header', 'footer'))
        p = getattr(style, which)
        self.c.same(p.xmlnode.tag, q('style:header-footer-properties'), 'properties of the ' + which)
        self.c.same(p.xmlnode.getparent().tag, q('style:%s-style' % which), 'place of the properties')
        self.c.ok(p.xmlnode.getparent().getparent() is style.xmlnode, 'place of the properties')
        self.c.ok(getattr(style, which).xmlnode is p.xmlnode, 'the properties were created twice')
        after = odf.canon(style.xmlnode)
        old = [x for x, t in before[3]]
        new = [x for x, t in after[3] if x[0] != q('style:%s-style' % which) or x in old]
        self.c.ok([x for x in old if x in new] == new, 'other parts of the page layout changed')
        self.model.boxes[box][i] = after
        self.c.count('headers and footers')
        return which

    def save(self):
        c, rng = self.c, self.rng
        path = c.path('out%d.%s' % (rng.randint(1, 2), self.ext))
        if rng.random() < 0.5:
            self.doc.saveas(path)
            data = lib.read(path)
            c.count('saved')
        else:
            data = self.doc.tobytes()
            lib.write(path, data)
        self.check_written(data)
        if rng.random() < 0.7:
            if data[:2] == b'PK':
                self.doc = lib.open_by(rng.choice(lib.ROUTES), data, path)
            else:
                self.doc = lib.opendoc(path)
            self.kept = []
            c.count('reopened')
        return 'save'

    def check_written(self, data):
        for name, found in written(data).items():
            self.c.same(len(found), 1, 'number of containers %s in the file' % name)
            self.compare(name, found[0], 'file')

    def compare(self, name, node, where):
        got = [odf.canon(s) for s in node]
        want = self.model.boxes[name]
        if got != want:
            for i, (a, b) in enumerate(zip(want, got)):
                if a != b:
                    self.c.fail('%s: %s, style %d: %s' % (where, name, i, odf.first_difference(a, b, '')))
            self.c.fail('%s: %s has %d styles, expected %d' % (where, name, len(got), len(want)))

    def check(self):
        for name, box in self.boxes.items():
            self.compare(name, box.xmlnode, 'memory')
        self.c.observations += 1


def descendants(canonical):
    for child, tail in canonical[3]:
        yield child
        for x in descendants(child):
            yield x


def case(c):
    rng = c.rng
    run = Run(c)
    steps = (run.inject, run.inject, run.assign, run.assign, run.assign, run.attribute, run.attribute, run.header, run.refused, run.save, run.look)
    for _ in range(rng.randint(5, 16)):
        label = rng.choice(steps)()
        c.log(label)
        run.check()
    run.look()
    run.save()
    run.look()
    run.check()
