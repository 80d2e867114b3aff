"""The OASIS schema of OpenDocument: validation, and random valid elements of
its whole vocabulary."""
import os

from lxml import etree
from vlib import odf
from vlib.odf import q

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'OpenDocument-schema-v1.1.rng')
R = '{http://relaxng.org/ns/structure/1.0}'
INF = 10 ** 6
_cache = {}


def strict():
    """ The schema with the content of metadata and properties as the strict schema
    of OASIS has it, which replaces these definitions by those named so. """
    tree = etree.parse(FILE)
    defines = tree.getroot().findall(R + 'define')
    for d in defines:
        if d.get('name').endswith('-strict'):
            for loose in defines:
                if loose.get('name') == d.get('name')[:-len('-strict')]:
                    loose[:] = [etree.Element(R + 'ref', name=d.get('name'))]
    return tree


def relaxng():
    if 'rng' not in _cache:
        _cache['rng'] = etree.RelaxNG(strict())
    return _cache['rng']


# of OpenDocument 1.2, which the library writes
META = '{urn:oasis:names:tc:opendocument:xmlns:meta:1.0}'
COUNTS = [META + '%s-count' % x for x in ('frame', 'sentence', 'syllable', 'non-whitespace-character')]
TABLE = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
LATER = ('{http://www.w3.org/2003/g/data-view#}transformation',)


def problems(root, limit=5):
    """What is invalid about the tree of `root`, [] for nothing."""
    root = etree.fromstring(etree.tostring(root) if not isinstance(root, bytes) else root)
    for name in LATER:
        root.attrib.pop(name, None)
    for e in root.iter(META + 'document-statistic'):
        for name in COUNTS:
            if e.get(name, '').isdigit():
                del e.attrib[name]
    for e in root.iter(TABLE + 'table'):
        if len(e) and e[-1].tag == TABLE + 'named-expressions':     # at the end only
            e.remove(e[-1])
    rng = relaxng()
    if rng.validate(root):
        return []
    return ['%s: %s' % (e.path if hasattr(e, 'path') else e.line, e.message) for e in list(rng.error_log)[:limit]] or ['invalid']


# ------------------------------------------------------------ sampler
class Pattern(object):
    __slots__ = ('kind', 'name', 'ns', 'args', 'text', 'depth', 'weight', 'nsmap')


class Grammar(object):
    def __init__(self):
        root = strict().getroot()
        self.defines, combine = {}, {}
        for d in root.iter(R + 'define'):
            kids = [self.build(x) for x in d if isinstance(x.tag, str) and x.tag.startswith(R)]
            p = kids[0] if len(kids) == 1 else self.make('group', kids)
            name = d.get('name')
            if name in self.defines:
                how = d.get('combine') or combine.get(name) or 'choice'
                self.defines[name] = self.make(how, [self.defines[name], p])
            else:
                self.defines[name] = p
            combine[name] = d.get('combine') or combine.get(name)
        self.elements = {}
        for p in self.all:
            if p.kind == 'element' and p.name:
                self.elements.setdefault(p.name, []).append(p)
        # the least depth of elements below a pattern
        for p in self.all:
            p.depth = INF
        changed = True
        while changed:
            changed = False
            for p in self.all:
                d = self.least(p)
                if d < p.depth:
                    p.depth, changed = d, True

    all = None

    def make(self, kind, args=()):
        p = Pattern()
        p.kind, p.args, p.name, p.ns, p.text, p.nsmap = kind, list(args), None, None, None, None
        if self.all is None:
            self.all = []
        self.all.append(p)
        return p

    def build(self, x):
        kind = x.tag[len(R):]
        kids = [k for k in x if isinstance(k.tag, str) and k.tag.startswith(R)]
        p = self.make(kind)
        if kind in ('element', 'attribute'):
            if x.get('name'):
                p.name = self.resolve(x, x.get('name'))
            else:
                kids = kids[1:] # a name class
            p.args = [self.build(k) for k in kids]
        elif kind in ('ref', 'data', 'value'):
            p.name = x.get('name') or x.get('type')
            p.text = x.text
            if kind == 'data':
                p.args = [(k.get('name'), k.text) for k in kids if k.tag == R + 'param']
        else:
            p.args = [self.build(k) for k in kids]
        return p

    @staticmethod
    def resolve(x, name):
        if ':' not in name:
            return name
        prefix, local = name.split(':')
        return '{%s}%s' % (x.nsmap[prefix], local)

    def least(self, p):
        k = p.kind
        if k in ('optional', 'zeroOrMore', 'text', 'empty', 'data', 'value', 'mixed', 'list') or k == 'attribute':
            return 0
        if k == 'notAllowed':
            return INF
        if k == 'ref':
            return self.defines[p.name].depth if p.name in self.defines else INF
        if k == 'choice':
            return min([a.depth for a in p.args] or [0])
        below = max([a.depth for a in p.args] or [0])
        if k == 'element':
            return INF if p.name is None else min(INF, below + 1)
        return below


def grammar():
    if 'grammar' not in _cache:
        _cache['grammar'] = Grammar()
    return _cache['grammar']


class Sampler(object):
    """Random elements which are valid, of at most about `size` elements."""
    def __init__(self, rng, size=60, depth=9, optional=0.3, prefer=(), avoid=()):
        self.rng, self.size, self.maxdepth, self.optional = rng, size, depth, optional
        self.g = grammar()
        self.prefer, self.avoid = frozenset(prefer), frozenset(avoid)
        self.made = 0
        self.ids = 0

    def element(self, name, **attrs):
        p = self.rng.choice(self.g.elements[name])
        return self.make_element(p, 0)

    def make_element(self, p, depth):
        e = etree.Element(p.name)
        self.made += 1
        optional = self.optional
        if p.name.endswith('}font-face'):
            self.optional = 0.06 # libxml2 needs exponential time
        for a in p.args:
            self.fill(e, a, depth + 1)
        self.optional = optional
        return e

    def budget(self, depth):
        return depth < self.maxdepth and self.made < self.size

    def weigh(self, p):
        """Choices are made by weights of what they lead to."""
        seen = 0
        while p.kind in ('ref', 'group', 'optional', 'zeroOrMore', 'oneOrMore') and seen < 6:
            p = self.g.defines.get(p.name) if p.kind == 'ref' else (p.args[0] if len(p.args) == 1 else None)
            if p is None:
                return 1
            seen += 1
        if p.kind == 'element':
            return 6 if p.name in self.prefer else 0 if p.name in self.avoid else 1
        if p.kind == 'choice':
            return max(1, min(12, len(p.args)))
        return 1

    def fill(self, e, p, depth):
        rng, k = self.rng, p.kind
        if k == 'element':
            if p.name is not None:
                e.append(self.make_element(p, depth))
        elif k == 'attribute':
            if p.name is not None:
                e.set(p.name, self.value(p.args[0] if p.args else None))
        elif k == 'ref':
            self.fill(e, self.g.defines[p.name], depth)
        elif k in ('group', 'interleave', 'mixed'):
            args = p.args
            if k == 'interleave':
                args = list(args)
                rng.shuffle(args)
            for a in args:
                self.fill(e, a, depth)
            if k == 'mixed':
                self.text(e)
        elif k == 'optional':
            if self.wanted(p, depth):
                for a in p.args:
                    self.fill(e, a, depth)
        elif k in ('zeroOrMore', 'oneOrMore'):
            n = rng.choice((0, 0, 1, 1, 2, 3)) if self.wanted(p, depth, True) else 0
            for _ in range(max(n, 1 if k == 'oneOrMore' else 0)):
                for a in p.args:
                    self.fill(e, a, depth)
        elif k == 'choice':
            args = p.args
            if not self.budget(depth):
                least = min(a.depth for a in args)
                args = [a for a in args if a.depth == least]
            weights = [self.weigh(a) if a.depth < INF else 0 for a in args]
            if not any(weights):
                weights = [1 if a.depth < INF else 0 for a in args]
            if any(weights):
                self.fill(e, rng.choices(args, weights)[0], depth)
        elif k == 'text':
            self.text(e)
        elif k in ('data', 'value', 'list'):
            self.append_text(e, self.value(p))

    def wanted(self, p, depth, many=False):
        below = max([a.depth for a in p.args] or [0])
        if below >= INF:
            return False
        if self.is_reference(p):
            return False
        if below > 0 or self.has_elements(p):
            if not self.budget(depth) or depth + below > self.maxdepth + 2:
                return False
            return self.rng.random() < (0.7 if many else self.optional)
        return self.rng.random() < self.optional

    def is_reference(self, p):
        """ Attributes which refer to identifiers. """
        if p.kind == 'attribute':
            return any(self.is_reference(a) for a in p.args)
        if p.kind in ('ref', 'optional', 'group'):
            a = self.g.defines.get(p.name) if p.kind == 'ref' else p.args[0] if len(p.args) == 1 else None
            return a is not None and a.kind != 'element' and self.is_reference(a)
        return p.kind == 'data' and p.name in ('ID', 'IDREF', 'IDREFS')

    def has_elements(self, p):
        key = ('has', id(p))
        if key not in _cache:
            _cache[key] = False
            if p.kind == 'element':
                r = True
            elif p.kind in ('attribute', 'data', 'value', 'text', 'list'):
                r = False
            elif p.kind == 'ref':
                r = p.name in self.g.defines and self.has_elements(self.g.defines[p.name])
            else:
                r = any(self.has_elements(a) for a in p.args)
            _cache[key] = r
        return _cache[key]

    def text(self, e):
        rng = self.rng
        if rng.random() < 0.7:
            self.append_text(e, rng.choice(('a', 'word', 'two words', 'x y z', '\u00e4\u20ac', '1', 'Text.', '<&>')))

    @staticmethod
    def append_text(e, text):
        if len(e):
            e[-1].tail = (e[-1].tail or '') + text
        else:
            e.text = (e.text or '') + text

    def value(self, p, depth=0):
        """The value of an attribute."""
        rng = self.rng
        if p is None or p.kind == 'text':
            return rng.choice(('a', 'b c', '', 'T\u00e4xt', '1'))
        k = p.kind
        if k == 'value':
            return p.text or ''
        if k == 'ref':
            return self.value(self.g.defines[p.name], depth + 1)
        if k == 'choice':
            return self.value(rng.choice(p.args), depth + 1)
        if k == 'list':
            return ' '.join(filter(None, [self.value(a, depth + 1) for a in p.args]))
        if k in ('group', 'interleave'):
            return ' '.join(filter(None, [self.value(a, depth + 1) for a in p.args]))
        if k == 'optional':
            return self.value(p.args[0], depth + 1) if rng.random() < 0.5 else ''
        if k in ('zeroOrMore', 'oneOrMore'):
            n = rng.choice((0, 1, 2)) if k == 'zeroOrMore' else rng.choice((1, 2))
            return ' '.join(filter(None, [self.value(a, depth + 1) for _ in range(n) for a in p.args]))
        if k == 'data':
            return self.data(p)
        return ''

    def data(self, p):
        rng, t = self.rng, p.name
        params = dict(p.args)
        if 'pattern' in params:
            return self.pattern(params['pattern'])
        if t in ('integer', 'int', 'nonNegativeInteger', 'positiveInteger', 'long', 'short'):
            v = rng.choice((1, 2, 3, 7))
            if 'maxInclusive' in params:
                v = min(v, int(params['maxInclusive']))
            return str(v)
        if t in ('decimal', 'double', 'float'):
            return rng.choice(('1', '0.5', '-2.25', '3'))
        if t == 'boolean':
            return rng.choice(('true', 'false'))
        if t == 'date':
            return '2011-01-29'
        if t == 'time':
            return '10:11:12'
        if t == 'dateTime':
            return '2011-01-29T10:11:12'
        if t == 'duration':
            return rng.choice(('PT1H', 'P1DT2H3M4.5S'))
        if t == 'ID':
            self.ids += 1
            return 'id%d-%d' % (self.ids, rng.randint(0, 10 ** 9))
        if t in ('IDREF', 'NCName', 'IDREFS'):
            return rng.choice(('N1', 'N2', 'Standard', 'abc'))
        if t == 'language':
            return 'en'
        if t == 'anyURI':
            return rng.choice(('http://example.org/x', '#a', 'Pictures/x.png'))
        if t == 'base64Binary':
            return 'AAAA'
        if t == 'QName':
            return 'office:x'
        if t in ('string', 'token', 'normalizedString'):
            if 'length' in params:
                return 'x' * int(params['length'])
            n = int(params.get('minLength', 0))
            return rng.choice(('a', 'b1', 'some string')) or 'x' * n
        return 'x'

    PATTERNS = (('0.5cm', '12pt', '1in'), ('50%', '7%'), ('#00ff7f', '#ABCDEF'), ('-0.5cm', '2mm'), ('1*', '3*'), ('en', 'US'), ('1', '2'),
                ('0 0 10 10', '1,2'), ('12.5pt',), ('x',), ('0,0 1,1',), ('12px',), ('A', '-'), ('a:b',), ('latn', 'Latn'), ('$A1',),
                ('Sheet1.A1', '$Sheet1.$A$1'), ('Sheet1.A1:Sheet1.B2',), ('-1',), ('90',), ('a',), ('.A:.B',), ('$Sheet1.A:.C',), ('.1:.2',),
                ('(0 0 1)',), ('(1.5 -2 0)',))

    def pattern(self, regex):
        import re
        if regex not in _cache:
            # regular expressions of XML schema, near enough
            r = re.compile('(?:%s)\\Z' % regex.replace('$', '\\$').replace('\\i', '[A-Za-z_:]').replace('\\c', '[-.\\w:]'))
            _cache[regex] = [v for vs in self.PATTERNS for v in vs if r.match(v)]
        found = _cache[regex]
        return self.rng.choice(found) if found else ''


def unsampled_patterns():
    """Patterns of the schema no value is known for (for its development)."""
    out = set()
    s = Sampler(__import__('random').Random(0))
    for p in grammar().all:
        if p.kind == 'data' and 'pattern' in dict(p.args) and not s.pattern(dict(p.args)['pattern']):
            out.add(dict(p.args)['pattern'])
    return out


# ------------------------------------------------------------ documents
PREFER = [q(x) for x in ('text:p', 'text:h', 'text:list', 'table:table', 'text:section', 'text:span', 'text:numbered-paragraph', 'table:table-row',
                         'table:table-row-group', 'table:table-column-group', 'table:table-cell', 'text:user-field-get', 'text:variable-set')]


def other_prefixes(rng, root):
    """ The same document as other programs write it, with prefixes like ns0. """
    if rng.random() < 0.7:
        return root
    uris = sorted(set(etree.QName(n).namespace for e in root.iter(etree.Element) for n in [e.tag] + list(e.attrib) if n[0] == '{'
                      and not n.startswith('{http://www.w3.org/XML')))
    rng.shuffle(uris)
    new = etree.Element(root.tag, nsmap=dict(('ns%d' % i, u) for i, u in enumerate(uris)))
    for k in root.attrib:
        new.set(k, root.get(k))
    new.text = root.text
    new[:] = root[:]
    etree.cleanup_namespaces(new)
    return new


def sampled(rng, tag, kind=None, prefixes=True):
    """A valid element, and its body of a kind, sometimes with other prefixes than usual."""
    while True:
        s = Sampler(rng, size=rng.choice((20, 50, 120)), optional=rng.choice((0.1, 0.3, 0.5)), prefer=PREFER)
        x = s.element(q(tag))
        if kind:
            b = x.find(q('office:body'))
            if b is None:
                continue
            if b[0].tag != q(odf.BODY[kind]):
                b[:] = [s.element(q(odf.BODY[kind]))]
            if tag == 'office:document':
                x.set(q('office:mimetype'), odf.MIMETYPES[kind])
        if not problems(x):
            return other_prefixes(rng, x) if prefixes else x


def without_tables(root):
    """ `root`, tables removed: reading expands and aligns those. """
    for x in list(root.iter(q('table:table'))):
        x.getparent().remove(x)
    return root
