"""C14: element lists behave like lists; text bodies keep their section order."""
from lxml import etree

from ezodf.xmlns import wrap

from vlib import gen, lib, odf
from vlib.core import Inconclusive
from vlib.odf import E, q

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('Random histories of all list operations (append, +=, insert, insert_before, index, item get/set/delete, '
        'remove, replace, iteration, find, findall, clear, moves between containers and documents, refused calls) on '
        'the text bodies, sections, lists, list items, paragraphs and unknown elements of new and loaded text '
        'documents with declarations, forms, tracked changes and closing sections of every combination. After each '
        'call the complete tree seen by iteration equals a model tree of marked nodes; the saved file has the same '
        'tree with all attributes and texts. Appends to a body have to land before the closing section.')
CASES = {'quick': 7500, 'thorough': 90000}
REQUIRED = ['trees compared', 'files compared', 'append', 'iadd', 'insert', 'insert_before', 'set', 'delete', 'remove', 'replace',
            'moved', 'find', 'findall', 'clear', 'refused', 'body append', 'epilogue kept', 'decls in front', 'negative',
            'reopened', 'kept handle', 'between documents', 'flat', 'text between elements', 'many children', 'deep nesting', 'comments', 'pretty-printed', 'lists of any kind', 'list of table',
            'list of draw', 'list of office']
EPILOGUE = ('table:named-expressions', 'table:database-ranges', 'table:data-pilot-tables', 'table:consolidation',
            'table:dde-links')
PRELUDE = ('office:forms', 'text:tracked-changes', 'text:variable-decls', 'text:sequence-decls',
           'text:user-field-decls', 'text:dde-connection-decls', 'text:alphabetical-index-auto-mark-file')
MANAGED = ('text:variable-decls', 'text:user-field-decls')    # created by the library where missing
MARK = '{urn:example:mark}id'
CONTAINERS = ('text:section', 'text:list', 'text:list-item', 'text:p', 'text:span', 'foreign:box', 'office:text',
              'text:list-header', 'text:index-body')
KIND = {'text:p': 'Paragraph', 'text:h': 'Heading', 'text:span': 'Span', 'text:section': 'Section', 'text:list': 'List',
        'text:list-item': 'ListItem', 'text:list-header': 'ListHeader', 'office:text': 'TextBody', 'text:a': 'Hyperlink',
        'text:tab': 'Tabulator', 'text:soft-page-break': 'SoftPageBreak'}


class Node(object):
    def __init__(self, tag, mark, attrs=(), text='', children=(), obj=None):
        self.tag, self.mark, self.attrs, self.text = tag, mark, attrs, text
        self.children = list(children)
        self.parent = None
        self.tail = ''      # belongs to the element, moves with it
        for k in self.children:
            k.parent = self
        self.obj = obj

    def above(self):
        n, out = self, []
        while n is not None:
            out.append(n)
            n = n.parent
        return out

    def walk(self):
        yield self
        for k in self.children:
            for n in k.walk():
                yield n

    def detach(self):
        if self.parent is not None:
            self.parent.children.remove(self)
            self.parent = None

    def put(self, index, child):
        self.children.insert(index, child)
        child.parent = self

    def canon(self):
        if self.tag == '#comment':
            return (self.attrs, (), self.text, ())
        return (q(self.tag), tuple(sorted(self.attrs + (((MARK, self.mark),) if self.mark else ()))), self.text,
                tuple((k.canon(), k.tail) for k in self.children))


def model_of(el):
    if not isinstance(el.tag, str):
        return Node('#comment', None, '#pi' if el.tag is etree.PI else '#comment', el.text)
    attrs = tuple((k, v) for k, v in el.attrib.items() if k != MARK)
    node = Node(odf.pretty(el.tag), el.get(MARK), attrs, el.text or '', [model_of(k) for k in el])
    node.tail = el.tail or ''
    return node


class World(object):
    def __init__(self, c):
        self.c, self.serial = c, 0

    def mark(self):
        self.serial += 1
        return 'n%d' % self.serial

    def make(self, depth=0):
        """Random element of the harness with marks (for loaded documents)."""
        rng = self.c.rng
        tag = rng.choice(('text:p', 'text:p', 'text:h', 'text:section', 'text:list', 'foreign:box', 'text:soft-page-break'))
        el = E(tag)
        el.set(MARK, self.mark())
        if tag in ('text:p', 'text:h'):
            if rng.random() < 0.6:
                el.text = gen.plain(rng)
            for _ in range(rng.choice((0, 0, 1, 2))):
                s = E('text:span', {'text:style-name': 'T1'}, gen.plain(rng))
                s.set(MARK, self.mark())
                if rng.random() < 0.3:
                    s.tail = gen.plain(rng)
                    self.c.count('text between elements')
                el.append(s)
        elif tag in ('text:section', 'foreign:box') and depth < 2:
            if tag == 'text:section':
                el.set(q('text:name'), 'S')
            el.extend([self.make(depth + 1) for _ in range(rng.randint(0, 3))])
        elif tag == 'text:list':
            for _ in range(rng.randint(0, 3)):
                item = E('text:list-item')
                item.set(MARK, self.mark())
                p = E('text:p', {}, gen.plain(rng))
                p.set(MARK, self.mark())
                item.append(p)
                el.append(item)
        if tag in ('text:section', 'text:list', 'foreign:box') and rng.random() < 0.2:
            for node in [el] + list(el):        # pretty-printed
                node.text = node.text or ('\n  ' if len(node) or node is el else None)
                if node is not el:
                    node.tail = '\n  '
            self.c.count('pretty-printed')
        return el

    def new(self):
        """A new object of the library and its node."""
        rng = self.c.rng
        what = rng.randrange(7)
        text = gen.plain(rng)
        mark = self.mark()
        if what < 2:
            obj, node = lib.Paragraph(text), Node('text:p', mark, (), text)
        elif what == 2:
            obj, node = lib.Heading(text, 2), Node('text:h', mark, ((q('text:outline-level'), '2'),), text)
        elif what == 3:
            obj, node = lib.Section('S'), Node('text:section', mark, ((q('text:name'), 'S'),))
        elif what == 4:
            obj, node = lib.List('L'), Node('text:list', mark, ((q('text:style-name'), 'L'),))
        elif what == 5:
            obj, node = lib.Span(text), Node('text:span', mark, (), text)
        else:
            obj = lib.ListItem(text)
            node = Node('text:list-item', mark, (), '', [Node('text:p', None, (), text)])
        obj.xmlnode.set(MARK, mark)
        node.obj = obj
        return obj, node


class Doc(object):
    def __init__(self, w):
        c, rng = w.c, w.c.rng
        self.w, self.c = w, c
        self.flat = False
        if rng.random() < 0.25:
            self.doc = lib.newdoc('odt')
            # whatever a new document holds is there already
            self.root = model_of(odf.parse(odf.xml(self.doc.body.xmlnode)))
        else:
            b = E('office:text')
            pre = [t for t in PRELUDE if rng.random() < 0.35]
            for t in pre:
                el = E(t)
                el.set(MARK, w.mark())
                if t == 'text:variable-decls':
                    el.append(E('text:variable-decl', {'text:name': 'v', 'office:value-type': 'string'}))
                b.append(el)
            many = rng.random() < 0.02
            if many:
                c.count('many children')
            b.extend([w.make() for _ in range(rng.choice((40, 130, 300)) if many else rng.randint(0, 5))])
            if rng.random() < 0.1:
                b.insert(rng.randint(0, len(b)), etree.Comment(' between '))
                c.count('comments')
            if rng.random() < 0.03:
                deep = top = E('text:section', {'text:name': 'S'})
                top.set(MARK, w.mark())
                for _ in range(rng.choice((10, 30, 70))):
                    deep.append(E(rng.choice(('text:section', 'foreign:box'))))
                    deep = deep[0]
                    deep.set(MARK, w.mark())
                b.append(top)
                c.count('deep nesting')
            for t in EPILOGUE:
                for _ in range(rng.choice((0, 0, 1, 1, 2)) if rng.random() < 0.6 else 0):
                    el = E(t)
                    el.set(MARK, w.mark())
                    b.append(el)
            while rng.random() < 0.1:
                b.insert(rng.choice((len(b), rng.randint(0, len(b)))), rng.choice((etree.Comment(' anywhere '), etree.ProcessingInstruction('pi', 'x'))))
                c.count('comments')
            content = odf.root('office:document-content', E('office:body', {}, b), attrs={'office:version': '1.2'})
            if rng.random() < 0.2:
                self.flat = True
                c.count('flat')
                r = odf.root('office:document', E('office:body', {}, b), attrs={
                    'office:version': '1.2', 'office:mimetype': odf.MIMETYPES['odt']})
                self.path = c.path('x%d.fodt' % w.serial)
                lib.write(self.path, odf.xml(r))
                self.doc = lib.opendoc(self.path)
            else:
                self.doc = lib.opendoc(gen.package(rng, 'odt', content=content, hostile=0).tobytes())
            self.root = model_of(b)
            # the declarations the library adds: in front of the content
            body = self.doc.body
            for pos, k in enumerate(body):
                tag = odf.pretty(k.xmlnode.tag) if isinstance(k.xmlnode.tag, str) else '#comment'
                if tag in ('text:variable-decls', 'text:user-field-decls') and k.xmlnode.get(MARK) is None:
                    self.root.put(pos, Node(tag, None))
            tags = [n.tag for n in self.root.children if n.tag != '#comment']
            first = min([n for n, t in enumerate(tags) if t not in PRELUDE] or [len(tags)])
            c.ok(all(t not in PRELUDE for t in tags[first:]), 'declarations behind content', tags=tags)
            order = [PRELUDE.index(t) for t in tags[:first] if t.endswith('decls')]
            c.same(order, sorted(order), 'order of the declarations')
            c.count('decls in front')

    def handle(self, node):
        """A wrapper of the node: a kept one or a new one by its path."""
        if node.obj is not None and self.c.rng.random() < 0.5:
            self.c.count('kept handle')
            return node.obj
        path = []
        n = node
        while n.parent is not None:
            path.append(n.parent.children.index(n))
            n = n.parent
        obj = self.doc.body
        for i in reversed(path):
            if self.c.rng.random() < 0.5:
                obj = obj[i]
            else:
                obj = obj.get_child(i - len(obj))
        if self.c.rng.random() < 0.3:
            node.obj = obj
        return obj

    def view(self, what):
        self._view(self.doc.body, self.root, what)
        self.c.count('trees compared')

    def _view(self, obj, node, what):
        c = self.c
        if node.tag == '#comment':
            c.ok(obj.xmlnode.tag is (etree.PI if node.attrs == '#pi' else etree.Comment) and obj.text == node.text, what + ': comment', tag=obj.xmlnode.tag)
            return
        c.ok(isinstance(obj.xmlnode.tag, str), what + ': comment in place of ' + node.tag)
        c.same(odf.pretty(obj.xmlnode.tag), node.tag, what + ': element')
        c.same(obj.get_attr(MARK), node.mark, what + ': identity of ' + node.tag)
        c.same(obj.kind, KIND.get(node.tag, 'GenericWrapper') if not node.tag.startswith('table:') and
               node.tag not in ('text:variable-decls', 'text:user-field-decls', 'text:variable-decl', 'text:s')
               else obj.kind, what + ': kind')
        c.same(obj.text or '', node.text, what + ': text of ' + node.tag)
        if node.parent is not None:
            c.same(obj.tail or '', node.tail, what + ': text behind ' + node.tag)
        kids = list(obj)
        c.same(len(obj), len(node.children), what + ': number of children of ' + node.tag)
        c.same(len(kids), len(node.children), what + ': children of ' + node.tag)
        for k, n in zip(kids, node.children):
            self._view(k, n, what)

    def file(self, data, what):
        r = odf.parse(odf.read_package(data)['content.xml'] if data[:2] == b'PK' else data)
        b = r.find(q('office:body'))[0]
        d = odf.first_difference(self.root.canon()[:1] + (tuple(sorted(b.attrib.items())),) + self.root.canon()[2:],
                                 odf.canon(b))
        self.c.ok(d is None, '%s: %s' % (what, d))
        self.c.count('files compared')


def before_epilogue(kids, i):
    """Position i of the body is not inside of or behind the closing section."""
    first = min([n for n, k in enumerate(kids) if k.tag in EPILOGUE] or [len(kids)])
    return (i if i >= 0 else i + len(kids)) <= first


STRUCTURE = tuple(q('table:' + t) for t in (
    'table-row', 'table-rows', 'table-header-rows', 'table-row-group', 'table-column', 'table-columns',
    'table-header-columns', 'table-column-group', 'table-cell', 'covered-table-cell', 'table')) + tuple(q(t) for t in MANAGED)


def snapshot(body):
    return dict((n, (tuple(n), n.text, dict(n.attrib))) for n in body.iter())


def any_element(c):
    """List operations of elements of every kind, in documents of every kind."""
    rng = c.rng
    kind = rng.choice(('ods', 'ods', 'odp', 'odg', 'odt'))
    doc = lib.open_by(rng.choice(('stream', 'bytes')), gen.package(rng, kind, hostile=0).tobytes())
    body = doc.body.xmlnode
    if kind == 'ods' and rng.random() < 0.7:
        sheet = lib.Sheet('T', size=(3, 2))
        doc.sheets += sheet
        for tag in ('table:title', 'table:desc', 'table:shapes', 'office:forms')[:rng.randint(0, 4)]:
            sheet.insert(0, wrap(E(tag)))
        sheet[1, 1].append(lib.Paragraph('in a cell'))
    for t in list(body.iter(q('table:table'))):
        wrap(t)                     # expands what is repeated
    nodes = [n for n in body.iter(etree.Element) if n.tag not in (q('table:table-row'), q('office:dde-source'))]
    chosen = rng.sample(nodes, min(len(nodes), 5)) + [n for n in nodes if n.tag == q('table:table')][:3] + [body]
    handles = dict((n, wrap(n)) for n in chosen)
    before = snapshot(body)
    for step in range(rng.randint(5, 20)):
        node = rng.choice(chosen)
        obj = handles[node] if rng.random() < 0.5 else wrap(node)
        kids = list(node)
        free = [i for i, k in enumerate(kids) if k.tag not in STRUCTURE and isinstance(k.tag, str)]
        op = rng.choice(('append', 'iadd', 'insert', 'insert_before', 'set', 'delete', 'remove', 'replace', 'read', 'read'))
        if op in ('set', 'delete', 'remove', 'replace') and not free or op == 'insert_before' and not kids:
            continue
        if any(k not in before for k in kids):
            raise Inconclusive('unknown elements in %s' % node.tag)
        fresh = rng.choice((lib.Paragraph, lib.Span, lib.Section, lambda text: wrap(E('foreign:box', {}, text))))('new')
        x = fresh.xmlnode
        c.log(op, odf.pretty(node.tag), len(kids), odf.pretty(x.tag))
        i = rng.choice(free) if free else 0
        at = i - len(kids) if rng.random() < 0.4 else i
        if op in ('append', 'iadd'):
            if node is body and kind == 'odt':      # judged with the text bodies
                continue
            if op == 'append':
                c.ok(obj.append(fresh) is fresh, 'append gives the child')
            else:
                obj += fresh
            kids.append(x)
        elif op == 'insert':
            i = rng.randint(-len(kids) - 2, len(kids) + 1)
            obj.insert(i, fresh)
            kids.insert(i, x)
        elif op == 'insert_before':
            i = rng.randrange(len(kids))
            obj.insert_before(wrap(kids[i]), fresh)
            kids.insert(i, x)
        elif op == 'set':
            if rng.random() < 0.5:
                obj[at] = fresh
            else:
                obj.set_child(at, fresh)
            kids[i] = x
        elif op == 'delete':
            if rng.random() < 0.5:
                del obj[at]
            else:
                obj.del_child(at)
            del kids[i]
        elif op == 'remove':
            obj.remove(wrap(kids[i]))
            del kids[i]
        elif op == 'replace':
            obj.replace(wrap(kids[i]), fresh)
            kids[i] = x
        else:
            c.same([k.xmlnode for k in obj], kids, 'iteration of ' + odf.pretty(node.tag))
            c.same(len(obj), len(kids), 'number of children of ' + odf.pretty(node.tag))
            for i, k in enumerate(kids):
                c.ok(obj[i].xmlnode is k and obj[i - len(kids)].xmlnode is k and obj.get_child(i).xmlnode is k and obj.index(obj[i]) == i,
                     'child %d of %s' % (i, odf.pretty(node.tag)))
            for tag in set(k.tag for k in kids if isinstance(k.tag, str)):
                want = [k for k in kids if k.tag == tag]
                c.same([k.xmlnode for k in obj.findall(tag)], want, 'findall')
                c.ok(obj.find(tag).xmlnode is want[0], 'find')
            c.raises(lambda: obj[len(kids)])
            c.raises(lambda: obj[-len(kids) - 1])
        after = snapshot(body)
        want = dict((n, v) for n, v in before.items())
        want[node] = (tuple(kids),) + before[node][1:]
        for n in after:
            if n in want:
                c.ok(after[n] == want[n], '%s at %s: %s has changed' % (op, odf.pretty(node.tag), odf.pretty(n.tag)),
                     children=[len(after[n][0]), len(want[n][0])])
            else:
                c.ok(x is n or x in n.iterancestors(), '%s at %s: unknown element' % (op, odf.pretty(node.tag)))
        live = set(after)
        for n in before:
            c.ok(n in live or not any(n is k for k in kids), '%s at %s: element lost' % (op, odf.pretty(node.tag)))
        chosen = [n for n in chosen if n in live]
        before = after
        c.count('lists of any kind')
        c.count('list of ' + odf.pretty(node.tag).split(':')[0])


def case(c):
    rng = c.rng
    if rng.random() < 0.1:
        return any_element(c)
    w = World(c)
    docs = [Doc(w) for _ in range(rng.choice((1, 1, 1, 2)))]
    for d in docs:
        d.view('loaded')
    c.log('loaded', [[n.tag for n in d.root.children] for d in docs])
    loose = []
    for step in range(rng.randint(6, 26)):
        d = rng.choice(docs)
        containers = [n for n in d.root.walk() if n.tag in CONTAINERS and (n.tag != 'text:p' or n.mark)]
        node = d.root if rng.random() < 0.35 else rng.choice(containers)
        body = node is d.root
        obj = d.handle(node)
        kids = node.children
        n = len(kids)
        op = rng.choice(('append', 'append', 'append', 'iadd', 'insert', 'insert', 'insert_before', 'insert_before', 'set',
                         'set', 'delete', 'remove', 'replace', 'replace', 'find', 'findall', 'clear', 'refused', 'reopen',
                         'index', 'move', 'move'))
        if op == 'clear' and (rng.random() < 0.8 or body):
            continue
        movable = [k for k in d.root.walk() if k.parent is not None and k.mark and not k.tag.endswith('decls')]
        if op == 'move':
            # an element which is already somewhere
            other = rng.choice(docs)
            movable = [k for k in other.root.walk() if k.parent is not None and k.mark and k.tag not in PRELUDE
                       and k.tag not in EPILOGUE]
            movable = [k for k in movable if k not in node.above()]
            if not movable:
                continue
            child = rng.choice(movable)
            childobj = other.handle(child)
            if other is not d:
                c.count('between documents')
            op = rng.choice(('append', 'insert', 'insert_before', 'replace', 'set'))
            c.count('moved')
            c.log('move', child.tag, child.mark)
        elif op in ('append', 'iadd', 'insert', 'insert_before', 'set', 'replace'):
            if loose and rng.random() < 0.3:
                child = loose.pop(rng.randrange(len(loose)))
                childobj = child.obj
            else:
                childobj, child = w.new()
        where = (docs.index(d), node.tag, node.mark)
        if op in ('append', 'iadd'):
            c.log(op, where, child.tag, child.mark)
            if op == 'append':
                got = obj.append(childobj)
                c.ok(got is childobj, 'append returns %r' % got)
            else:
                obj += childobj
            # content already behind closing elements keeps its side of them
            side = node.children.index(child) if child in node.children else 0
            child.detach()
            if body:
                # comments can be at any side
                kids = [x.tag for x in node.children]
                k = d.doc.body.index(childobj)
                last = max([x for x, tag in enumerate(kids) if tag not in EPILOGUE + ('#comment',)] or [-1])
                c.ok(k > last and not any(x in EPILOGUE for x in kids[max(last + 1, side):k]),
                     'position of content appended to the body', position=k, children=kids)
                c.count('epilogue kept', len([x for x in kids if x in EPILOGUE]))
                node.put(k, child)
                c.count('body append')
            else:
                node.put(len(node.children), child)
        elif op == 'insert':
            i = rng.choice((0, n, n + 3, rng.randint(0, n), rng.randint(-n, n) if n else 0, -n - 2))
            if i < 0:
                c.count('negative')
            given, i = i, max(i, -n)
            target = kids[i] if -n <= i < n else None
            if body and not before_epilogue(kids, i):
                continue
            c.log(op, where, i, child.tag, child.mark)
            got = obj.insert(given, childobj)
            c.ok(got is childobj, 'insert returns %r' % got)
            if target is not child:
                child.detach()
                node.put(node.children.index(target) if target is not None else len(node.children), child)
        elif op == 'insert_before':
            if not n:
                continue
            target = rng.choice(kids)
            if target is child or body and not before_epilogue(kids, kids.index(target)):
                continue
            c.log(op, where, kids.index(target), child.tag, child.mark)
            got = obj.insert_before(d.handle(target), childobj)
            c.ok(got is childobj, 'insert_before returns %r' % got)
            child.detach()
            node.put(node.children.index(target), child)
        elif op in ('set', 'replace'):
            if not n:
                continue
            i = rng.randrange(-n, n)
            target = kids[i]
            if target in child.above()[1:] or target in node.above() or target in child.walk() and target is not child:
                continue
            if child in target.walk() and child is not target:
                continue
            c.log(op, where, i, child.tag, child.mark)
            if target.tag in MANAGED or target.tag in EPILOGUE:
                continue
            told = d.handle(target)
            if op == 'set':
                if rng.random() < 0.5:
                    obj[i] = childobj
                else:
                    obj.set_child(i, childobj)
            else:
                obj.replace(told, childobj)
            if target is not child:
                child.detach()
                k = node.children.index(target)
                target.detach()
                node.put(k, child)
                target.obj = told
                if target.mark and target.tag not in PRELUDE + EPILOGUE:
                    loose.append(target)
        elif op in ('delete', 'remove'):
            if not n:
                continue
            i = rng.randrange(-n, n)
            target = kids[i]
            if target.tag in MANAGED:
                continue
            c.log(op, where, i)
            told = d.handle(target)
            if op == 'remove':
                obj.remove(told)
            elif rng.random() < 0.5:
                del obj[i]
            else:
                obj.del_child(i)
            target.detach()
            target.obj = told
            if target.mark and target.tag not in PRELUDE + EPILOGUE:
                loose.append(target)
        elif op == 'index':
            for i, k in enumerate(kids):
                c.same(obj.index(d.handle(k)), i, 'index of child %d of %s' % (i, node.tag))
                c.same(obj[i].get_attr(MARK), k.mark, 'child %d of %s' % (i, node.tag))
                c.same(obj[i - n].get_attr(MARK), k.mark, 'child %d of %s' % (i - n, node.tag))
            c.log(op, where)
        elif op == 'find':
            tag = rng.choice(('text:p', 'text:h', 'text:list', 'text:section', 'foreign:box', 'text:list-item', 'text:a'))
            want = [k.mark for k in kids if k.tag == tag]
            got = obj.find(q(tag))
            c.log(op, where, tag)
            c.same(got.get_attr(MARK) if got is not None else 'none', want[0] if want else 'none', 'find %s' % tag)
        elif op == 'findall':
            tag = rng.choice(('text:p', 'text:h', 'text:list', 'text:section', 'foreign:box', 'text:list-item', 'text:a'))
            c.log(op, where, tag)
            c.same([x.get_attr(MARK) for x in obj.findall(q(tag))], [k.mark for k in kids if k.tag == tag], 'findall %s' % tag)
        elif op == 'clear':
            if node.tail:
                continue
            c.log(op, where)
            obj.clear()
            for k in list(kids):
                k.detach()
            node.text, node.attrs, node.mark = '', (), None
        elif op == 'refused':
            lone = lib.Paragraph('lone')
            c.log(op, where)
            for func, args, error in ((obj.__getitem__, (n,), IndexError), (obj.__getitem__, (-n - 1,), IndexError),
                                      (obj.__delitem__, (n,), IndexError), (obj.__setitem__, (n, lone), IndexError),
                                      (obj.__setitem__, (-n - 1, lone), IndexError), (obj.index, (lone,), ValueError),
                                      (obj.remove, (lone,), ValueError), (obj.replace, (lone, lib.Span('x')), ValueError),
                                      (obj.insert_before, (lone, lib.Span('x')), ValueError),
                                      (obj.get_child, (n + 2,), IndexError), (obj.del_child, (-n - 2,), IndexError)):
                e = c.raises(func, *args)
                c.ok(isinstance(e, error), 'refused %s raises %r' % (func.__name__, e))
        else:
            c.log('reopen', docs.index(d))
            if d.flat:
                d.doc.save()
                data = lib.read(d.path)
            else:
                data = d.doc.tobytes()
            d.file(data, 'saved')
            if rng.random() < 0.5:
                d.doc = lib.opendoc(d.path if d.flat else data)
                for k in d.root.walk():
                    k.obj = None
                c.count('reopened')
            op = 'reopen'
        if op != 'reopen':
            c.count(op)
        for x in docs:
            x.view('after ' + c.oplog[-1])
    for d in docs:
        d.file(d.doc.tobytes(), 'at the end')
