"""C12: sheets and pages are an ordered, name-addressable list."""
from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('Random histories of append, +=, insert (any index), delete, replace, lookup by index and name (duplicate '
        'names, misses), iteration, rename, copies, moves inside of a document and between two documents, refused '
        'calls and reopening on the sheets of spreadsheets and the pages of drawings and presentations (new, loaded '
        'with every other kind of body element around, flat). Every sheet carries a unique mark; after each call the '
        'marks seen by index, iteration, names and index() equal a model list, and the body of the saved file has '
        'those sheets in that order among the unchanged other elements.')
CASES = {'quick': 6250, 'thorough': 90000}
REQUIRED = ['states compared', 'files compared', 'append', 'iadd', 'insert', 'insert negative', 'insert behind', 'delete index',
            'delete name', 'replace index', 'replace name', 'moved inside', 'moved between', 'moved by replacement', 'missing name',
            'missing index', 'wrong type', 'renamed', 'reopened', 'duplicate names', 'kind ods', 'kind odg', 'kind odp',
            'others around', 'emptied', 'reinserted', 'copied', 'flat', 'comments', 'many sheets']
TAG = {'ods': 'table:table', 'odg': 'draw:page', 'odp': 'draw:page'}
NAME = {'ods': 'table:name', 'odg': 'draw:name', 'odp': 'draw:name'}
STYLE = {'ods': 'table:style-name', 'odg': 'draw:style-name', 'odp': 'draw:style-name'}


class Doc(object):
    """A document and its model: items [mark], names {mark: name}"""

    def __init__(self, c, kind):
        rng = c.rng
        self.c, self.kind = c, kind
        self.flat = False
        self.items, self.names, self.others = [], {}, []
        r = rng.random()
        if r < 0.35:
            self.doc = lib.newdoc(kind)
        else:
            b = E(odf.BODY[kind])
            if rng.random() < 0.7:
                pre = gen.decls(rng)
                if kind == 'ods':
                    if rng.random() < 0.5:
                        pre.insert(0, E('table:tracked-changes', {}, E('table:cell-content-change', {'table:id': 'x'})))
                    if rng.random() < 0.5:
                        pre.append(E('table:calculation-settings', {'table:case-sensitive': 'false'}))
                    if rng.random() < 0.5:
                        pre.append(E('table:content-validations'))
                        pre.append(E('table:label-ranges'))
                b.extend(pre)
                c.count('others around')
            many = rng.random() < 0.02
            if many:
                c.count('many sheets')
            for _ in range(rng.choice((30, 130, 300)) if many else rng.randint(0, 4)):
                mark = 'm%d' % c.serial
                c.serial += 1
                name = a_name(rng, mark, True)
                el = element(kind, name, mark)
                if rng.random() < 0.15 and name is not None:
                    del el.attrib[q(NAME[kind])]
                    name = None
                b.append(el)
                self.items.append(mark)
                self.names[mark] = name
            if rng.random() < 0.6:
                post = gen.epilogue(rng) if kind == 'ods' or rng.random() < 0.3 else []
                if kind == 'odp':
                    post.insert(0, E('presentation:settings', {'presentation:mouse-visible': 'false'}))
                b.extend(post)
                if post:
                    c.count('others around')
            if rng.random() < 0.2:
                b.insert(rng.choice((0, len(b))) if not len(b) or b[-1].tag not in BEHIND else 0,
                         E('foreign:thing', {'foreign:a': 'end'}))
            if rng.random() < 0.12:
                for n in range(rng.randint(1, 3)):
                    b.insert(rng.randint(0, len(b)), odf.etree.Comment('n%d' % n) if rng.random() < 0.7 else
                             odf.etree.ProcessingInstruction('pi', 'n%d' % n))
                c.count('comments')
            self.others = [odf.canon(e) for e in b if e.tag != q(TAG[kind])]
            content = odf.root('office:document-content', E('office:body', {}, b), attrs={'office:version': '1.2'})
            if rng.random() < 0.2:
                self.flat = True
                c.count('flat')
                r = odf.root('office:document', E('office:body', {}, b), attrs={
                    'office:version': '1.2', 'office:mimetype': odf.MIMETYPES[kind]})
                self.path = c.path('x%d.f%s' % (c.serial, kind))
                lib.write(self.path, odf.xml(r))
                self.doc = lib.opendoc(self.path)
            else:
                self.doc = lib.opendoc(gen.package(rng, kind, content=content, hostile=0).tobytes())
        c.count('kind ' + kind)

    @property
    def list(self):
        return self.doc.sheets if self.kind == 'ods' else self.doc.pages

    def mark(self, obj):
        return obj.xmlnode.get(q(STYLE[self.kind]))

    def view(self, what):
        c, items = self.c, self.items
        lst = self.list
        c.same(len(lst), len(items), what + ': number')
        got = list(lst)
        c.same([self.mark(x) for x in got], items, what + ': iteration')
        c.same(list(lst.names()), [self.names[m] for m in items], what + ': names()')
        for n, m in enumerate(items):
            c.same(self.mark(lst[n]), m, '%s: [%d]' % (what, n))
            c.same(self.mark(lst[n - len(items)]), m, '%s: [%d]' % (what, n - len(items)))
            c.same(lst.index(got[n]), n, '%s: index of number %d' % (what, n))
            c.same(got[n].name, self.names[m], '%s: name of number %d' % (what, n))
        seen = set()
        for m in items:
            name = self.names[m]
            if name is None:
                continue
            if name in seen:
                c.count('duplicate names')
                continue
            seen.add(name)
            c.same(self.mark(lst[name]), m, '%s: [%r]' % (what, name))
        c.count('states compared')

    def file(self, data, what):
        c = self.c
        r = odf.parse(odf.read_package(data)['content.xml'] if data[:2] == b'PK' else data)
        b = r.find(q('office:body'))[0]
        marks = [e.get(q(STYLE[self.kind])) for e in b if e.tag == q(TAG[self.kind])]
        c.same(marks, self.items, what + ': order in the file')
        c.same([e.get(q(NAME[self.kind])) for e in b if e.tag == q(TAG[self.kind])],
               [self.names[m] for m in self.items], what + ': names in the file')
        others = [odf.canon(e) for e in b if e.tag != q(TAG[self.kind])]
        have = [o[0] for o in self.others]
        kept = [o for o in others if o in self.others or o[0] in have or o != (o[0], (), '', ())
                or o[0] not in (q('text:variable-decls'), q('text:user-field-decls'))]
        c.same(kept, self.others, what + ': other elements of the body')
        # sheets stay between the declarations and the closing section
        tags = [e.tag for e in b]
        pos = [n for n, e in enumerate(b) if e.tag == q(TAG[self.kind])]
        if pos:
            c.ok(not any(t in FRONT for t in tags[pos[0]:]), what + ': declarations behind sheets', tags=tags)
            c.ok(not any(t in BEHIND for t in tags[:pos[-1]]), what + ': closing section in front of sheets', tags=tags)
        c.count('files compared')


FRONT = [q(t) for t in ('table:tracked-changes', 'table:calculation-settings', 'table:content-validations',
                        'table:label-ranges', 'text:variable-decls', 'text:user-field-decls', 'text:sequence-decls')]
BEHIND = [q(t) for t in ('table:named-expressions', 'table:database-ranges', 'table:data-pilot-tables',
                         'table:dde-links', 'presentation:settings')]


def normal(name):
    """Names given to sheets by the API (see the tests of the tables)."""
    return ''.join(' ' if ch in '\t\r\'"' else ch for ch in name).strip()


def a_name(rng, mark, any_space):
    if rng.random() < 0.2:
        # whatever could be taken for something else
        return rng.choice(('0', '1', '-1', 'None', 'A.B', "it's", "'A'", 'A1', '#', '$A', 'x' * 31, 'x' * 32, 'y' * 300 + mark,
                           'e\u0301', '\xe9', '\u01c5', 'STRASSE', 'stra\xdfe', '\U0001f600', 'a\xa0b', 'a\u2003b', 'a\u200bb', 'A\\B', 'A?*:[x]/', '$Sheet.A') + (
                               (' A', 'A ', 'A  A', 'A\tA') if any_space else ()))
    name = gen.label(rng)
    return rng.choice(('A', 'B', 'a', name if any_space else ' '.join(name.split()), 'S' + mark))


def element(kind, name, mark):
    if kind == 'ods':
        return E('table:table', {'table:name': name, 'table:style-name': mark}, E('table:table-column'),
                 E('table:table-row', {}, E('table:table-cell')))
    return E('draw:page', {'draw:name': name, 'draw:style-name': mark}, E('draw:frame'))


def new_item(c, kind):
    mark = 'm%d' % c.serial
    c.serial += 1
    name = a_name(c.rng, mark, True)
    if kind == 'ods':
        obj = lib.Sheet(name, size=(1, 1))
        name = normal(name)
    elif kind == 'odg':
        obj = lib.DrawingPage(name)
    else:
        obj = c.rng.choice((lib.DrawingPage, lib.PresentationPage))(name)
    obj.xmlnode.set(q(STYLE[kind]), mark)
    return obj, mark, name


def case(c):
    rng = c.rng
    c.serial = 0
    kind = rng.choice(('ods', 'ods', 'odg', 'odp'))
    docs = [Doc(c, kind) for _ in range(rng.choice((1, 1, 2)))]
    for d in docs:
        d.view('loaded')
    c.log(kind, [[d.names[m] for m in d.items] for d in docs])
    loose = []       # (object, mark, name) removed from their document
    for step in range(rng.randint(5, 22)):
        d = rng.choice(docs)
        lst, items, n = d.list, d.items, len(d.items)
        op = rng.choice(('append', 'append', 'insert', 'insert', 'insert', 'delete', 'delete', 'replace', 'replace',
                         'move', 'move', 'transfer', 'miss', 'type', 'rename', 'reopen', 'empty', 'copy'))
        if op == 'empty' and rng.random() < 0.7:
            continue
        if op in ('append', 'insert', 'replace'):
            if loose and rng.random() < 0.4:
                obj, mark, name = loose.pop(rng.randrange(len(loose)))
                c.count('reinserted')
            else:
                obj, mark, name = new_item(c, kind)
            if op == 'append':
                c.log(op, docs.index(d), name)
                if rng.random() < 0.5:
                    got = lst.append(obj)
                    c.ok(got is obj, 'append returns %r' % got)
                    c.count('append')
                else:
                    if kind == 'ods':
                        d.doc.sheets += obj
                    else:
                        d.doc.pages += obj
                    c.count('iadd')
                items.append(mark)
            elif op == 'insert':
                i = rng.choice((0, n, n + 1, n + 7, -1, -n, -n - 1, -n - 5, rng.randint(-n - 1, n + 1)))
                c.log(op, docs.index(d), i, name)
                got = lst.insert(i, obj)
                c.ok(got is obj, 'insert returns %r' % got)
                items.insert(i, mark)
                c.count('insert negative' if i < 0 else 'insert behind' if i >= n else 'insert')
            else:
                if not n:
                    loose.append((obj, mark, name))
                    continue
                i = rng.randrange(-n, n)
                if rng.random() < 0.5 and d.names[items[i]] is not None:
                    key = d.names[items[i]]
                    i = [d.names[m] for m in items].index(key)
                    c.count('replace name')
                else:
                    key = i
                    c.count('replace index')
                c.log(op, docs.index(d), key, name)
                old = lst[key]
                lst[key] = obj
                loose.append((old, items[i], d.names[items[i]]))
                items[i] = mark
            d.names[mark] = name
        elif op == 'delete':
            if not n:
                continue
            i = rng.randrange(-n, n)
            if rng.random() < 0.5 and d.names[items[i]] is not None:
                key = d.names[items[i]]
                i = [d.names[m] for m in items].index(key)
                c.count('delete name')
            else:
                key = i
                c.count('delete index')
            c.log(op, docs.index(d), key)
            old = lst[key]
            del lst[key]
            loose.append((old, items[i], d.names[items[i]]))
            del items[i]
        elif op == 'empty':
            c.log(op, docs.index(d))
            while len(items):
                loose.append((lst[0], items[0], d.names[items[0]]))
                del lst[0]
                del items[0]
            c.count('emptied')
        elif op == 'move':
            if not n:
                continue
            i = rng.randrange(n)
            obj, mark = lst[i], items[i]
            if rng.random() < 0.3:
                c.log('move to the end', docs.index(d), i)
                lst.append(obj)
                items.remove(mark)
                items.append(mark)
            elif rng.random() < 0.2:
                k = rng.randrange(n)
                c.log('move by replace', docs.index(d), i, k)
                old = lst[k]
                lst[k] = obj
                if k != i:
                    loose.append((old, items[k], d.names[items[k]]))
                    items[k] = mark
                    del items[i]
            else:
                k = rng.choice((0, n, -1, rng.randint(-n, n)))
                c.log('move', docs.index(d), i, k)
                lst.insert(k, obj)
                # in front of the sheet which was at that position, or the position after removal
                one = items[:]
                target = one[k] if -n <= k < n else None
                if target != mark:
                    one.remove(mark)
                    one.insert(one.index(target) if target is not None else len(one), mark)
                two = items[:]
                two.remove(mark)
                two.insert(k, mark)
                got = [d.mark(x) for x in d.list]
                c.ok(got in (one, two), 'moved sheet', got=got, expected=one)
                items[:] = got
            c.count('moved inside')
        elif op == 'transfer':
            if len(docs) < 2 or not n:
                continue
            o = docs[1 - docs.index(d)]
            i = rng.randrange(n)
            obj, mark = lst[i], items[i]
            k = rng.randint(-len(o.items), len(o.items))
            c.log(op, docs.index(d), i, k)
            way = rng.random()
            if way < 0.4:
                o.list.append(obj)
                o.items.append(mark)
            elif way < 0.6 and o.items:
                k %= len(o.items)
                old = o.list[k]
                o.list[k if rng.random() < 0.5 else k - len(o.items)] = obj
                loose.append((old, o.items[k], o.names[o.items[k]]))
                o.items[k] = mark
                c.count('moved by replacement')
            else:
                o.list.insert(k, obj)
                o.items.insert(k, mark)
            o.names[mark] = d.names[mark]
            items.remove(mark)
            o.view('other document after ' + c.oplog[-1])
            c.count('moved between')
        elif op == 'miss':
            name = rng.choice(('missing', '', 'S', 'A ', 'AA', 'None', '2', 'E\u0301', 'strasse', 'X' * 32, 'x' * 33, 'y' * 299, 'b', '\xc9'))
            if name in [d.names[m] for m in items]:
                continue
            other = new_item(c, kind)[0]
            for func, args in ((lst.__getitem__, (name,)), (lst.__delitem__, (name,)), (lst.__setitem__, (name, other))):
                e = c.raises(func, *args)
                c.ok(isinstance(e, KeyError), 'a missing name raises %r' % e)
            c.count('missing name')
            for i in (n, n + 1, -n - 1, -n - 7):
                for func, args in ((lst.__getitem__, (i,)), (lst.__delitem__, (i,)), (lst.__setitem__, (i, other))):
                    e = c.raises(func, *args)
                    c.ok(isinstance(e, IndexError), 'index %d raises %r' % (i, e))
            c.count('missing index')
            c.raises(lst.index, other)
            c.log(op, docs.index(d), name)
        elif op == 'type':
            bad = rng.choice((lib.Paragraph('x'), None, 'A', 5, lib.DrawingPage('x') if kind == 'ods' else lib.Sheet('x')))
            c.log(op, docs.index(d), type(bad).__name__)
            for func, args in ((lst.append, (bad,)), (lst.insert, (0, bad)), (lst.__setitem__, (0, bad)),
                               (lst.__getitem__, (1.5,)), (lst.__getitem__, (None,)), (lst.__delitem__, (None,))):
                c.raises(func, *args)
            c.count('wrong type')
        elif op == 'rename':
            if not n:
                continue
            i = rng.randrange(n)
            name = a_name(rng, 'R%d' % step, True)
            c.log(op, docs.index(d), i, name)
            lst[i].name = name
            d.names[items[i]] = normal(name) if kind == 'ods' else name
            c.count('renamed')
        elif op == 'copy':
            if not n or kind != 'ods':
                continue
            i = rng.randrange(n)
            mark = 'm%d' % c.serial
            c.serial += 1
            new = lst[i].copy('Copy' + mark)
            c.log(op, docs.index(d), i)
            new.style_name = mark
            lst.append(new)
            items.append(mark)
            d.names[mark] = 'Copy' + mark
            c.count('copied')
        else:
            c.log(op, docs.index(d))
            if d.flat:
                d.doc.save()
                data = lib.read(d.path)
                d.file(data, 'saved')
                d.doc = lib.opendoc(d.path)
            else:
                data = d.doc.tobytes()
                d.file(data, 'saved')
                d.doc = lib.opendoc(data)
            c.count('reopened')
        d.view('after ' + c.oplog[-1])
    for d in docs:
        d.view('at the end')
        d.file(d.doc.tobytes(), 'at the end')
