"""C30: what is not referred to anymore is released."""
import ctypes
import gc
import io
import sys
import threading
import weakref

import ezodf
import ezodf.observer
from vlib import gen, lib, odf, programs
from vlib.odf import E, q

PROPERTY = 'C30'
LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: census of all live objects of the library and of lxml (gc), weak references to dropped documents, '
             'and counters of allocated blocks and bytes over repeated workloads')
RULE = ('Random programs (open by all routes, new, template, flat; edit, read, copy, move between documents, listen, save, serialise), '
        'failing openings and savings, threads which end, handles outliving their document, reference cycles. After everything was dropped and '
        'collected, no object of a class of the library and no node of lxml exists which did not exist before; while other documents '
        'live, the dropped document and its parts are dead. The same program with ever new texts repeated a hundred times: the number of allocated '
        'blocks and bytes does not grow with each repetition (confirmed over 700 repetitions, as bounded caches are fine).')
CASES = {'quick': 900, 'thorough': 12000}
REQUIRED = ['censuses', 'program', 'failing', 'moved', 'handle kept', 'copies', 'thread', 'cycle', 'growth', 'objects before dropping',
            'spreadsheets', 'dead documents', 'repetitions', 'listeners']
ASSUMPTIONS = ['Garbage collection is run; names and short texts of XML documents interned by libxml2 do not count.']
NODES = ('_Element', '_Comment', '_ProcessingInstruction', '_ElementTree', '_Entity')
_warm = False


def census():
    gc.collect()
    gc.collect()
    out = {}
    for o in gc.get_objects():
        t = type(o)
        m = t.__dict__.get('__module__') if isinstance(t.__dict__.get('__module__'), str) else getattr(t, '__module__', '')
        if isinstance(m, str) and (m.split('.')[0] == 'ezodf' or t.__name__ in NODES):
            name = '%s.%s' % (m, t.__name__)
            out.setdefault(name, set()).add(id(o))
    return out


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks',
                                               'fordblks', 'keepcost')]


try:
    _mallinfo = ctypes.CDLL(None).mallinfo2
    _mallinfo.restype = Mallinfo
except (OSError, AttributeError):
    _mallinfo = None


def memory():
    gc.collect()
    m = _mallinfo() if _mallinfo is not None else None
    return sys.getallocatedblocks(), (m.uordblks + m.hblkhd) if m is not None else 0


# ------------------------------------------------------------ workloads
def run_program(c, seed, nops=None, origin=None):
    p = programs.Program(seed, c.tmp, nops, origin)
    doc = None
    for op in p.run():
        if doc is None:
            doc = weakref.ref(p.doc)
        if op == 'listen':
            c.count('listeners')
    return p, doc


def parts(doc):
    """Weak references to a document and its parts, by name."""
    out = [('document', doc), ('body', doc.body), ('meta', doc.meta), ('styles', doc.styles)]
    for name in ('filemanager', 'content', 'sheets', 'pages'):
        if hasattr(doc, name):
            out.append((name, getattr(doc, name)))
    if hasattr(doc, 'filemanager'):
        out.append(('manifest', doc.filemanager.manifest))
    out += [('keywords', doc.meta.keywords), ('usertags', doc.meta.usertags), ('statistic', doc.meta.count)]
    if hasattr(doc, 'sheets'):
        for s in doc.sheets:
            for pos, cell in s.itercells():
                cell.plaintext()
                break
    return [(name, weakref.ref(x)) for name, x in out]


def some_doc(c, kind=None):
    rng = c.rng
    kind = kind or rng.choice(('ods', 'ods', 'ods', 'odt', 'odp', 'odg'))
    if rng.random() < 0.25:
        doc = lib.newdoc(kind)
    elif rng.random() < 0.2:
        name = c.path('f%d' % rng.getrandbits(40))
        lib.write(name, odf.xml(gen.flat_root(rng, kind)))
        doc = lib.opendoc(name)
    else:
        data = gen.package(rng, kind, hostile=0.1).tobytes()
        name = c.path('p%d' % rng.getrandbits(40))
        lib.write(name, data)
        doc = lib.open_by(rng.choice(lib.ROUTES), data, name)
    if kind == 'ods':
        doc.sheets += lib.Sheet('S%d' % rng.randint(0, 9), size=(rng.randint(1, 5), rng.randint(1, 5)))
        c.count('spreadsheets')
    elif hasattr(doc, 'pages'):
        doc.pages += lib.DrawingPage('P')
    else:
        doc.body += lib.Paragraph('text')
        doc.body += lib.Table('T', size=(2, 2))
    return doc


def touch(c, doc):
    """Use of what a document consists of."""
    rng = c.rng
    for child in doc.body:
        child.kind
    if hasattr(doc, 'sheets'):
        for s in doc.sheets:
            s[0, 0].set_value(rng.random())
            for row in s.rows():
                [x.value for x in row]
            s.row_info(0), s.column_info(0), s.name
        s = doc.sheets[rng.randrange(len(doc.sheets))]
        if rng.random() < 0.4:
            s.append_rows(2)
            s.delete_columns(0) if s.ncols() > 1 else None
        if rng.random() < 0.2 and len(doc.sheets) > 1:
            del doc.sheets[0]
    if hasattr(doc, 'pages'):
        [p.name for p in doc.pages]
        doc.pages[0].append(lib.Paragraph('x'))
    for t in doc.body.findall(q('table:table')):
        t[0, 0].set_value('v')
    doc.meta['title'] = 'title'
    doc.meta.keywords.add('k')
    if rng.random() < 0.5:
        doc.inject_style('<style:style style:name="X%d" style:family="paragraph"/>' % rng.randint(0, 10 ** 9))
    if rng.random() < 0.5:
        doc.tobytes()
    if rng.random() < 0.4:
        doc.saveas(c.path('saved%d' % rng.getrandbits(40)))


class Handle(object):
    def __init__(self, root):
        self.root, self.n = root, 0

    def get_xmlroot(self):
        return self.root

    def on_prepare_saving_handler(self, msg):
        self.n += 1


def failing(c):
    rng = c.rng
    data = gen.package(rng, rng.choice(('ods', 'odt')), hostile=0).tobytes()
    what = rng.randrange(6)
    if what == 0:
        bad = data[:rng.randint(1, len(data) - 30)]
    elif what == 1:
        bad = odf.xml(gen.flat_root(rng, 'ods'))[:-10]
    elif what == 2:
        p = gen.package(rng, 'ods', hostile=0)
        p.members[rng.choice([n for n in ('content.xml', 'styles.xml', 'meta.xml') if n in p.members])] = b'<a><b></a>'
        bad = p.tobytes()
    elif what == 3:
        p = gen.package(rng, 'ods', hostile=0)
        p.members['styles.xml'] = b'<office:document-content xmlns:office="%s"/>' % odf.NS['office'].encode()
        bad = p.tobytes()
    elif what == 4:
        doc = some_doc(c)
        try:
            doc.saveas(c.path('no/such/folder.x'))
        except Exception:
            pass
        return weakref.ref(doc)
    else:
        doc = some_doc(c, 'ods')
        s = doc.sheets[0]
        for call in (lambda: s[99, 99], lambda: s.set_cell_span((0, 0), (99, 99)), lambda: doc.sheets['none'],
                     lambda: s[0, 0].set_value(object(), 'nonsense'), lambda: s.insert_rows(-99), lambda: doc.body.append(None)):
            try:
                call()
            except Exception:
                pass
        return weakref.ref(doc)
    lib.write(c.path('bad'), bad)
    target = {'path': c.path('bad'), 'bytes': bad, 'stream': io.BytesIO(bad)}[rng.choice(lib.ROUTES)]
    try:
        if rng.random() < 0.3:
            lib.newdoc('odt', c.path('n'), template=target)
        else:
            lib.opendoc(target)
    except Exception:
        pass
    return None


def workload(c, what):
    rng = c.rng
    if what == 'program':
        _, doc = run_program(c, 'c30:%s' % rng.getrandbits(48))
        return [('document', doc)]
    if what == 'failing':
        r = failing(c)
        return [('document', r)] if r is not None else []
    if what == 'thread':
        out, errors = [], []

        def body():
            try:
                out.append(('document', run_program(c, 'c30:%s' % rng.getrandbits(48))[1]))
            except BaseException as e:
                errors.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        for e in errors:
            raise e
        return out
    if what == 'moved':
        docs = [some_doc(c, 'ods' if rng.random() < 0.7 else 'odt') for _ in range(2)]
        a, b = docs
        for d in docs:
            touch(c, d)
        if hasattr(a, 'sheets') and hasattr(b, 'sheets'):
            for _ in range(rng.randint(1, 3)):
                x, y = (a, b) if rng.random() < 0.5 else (b, a)
                if len(x.sheets):
                    s = x.sheets[rng.randrange(len(x.sheets))]
                    if rng.random() < 0.5:
                        y.sheets += s
                    else:
                        y.sheets.insert(0, s)
                    s[0, 0].set_value('moved')
                    s = None
        else:
            kids = [k for k in a.body if k.kind in ('Paragraph', 'Table')]
            for k in kids[:3]:
                b.body.append(k)
            kids = k = None
        first = rng.randrange(2)
        refs = parts(docs[first])
        live = docs[1 - first]
        docs = a = b = d = x = y = None
        gc.collect()
        c.same([n for n, r in refs if r() is not None], [], 'alive while another document lives')
        c.count('dead documents')
        live.tobytes()
        return parts(live)
    doc = some_doc(c)
    touch(c, doc)
    if what == 'copies':
        if hasattr(doc, 'sheets'):
            s = doc.sheets[0].copy('copy')
            s[0, 0].set_value(1)
            if rng.random() < 0.5:
                doc.sheets += s
        other = lib.opendoc(doc.tobytes()) if not isinstance(doc, lib.FlatXMLDocument) else None
        if other is not None:
            other.body
    elif what == 'cycle':
        doc.mine = doc
        doc.body.mine = doc
        h = Handle(doc.body.get_xmlroot())
        h.doc = doc
        ezodf.observer.subscribe('prepare_saving', h)
        c.count('listeners')
        if rng.random() < 0.5:
            doc.saveas(c.path('saved%d' % rng.getrandbits(40)))
        doc.h = h
    elif what == 'handle kept':
        refs = parts(doc)
        if hasattr(doc, 'sheets'):
            handle = doc.sheets[0][0, 0]
            handle.set_value('kept text')
            want = 'kept text'
        elif hasattr(doc, 'pages'):
            handle = doc.pages[0].append(lib.Paragraph('on the page'))
            want = 'on the page'
        else:
            handle = doc.body.append(lib.Paragraph('kept text'))
            want = 'kept text'
        doc = None
        gc.collect()
        c.same([n for n, r in refs if r() is not None], [], 'alive while a handle to an element lives')
        c.same(handle.plaintext(), want, 'handle after its document was dropped')
        (handle.set_value if handle.kind == 'Cell' else handle.append_text)('more')
        c.count('dead documents')
        return refs
    return parts(doc)


def growth(c):
    """The same work with ever new texts."""
    rng = c.rng
    seed = rng.getrandbits(32)
    kind = rng.choice(('ods', 'ods', 'odt', 'odg'))
    flat = rng.random() < 0.2
    route = rng.choice(lib.ROUTES)
    what = rng.sample(('cells', 'style', 'meta', 'save', 'listen', 'variables', 'copy', 'fail', 'register', 'template'), rng.randint(1, 5))
    what.sort()
    c.log('growth', kind, flat, route, what)
    base = lib.newdoc(kind)
    if kind == 'ods':
        base.sheets += lib.Sheet('base', size=(4, 4))
    base.filemanager.register('blob.bin', gen.blob(rng, 60000), 'application/octet-stream')
    package = base.tobytes()
    base = None

    def once(i):
        tag = 'x%d-%d' % (seed, i)
        if flat:
            r = E('office:document', {'office:mimetype': odf.MIMETYPES[kind], 'office:version': '1.2'})
            lib.write(c.path('in.f' + kind), odf.xml(r))
            doc = lib.opendoc(c.path('in.f' + kind))
        elif 'template' in what and route == 'path':
            doc = lib.newdoc(kind, c.path('n'), template=package)
        else:
            # other bytes each time
            data = package if i % 2 else bytes(bytearray(package))
            lib.write(c.path('in.' + kind), data)
            doc = lib.open_by(route, data, c.path('in.' + kind))
        if 'cells' in what:
            if kind == 'ods':
                doc.sheets += lib.Sheet(tag, size=(3, 3))
                s = doc.sheets[tag]
                s[0, 0].set_value(tag)
                s['B2'].set_value(i + 0.5)
                s.set_cell_span((0, 0), (2, 1))
                doc.sheets[0].name if len(doc.sheets) else None
            elif kind == 'odg':
                doc.pages += lib.DrawingPage(tag)
                doc.pages[tag].name
            else:
                p = lib.Paragraph(tag + '  two', style_name=tag)
                doc.body += p
                p.append_text(tag)
                p.plaintext()
                doc.body += lib.ezlist([tag])
        if 'style' in what:
            doc.inject_style('<style:style style:name="%s" style:family="paragraph"/>' % tag)
            wrapped = doc.styles if flat else doc.styles.styles
            wrapped[tag]['display-name'] = tag
        if 'meta' in what:
            doc.meta['title'] = tag
            doc.meta.keywords.add(tag)
            doc.meta.usertags[tag] = tag
        if 'variables' in what:
            doc.body.userfields.xmlnode.append(E('text:user-field-decl', {'text:name': tag, 'office:value-type': 'string', 'office:string-value': 'v'}))
            doc.body.userfields[tag].value = tag
        if 'listen' in what:
            h = Handle(doc.body.get_xmlroot())
            ezodf.observer.subscribe('prepare_saving', h)
            if i % 3 == 0:
                ezodf.observer.unsubscripe('prepare_saving', h)
        if 'register' in what and not flat:
            doc.filemanager.register(tag + '.bin', tag.encode() * 100, 'x/y')
        if 'copy' in what and kind == 'ods' and not flat:
            doc.sheets += doc.sheets[0].copy(tag + 'c')
        if 'save' in what:
            doc.saveas(c.path('out.' + kind))
        else:
            doc.tobytes()
        if 'fail' in what:
            for call in (lambda: doc.meta[tag], lambda: lib.opendoc(tag.encode()), lambda: doc.saveas(c.path('no/' + tag)),
                         lambda: ezodf.timeparser.TimeParser(tag) if hasattr(ezodf, 'timeparser') else 1 / 0):
                try:
                    call()
                except Exception:
                    pass

    start = [0]

    def rounds(n):
        for i in range(start[0], start[0] + n):
            once(i)
        start[0] += n
        c.count('repetitions', n)
        return memory()

    def grows(a, b, n):
        return b[0] - a[0] >= 0.8 * n or b[1] - a[1] >= 20000 * n

    rounds(12)
    gc.collect()
    before = memory()
    after = rounds(25)
    c.observations += 1
    c.count('growth')
    if grows(before, after, 25):
        # bounded caches may fill
        last = rounds(300)
        steps = []
        for _ in range(3):
            now = rounds(120)
            steps.append((now[0] - last[0], now[1] - last[1]))
            if not grows(last, now, 120):
                return
            last = now
        c.fail('memory grows with each document: %s blocks and bytes per 120 documents, %s %s' % (steps, kind, ' '.join(what)))
    c.count('growth measured flat')


def case(c):
    global _warm
    rng = c.rng
    if not _warm:
        # what is made once by the library, whatever is used first
        for kind in range(12):
            run_program(c, 'warm:%d' % kind)
        _warm = True
    if rng.random() < 0.05:
        return growth(c)
    before = census()
    keep = None
    if rng.random() < 0.3:
        # an unrelated document alive all the time
        keep = some_doc(c)
        touch(c, keep)
        for k in keep.body:
            k = None
        before = None
    kinds = [rng.choice(('program', 'program', 'failing', 'moved', 'moved', 'handle kept', 'copies', 'thread', 'cycle')) for _ in range(rng.randint(1, 4))]
    if before is None:
        before = census()
    for what in kinds:
        c.log(what)
        refs = workload(c, what)
        c.count(what)
        c.count('objects before dropping', 1)
        gc.collect()
        c.same([n for n, r in refs if r() is not None], [], 'parts alive after a document was dropped (%s)' % what)
    refs = None
    after = census()
    c.observations += len(after)
    # not the numbers: a bounded cache may have dropped others
    more = dict((k, len(after[k] - before.get(k, set()))) for k in after if after[k] - before.get(k, set()))
    c.ok(not more, 'objects left behind by %s' % ' '.join(kinds), left=more)
    c.count('censuses')
    if keep is not None:
        keep.tobytes()
        keep = None
