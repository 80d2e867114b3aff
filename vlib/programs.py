"""Deterministic programs, each working on documents of its own by the public
API.  A program is a generator which yields after every operation; what it
read and what it wrote in the end only depends on its seed."""
import os
import random

from . import gen, lib, odf, tables
from .odf import E

EVENTS = ('prepare_saving', 'post_saving')


class Listener(object):
    def __init__(self, root, log):
        self.root, self.log = root, log

    def get_xmlroot(self):
        return self.root

    def on_prepare_saving_handler(self, msg):
        self.log.append('prepare')

    def on_post_saving_handler(self, msg):
        self.log.append('post')


class Program(object):
    def __init__(self, seed, folder, nops=None, origin=None, files=True, listeners=True):
        self.rng = random.Random('program:%s' % (seed,))
        self.name = 'p%s' % str(seed).replace(':', '-').replace('/', '-')
        self.folder = folder
        self.log = []
        self.result = None
        self.origin = origin
        self.nops = nops
        self.files, self.listeners = files, listeners

    def path(self, ext):
        return os.path.join(self.folder, '%s.%s' % (self.name, ext))

    def run(self):
        rng = self.rng
        kind = self.kind = rng.choice(('odt', 'odt', 'ods', 'ods', 'odg', 'odp'))
        origin = self.origin or rng.choice(('new', 'new', 'bytes', 'stream', 'path', 'flat', 'template'))
        self.flat = origin == 'flat'
        if not self.files and origin in ('path', 'flat', 'template'):
            origin, self.flat = 'bytes', False
        if origin == 'new':
            self.doc = lib.newdoc(kind)
        elif origin == 'flat':
            lib.write(self.path('f' + kind), odf.xml(gen.flat_root(rng, kind)))
            self.doc = lib.opendoc(self.path('f' + kind))
        elif origin == 'template':
            data = gen.package(rng, 'ot' + kind[2], hostile=0).tobytes()
            lib.write(self.path('template'), data)
            self.doc = lib.newdoc(kind, template=self.path('template'))
        else:
            data = gen.package(rng, kind, hostile=0.2).tobytes()
            lib.write(self.path(kind), data) if origin == 'path' else None
            self.doc = lib.open_by(origin, data, self.path(kind))
        self.doc.meta['creation-date'] = '2011-01-29T00:00:00'
        yield 'start'
        self.listener = None
        for _ in range(self.nops or rng.randint(4, 14)):
            op = rng.choice(self.OPS[kind] + self.COMMON)
            getattr(self, op)()
            yield op
        data = self.doc.tobytes()
        yield 'tobytes'
        self.result = (lib.without_stamp(lib.doc_parts(data)), tuple(self.log))
        self.doc = self.listener = None

    # ------------------------------------------------------------ text
    def blocks(self):
        body = self.doc.body
        return [x for x in body if x.kind in ('Paragraph', 'Heading', 'List', 'Section', 'Table')]

    def paragraph(self):
        p = lib.Paragraph(gen.text(self.rng, 40))
        p.append_text(gen.text(self.rng, 20))
        self.doc.body.append(p)
        self.log.append(p.plaintext())

    def heading(self):
        h = lib.Heading(gen.text(self.rng, 30), outline_level=self.rng.randint(1, 5))
        s = h.append(lib.Span(gen.text(self.rng)))
        s.append_text(gen.text(self.rng))
        self.doc.body.insert(len(self.doc.body), h)
        self.log.append((h.plaintext(), h.textlen))

    def list(self):
        self.doc.body.append(lib.ezlist([gen.text(self.rng) for _ in range(self.rng.randint(0, 4))]))

    def section(self):
        s = lib.Section(name=gen.label(self.rng))
        s.append(lib.Paragraph(gen.text(self.rng)))
        self.doc.body.append(s)

    def texttable(self):
        t = lib.Table('T%d' % self.rng.randint(0, 99), size=(self.rng.randint(1, 4), self.rng.randint(1, 4)))
        self.doc.body.append(t)
        self.fill(t)

    def readtext(self):
        for p in self.doc.body.findall(odf.q('text:p')):
            self.log.append(p.plaintext())
        for t in self.doc.body.findall(odf.q('table:table')):
            self.log.append([[tables.api(c) for c in row] for row in t.rows()])

    def removetext(self):
        x = self.blocks()
        if x:
            self.doc.body.remove(self.rng.choice(x))

    def section_text(self):
        x = self.blocks()
        for p in x[:3]:
            if p.kind == 'Paragraph':
                p.append_text(gen.text(self.rng))

    # ------------------------------------------------------------ tables
    def fill(self, t):
        rng = self.rng
        for _ in range(rng.randint(1, 6)):
            if not t.nrows() or not t.ncols():
                return
            pos = rng.randrange(t.nrows()), rng.randrange(t.ncols())
            value = rng.choice((gen.text(rng), rng.randint(-99, 99), 1.5, True, gen.text(rng, 60)))
            t[pos].set_value(value)
            self.log.append(tables.api(t[pos]))

    def sheet(self):
        rng = self.rng
        return self.doc.sheets[rng.randrange(len(self.doc.sheets))] if len(self.doc.sheets) else None

    def newsheet(self):
        rng = self.rng
        s = lib.Sheet(gen.label(rng), size=(rng.randint(1, 6), rng.randint(1, 6)))
        self.fill(s)
        if rng.random() < 0.5:
            self.doc.sheets.append(s)
        else:
            self.doc.sheets.insert(rng.randint(0, len(self.doc.sheets)), s)

    def cells(self):
        s = self.sheet()
        if s is not None:
            self.fill(s)

    def resize(self):
        rng, s = self.rng, self.sheet()
        if s is None or not s.nrows() or not s.ncols():
            return
        op = rng.choice(('append_rows', 'insert_rows', 'delete_rows', 'append_columns', 'insert_columns', 'delete_columns'))
        n = s.nrows() if 'rows' in op else s.ncols()
        count = rng.randint(1, 3)
        try:
            if op.startswith('append'):
                getattr(s, op)(count)
            else:
                getattr(s, op)(rng.randrange(n), count)
        except (ValueError, IndexError) as e:
            self.log.append(type(e).__name__)
        self.log.append((s.nrows(), s.ncols()))

    def span(self):
        rng, s = self.rng, self.sheet()
        if s is None or not s.nrows() or not s.ncols():
            return
        pos = rng.randrange(s.nrows()), rng.randrange(s.ncols())
        try:
            s.set_cell_span(pos, (rng.randint(1, 3), rng.randint(1, 3)))
        except (ValueError, IndexError, TypeError) as e:
            self.log.append(type(e).__name__)
        self.log.append([c.covered for (p, c) in s.itercells()])

    def loadtable(self):
        """A document with repeated rows and cells, expanded as configured."""
        rng = self.rng
        body = E('office:spreadsheet')
        for n in range(rng.randint(1, 3)):
            t = gen.table(rng, 'T%d' % n, rng.randint(1, 3), rng.randint(1, 3))
            for row, path in tables.rows_of(t):
                row.set(tables.REP_ROWS, str(rng.randint(1, 40)))
                for cell in tables.cells_of(row):
                    cell.set(tables.REP_COLS, str(rng.choice((1, 1, 2, 5, 17, 33))))
            body.append(t)
        content = odf.root('office:document-content', E('office:body', {}, body), attrs={'office:version': '1.2'})
        self.listener = None
        doc = lib.opendoc(gen.package(rng, 'ods', content=content, hostile=0).tobytes())
        for s in doc.sheets:
            self.log.append((s.nrows(), s.ncols(), s[s.nrows() - 1, s.ncols() - 1].plaintext()))
        if not self.flat:
            doc.meta['creation-date'] = '2011-01-29T00:00:00'
            self.doc = doc

    def copysheet(self):
        s = self.sheet()
        if s is not None:
            self.doc.sheets.append(s.copy(gen.label(self.rng)))

    def delsheet(self):
        if len(self.doc.sheets) > 1:
            del self.doc.sheets[self.rng.randrange(len(self.doc.sheets))]

    def readsheets(self):
        self.log.append(list(self.doc.sheets.names()))
        for s in self.doc.sheets:
            self.log.append((s.nrows(), s.ncols(), [tables.api(c) for (p, c) in s.itercells()]))

    # ------------------------------------------------------------ pages
    def page(self):
        p = lib.DrawingPage(gen.label(self.rng))
        self.doc.pages.insert(self.rng.randint(0, len(self.doc.pages)), p)

    def delpage(self):
        if len(self.doc.pages):
            del self.doc.pages[self.rng.randrange(len(self.doc.pages))]

    def readpages(self):
        self.log.append(list(self.doc.pages.names()))

    # ------------------------------------------------------------ everything
    def meta(self):
        rng, m = self.rng, self.doc.meta
        m['title'] = gen.plain(rng)
        m.keywords.add(gen.word(rng, 2))
        m.usertags[gen.word(rng, 2)] = gen.plain(rng)
        m.count['page'] = rng.randint(0, 50)
        self.log.append((m['title'], list(m.keywords), list(m.usertags), m.count['page']))

    def style(self):
        name = 'S%d' % self.rng.randint(0, 10 ** 6)
        self.doc.inject_style('<style:style style:name="%s" style:family="paragraph"/>' % name)
        styles = self.doc.styles if self.flat else self.doc.styles.styles
        self.log.append(styles[name]['family'])
        styles[name]['display-name'] = gen.plain(self.rng)

    def samestyle(self):
        """ The same style as other programs. """
        name = self.rng.choice(('Shared1', 'Shared2'))
        self.doc.inject_style('<style:style style:name="%s" style:family="paragraph"><style:text-properties/></style:style>' % name)
        styles = self.doc.styles if self.flat else self.doc.styles.styles
        self.log.append((styles[name]['family'], styles[name]['display-name']))
        styles[name]['display-name'] = gen.plain(self.rng)

    def listen(self):
        if self.listeners:
            from ezodf import observer
            self.listener = Listener(self.doc.body.get_xmlroot(), self.log)
            more = [Listener(self.doc.body.get_xmlroot(), []) for _ in range(self.rng.randint(0, 3))]
            for e in EVENTS:
                for x in [self.listener] + more:
                    observer.subscribe(e, x)
            self.listener.more = more

    def save(self):
        if not self.files:
            return self.reopen()
        name = self.path(('f' if self.flat else '') + self.kind)
        self.doc.backup = self.rng.random() < 0.5
        self.doc.saveas(name)
        self.log.append(self.doc.meta['editing-cycles'])
        if self.rng.random() < 0.5:
            self.listener = None
            self.doc = lib.opendoc(name)

    def reopen(self):
        if self.flat:
            self.log.append(len(self.doc.tobytes()) > 0)
            return
        self.listener = None
        self.doc = lib.opendoc(self.doc.tobytes())

    COMMON = ['meta', 'style', 'samestyle', 'save', 'reopen', 'listen']
    OPS = {'odt': ['paragraph'] * 4 + ['heading'] * 3 + ['list', 'section', 'texttable', 'readtext', 'removetext', 'section_text'],
           'ods': ['newsheet', 'newsheet', 'cells', 'cells', 'cells', 'resize', 'resize', 'span', 'copysheet', 'delsheet', 'loadtable', 'readsheets'],
           'odg': ['page', 'page', 'delpage', 'readpages'], 'odp': ['page', 'page', 'delpage', 'readpages']}
