"""C26: all handles to the same table or element stay in agreement."""
import gc

import ezodf
from ezodf.xmlns import wrap

from vlib import gen, lib, odf, tables
from vlib.odf import E, q
from . import c15, c22

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('One or two documents (sheets, text tables, tables in cells, pages, paragraphs, lists, variables, styles; packaged, flat, new). Handles are obtained by all '
        'routes (index, negative index, name, iteration, children of the body, find, wrap, results of append/insert, kept from earlier) for '
        'tables, rows, columns, cells, pages, paragraphs, lists, variables and styles; random mutations go through any of them, with deletion, re-creation, '
        'moves, copies, dropped handles and garbage collection in between. After each mutation every handle is asked for its whole public view, '
        'which is compared with an independent reading of its own XML element, and the handles by fresh routes with the elements of the '
        'serialised document at the same places; names give the elements with these names. Distinct by log.')
CASES = {'quick': 2100, 'thorough': 50000}
ROUTES = ('index', 'negative', 'name', 'iteration', 'body', 'findall', 'wrap', 'kept', 'result')
REQUIRED = ['handle by ' + r for r in ROUTES] + ['large tables', 'mutations', 'views compared', 'table handles', 'cell handles', 'row handles', 'column handles', 'page handles',
                                                 'text handles', 'variable handles', 'style handles', 'deleted', 'created', 'moved', 'replaced', 'copied', 'placed again', 'collected',
                                                 'detached handles', 'structure changed', 'serialised', 'flat documents', 'same table by two routes', 'recycled',
                                                 'sub tables', 'sub table handles']
ASSUMPTIONS = ['Rows, columns and cells of tables are added and removed by the methods of the table.']
XML_BOOL = {'true': True}


# ------------------------------------------------------------- views
SIMPLE = set(q(t) for t in ('text:p', 'text:h', 'text:span', 'text:s', 'text:tab', 'text:line-break', 'text:a'))


def plain(n):
    """The text of the cell is that of its paragraphs (no notes, frames, comments)."""
    return all(x.tag in SIMPLE for x in n.iterdescendants())


def cell_view(x):
    if not plain(x.xmlnode):
        return (x.value_type, x.style_name, x.formula, x.span, x.covered)
    try:
        value = x.value
    except ValueError as e:
        value = 'unreadable'
    return (x.value_type, value, x.style_name, x.formula, x.span, x.covered, x.plaintext())


def cell_xml(n):
    span = tuple(max(1, int(n.get(q('table:number-%s-spanned' % k), '1'))) for k in ('rows', 'columns'))
    if not plain(n):
        return (n.get(q('office:value-type')), n.get(q('table:style-name')), n.get(q('table:formula')), span, n.tag == tables.COVERED)
    try:
        t, v, style, formula = tables.observe(n)
    except ValueError:
        t, v, style, formula = n.get(q('office:value-type')), 'unreadable', n.get(q('table:style-name')), n.get(q('table:formula'))
    text = '\n'.join(tables.text_of(p) for p in n if p.tag in (q('text:p'), q('text:h')))
    return (t, v, style, formula, span, n.tag == tables.COVERED, text)


def table_view(t):
    rows = list(t.rows())
    return (t.name, t.style_name, t.protected, t.nrows(), t.ncols(), [[cell_view(x) for x in row] for row in rows],
            [(i.style_name, i.visibility) for i in map(t.row_info, range(t.nrows()))],
            [(i.style_name, i.visibility) for i in map(t.column_info, range(t.ncols()))])


def table_xml(n):
    rows = [r for r, path in tables.rows_of(n)]
    columns = [r for r, path in tables.columns_of(n)]
    cells = [[cell_xml(x) for x in tables.cells_of(r)] for r in rows]
    ncols = len(cells[0]) if cells else 0
    return (n.get(q('table:name')), n.get(q('table:style-name')), n.get(q('table:protected')) == 'true', len(rows), ncols, cells,
            [info_xml(r) for r in rows], [info_xml(x) for x in columns[:ncols]])


def info_view(x):
    return (x.style_name, x.visibility)


def info_xml(n):
    return (n.get(q('table:style-name')), n.get(q('table:visibility'), 'visible'))


def page_view(p):
    return (p.name, len(p), [x.kind for x in p])


def page_xml(n):
    return (n.get(q('draw:name')), len(n), [wrap(x).kind for x in n])


def text_view(p):
    return (p.kind, p.style_name, len(p), p.text)


def text_xml(n):
    return ({q('text:p'): 'Paragraph', q('text:h'): 'Heading', q('text:list'): 'List', q('text:section'): 'Section'}[n.tag],
            n.get(q('text:style-name')), len(n), n.text)


def variable_view(v):
    return (v.name, v.type, v.value, [(i.name, i.value, i.type) for i in v.instances])


def style_view(s):
    return (s['name'], s['family'], s['class'])


def style_xml(n):
    return (n.get(q('style:name')), n.get(q('style:family')), n.get(q('style:class')))


VIEWS = {'table': (table_view, table_xml), 'cell': (cell_view, cell_xml), 'row': (info_view, info_xml), 'column': (info_view, info_xml),
         'page': (page_view, page_xml), 'text': (text_view, text_xml), 'style': (style_view, style_xml)}
TEXTS = (q('text:p'), q('text:h'), q('text:list'), q('text:section'))


class Handle(object):
    def __init__(self, what, obj, doc):
        self.what, self.obj, self.doc = what, obj, doc


class Run(object):
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.docs = []
        for _ in range(self.rng.choice((1, 1, 2))):
            doc, kind, origin = c22.build(c, prefixes=False)
            c.log(origin, kind)
            if origin == 'flat':
                c.count('flat documents')
            if origin == 'new' and not hasattr(doc, 'sheets') and not hasattr(doc, 'pages'):
                doc.body.append(lib.Table('T', (2, 3)))
            if hasattr(doc, 'pages') and not len(doc.pages):
                doc.pages.append(lib.DrawingPage('first'))
            c22.touch(doc)
            c22.touch(doc)
            self.docs.append(doc)
        self.handles = []
        self.number = 0
        for doc in self.docs:
            if self.rng.random() < 0.05 and not hasattr(doc, 'pages') and hasattr(doc.body, 'append'):
                # large enough for whatever depends on the size
                size = self.rng.choice(((25, 20), (1, 600), (300, 2), (40, 30)))
                (doc.sheets if hasattr(doc, 'sheets') else doc.body).append(lib.Table(self.name(), size))
                c.count('large tables')
            if self.rng.random() < 0.5:
                self.sub_table(doc)
        for doc in self.docs:
            self.get_table(doc)
            self.get_other(doc)

    def name(self):
        self.number += 1
        return 'N%d' % self.number

    # ------------------------------------------------------ obtaining handles
    def table_nodes(self, doc):
        return list(doc.body.xmlnode.iter(q('table:table')))

    def get_table(self, doc):
        """A handle of a table by some route."""
        c, rng = self.c, self.rng
        nodes = self.table_nodes(doc)
        if not nodes:
            return None
        inner = [n for n in nodes if any(a.tag == q('table:table') for a in n.iterancestors())]
        if hasattr(doc, 'sheets') and not (inner and rng.random() < 0.4):
            sheets = [n for n in doc.body.xmlnode if n.tag == q('table:table')]
            if not sheets:
                return None
            i = rng.randrange(len(sheets))
            route = rng.choice(('index', 'negative', 'name', 'iteration', 'body', 'findall', 'wrap', 'body sheets'))
            names = [n.get(q('table:name')) for n in sheets]
            if route == 'name' and (not names[i] or names.index(names[i]) != i):
                route = 'index'
            if route == 'index':
                t = doc.sheets[i]
            elif route == 'body sheets':
                t, route = doc.body.sheets[i], 'index'
            elif route == 'negative':
                t = doc.sheets[i - len(sheets)]
            elif route == 'name':
                t = doc.sheets[names[i]]
            elif route == 'iteration':
                t = list(doc.sheets)[i]
            elif route == 'body':
                t = doc.body[doc.body.xmlnode.index(sheets[i])]
            elif route == 'findall':
                t = list(doc.body.findall(q('table:table')))[i]
            else:
                t = wrap(sheets[i])
            node = sheets[i]
        else:
            node = rng.choice(inner if hasattr(doc, 'sheets') else nodes)
            if node in inner:
                c.count('sub table handles')
            parent = wrap(node.getparent())
            route = rng.choice(('wrap', 'body', 'iteration', 'findall', 'index'))
            if parent.kind == 'Table':
                route = 'wrap'
            k = node.getparent().index(node)
            if route == 'wrap':
                t = wrap(node)
            elif route == 'body':
                t = parent.get_child(k)
            elif route == 'iteration':
                t = list(parent)[k]
            elif route == 'index':
                t = parent[k - len(parent)]
            else:
                same = [n for n in node.getparent() if n.tag == node.tag]
                t = list(parent.findall(q('table:table')))[same.index(node)]
        c.count('handle by ' + route)
        c.ok(t.xmlnode is node, 'table by %s is another one (%r instead of %r)' % (route, t.name, node.get(q('table:name'))))
        if any(h.what == 'table' and h.obj.xmlnode is node for h in self.handles):
            c.count('same table by two routes')
        self.handles.append(Handle('table', t, doc))
        return t

    def sub_table(self, doc):
        """A table inside of a cell."""
        cells = [n for n in doc.body.xmlnode.iter(q('table:table-cell'))]
        if not cells:
            return 'nothing'
        x = wrap(self.rng.choice(cells)).append(lib.Table(self.name(), (self.rng.randint(1, 3), 2)))
        if self.rng.random() < 0.5:
            self.handles.append(Handle('table', x, doc))
        self.c.count('sub tables')
        return 'sub table'

    def get_inside(self, t, doc):
        """A handle of a cell, row or column."""
        c, rng = self.c, self.rng
        if not t.nrows() or not t.ncols():
            return
        i, j = rng.randrange(t.nrows()), rng.randrange(t.ncols())
        node = [r for r, p in tables.rows_of(t.xmlnode)][i]
        what = rng.choice(('cell', 'cell', 'cell', 'row', 'column'))
        if what == 'row':
            x = t.row_info(i) if rng.random() < 0.6 else t.row_info('A%d' % (i + 1))
            want = node
        elif what == 'column':
            x = t.column_info(j) if rng.random() < 0.5 else t.column_info(j - t.ncols())
            want = [n for n, p in tables.columns_of(t.xmlnode)][j]
        else:
            x = rng.choice((lambda: t[i, j], lambda: t['%s%d' % (chr(65 + j % 26), i + 1)] if j < 26 else t[i, j], lambda: t.row(i)[j], lambda: t.column(j)[i], lambda: list(t.rows())[i][j],
                            lambda: list(t.columns())[j][i], lambda: dict(t.itercells())[(i, j)], lambda: t.get_cell((i, j)),
                            lambda: t[i - t.nrows(), j - t.ncols()]))()
            want = tables.cells_of(node)[j]
        c.ok(x.xmlnode is want, '%s handle at %r is another one' % (what, (i, j)))
        self.handles.append(Handle(what, x, doc))
        c.count(what + ' handles')

    def get_other(self, doc):
        c, rng = self.c, self.rng
        what = rng.choice(('page', 'text', 'text', 'style', 'variable'))
        if what == 'page' and hasattr(doc, 'pages') and len(doc.pages):
            nodes = [n for n in doc.body.xmlnode if n.tag == q('draw:page')]
            i = rng.randrange(len(nodes))
            names = [n.get(q('draw:name')) for n in nodes]
            route = rng.choice(('index', 'negative', 'name', 'iteration', 'body', 'wrap'))
            if route == 'name' and (not names[i] or names.index(names[i]) != i):
                route = 'index'
            x = {'index': lambda: doc.pages[i], 'negative': lambda: doc.pages[i - len(nodes)], 'name': lambda: doc.pages[names[i]],
                 'iteration': lambda: list(doc.pages)[i], 'body': lambda: doc.body[doc.body.xmlnode.index(nodes[i])], 'wrap': lambda: wrap(nodes[i])}[route]()
            c.ok(x.xmlnode is nodes[i], 'page by %s is another one' % route)
            c.count('page handles')
        elif what == 'style':
            owner = doc.styles if hasattr(doc, 'content') else doc
            named = [s for s in owner.styles.xmlnode if s.tag == q('style:style')]
            names = [s.get(q('style:name')) for s in owner.styles.xmlnode if isinstance(s.tag, str)]
            named = [s for s in named if names.count(s.get(q('style:name'))) == 1]
            if not named:
                return
            n = rng.choice(named)
            x = owner.styles[n.get(q('style:name'))] if rng.random() < 0.6 else wrap(n)
            c.ok(x.xmlnode is n, 'style by name is another one')
            c.count('style handles')
        elif what == 'variable':
            box = rng.choice((doc.body.variables, doc.body.userfields, wrap(doc.body.xmlnode).variables, wrap(doc.body.xmlnode).userfields))
            found = [v for v in box if hasattr(v, 'instances')]
            if not found:
                return
            names = [v.name for v in found]
            i = rng.randrange(len(found))
            if names.count(names[i]) > 1:
                return
            x = box[names[i]] if rng.random() < 0.5 else found[i]
            c.ok(x.xmlnode is found[i].xmlnode, 'variable by name is another one')
            c.count('variable handles')
        elif what == 'text':
            nodes = [n for n in doc.body.xmlnode.iter(*TEXTS)]
            if not nodes:
                return
            n = rng.choice(nodes)
            parent = n.getparent()
            route = rng.choice(('wrap', 'body', 'iteration', 'findall'))
            if parent.tag == q('table:table') or route == 'wrap':
                x = wrap(n)
            elif route == 'body':
                x = wrap(parent)[parent.index(n)]
            elif route == 'iteration':
                x = list(wrap(parent))[parent.index(n)]
            else:
                x = list(wrap(parent).findall(n.tag))[[m for m in parent if m.tag == n.tag].index(n)]
            c.ok(x.xmlnode is n, 'text element by %s is another one' % route)
            c.count('text handles')
        else:
            return
        self.handles.append(Handle(what, x, doc))

    # ------------------------------------------------------ mutations
    def mutate(self):
        c, rng = self.c, self.rng
        if not self.handles:
            return 'nothing'
        h = rng.choice(self.handles)
        x = h.obj
        c.count('mutations')
        if rng.random() < 0.3:
            c.count('handle by kept')
        if h.what == 'table':
            c.count('table handles')
            op = rng.choice(('insert_rows', 'append_rows', 'delete_rows', 'insert_columns', 'append_columns', 'delete_columns', 'value', 'value', 'value', 'assign',
                             'span', 'unspan', 'name', 'style', 'protected', 'reset', 'clear', 'row style', 'column style'))
            try:
                if op in ('insert_rows', 'delete_rows'):
                    getattr(x, op)(rng.randrange(x.nrows()), rng.choice((1, 1, 2)))
                elif op in ('insert_columns', 'delete_columns'):
                    getattr(x, op)(rng.randrange(x.ncols()), rng.choice((1, 1, 2)))
                elif op.startswith('append'):
                    getattr(x, op)(rng.choice((1, 2)))
                elif op in ('value', 'assign', 'span', 'unspan'):
                    i, j = rng.randrange(x.nrows()), rng.randrange(x.ncols())
                    if op == 'value':
                        x[i, j].set_value(rng.choice((self.name(), rng.randint(1, 99), True)))
                    elif op == 'assign':
                        x[i, j] = lib.Cell(self.name())
                    elif op == 'span':
                        x.set_cell_span((i, j), (rng.randint(1, x.nrows() - i), rng.randint(1, x.ncols() - j)))
                    else:
                        x.remove_cell_span((i, j))
                elif op == 'name':
                    x.name = self.name()
                elif op == 'style':
                    x.style_name = self.name()
                elif op == 'protected':
                    x.protected = not x.protected
                elif op == 'reset':
                    x.reset((rng.randint(1, 4), rng.randint(1, 4)))
                elif op == 'clear':
                    x.clear()
                elif op == 'row style':
                    x.row_info(rng.randrange(x.nrows())).style_name = self.name()
                else:
                    x.column_info(rng.randrange(x.ncols())).style_name = self.name()
                if 'rows' in op or 'columns' in op or op == 'reset':
                    c.count('structure changed')
            except (ValueError, IndexError):
                op += ' refused'
        elif h.what == 'cell':
            op = rng.choice(('value', 'value', 'style', 'formula', 'text'))
            if op == 'value':
                x.set_value(rng.choice((self.name(), rng.randint(1, 99), False)))
            elif op == 'style':
                x.style_name = self.name()
            elif op == 'formula':
                x.formula = 'of:=' + self.name()
            else:
                x.set_value('t')
                x.append_text(self.name())
        elif h.what in ('row', 'column'):
            op = rng.choice(('style_name', 'visibility'))
            setattr(x, op, self.name() if op == 'style_name' else rng.choice(('visible', 'collapse', 'filter')))
        elif h.what == 'page':
            op = rng.choice(('name', 'append', 'remove'))
            if op == 'name':
                x.name = self.name()
            elif op == 'append':
                x.append(lib.Paragraph(self.name()))
            elif len(x):
                del x[0]
        elif h.what == 'text':
            op = rng.choice(('style', 'append', 'text', 'remove'))
            if op == 'style':
                x.style_name = self.name()
            elif op == 'append':
                x.append(lib.Span('s') if x.kind in ('Paragraph', 'Heading') else lib.ListItem('i') if x.kind == 'List' else lib.Paragraph('p'))
            elif op == 'text' and x.kind in ('Paragraph', 'Heading'):
                x.text = self.name()
            elif len(x) and x.xmlnode[0].tag != q('table:table'):
                del x[0]
        elif h.what == 'variable':
            op = 'value'
            x.value = rng.choice((self.name(), rng.randint(1, 99), True))
        else:
            op = 'class'
            x['class'] = self.name()
        return '%s %s' % (h.what, op)

    def sheets(self):
        """Creation, deletion and moves of tables and pages."""
        c, rng = self.c, self.rng
        doc = rng.choice(self.docs)
        box = getattr(doc, 'sheets', None) or getattr(doc, 'pages', None)
        if getattr(doc, 'sheets', None) is None and getattr(doc, 'pages', None) is None:
            return self.text_tables(doc)
        is_sheet = hasattr(doc, 'sheets')
        box = doc.sheets if is_sheet else doc.pages
        what = 'table' if is_sheet else 'page'

        def new():
            c.count('created')
            if is_sheet and rng.random() < 0.02:
                c.count('large tables')
                return lib.Sheet(self.name(), rng.choice(((25, 20), (1, 600), (300, 2), (40, 30))))
            return lib.Sheet(self.name(), (rng.randint(1, 3), rng.randint(1, 3))) if is_sheet else lib.DrawingPage(self.name())
        op = rng.choice(('append', 'insert', 'delete', 'delete', 'replace', 'move', 'copy', 'again', '+='))
        n = len(box)
        if op in ('append', '+=', 'insert'):
            x = new()
            if op == 'append':
                y = box.append(x)
            elif op == '+=':
                box += x
                y = x
            else:
                y = box.insert(rng.randint(-n, n) if n else 0, x)
            self.handles.append(Handle(what, y, doc))
            c.ok(y.xmlnode is x.xmlnode, 'result of ' + op)
            c.count('handle by result')
        elif op == 'delete' and n > 1:
            i = rng.randrange(n)
            if rng.random() < 0.5 or not list(box.names())[i] or list(box.names()).index(list(box.names())[i]) != i:
                del box[i]
            else:
                del box[list(box.names())[i]]
            c.count('deleted')
        elif op == 'replace' and n:
            box[rng.randrange(n)] = new()
            c.count('replaced')
        elif op == 'move' and n > 1:
            box.insert(rng.randrange(n), box[rng.randrange(n)]) if rng.random() < 0.5 else box.append(box[rng.randrange(n)])
            c.count('moved')
        elif op == 'copy' and is_sheet and n:
            x = box[rng.randrange(n)].copy(self.name())
            c.count('copied')
            self.handles.append(Handle('table', x, doc))
            if rng.random() < 0.6:
                box.append(x)
        elif op == 'again':
            loose = [h for h in self.handles if h.what == what and h.obj.xmlnode.getparent() is None]
            if loose:
                box.append(rng.choice(loose).obj)
                c.count('placed again')
        return what + ' ' + op

    def text_tables(self, doc):
        c, rng = self.c, self.rng
        op = rng.choice(('append', 'delete', 'copy', 'again'))
        nodes = [n for n in doc.body.xmlnode if n.tag == q('table:table')]
        if doc.body.TAG != q('office:text'):
            return 'nothing'
        if op == 'append':
            x = doc.body.append(lib.Table(self.name(), (2, 2)))
            self.handles.append(Handle('table', x, doc))
            c.count('created')
            c.count('handle by result')
        elif op == 'delete' and nodes:
            n = rng.choice(nodes)
            if rng.random() < 0.5:
                doc.body.remove(wrap(n))
            else:
                del doc.body[doc.body.xmlnode.index(n)]
            c.count('deleted')
        elif op == 'copy' and nodes:
            x = wrap(rng.choice(nodes)).copy(self.name())
            doc.body.append(x)
            self.handles.append(Handle('table', x, doc))
            c.count('copied')
        elif op == 'again':
            loose = [h for h in self.handles if h.what == 'table' and h.obj.xmlnode.getparent() is None]
            if loose:
                doc.body.append(rng.choice(loose).obj)
                c.count('placed again')
        return 'text table ' + op

    def drop(self):
        """Forget handles, recycle memory."""
        rng = self.rng
        keep = rng.random()
        self.handles = [h for h in self.handles if rng.random() < keep]
        gc.collect()
        self.c.count('collected')
        if rng.random() < 0.6:      # many short-lived objects, whose memory is used again
            for _ in range(rng.randint(5, 30)):
                t = lib.Table('short', (1, 2))
                t[0, 0].set_value('short-lived')
                cells = [x for row in t.rows() for x in row]
                del t, cells
            gc.collect()
            self.c.count('recycled')
        return 'drop'

    # ------------------------------------------------------ oracle
    def check(self, label):
        c = self.c
        for h in self.handles:
            if h.what == 'variable':
                if any(a is h.doc.body.xmlnode for a in h.obj.xmlnode.iterancestors()):
                    again = variable_view(wrap(h.obj.xmlnode))
                    c.same(variable_view(h.obj), again, 'variable by a kept and by a new handle (after %s)' % label)
                    for box in (h.doc.body.variables, h.doc.body.userfields, wrap(h.doc.body.xmlnode).variables, wrap(h.doc.body.xmlnode).userfields):
                        if box.xmlnode is h.obj.xmlnode.getparent():
                            c.same(variable_view(box[h.obj.name]), again, 'variable by name (after %s)' % label)
                continue
            view, xml = VIEWS[h.what]
            node = h.obj.xmlnode
            want = xml(node)
            got = view(h.obj)
            c.same(got, want, '%s handle and its element (after %s)' % (h.what, label))
            fresh = wrap(node)
            c.ok(fresh.xmlnode is node, 'wrap() gives an object for another element')
            c.same(view(fresh), want, 'new %s handle and the element (after %s)' % (h.what, label))
            if h.what == 'table' and node.getparent() is None:
                c.count('detached handles')
            if h.what == 'cell':
                row = node.getparent()
                t = row
                while t is not None and t.tag != q('table:table'):
                    t = t.getparent()
                if t is not None:
                    rows = [r for r, p in tables.rows_of(t)]
                    i, j = [k for k, r in enumerate(rows) if r is row], tables.cells_of(row).index(node)
                    c.ok(len(i) == 1, 'a cell is not part of the table around it')
                    c.ok(wrap(t)[i[0], j].xmlnode is node, 'the table gives another cell at the place of a kept one')
                    c.same(cell_view(wrap(t)[i[0], j]), want, 'cell by the table (after %s)' % label)
            c.count('views compared')
        for doc in self.docs:
            self.check_containers(doc, label)
        c.observations += 1

    def check_containers(self, doc, label):
        c = self.c
        for attr, tag, nametag, view, xml in (('sheets', 'table:table', 'table:name', table_view, table_xml),
                                              ('pages', 'draw:page', 'draw:name', page_view, page_xml)):
            if not hasattr(doc, attr):
                continue
            nodes = [n for n in doc.body.xmlnode if n.tag == q(tag)]
            for box in (getattr(doc, attr), getattr(doc.body, attr), getattr(wrap(doc.body.xmlnode), attr)):
                c.same(len(box), len(nodes), 'number of %s (after %s)' % (attr, label))
                c.same(list(box.names()), [n.get(q(nametag)) for n in nodes], 'names (after %s)' % label)
                for i, x in enumerate(box):
                    c.ok(x.xmlnode is nodes[i] and box[i].xmlnode is nodes[i] and box.index(x) == i, '%s[%d] is another one (after %s)' % (attr, i, label))
            for i, n in enumerate(nodes):
                c.same(view(getattr(doc, attr)[i]), xml(n), '%s[%d] (after %s)' % (attr, i, label))
                name = n.get(q(nametag))
                if name:
                    first = [m for m in nodes if m.get(q(nametag)) == name][0]
                    c.ok(getattr(doc, attr)[name].xmlnode is first, '%s[%r] has another name (after %s)' % (attr, name, label))

    def serialised(self):
        """Handles against the written document."""
        c = self.c
        for doc in self.docs:
            data = doc.tobytes()
            r = odf.parse(odf.read_package(data)['content.xml'] if data[:2] == b'PK' else data)
            written = list(r.find(q('office:body')).iter(q('table:table')))
            mine = self.table_nodes(doc)
            c.same(len(mine), len(written), 'number of tables in the written document')
            for n, w in zip(mine, written):
                c.same(table_view(wrap(n)), table_xml(w), 'table by handle and in the written document')
            c.count('serialised')


def case(c):
    rng = c.rng
    run = Run(c)
    run.check('opening')
    for _ in range(rng.randint(10, 30)):
        r = rng.random()
        doc = rng.choice(run.docs)
        if r < 0.22:
            t = run.get_table(doc)
            if t is not None:
                for _ in range(rng.randint(0, 2)):
                    run.get_inside(t, doc)
            label = 'get table'
        elif r < 0.3:
            run.get_other(doc)
            label = 'get'
        elif r < 0.75:
            label = run.mutate()
        elif r < 0.9:
            label = run.sheets()
        elif r < 0.92:
            label = run.sub_table(doc)
        else:
            label = run.drop()
        c.log(label)
        if len(run.handles) > 25:
            run.handles = rng.sample(run.handles, 15)
        run.check(label)
    run.serialised()
