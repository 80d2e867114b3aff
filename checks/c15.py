"""C15: variables and user fields hold the assigned value everywhere."""
import copy

from ezodf.xmlns import wrap

from vlib import gen, lib, odf
from vlib.odf import E, q

PROPERTY = 'C15'
LEVEL = 'exploration'
RULE = ('Documents (text, spreadsheet, drawing, presentation, packaged and flat) with several declared variables and user '
        'fields (hostile and shared names, names with and without occurrences, wrong or missing initial types), '
        'whose occurrences of all kinds are scattered over paragraphs, spans, headings, lists, sections, cells and '
        'frames. Random histories of assignments (texts with any characters, empty text, ints, floats, 0, booleans) '
        'by container or object, old handles and containers, with further occurrences added, declarations removed and added and reopening in between. After each one all '
        'values and types by the API equal a model; in the file each occurrence and declaration shows the value '
        'and, with those masked, the document is unchanged. Distinct by log.')
CASES = {'quick': 2000, 'thorough': 80000}
REQUIRED = ['assigned', 'states compared', 'files compared', 'text', 'empty text', 'zero', 'false', 'true', 'int', 'float',
            'type changed', 'shared name', 'many occurrences', 'unused variable', 'occurrence added', 'reopened',
            'flat', 'old handle', 'initial value', 'kind odt', 'kind ods', 'kind odg', 'many variables', 'comments', 'declaration removed', 'declaration added']
VAR = ('text:variable-set', 'text:variable-get', 'text:variable-input')
FIELD = ('text:user-field-get', 'text:user-field-input')
TYPES = {'float': 'office:value', 'percentage': 'office:value', 'currency': 'office:value', 'boolean': 'office:boolean-value',
         'string': 'office:string-value', 'date': 'office:date-value', 'time': 'office:time-value'}
MASK = [q(t) for t in set(TYPES.values())] + [q('office:value-type')]


def shown(value):
    if value is True or value is False:
        return 'true' if value else 'false'
    return str(value)


def typed(value):
    return 'boolean' if isinstance(value, bool) else 'float' if isinstance(value, (int, float)) else 'string'


def equal(got, value):
    if isinstance(value, bool):
        return got is value
    if isinstance(value, (int, float)):
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == value
    return isinstance(got, str) and got == value


def initial(rng):
    """(value type, attribute text, displayed text, value by the API)"""
    t = rng.choice(('float', 'float', 'boolean', 'string', 'string', 'percentage', 'currency', 'date', 'time'))
    if t in ('float', 'percentage', 'currency'):
        v = rng.choice((0.0, 1.0, -2.5, 12.0))
        return t, repr(v), rng.choice((repr(v), '%.2f x' % v)), v
    if t == 'boolean':
        v = rng.random() < 0.5
        return t, shown(v), rng.choice((shown(v), 'WAHR')), v
    if t == 'date':
        return t, '2011-01-29', '29.01.11', '2011-01-29'
    if t == 'time':
        return t, 'PT01H02M03S', '01:02', 'PT01H02M03S'
    v = rng.choice(('', gen.plain(rng), 'true', '12'))
    return t, v, v, v


def occurrence(rng, tag, name, start):
    t, attr, text, value = start
    el = E(tag, {'text:name': name})
    if tag == 'text:variable-set':
        el.set(q('office:value-type'), t)
        el.set(q(TYPES[t]), attr)
        if rng.random() < 0.3:
            el.set(q('text:formula'), 'ooow:1+1')
        if rng.random() < 0.2:
            el.set(q('text:display'), 'none')
    if tag == 'text:variable-input':
        el.set(q('office:value-type'), t)
        el.set(q('text:description'), 'd')
    if tag in ('text:variable-get', 'text:user-field-get', 'text:variable-input', 'text:user-field-input') and rng.random() < 0.25:
        # as some programs write
        el.set(q('office:value-type'), t)
        el.set(q(TYPES[t]), attr)
    if rng.random() < 0.3:
        el.set(q('style:data-style-name'), 'N1')
    el.text = text
    if rng.random() < 0.05:
        el.append(odf.etree.Comment('shown value'))
    return el


def place(rng, blocks, el):
    """Put an inline element somewhere inside of the paragraphs below blocks."""
    homes = [p for b in blocks for p in b.iter(q('text:p'), q('text:h'), q('text:span'))]
    homes = [p for p in homes if p.getparent() is None or p.getparent().tag not in
             (q('text:note-citation'), q('text:variable-set'))]
    home = rng.choice(homes)
    pos = rng.randint(0, len(home))
    el.tail = rng.choice((None, None, ' behind', 'x'))
    home.insert(pos, el)


def masked(body, names, fields):
    """Canonical body without values of the given variables and fields."""
    body = copy.deepcopy(body)
    for tags, which in ((VAR + ('text:variable-decl',), names), (FIELD + ('text:user-field-decl', 'text:user-field-set'), fields)):
        for el in body.iter(*[q(t) for t in tags]):
            if el.get(q('text:name')) in which:
                el.text = None
                for a in MASK:
                    if a in el.attrib:
                        del el.attrib[a]
    for tag in ('text:variable-decls', 'text:user-field-decls'):
        for el in body.findall(q(tag)):
            if not len(el):
                body.remove(el)
    return odf.canon(body)


class State(object):
    pass


def body_of(data, kind):
    r = odf.parse(odf.read_package(data)['content.xml'] if data[:2] == b'PK' else data)
    return r.find(q('office:body')).find(q(odf.BODY[kind]))


def compare(c, s, what):
    b = s.doc.body
    groups = [(b.variables, s.vars), (b.userfields, s.fields)]
    if s.kept[0] is s.doc:          # containers asked for earlier
        groups += [(s.kept[1], s.vars), (s.kept[2], s.fields)]
    else:
        s.kept = (s.doc, b.variables, b.userfields)
    for group, model in groups:
        for name in s.gone[model is s.fields]:
            c.ok(name not in group, '%s: removed %r is found' % (what, name))
        for name, v in model.items():
            c.ok(name in group, '%s: %r is not found' % (what, name))
            item = group[name]
            c.same(item.name, name, what + ': name')
            got = item.value
            if v is None:
                c.ok(got is None, '%s: value of unused variable %r is %r' % (what, name, got))
                continue
            c.ok(equal(got, v[0]), '%s: value of %r' % (what, name), got=got, expected=v[0])
            if v[1] is not None:
                c.same(item.type, v[1], '%s: type of %r' % (what, name))
            n = 0
            for i in item.instances:
                if v[1] is not None:
                    c.ok(equal(i.value, v[0]), '%s: occurrence of %r' % (what, name), got=i.value, expected=v[0])
                    c.same(i.type, v[1], '%s: type of occurrence of %r' % (what, name))
                c.same(i.name, name, what + ': name of occurrence')
                n += 1
            c.same(n, s.number[(model is s.fields, name)], '%s: number of occurrences of %r' % (what, name))
    c.ok('no such name' not in b.variables and 'no such name' not in b.userfields, what + ': unknown name is found')
    c.count('states compared')


def check_file(c, s, data, what):
    body = body_of(data, s.kind)
    for model, tags, decl, assigned in ((s.vars, VAR, 'text:variable-decl', s.set_vars),
                                        (s.fields, FIELD, 'text:user-field-decl', s.set_fields)):
        for name in assigned:
            value, vtype = model[name]
            decls = [e for e in body.iter(q(decl)) if e.get(q('text:name')) == name]
            c.same(len(decls), 1, '%s: declarations of %r' % (what, name))
            c.same(decls[0].get(q('office:value-type')), vtype, '%s: declared type of %r' % (what, name))
            show = [e for e in body.iter(*[q(t) for t in tags]) if e.get(q('text:name')) == name]
            for e in show:
                c.same(e.text or '', shown(value), '%s: text of occurrence of %r' % (what, name))
            if decl == 'text:user-field-decl':
                show = decls
            else:
                show = [e for e in show if e.tag == q('text:variable-set')]
            for e in show:
                c.same(e.get(q('office:value-type')), vtype, '%s: type of %r' % (what, name))
                attrs = dict((a, e.get(a)) for a in MASK[:-1] if a in e.attrib)
                c.same(attrs, {q(TYPES[vtype]): shown(value)}, '%s: value attributes of %r' % (what, name))
    names = (s.set_vars | s.gone[0], s.set_fields | s.gone[1])
    got = masked(body, *names)
    want = masked(s.body, *names)
    c.ok(got == want, what + ': the rest of the document: %s' % odf.first_difference(want, got))
    c.count('files compared')


def declare(c, s, names, handles):
    """Declarations are removed from and added to their container."""
    rng = c.rng
    which = rng.random() < 0.5      # user fields?
    body = s.doc.body
    group = s.kept[1 + which] if s.kept[0] is s.doc and rng.random() < 0.5 else (body.variables, body.userfields)[which]
    model, assigned = ((s.vars, s.set_vars), (s.fields, s.set_fields))[which]
    tag = ('text:variable-decl', 'text:user-field-decl')[which]
    swap = rng.choice(('both', 'both', 'remove', 'add'))
    known = sorted(n for w, n in s.number if w == which)
    home = list(s.body.iter(q(tag + 's')))
    if swap != 'add' and known:
        name = rng.choice(known)
        c.log('undeclare', which, name)
        item = group[name]
        if rng.random() < 0.5:
            group.remove(item)
        else:
            del group[group.index(item)]
        for d in list(s.body.iter(q(tag))):
            if d.get(q('text:name')) == name:
                d.getparent().remove(d)
        del s.number[(which, name)]
        model.pop(name, None)
        assigned.discard(name)
        handles.pop(('f' if which else 'v', name), None)
        s.gone[which].add(name)
        c.count('declaration removed')
    if swap != 'remove':
        name = 'new%d' % len(s.gone[which]) + gen.word(rng)
        if (which, name) in s.number:
            return
        s.gone[which].discard(name)
        start = initial(rng)
        d = E(tag, {'office:value-type': start[0], 'text:name': name})
        if which:
            d.set(q(TYPES[start[0]]), start[1])
        pos = rng.randint(0, len(group))
        c.log('declare', which, name, pos)
        group.insert(pos, wrap(copy.deepcopy(d)))
        if not home:
            home = [E(tag + 's')]
            s.body.insert(0, home[0])
        home[0].insert(pos, d)
        s.number[(which, name)] = 0
        model[name] = (start[3], None) if which else None
        names.append(name)
        handles[('f' if which else 'v', name)] = group[name]
        c.count('declaration added')


def case(c):
    rng = c.rng
    s = State()
    s.kind = kind = rng.choice(('odt', 'odt', 'odt', 'ods', 'odg', 'odp'))
    c.count('kind ' + kind)
    names = rng.sample(['a', 'A', 'aa', 'value', '0', '1', "x'y", 'q"r', '<&>', 'with space', '\xe4\u20ac', 'name', 'w' + gen.word(rng), 'n' * 300, ' ', 'no such', 'e\u0301'], rng.choice((4, 4, 4, 4, 9)))
    if rng.random() < 0.03:
        names.extend('v%d' % n for n in range(rng.choice((20, 120))))
        c.count('many variables')
    b = E(odf.BODY[kind])
    vdecl, fdecl = E('text:variable-decls'), E('text:user-field-decls')
    blocks = [gen.paragraph(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        blocks.append(E('text:list', {}, E('text:list-item', {}, gen.paragraph(rng))))
    if rng.random() < 0.5:
        blocks.append(E('text:section', {'text:name': 'S'}, gen.paragraph(rng), gen.paragraph(rng, 'text:h')))
    cellp = E('text:p')
    t = E('table:table', {'table:name': 'T'}, E('table:table-column'),
          E('table:table-row', {}, E('table:table-cell', {'office:value-type': 'string'}, cellp)))
    if kind == 'odt':
        content = blocks + [t]
    elif kind == 'ods':
        for p in blocks:
            t[1].append(E('table:table-cell', {'office:value-type': 'string'}, p))
            t.insert(0, E('table:table-column'))
        content = [t]
    else:
        content = [E('draw:page', {'draw:name': 'p'}, E('draw:frame', {}, E('draw:text-box', {}, *blocks)))]
        cellp = blocks[0]
    s.vars, s.fields, s.number = {}, {}, {}
    s.set_vars, s.set_fields = set(), set()
    s.kept, s.gone = (None, None, None), (set(), set())
    where = [p for e in content for p in e.iter(q('text:p'), q('text:h'))]
    for name in names:
        use = rng.choice((('v',), ('f',), ('v', 'f'), ('v', 'f')))
        if len(use) == 2:
            c.count('shared name')
        for u in use:
            start = initial(rng)
            n = rng.choice((0, 1, 1, 2, 3, 6))
            if rng.random() < 0.01:
                n = rng.choice((20, 150))
            if n >= 3:
                c.count('many occurrences')
            if u == 'v':
                vdecl.append(E('text:variable-decl', {'office:value-type': start[0], 'text:name': name}))
                tags = [rng.choice(VAR) for _ in range(n)]
                if not n:
                    c.count('unused variable')
                # the first one tells the value
                els = [occurrence(rng, t_, name, start) for t_ in tags]
                for e in els:
                    place(rng, where, e)
                first = next((e for root in content for e in root.iter(*[q(x) for x in VAR])
                              if e.get(q('text:name')) == name and e.tag == q('text:variable-set')), None)
                if not n:
                    s.vars[name] = None
                elif first is not None:
                    s.vars[name] = (start[3], None)
                    c.count('initial value')
                else:
                    s.vars[name] = ('?', None)
                s.number[(False, name)] = n
            else:
                d = E('text:user-field-decl', {'office:value-type': start[0], q(TYPES[start[0]]): start[1], 'text:name': name})
                if rng.random() < 0.2:
                    d.set(q('text:formula'), 'ooow:1')
                fdecl.append(d)
                for _ in range(n):
                    place(rng, where, occurrence(rng, rng.choice(FIELD), name, start))
                s.fields[name] = (start[3], None)
                s.number[(True, name)] = n
    if len(vdecl) or rng.random() < 0.3:
        b.append(vdecl)
    if rng.random() < 0.3 and kind == 'odt':
        b.append(E('text:sequence-decls', {}, E('text:sequence-decl', {'text:name': names[0]})))
    if len(fdecl) or rng.random() < 0.3:
        b.append(fdecl)
    if rng.random() < 0.1:
        for parent in (vdecl, fdecl, b):
            parent.insert(rng.randint(0, len(parent)), rng.choice((odf.etree.Comment('note'), odf.etree.ProcessingInstruction('pi', 'x'))))
        c.count('comments')
    b.extend(content)
    if kind in ('odt', 'ods'):
        b.extend(gen.epilogue(rng))
    content_root = odf.root('office:document-content', E('office:body', {}, b), attrs={'office:version': '1.2'})
    flat = rng.random() < 0.25
    if flat:
        c.count('flat')
        r = odf.root('office:document', E('office:body', {}, b),
                     attrs={'office:version': '1.2', 'office:mimetype': odf.MIMETYPES[kind]})
        path = c.path('v.f' + kind)
        lib.write(path, odf.xml(r))
        s.doc = lib.opendoc(path)
    else:
        s.doc = lib.opendoc(gen.package(rng, kind, content=content_root, hostile=0).tobytes())
    s.body = body_of(s.doc.tobytes(), kind)
    c.log(kind, flat, [(n, s.vars.get(n), s.fields.get(n)) for n in names])
    for n in names:      # values of variables without a set element are just texts
        if s.vars.get(n) and s.vars[n][0] == '?':
            del s.vars[n]
    compare(c, s, 'opened')
    handles = dict(((u, n), group[n]) for u, group in (('v', s.doc.body.variables), ('f', s.doc.body.userfields))
                   for n in names if n in group)
    for step in range(rng.randint(2, 10)):
        op = rng.choice(('set', 'set', 'set', 'set', 'set', 'add', 'reopen', 'read', 'declare'))
        body = s.doc.body
        if op == 'set':
            if not handles:
                continue
            u, name = rng.choice(sorted(handles))
            what = rng.choice(('text', 'text', 'empty text', 'zero', 'false', 'true', 'int', 'float', 'digits'))
            value = {'text': gen.text(rng, minlen=1) * (rng.choice((1, 1, 1, 1, 1, 1, 1, 40, 2000)) if len(names) < 20 else 1), 'empty text': '', 'zero': rng.choice((0, 0.0, -0.0)), 'false': False,
                     'true': True, 'int': rng.choice((1, -1, 17, 2 ** 40)), 'digits': rng.choice(('12', 'true', '1.5', 'None')),
                     'float': rng.choice((0.1, -2.5, 1e300, 1 / 3., 1e-9, float(2 ** 53)))}[what]
            group, model = (body.variables, s.vars) if u == 'v' else (body.userfields, s.fields)
            how = rng.choice(('item', 'value', 'handle'))
            c.log(u, name, how, value)
            if how == 'item':
                group[name] = value
            elif how == 'value':
                group[name].value = value
            else:
                handles[(u, name)].value = value
                c.count('old handle')
            old = model.get(name)
            if u == 'v' and not s.number[(False, name)]:
                model[name] = None
                s.set_vars.discard(name)
                # only the type is kept by the declaration
                for e in s.body.iter(q('text:variable-decl')):
                    if e.get(q('text:name')) == name:
                        e.set(q('office:value-type'), typed(value))
            else:
                model[name] = (value, typed(value))
                (s.set_vars if u == 'v' else s.set_fields).add(name)
                if old is not None and old[1] not in (None, typed(value)):
                    c.count('type changed')
            c.count('assigned')
            c.count(what)
        elif op == 'declare':
            declare(c, s, names, handles)
        elif op == 'add':
            if not s.number:
                continue
            name = rng.choice(sorted(set(n for x, n in s.number)))
            u = rng.choice([x for x in 'vf' if (x == 'f', name) in s.number])
            if s.number[(u == 'f', name)] == 0 and u == 'v':
                continue
            model = s.vars if u == 'v' else s.fields
            tag = rng.choice(VAR[1:] if u == 'v' else FIELD)
            value = model.get(name)
            c.log('add', tag, name)
            # a new occurrence at the end of the paragraphs (document and model)
            el = E(tag, {'text:name': name}, 'old')
            for root in (body.xmlnode, s.body):
                ps = [p for p in root.iter(q('text:p'))]
                ps[-1].append(copy.deepcopy(el))
            s.number[(u == 'f', name)] += 1
            if value is not None and value[1] is not None:
                body_group = body.variables if u == 'v' else body.userfields
                body_group[name] = value[0]
            c.count('occurrence added')
        elif op == 'reopen':
            c.log('reopen')
            if flat:
                s.doc.save()
                data = lib.read(path)
                check_file(c, s, data, 'saved')
                s.doc = lib.opendoc(path)
            else:
                data = s.doc.tobytes()
                check_file(c, s, data, 'saved')
                s.doc = lib.opendoc(data)
            handles = dict(((u, n), group[n]) for u, group in (('v', s.doc.body.variables), ('f', s.doc.body.userfields))
                           for n in names if n in group)
            c.count('reopened')
        else:
            for (u, n), v in handles.items():   # (a value never assigned may only be a formatted text)
                if n in (s.vars if u == 'v' else s.fields):
                    v.value
        compare(c, s, 'after ' + c.oplog[-1])
    check_file(c, s, s.doc.tobytes(), 'at the end')
