"""Child process of C32: runs programs in the environment it was started with,
after some changes of the state of the process, and writes what they did."""
import json
import os
import pickle
import sys


def prepare(pre):
    """State of the process the library must not depend on."""
    import gc
    if 'gc always' in pre:
        gc.set_threshold(1, 1, 1)
    if 'gc never' in pre:
        gc.disable()
    if 'decimal' in pre:
        import decimal
        decimal.setcontext(decimal.Context(prec=2, rounding=decimal.ROUND_UP))
        decimal.DefaultContext.prec = 2
    if 'locale' in pre:
        import locale
        locale.setlocale(locale.LC_ALL, '')
    if 'mimetypes' in pre:
        import mimetypes
        mimetypes.init(files=[])
        for ext in ('.odt', '.ods', '.odp', '.odg', '.xml', '.png'):
            mimetypes.add_type('x-test/other', ext)
    if 'umask' in pre:
        os.umask(0o077)
    if 'no streams' in pre:
        for fd in (0, 1):
            os.close(fd)
            os.open('/dev/null', os.O_RDWR)
        sys.stdin = sys.stdout = None
    if 'no folder' in pre:
        os.mkdir('gone')
        os.chdir('gone')
        os.rmdir('../gone')
    if 'logging' in pre:
        import logging
        logging.basicConfig(level=logging.DEBUG, stream=sys.stderr)
    if 'namespaces' in pre:
        from lxml import etree
        etree.register_namespace('txt', 'urn:example:other')
    if 'imports' in pre:
        import importlib
        for name in ('ezodf.variables', 'ezodf.observer', 'ezodf.tableutils', 'ezodf.whitespaces'):
            importlib.import_module(name)
    if 'random' in pre:
        import random
        random.seed(0)


def environment_programs():
    """Program with more that might depend on the environment."""
    from . import gen, lib, programs

    class EnvProgram(programs.Program):
        TIMES = ('2011-01-29', '2011-01-29T23:30:01', 'PT1H2M3S', '-PT10H', 'PT36H0M0S', '1969-12-31', '0001-01-01', '9999-12-31T23:59:59', '2011-03-27T02:30:00',
                 'P1D', 'x', '2011-02-30', 'PT0S')

        def times(self):
            from ezodf.timeparser import TimeParser
            t = self.rng.choice(self.TIMES)
            try:
                p = TimeParser(t)
                self.log.append((str(p), repr(p.value), p.is_date, p.is_duration, p.has_time, str(TimeParser(p.value))))
            except Exception as e:
                self.log.append((t, type(e).__name__))

        def values(self):
            rng = self.rng
            c = lib.Cell(rng.choice((0.1, 1e22, 1 / 3.0, -0.0, 2 ** 70, True, 'x \u20ac', 1e-7, 123456.789)))
            if c.value_type != 'string':
                c.display_form = gen.plain(rng)
            if c.value_type == 'string' and rng.random() < 0.5:
                c.append(lib.ezlist(['item']))
            if c.value_type == 'string':
                c.append_text(gen.plain(rng))
            t = lib.Table('t', size=(3, 3))
            t[0, 0] = c
            t.set_cell_span((0, 0), (2, 2))
            t.insert_rows(1)
            t[0, 0].style_name = 'x'
            self.log.append((t.copy('n')[0, 0].span, [x.covered for x in t.row(0)]))
            c2 = lib.Cell(rng.random() * 1e6, currency='EUR')
            self.log.append((c.value, c.value_type, c.plaintext(), sorted(c.xmlnode.attrib.items()), c2.value, sorted(c2.xmlnode.attrib.items())))

        def listings(self):
            m = self.doc.meta
            for key in self.rng.sample(sorted(m.count.TYPES), 3):
                m.count[key] = self.rng.randint(0, 9)
            for i in range(3):
                m.keywords.add('k%d' % self.rng.randint(0, 99))
                m.usertags['t%d' % self.rng.randint(0, 99)] = 'x'
            self.log.append((list(m.count), list(m.keywords), list(m.usertags)))
            self.log.append(sorted(self.doc.body.userfields.variables))

        def variables(self):
            from ezodf.xmlns import wrap
            rng, body = self.rng, self.doc.body
            name = rng.choice(('a', '\u00fc', 'z'))
            if name not in body.userfields:
                body.userfields.append(wrap(programs.E('text:user-field-decl', {'text:name': name, 'office:value-type': 'string'})))
            body.userfields[name].value = rng.choice((1, 2.5, True, False, gen.plain(rng), 1e21))
            self.log.append((body.userfields[name].value, body.userfields[name].type))

        def refused(self):
            rng = self.rng

            def attempt(f):
                try:
                    f()
                    self.log.append('done')
                except Exception as e:
                    self.log.append(type(e).__name__)
            t = lib.Table('t', size=(3, 3))
            for f in rng.sample((lambda: t.delete_rows(0, 3), lambda: t['A9'], lambda: t.set_cell_span((2, 2), (2, 2)), lambda: t.insert_rows(7), lambda: t['?'],
                                 lambda: t.set_cell((0, 0), lib.Paragraph('x')), lambda: lib.Cell(object()), lambda: lib.newdoc('xyz'), lambda: lib.opendoc(b'PK'),
                                 lambda: lib.opendoc('/no/such/file.odt'), lambda: lib.Table('t', size=(0, 1)), lambda: lib.Table(xmlnode=programs.E('text:p')),
                                 lambda: self.doc.body.remove(lib.Paragraph('')), lambda: self.doc.body.append('text'), lambda: t.row(9), lambda: t.column(9),
                                 lambda: self.doc.meta.__setitem__('nothing', 'x'), lambda: lib.Cell(1, 'unknown'), lambda: t.append_rows(0),
                                 lambda: t.columns_ if False else t.delete_columns(0, 5)), 4):
                attempt(f)

        COMMON = programs.Program.COMMON + ['times', 'listings', 'values', 'variables', 'refused']

    return EnvProgram


def main():
    job = json.loads(sys.argv[1])
    sys.path[:0] = [job['verif'], job['repo']]
    prepare(job['pre'])
    out = []
    from vlib import lib, odf
    cls = environment_programs_of(job)
    if 'thread' in job['pre']:
        import threading
        t = threading.Thread(target=run_all, args=(job, cls, lib, odf, out))
        t.start()
        t.join()
    else:
        run_all(job, cls, lib, odf, out)
    with open(job['out'], 'wb') as f:
        pickle.dump(out, f)


def environment_programs_of(job):
    from vlib import envchild
    return envchild.environment_programs()


def run_all(job, cls, lib, odf, out):
    from vlib import core
    for seed in job['seeds']:
        folder = os.path.join(job['folder'], str(seed).replace(':', '-'))
        os.mkdir(folder)
        p = cls(seed, folder)
        steps = 0
        try:
            for _ in p.run():
                steps += 1
            parts, log = p.result
            error = None
        except core.Violation:
            raise
        except Exception as e:
            import traceback
            parts, log, error = {}, tuple(p.log), '%s: %s at %s' % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1][2:])
        files = {}
        for name, data in lib.listing(folder).items():
            if name.endswith('.bak'):
                files[name] = 'backup'
                continue
            try:
                files[name] = (lib.without_stamp(lib.doc_parts(data)), odf.package_order(data) if data[:2] == b'PK' else data[:60])
            except Exception as e:
                files[name] = type(e).__name__
        out.append((seed, steps, error, parts, log, files))


if __name__ == '__main__':
    main()
