"""Access to the library under test by its public names (the only place which
imports ezodf for most checks)."""
import io
import os

import ezodf
from ezodf import (opendoc, newdoc, Paragraph, Heading, Span, Hyperlink, List, ListHeader,
                   ListItem, NumberedParagraph, Section, Table, Sheet, Cell, config, ezlist,
                   LineBreak, Tabulator, Spaces, SoftPageBreak)
from ezodf.document import FlatXMLDocument, PackagedDocument
from ezodf.drawingpage import DrawingPage
from ezodf.presentationpage import PresentationPage
from ezodf.base import GenericWrapper

from . import odf

ROUTES = ('path', 'stream', 'bytes')


def open_by(route, data, path=None):
    """Open package `data` by a route; `path` has to hold data for 'path'."""
    if route == 'path':
        return opendoc(path)
    if route == 'stream':
        return opendoc(io.BytesIO(data))
    return opendoc(data)


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def listing(folder):
    """All files below folder with their bytes."""
    out = {}
    for base, dirs, files in os.walk(folder):
        for name in files:
            p = os.path.join(base, name)
            out[os.path.relpath(p, folder)] = read(p)
    return out


def flat_parts(data):
    return odf.parse(data)


def doc_parts(data):
    """Canonical parts of a written package or flat document (bytes)."""
    if data[:2] == b'PK':
        members = odf.read_package(data)
        out = {}
        for name, value in members.items():
            if name in ('content.xml', 'styles.xml', 'meta.xml', 'META-INF/manifest.xml'):
                out[name] = odf.canon(odf.parse(value))
            else:
                out[name] = value
        return out
    return {'flat': odf.canon(odf.parse(data))}


def without_stamp(parts):
    """Parts without date, generator and editing-cycles."""
    stamp = set(odf.q(t) for t in odf.STAMP)

    def strip(c):
        tag, attrs, text, children = c
        if tag == odf.q('office:meta'):
            children = tuple((ch, tail) for ch, tail in children if ch[0] not in stamp)
        elif tag in (odf.q('office:document-meta'), odf.q('office:document')):
            children = tuple((strip(ch), tail) for ch, tail in children)
        return (tag, attrs, text, children)
    return dict((k, strip(v) if k in ('meta.xml', 'flat') else v) for k, v in parts.items())


def parts_difference(a, b):
    """First difference of two results of doc_parts or None."""
    if set(a) != set(b):
        return 'members: lost %s, new %s' % (sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for name in sorted(a):
        if a[name] != b[name]:
            if isinstance(a[name], tuple):
                return odf.first_difference(a[name], b[name], name)
            return '%s: bytes differ (%d, %d)' % (name, len(a[name]), len(b[name]))
    return None
