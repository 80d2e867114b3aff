"""C18: events reach exactly the subscribed listeners of the right document."""
import gc
import os
import weakref

from lxml import etree
from ezodf import observer
from ezodf.text import Paragraph
from vlib import gen, lib, odf

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('Random histories of subscribe, unsubscribe, death and broadcast (with and without root, nested) over several '
        'events, listeners of several documents (also empty roots, no root, no get_xmlroot), where handlers themselves '
        'subscribe, unsubscribe, drop, create and broadcast; plus saves of packaged and flat documents to which '
        'listeners of all documents subscribed. An online monitor judges each delivery (subscribed now, right root, this '
        'message, not yet in this broadcast) and at the end of each broadcast that nobody was left out. At the saving '
        'events the file on disk is compared: old before, new (with what the handler edited) afterwards. Distinct by log.')
CASES = {'quick': 12000, 'thorough': 150000}
REQUIRED = ['deliveries', 'broadcasts', 'broadcasts with root', 'not delivered: other root', 'nested', 'subscribe in handler',
            'unsubscribe in handler', 'death in handler', 'deaths', 'saves', 'save events', 'edited in handler',
            'cyclic death', 'refused subscribe', 'no get_xmlroot', 'empty root', 'twice subscribed', 'flat save', 'global observer',
            'silent broadcasts', 'unsubscribe unknown', 'failed saves', 'listener equal', 'listener unhashable', 'listener empty',
            'listener slots', 'many listeners', 'listener part', 'listener moved']
EVENTS = ('alpha', 'beta', 'gamma')


class Listener(object):
    """Handlers for the events given."""

    def __init__(self, world, root, events, name):
        self.world, self.root, self.name = world, root, name
        for e in events:
            setattr(self, 'on_%s_handler' % e, Handler(world, weakref.ref(self), e))

    def get_xmlroot(self):
        return self.root


class Equal(Listener):
    """All of them are equal, and the hash tells nothing."""

    def __eq__(self, other):
        return isinstance(other, Equal)

    def __hash__(self):
        return 1


class Unhashable(Listener):
    def __eq__(self, other):
        return self.root is getattr(other, 'root', self)

    __hash__ = None


class Empty(Listener):
    def __len__(self):
        return 0


class Slots(object):
    __slots__ = ('world', 'root', 'name', 'handler', '__weakref__')

    def __init__(self, world, root, events, name):
        self.world, self.root, self.name = world, root, name

    def get_xmlroot(self):
        return self.root


def slot_handler(event):
    def handler(self, msg=None):
        self.world.deliver(self, event, msg)
    return handler


for _event in EVENTS + ('prepare_saving', 'post_saving'):
    setattr(Slots, 'on_%s_handler' % _event, slot_handler(_event))


class Bare(Listener):
    get_xmlroot = property(lambda self: (_ for _ in ()).throw(AttributeError('get_xmlroot')))


class Part(Paragraph):
    """A paragraph which listens itself: it belongs to the document it is part of right now."""

    def __init__(self, world, root, events, name):
        Paragraph.__init__(self)
        self.world, self.name = world, name
        for e in events:
            setattr(self, 'on_%s_handler' % e, Handler(world, weakref.ref(self), e))

    @property
    def root(self):
        node = self.xmlnode
        while node.getparent() is not None:
            node = node.getparent()
        return node

    def move(self, body, how):
        old = self.xmlnode.getparent()
        if old is not None and how == 'remove':
            old.remove(self.xmlnode)
        elif how == 'append':
            body.append(self)
        elif how == 'insert':
            body.insert(0, self)


class Handler(object):
    def __init__(self, world, ref, event):
        self.world, self.ref, self.event = world, ref, event

    def __call__(self, msg=None):
        self.world.deliver(self.ref(), self.event, msg)


class World(object):
    """Model and monitor of one observer."""

    def __init__(self, c, subscribe, unsubscribe, broadcast):
        self.c = c
        self.subscribe_, self.unsubscribe_, self.broadcast_ = subscribe, unsubscribe, broadcast
        self.listeners = {}       # name -> listener (the only strong reference)
        self.events = {}          # name -> handled events
        self.subscribed = set()   # (event, name)
        self.active = []          # running broadcasts
        self.actions = {}         # (name, event) -> [action of the next delivery]
        self.serial = 0
        self.roots = []
        c.cleanup.append(self.listeners.clear)     # the global observer outlives the case

    def new(self, root, events, cls=Listener):
        self.serial += 1
        name = 'L%d' % self.serial
        self.listeners[name] = cls(self, root, events, name)
        self.events[name] = set(events)
        if cls not in (Listener, Bare):
            self.c.count('listener ' + cls.__name__.lower())
        return name

    def root_of(self, name):
        return None if isinstance(self.listeners[name], Bare) else self.listeners[name].root

    def subscribe(self, event, name):
        if (event, name) in self.subscribed:
            self.c.count('twice subscribed')
        self.subscribe_(event, self.listeners[name])
        self.subscribed.add((event, name))

    def unsubscribe(self, event, name):
        self.unsubscribe_(event, self.listeners[name])
        self.subscribed.discard((event, name))
        for b in self.active:
            b['always'].discard((event, name))

    def kill(self, name, cyclic=False):
        c = self.c
        listener = self.listeners.pop(name)
        cyclic = cyclic and not isinstance(listener, Slots)
        if cyclic:
            listener.me = listener
        ref = weakref.ref(listener)
        self.subscribed = set((e, n) for e, n in self.subscribed if n != name)
        for b in self.active:
            b['always'] = set((e, n) for e, n in b['always'] if n != name)
        del listener
        if cyclic:
            gc.collect()
            c.count('cyclic death')
        if not self.active:
            c.ok(ref() is None, 'the observer keeps a dropped listener alive')
        c.count('deaths')

    def deliver(self, listener, event, msg):
        c = self.c
        c.ok(listener is not None, 'event %r delivered to a dead listener' % event)
        name = listener.name
        c.ok(bool(self.active), 'event %r delivered to %s without broadcast' % (event, name))
        b = self.active[-1]
        c.log('  ', event, '->', name)
        c.ok(b['event'] == event, 'handler of another event called', got=event, expected=b['event'])
        c.ok(msg is b['msg'], 'message of %s' % name, got=msg, expected=b['msg'])
        c.ok((event, name) in self.subscribed, '%s is not subscribed to %r' % (name, event))
        c.ok(name not in b['seen'], '%s got event %r twice' % (name, event))
        if b['root'] is not None:
            c.ok(self.root_of(name) is b['root'], '%s of another document got event %r' % (name, event))
        b['seen'].append(name)
        c.count('deliveries')
        for action in self.actions.pop((name, event), []):
            action()

    def begin(self, event, msg, root):
        expected = set((event, n) for e, n in self.subscribed if e == event and
                       (root is None or self.root_of(n) is root))
        self.c.count('not delivered: other root', len([1 for e, n in self.subscribed if e == event]) - len(expected))
        self.active.append({'event': event, 'msg': msg, 'root': root, 'seen': [], 'always': expected})

    def end(self):
        b = self.active.pop()
        missing = sorted(n for e, n in b['always'] if n not in b['seen'])
        self.c.ok(not missing, 'event %r did not reach %s' % (b['event'], missing), seen=b['seen'])
        self.c.count('broadcasts')
        if b['root'] is not None:
            self.c.count('broadcasts with root')
        if not b['seen']:
            self.c.count('silent broadcasts')

    def broadcast(self, event, msg=None, root=None):
        if self.active:
            self.c.count('nested')
        self.begin(event, msg, root)
        if root is None and self.c.rng.random() < 0.5:
            self.broadcast_(event, msg)
        else:
            self.broadcast_(event, msg=msg, root=root)
        self.end()


def make_action(w, rng):
    c = w.c
    what = rng.choice(('subscribe', 'subscribe', 'unsubscribe', 'unsubscribe', 'death', 'death', 'new', 'broadcast', 'many'))

    def action():
        names = sorted(w.listeners)
        if what in ('subscribe', 'many'):
            for _ in range(1 if what == 'subscribe' else 5):
                name = rng.choice(names)
                event = rng.choice(sorted(w.events[name]) or [None])
                if event:
                    w.subscribe(event, name)
                    c.count('subscribe in handler')
        elif what == 'new':
            name = w.new(rng.choice(w.roots), EVENTS)
            w.subscribe(w.active[-1]['event'] if w.active else EVENTS[0], name)
            c.count('subscribe in handler')
        elif what == 'unsubscribe':
            pairs = sorted(w.subscribed)
            if pairs:
                w.unsubscribe(*rng.choice(pairs))
                c.count('unsubscribe in handler')
        elif what == 'death':
            busy = set(n for b in w.active for n in b['seen'][-1:])
            names = [n for n in names if n not in busy]
            if names:
                w.kill(rng.choice(names), rng.random() < 0.02)
                c.count('death in handler')
        elif len(w.active) < 3:
            w.broadcast(rng.choice(EVENTS), object(), rng.choice(w.roots + [None]))
        c.log('   action', what)
    return action


def pure(c):
    """Histories on an observer of its own or on the global one."""
    rng = c.rng
    if rng.random() < 0.5:
        o = observer.Observer()
        w = World(c, o.subscribe, o.unsubscribe, o.broadcast)
    else:
        c.count('global observer')
        w = World(c, observer.subscribe, observer.unsubscripe, observer.broadcast)
    w.roots = [etree.Element('root') for _ in range(rng.randint(1, 3))]
    for r in w.roots:
        if rng.random() < 0.5:
            etree.SubElement(r, 'child')
        else:
            c.count('empty root')
    many = rng.random() < 0.02
    if many:
        c.count('many listeners')
    for _ in range(rng.choice((70, 300, 2500)) if many else rng.choice((0, 3, 5, 8))):
        name = w.new(rng.choice(w.roots), EVENTS, rng.choice((Listener, Listener, Equal)))
        for event in rng.sample(EVENTS, rng.randint(1, 3)):
            w.subscribe(event, name)
            c.log('subscribe', event, name)
    for step in range(rng.randint(6, 40)):
        op = rng.choice(('new', 'subscribe', 'subscribe', 'subscribe', 'unsubscribe', 'kill', 'broadcast', 'broadcast', 'broadcast',
                         'broadcast', 'action', 'action', 'refused', 'unknown'))
        names = sorted(w.listeners)
        if op == 'new' or not names:
            cls = rng.choice((Listener, Listener, Listener, Bare, Equal, Equal, Unhashable, Empty, Slots))
            if cls is Bare:
                c.count('no get_xmlroot')
            root = rng.choice(w.roots + [None]) if rng.random() < 0.3 else rng.choice(w.roots)
            name = w.new(root, EVENTS if cls is Slots else rng.sample(EVENTS, rng.randint(0, 3)), cls)
            c.log('new', name, sorted(w.events[name]))
            for event in sorted(w.events[name]):
                if rng.random() < 0.6:
                    w.subscribe(event, name)
                    c.log('subscribe', event, name)
        elif op == 'subscribe':
            name = rng.choice(names)
            for event in EVENTS:
                if event in w.events[name] and rng.random() < 0.6:
                    w.subscribe(event, name)
                    c.log(op, event, name)
        elif op == 'refused':
            name = rng.choice(names)
            event = rng.choice([e for e in EVENTS + ('other',) if e not in w.events[name]])
            e = c.raises(w.subscribe_, event, w.listeners[name])
            c.ok(isinstance(e, AttributeError), 'listener without handler: %r' % e)
            del e       # (its traceback refers to the listener)
            c.count('refused subscribe')
        elif op == 'unsubscribe':
            if w.subscribed:
                pair = rng.choice(sorted(w.subscribed))
                c.log(op, *pair)
                w.unsubscribe(*pair)
        elif op == 'unknown':
            event, name = rng.choice(EVENTS), rng.choice(names)
            if (event, name) not in w.subscribed:
                try:
                    w.unsubscribe_(event, w.listeners[name])
                except KeyError:
                    pass
                c.count('unsubscribe unknown')
        elif op == 'kill':
            name = rng.choice(names)
            c.log(op, name)
            w.kill(name, rng.random() < 0.05)
        elif op == 'action':
            if w.subscribed:
                event, name = rng.choice(sorted(w.subscribed))
                w.actions.setdefault((name, event), []).append(make_action(w, rng))
        else:
            event, root = rng.choice(EVENTS * 2 + ('other',)), rng.choice(w.roots + [None])
            there = sorted(n for e, n in w.subscribed if e == event)
            for _ in range(rng.choice((0, 0, 1, 2)) if there else 0):
                w.actions.setdefault((rng.choice(there), event), []).append(make_action(w, rng))
            msg = rng.choice((None, 0, '', 'text', ['list']))
            c.log(op, event, root is not None)
            w.broadcast(event, msg, root)
    # all those alive in the end
    for event in EVENTS:
        w.broadcast(event)


def saving(c):
    """Events of saved documents."""
    rng = c.rng
    w = World(c, observer.subscribe, observer.unsubscripe, None)
    docs = []
    for n in range(rng.randint(1, 3)):
        kind = rng.choice(('odt', 'ods', 'odg'))
        how = rng.choice(('new', 'bytes', 'path', 'flat'))
        path = c.path('d%d.%s' % (n, kind))
        if how == 'new':
            doc = lib.newdoc(kind, path if rng.random() < 0.5 else '')
            doc.docname = path
        elif how == 'flat':
            path = c.path('d%d.f%s' % (n, kind))
            lib.write(path, odf.xml(gen.flat_root(rng, kind)))
            doc = lib.opendoc(path)
        else:
            data = gen.package(rng, kind, hostile=0).tobytes()
            lib.write(path, data)
            doc = lib.open_by(how, data, path)
            doc.docname = path
        docs.append((doc, path))
        w.roots.append(doc.body.get_xmlroot())
    events = ('prepare_saving', 'post_saving')
    state = {}

    def edit():
        doc = state['doc']
        state['mark'] = 'edited %d' % rng.randint(0, 10 ** 9)
        doc.meta['title'] = state['mark']
        c.count('edited in handler')

    class Saving(Listener):
        pass

    for step in range(rng.randint(3, 10)):
        names = sorted(w.listeners)
        op = rng.choice(('listen', 'listen', 'save', 'save', 'save', 'kill', 'unsubscribe', 'fail', 'tobytes', 'move', 'move'))
        if op == 'listen' or not names:
            root = rng.choice(w.roots + [None]) if rng.random() < 0.2 else rng.choice(w.roots)
            name = w.new(root, events, rng.choice((Saving, Saving, Bare, Equal, Slots, Part, Part)))
            if isinstance(w.listeners[name], Part):
                w.listeners[name].move(rng.choice(docs)[0].body, rng.choice(('append', 'insert', 'nowhere')))
            for e in events:
                if rng.random() < 0.8:
                    w.subscribe(e, name)
            c.log(op, name, w.roots.index(root) if root is not None else None)
        elif op == 'kill':
            w.kill(rng.choice(names))
            c.log(op)
        elif op == 'unsubscribe':
            if w.subscribed:
                w.unsubscribe(*rng.choice(sorted(w.subscribed)))
                c.log(op)
        elif op == 'move':
            parts = [n for n in names if isinstance(w.listeners[n], Part)]
            if parts:
                how = rng.choice(('append', 'append', 'insert', 'remove'))
                n = rng.randrange(len(docs))
                w.listeners[rng.choice(parts)].move(docs[n][0].body, how)
                c.log(op, n, how)
                c.count('listener moved')
        elif op == 'tobytes':
            rng.choice(docs)[0].tobytes()
        else:
            doc, path = rng.choice(docs)
            n = [d for d, p in docs].index(doc)
            root = w.roots[n]
            state.update(doc=doc, mark=None)
            before = lib.read(path) if os.path.exists(path) else None
            phases = []
            saver = SaveMonitor(w, root, phases, path, before)
            if rng.random() < 0.5:
                own = sorted(x for e, x in w.subscribed if e == 'prepare_saving' and w.root_of(x) is root)
                if own:
                    w.actions[(rng.choice(own), 'prepare_saving')] = [edit]
            c.log(op, n, type(doc).__name__)
            w.active.append(saver)
            if op == 'fail':
                saver['may fail'] = True
                doc.docname = c.path('missing/folder/x.odt')
                c.raises(doc.save)
                doc.docname = path
                w.active.pop()
                saver.finish(failed=True)
                c.count('failed saves')
                w.actions.clear()
                continue
            if rng.random() < 0.5:
                doc.save()
            else:
                doc.saveas(path)
            w.active.pop()
            saver.finish()
            w.actions.clear()
            if state['mark']:
                new = lib.opendoc(path)
                c.same(new.meta['title'], state['mark'], 'edited before saving')
            if n >= 0 and 'fpath' not in state and path.split('.')[-1].startswith('f'):
                c.count('flat save')
            c.count('saves')


class SaveMonitor(dict):
    """Takes the place of a broadcast while a document is saved."""

    def __init__(self, world, root, phases, path, before):
        dict.__init__(self, root=root, msg=None, seen=self)
        self.world, self.path, self.before = world, path, before
        self.got = {'prepare_saving': [], 'post_saving': []}
        self.want = {}
        for e in self.got:
            self.want[e] = set(n for ev, n in world.subscribed if ev == e and world.root_of(n) is root)
        self.phase = None
        self['always'] = set()

    # the current broadcast as deliver() sees it
    def __getitem__(self, key):
        if key == 'event':
            return self.phase
        return dict.__getitem__(self, key)

    def __contains__(self, name):      # 'seen'
        return name in self.got[self.phase]

    def append(self, name):
        self.got[self.phase].append(name)
        self.world.c.count('save events')

    def enter(self, event):
        c = self.world.c
        c.ok(event in self.got, 'unknown event %r' % event)
        if event == 'prepare_saving':
            c.ok(self.phase != 'post_saving', 'prepare_saving after post_saving')
            now = lib.read(self.path) if os.path.exists(self.path) else None
            c.ok(now == self.before, 'the file is already written before prepare_saving')
        else:
            c.ok(os.path.exists(self.path) and lib.read(self.path) != self.before,
                 'the file is not yet written at post_saving')
        self.phase = event

    def finish(self, failed=False):
        c = self.world.c
        for event in self.got:
            if failed and event == 'post_saving':
                continue
            c.ok(set(self.got[event]) == self.want[event] and len(self.got[event]) == len(self.want[event]),
                 '%s reached %s' % (event, sorted(self.got[event])), expected=sorted(self.want[event]))


def patched_deliver(self, listener, event, msg):
    if self.active and isinstance(self.active[-1], SaveMonitor):
        self.active[-1].enter(event)
    return World.plain_deliver(self, listener, event, msg)


World.plain_deliver = World.deliver
World.deliver = patched_deliver


def case(c):
    if c.rng.random() < 0.75:
        pure(c)
    else:
        saving(c)
