"""Defines the classes of a scenario and reads what a user sees."""
from enc import attempt, enc
from runlmc.util.docs import inherit_doc


def name_of(kinds, j):
    return '__str__' if kinds[j] == 'special' else 'm%d' % j


def member(kind, k, j, doc):
    tag = 'value %d %d' % (k, j)
    if kind in ('method', 'special'):
        def f(self):
            return tag
        f.__doc__ = doc
        return f
    if kind == 'docprop':       # documented by property's own argument
        return property(lambda self: tag, doc=doc)
    if kind in ('prop', 'rwprop'):
        def g(self):
            return getattr(self, '_x%d' % j, tag)
        g.__doc__ = doc
        if kind == 'prop':
            return property(g)

        def s(self, v):
            setattr(self, '_x%d' % j, v)

        def d(self):
            delattr(self, '_x%d' % j)
        return property(g, s, d)
    if kind == 'attr':
        return tag
    if kind == 'static':
        def h():
            return tag
        h.__doc__ = doc
        return staticmethod(h)

    def c(cls):
        return tag
    c.__doc__ = doc
    return classmethod(c)


def doc_of(C, kinds, j):
    x = C.__dict__.get(name_of(kinds, j))
    if x is None:
        return 'absent'
    d = getattr(C, name_of(kinds, j)).__doc__
    if d and d == object.__str__.__doc__:
        return 'root'
    if not d:
        return ''
    return d[4:] if d.startswith('doc ') else 'other'


def works(C, kinds, k, j):
    n = name_of(kinds, j)
    if n not in C.__dict__:
        return True
    tag = 'value %d %d' % (k, j)
    try:
        o = C()
        if kinds[j] in ('method', 'special'):
            return getattr(o, n)() == tag
        if kinds[j] == 'attr':
            return getattr(o, n) == tag
        if kinds[j] in ('static', 'classm'):
            return getattr(C, n)() == tag and getattr(o, n)() == tag
        ok = getattr(o, n) == tag
        if kinds[j] == 'rwprop':
            setattr(o, n, 'new')
            ok = ok and getattr(o, n) == 'new'
            delattr(o, n)
            return ok and getattr(o, n) == tag
        try:
            setattr(o, n, 'new')
            return False
        except AttributeError:
            return ok
    except Exception:  # pylint: disable=broad-except
        return False


def replay(sc, ev):
    kinds = sc['mem']
    made = []
    for k, c in enumerate(sc['cls']):
        ns = {}
        for j, st in enumerate(c['st']):
            if st != 'abs':
                ns[name_of(kinds, j)] = member(
                    kinds[j], k, j, 'doc c%d' % (k + 1) if st == 'doc' else None)
        bases = tuple(made[b - 1] for b in c['bases']) or (object,)
        C = type('C%d' % (k + 1), bases, ns)
        o = enc(True)
        if c['dec']:
            o = attempt(lambda: inherit_doc(C) is C)
        made.append(C)
        e = {'op': 'define', 'k': k + 1, 'o': o}
        if o['k'] == 'bool':
            e['docs'] = [[doc_of(M, kinds, j) for j in range(len(kinds))]
                         for M in made]
            e['works'] = [[works(M, kinds, i, j) for j in range(len(kinds))]
                          for i, M in enumerate(made)]
        ev.append(e)
