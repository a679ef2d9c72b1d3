"""Abstract store: objects with byte-addressed cells."""
from .terms import *
from .values import *
from .facts import EMPTY


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'log', 'lazy', 'alive', 'name', 'owner', 'ro',
                 'maynull', 'esz', 'et', 'key', 'gen', 'loc', 'erange', 'touched')

    def __init__(self, id, kind, size, name, lazy=None):
        self.id, self.kind, self.size, self.name, self.lazy = id, kind, size, name, lazy
        self.cells = {}
        self.log = ()
        self.alive = True
        self.owner = None
        self.ro = None
        self.maynull = None
        self.esz = None
        self.et = None
        self.key = None
        self.gen = 0
        self.loc = None
        self.erange = None
        self.touched = False

    def clone(self):
        o = Obj.__new__(Obj)
        for s in Obj.__slots__:
            setattr(o, s, getattr(self, s))
        o.cells = dict(self.cells)
        return o

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class State:
    __slots__ = ('objs', 'facts', 'env', 'flags', 'trail', 'dead', 'owned')

    def __init__(self):
        self.objs = {}
        self.facts = EMPTY
        self.env = {}
        self.flags = {}
        self.trail = ()
        self.dead = {}
        self.owned = set()

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.facts = self.facts
        s.env = dict(self.env)
        s.flags = dict(self.flags)
        s.trail = self.trail
        s.dead = dict(self.dead)
        s.owned = set()
        self.owned = set()
        return s

    def wobj(self, oid):
        """object ready to be written"""
        o = self.objs[oid]
        if oid not in self.owned:
            o = o.clone()
            self.objs[oid] = o
            self.owned.add(oid)
        return o

    def inexact(self, why):
        s = self.flags.get('inexact')
        if s is None or why not in s:
            self.flags['inexact'] = (s or ()) + (why,)
