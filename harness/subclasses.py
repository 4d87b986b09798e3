"""User-defined subclasses of the classes of the package, with all kinds of layouts."""
import uncertainties.core as core
from uncertainties import ufloat

AFF, VAR = core.AffineScalarFunc, core.Variable


def make():
    out = {}
    for prefix, base in (('R', AFF), ('V', VAR)):
        def new(name, bases, body, base=base):
            body = dict(body, __module__=__name__)
            out[name] = type(name, bases, body)
            return out[name]
        plain = new(prefix + 'Dict', (base,), {})
        new(prefix + 'Str', (base,), {'__slots__': 'x'})
        tup = new(prefix + 'Tuple', (base,), {'__slots__': ('x', 'y')})
        new(prefix + 'List', (base,), {'__slots__': ['x', 'y', 'z']})
        new(prefix + 'Map', (base,), {'__slots__': {'x': 'doc', 'y': None}})
        new(prefix + 'Empty', (base,), {'__slots__': ()})
        new(prefix + 'Weak', (base,), {'__slots__': ('x', '__weakref__')})
        new(prefix + 'WeakStr', (base,), {'__slots__': '__weakref__'})
        new(prefix + 'DictSlot', (base,), {'__slots__': ('x', '__dict__')})
        new(prefix + 'SlotThenDict', (tup,), {})
        new(prefix + 'SlotThenSlot', (tup,), {'__slots__': ('z',)})
        new(prefix + 'DictThenSlot', (plain,), {'__slots__': ('x',)})
        new(prefix + 'Deep', (out[prefix + 'SlotThenDict'],), {'__slots__': ('w',)})
        mix = type(prefix + 'Mixin', (object,), {'__module__': __name__,
                                                 'method': lambda self: 'm'})
        out[prefix + 'Mixin'] = mix
        new(prefix + 'Mixed', (mix, base), {})
        smix = type(prefix + 'SlottedMixin', (object,),
                    {'__module__': __name__, '__slots__': ()})
        out[prefix + 'SlottedMixin'] = smix
        new(prefix + 'MixedSlots', (smix, tup), {'__slots__': ('z',)})
        left = new(prefix + 'Left', (tup,), {'__slots__': ()})
        right = new(prefix + 'Right', (tup,), {})
        new(prefix + 'Diamond', (left, right), {})
        new(prefix + 'SameName', (tup,), {'__slots__': ('x',)})

    class RPrivate(AFF):
        __slots__ = ('__priv', 'x')
        priv = property(lambda self: self.__priv,
                        lambda self, v: setattr(self, '_RPrivate__priv', v))

    class VPrivate(VAR):
        __slots__ = ('__priv', 'x')
        priv = property(lambda self: self.__priv,
                        lambda self, v: setattr(self, '_VPrivate__priv', v))

    class _VUnder(VPrivate):
        __slots__ = ('__priv',)
        priv2 = property(lambda self: self.__priv,
                         lambda self, v: setattr(self, '_VUnder__priv', v))

    class VPrivateDict(VAR):
        def setp(self, v):
            self.__priv = v
        priv = property(lambda self: self.__priv, setp)

    for c in (RPrivate, VPrivate, _VUnder, VPrivateDict):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        out[c.__name__] = c
    return out


CLASSES = make()
globals().update(CLASSES)
RESULT_CLASSES = sorted((c for c in CLASSES.values() if issubclass(c, AFF)
                         and not issubclass(c, VAR)), key=lambda c: c.__name__)
VARIABLE_CLASSES = sorted((c for c in CLASSES.values() if issubclass(c, VAR)),
                          key=lambda c: c.__name__)

MISSING = '<missing>'


def has_dict(cls):
    return any('__dict__' in c.__dict__ for c in cls.__mro__)


def names(cls):
    "Names of the additional attributes that instances can have."
    out = set()
    for c in cls.__mro__:
        if c in (AFF, VAR, object):
            continue
        slots = c.__dict__.get('__slots__', ())
        for n in ([slots] if isinstance(slots, str) else slots):
            if not n.startswith('__'):
                out.add(n)
        out.update(n for n, v in c.__dict__.items() if isinstance(v, property))
    if has_dict(cls):
        out.update(('extra', 'other'))
    return sorted(out)


def fill(rng, o, others=()):
    "Sets some of the additional attributes."
    for n in names(type(o)):
        k = rng.random()
        if k < .25:
            continue
        setattr(o, n, rng.choice([1, None, 'text', (1, 2), 2.5, True, b'b', [1, [2]],
                                  {'k': [1]}]))


def attributes(o):
    return {n: repr(getattr(o, n, MISSING)) for n in names(type(o))}


def result(cls, value, like):
    "Instance of a class of results, with this value and the derivatives of 'like'."
    for part in ('_linear_part', 'linear_part'):
        if hasattr(like, part):
            return cls(value, getattr(like, part))
    return cls(value, dict(like.derivatives))
