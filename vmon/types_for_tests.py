"""importable classes used by the workloads"""
import collections, dataclasses, enum, functools, typing


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class SInt(enum.IntEnum):
    ONE = 1
    TWO = 2


class SFlag(enum.IntFlag):
    A = 1
    B = 2


Point = collections.namedtuple('Point', 'x y')


class TPoint(typing.NamedTuple):
    a: int
    b: str = 'x'


@dataclasses.dataclass(frozen=True)
class Frozen:
    a: int
    b: str


@dataclasses.dataclass
class Data:
    a: object = None
    b: object = None


class Plain:
    """instance with attributes, equality by state"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__
    __hash__ = None


class PlainSub(Plain):
    pass


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, other):
        return type(self) is type(other) and (self.a, self.b) == (other.a, other.b)

    def __hash__(self):
        return hash(repr(self.a))


class Reduced:
    """pickled through __reduce__"""

    def __init__(self, v):
        self.v = v

    def __reduce__(self):
        return Reduced, (self.v,)

    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v


class StateD:
    def __init__(self, v):
        self.v = v
        self.cache = 'not stored'

    def __getstate__(self):
        return {'v': self.v}

    def __setstate__(self, st):
        self.v = st['v']
        self.cache = 'not stored'

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__


class Unpicklable:
    def __reduce_ex__(self, proto):
        raise TypeError('this object cannot be pickled')


class MyError(ValueError):
    def __eq__(self, other):
        return type(self) is type(other) and self.args == other.args


class ListSub(list):
    pass


class ListSub2(ListSub):
    extra = 'class attribute'


class TupleSub(tuple):
    pass


class SetSub(set):
    pass


class DictSub(dict):
    pass


class DictSub2(DictSub):
    pass


class StrSub(str):
    pass


class StrSub2(StrSub):
    pass


class BytesSub(bytes):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class ComplexSub(complex):
    pass


class OrderedSub(collections.OrderedDict):
    pass


class Mixin:
    def hello(self):
        return 'hello'


class MixedList(Mixin, list):
    pass


class MixedDict(Mixin, dict):
    pass


class MixedInt(Mixin, int):
    pass


def func(x=1):
    return x + 1


def func2(*a, **k):
    return a, k


class Outer:
    class Inner:
        def __init__(self, v):
            self.v = v

        def __eq__(self, other):
            return type(self) is type(other) and self.v == other.v
        __hash__ = None

    @staticmethod
    def smeth():
        return 1

    @classmethod
    def cmeth(cls):
        return cls


class Custom:
    """class with its own loader (see vmon.customs)"""

    def __init__(self, v, fail=None):
        self.v, self.fail = v, fail

    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v
    __hash__ = None


class FailLoad:
    """picklable, but cannot be unpickled while ARMED"""
    ARMED = False
    EXC = RuntimeError

    def __init__(self, v=0):
        self.v = v

    def __eq__(self, other):
        return type(self) is type(other) and self.v == other.v
    __hash__ = None

    def __setstate__(self, st):
        if FailLoad.ARMED:
            raise FailLoad.EXC('cannot be unpickled')
        self.__dict__.update(st)


class FailDump:
    EXC = TypeError

    def __reduce_ex__(self, proto):
        raise FailDump.EXC('cannot be pickled')


class StrEnumLike(str, enum.Enum):
    A = 'a value'
    B = 'b'


class SStr(enum.StrEnum):
    X = 'x'
    Y = 'why'


class InitList(list):
    """same signature as list, own __init__"""

    def __init__(self, *args):
        super().__init__(*args)
        self.made = True


class NewTuple(tuple):
    def __new__(cls, it=()):
        self = super().__new__(cls, it)
        return self

    def total(self):
        return len(self)


class NewStr(str):
    def __new__(cls, v=''):
        return super().__new__(cls, v)


class SlotList(list):
    __slots__ = ()


class InitDict(dict):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.count = len(self)


class FloatNew(float):
    def __new__(cls, v=0.0):
        return super().__new__(cls, v)


class DefSub(collections.defaultdict):
    pass


class CounterSub(collections.Counter):
    pass


class PointSub(Point):
    def norm(self):
        return self.x


class Outer2:
    class InnerList(list):
        pass

    class InnerStr(str):
        pass


class EqList(list):
    """own equality must not be relied upon by dump"""

    def __eq__(self, other):
        raise RuntimeError('do not compare')
    __hash__ = None


class FalsyList(list):
    def __bool__(self):
        return False


class FalsyInt(int):
    def __bool__(self):
        return False


class FalsyDict(dict):
    def __bool__(self):
        return False


# class names beyond ASCII
class ListÜ(list):
    pass


class Strñ(str):
    pass


class Bytes数(bytes):
    pass


class Intё(int):
    pass


class Dictø(dict):
    pass


class str_(str):            # names resembling those of the base classes
    pass


class bytes_(bytes):
    pass


class Namespace:
    class str(str):
        pass

    class bytes(bytes):
        pass

    class int(int):
        pass

    class list(list):
        pass

    class dict(dict):
        pass
