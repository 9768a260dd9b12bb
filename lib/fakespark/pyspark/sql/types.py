from ..core import STR, BOOL, LONG, DOUBLE, TS, arr


class DataType:
    _s = None

    def simple(self):
        return self._s


class StringType(DataType):
    _s = STR


class BooleanType(DataType):
    _s = BOOL


class IntegerType(DataType):
    _s = LONG


class LongType(DataType):
    _s = LONG


class DoubleType(DataType):
    _s = DOUBLE


class FloatType(DataType):
    _s = DOUBLE


class TimestampType(DataType):
    _s = TS


class ArrayType(DataType):
    def __init__(self, elementType, containsNull=True):
        self._s = arr(elementType.simple())
