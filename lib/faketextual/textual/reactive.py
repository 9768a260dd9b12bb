class reactive:
    """An attribute with a default; a widget may watch it."""

    def __init__(self, default, init=True, **_):
        self.default = default

    def __class_getitem__(cls, _):
        return cls

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, cls=None):
        return self if obj is None else obj.__dict__.get("_r_" + self.name, self.default)

    def __set__(self, obj, value):
        old = self.__get__(obj)
        obj.__dict__["_r_" + self.name] = value
        watch = getattr(obj, "watch_" + self.name, None)
        if watch and old != value:
            watch(value)
