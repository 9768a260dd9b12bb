from collections import deque


class NoMatches(Exception):
    pass


class TooManyMatches(Exception):
    pass


QUEUE = deque()
BUSY = [False]


class Widget:
    def __init__(self, *children, id=None, classes=None, name=None, disabled=False):
        self.id = id
        self.classes = set((classes or "").split())
        self.parent = None
        self._given = children
        self.children = []
        self.mounted = False

    def compose(self):
        return iter(self._given)

    def mount_tree(self):
        for c in self.compose():
            c.parent = self
            self.children.append(c)
            c.mount_tree()
        self.mounted = True

    def walk(self):
        for c in self.children:
            yield c
            yield from c.walk()

    def query(self, selector):
        if not isinstance(selector, str):
            return [w for w in self.walk() if isinstance(w, selector)]
        if selector.startswith("#"):
            return [w for w in self.walk() if w.id == selector[1:]]
        if selector.startswith("."):
            return [w for w in self.walk() if selector[1:] in w.classes]
        return [w for w in self.walk() if type(w).__name__ == selector]

    def query_one(self, selector, expect_type=None):
        found = self.query(selector)
        if not found:
            raise NoMatches(f"No nodes match {selector!r}")
        return found[0]

    def query_exactly_one(self, selector, expect_type=None):
        found = self.query(selector)
        if len(found) > 1:
            raise TooManyMatches(f"{selector!r}")
        return self.query_one(selector)

    def add_class(self, *names):
        self.classes.update(names)
        return self

    def remove_class(self, *names):
        self.classes.difference_update(names)
        return self

    def set_class(self, add, *names):
        return self.add_class(*names) if add else self.remove_class(*names)

    def toggle_class(self, *names):
        self.classes.symmetric_difference_update(names)
        return self

    def has_class(self, *names):
        return set(names) <= self.classes

    def post_message(self, message):
        if not self.mounted:
            return False
        message.sender = self
        QUEUE.append(message)
        return True

    def handle(self, message):
        name = type(message).handler()
        for cls in type(self).__mro__:
            for f in vars(cls).values():
                for kind, selector in getattr(f, "_on", ()):
                    if isinstance(message, kind) and (selector is None or selector == "#" + str(message.sender.id)):
                        f(self, message)
            if name in vars(cls):
                f = vars(cls)[name]
                f(self, message) if f.__code__.co_argcount > 1 else f(self)


def settle():
    """Handle the messages that wait, each by its sender and then what the sender is in."""
    if BUSY[0]:
        return
    BUSY[0] = True
    try:
        while QUEUE:
            m = QUEUE.popleft()
            w = m.sender
            while w is not None and not m.stopped:
                w.handle(m)
                w = w.parent
    finally:
        BUSY[0] = False
        QUEUE.clear()
