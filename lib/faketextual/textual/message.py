class Message:
    def __init__(self):
        self.sender = None
        self.stopped = False

    def __init_subclass__(cls, **_):
        super().__init_subclass__()

    def stop(self):
        self.stopped = True

    @classmethod
    def handler(cls):
        names = cls.__qualname__.split(".")[-2:]
        out = ""
        for n in names:
            for i, c in enumerate(n):
                if c.isupper() and i and (not n[i - 1].isupper() or n[i + 1:i + 2].islower()):
                    out += "_"
                out += c.lower()
            out += "_"
        return "on_" + out[:-1]
