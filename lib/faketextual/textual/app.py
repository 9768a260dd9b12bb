import os
import sys

from .widget import Widget

ComposeResult = object


class App(Widget):
    BINDINGS = []
    CSS_PATH = None

    def __init__(self, **_):
        super().__init__()
        self.notes = []

    def start(self):
        """Compose the widgets, as run() does before it waits for events."""
        if self.CSS_PATH and not os.path.exists(os.path.join(os.path.dirname(sys.modules[type(self).__module__].__file__), self.CSS_PATH)):
            raise FileNotFoundError(self.CSS_PATH)
        self.mount_tree()

    def press(self, key):
        for b in self.BINDINGS:
            if b[0] == key:
                return getattr(self, "action_" + b[1])()
        raise KeyError(key)

    def notify(self, message, *, title="", severity="information", timeout=None, markup=True):
        self.notes.append((title, message, severity))
