from rich.text import Text


def process_label(label):
    text = Text.from_markup(label) if isinstance(label, str) else label
    return text.split()[0] if text.plain else text


class TreeNode:
    def __init__(self, label, data=None, expand=False, parent=None):
        self._label = process_label(label)
        self.data = data
        self.children = []
        self.is_expanded = expand
        self.parent = parent

    @property
    def label(self):
        return self._label

    @label.setter
    def label(self, label):
        self.set_label(label)

    def set_label(self, label):
        self._label = process_label(label)

    def add(self, label, data=None, *, before=None, after=None, expand=False, allow_expand=True):
        node = TreeNode(label, data, expand, self)
        self.children.append(node)
        return node

    def add_leaf(self, label, data=None, **k):
        return self.add(label, data)

    def expand(self):
        self.is_expanded = True
        return self

    def expand_all(self):
        self.is_expanded = True
        for c in self.children:
            c.expand_all()
        return self

    def remove_children(self):
        self.children.clear()
