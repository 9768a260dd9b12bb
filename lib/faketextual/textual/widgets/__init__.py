from rich.text import Text

from ..message import Message
from ..reactive import reactive
from ..widget import Widget
from ._tree import TreeNode


class Static(Widget):
    def __init__(self, content="", *, expand=False, shrink=False, markup=True, name=None, id=None, classes=None, disabled=False):
        super().__init__(id=id, classes=classes)
        self.content = content

    def update(self, content=""):
        self.content = content


Label = Static


class Header(Widget):
    pass


class Footer(Widget):
    pass


class TextArea(Widget):
    class Changed(Message):
        def __init__(self, text_area):
            super().__init__()
            self.text_area = text_area

        @property
        def control(self):
            return self.text_area

    def __init__(self, text="", *, language=None, soft_wrap=True, read_only=False, id=None, tooltip=None, classes=None, theme=None, tab_behavior="focus", show_line_numbers=False, **_):
        super().__init__(id=id, classes=classes)
        self._text = text
        self.read_only = read_only
        self.language = language

    @classmethod
    def code_editor(cls, text="", **k):
        return cls(text, **k)

    @property
    def text(self):
        return self._text

    @text.setter
    def text(self, value):
        if not isinstance(value, str):
            raise TypeError(f"not a text: {type(value).__name__}")
        self._text = value
        self.post_message(self.Changed(self))

    load_text = text.fset


class Switch(Widget):
    class Changed(Message):
        def __init__(self, switch, value):
            super().__init__()
            self.switch, self.value = switch, value

        @property
        def control(self):
            return self.switch

    value = reactive(False)

    def __init__(self, value=False, *, id=None, classes=None, animate=True, **_):
        super().__init__(id=id, classes=classes)
        self.value = value

    def watch_value(self, value):
        self.post_message(self.Changed(self, value))

    def toggle(self):
        self.value = not self.value
        return self


class RichLog(Widget):
    def __init__(self, *, max_lines=None, min_width=78, wrap=False, highlight=False, markup=False, auto_scroll=True, id=None, classes=None, **_):
        super().__init__(id=id, classes=classes)
        self.markup = markup
        self.lines = []

    def write(self, content, *_, **__):
        if isinstance(content, Text):
            self.lines.append(content.plain)
        elif isinstance(content, str):
            self.lines.append(Text.from_markup(content).plain if self.markup else content)
        else:
            self.lines.append(repr(content))
        return self

    def clear(self):
        self.lines.clear()
        return self


class Tree(Widget):
    def __init__(self, label, data=None, *, id=None, classes=None, **_):
        super().__init__(id=id, classes=classes)
        self.root = TreeNode(label, data)

    def clear(self):
        self.root = TreeNode(self.root.label, self.root.data)
        return self

    def reset(self, label, data=None):
        self.root = TreeNode(label, data)
        return self
