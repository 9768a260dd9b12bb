from .widget import Widget


class Horizontal(Widget):
    pass


class Vertical(Widget):
    pass


class Container(Widget):
    pass


class VerticalScroll(Widget):
    pass


class HorizontalScroll(Widget):
    pass
