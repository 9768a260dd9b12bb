"""A model of the parts of Textual that an application of panes and switches uses: widgets found by their id, messages
that bubble from their sender to the application, reactive attributes, trees and logs whose texts are markup of rich.
Everything is synchronous: a message is handled when those before it are."""


def on(message, selector=None):
    def deco(f):
        f._on = [*getattr(f, "_on", []), (message, selector)]
        return f
    return deco
