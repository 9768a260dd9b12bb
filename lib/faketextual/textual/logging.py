import logging


class TextualHandler(logging.Handler):
    def emit(self, record):
        pass
