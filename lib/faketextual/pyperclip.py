"""Stands in for pyperclip: records what is copied."""
COPIED = []


def copy(text):
    COPIED.append(text)
