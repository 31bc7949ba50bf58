"""Per-path environment: file system, output, process state."""
from .fsmodel import ModelFS


class Env:
    def __init__(self):
        self.fs = ModelFS()
        self.stdout = []
        self.logs = []
        self.environ = {}
        self.now = 1700000000.0
        self.hashed = []
        self.hashed_exact = []      # contents whose real digest has been used
        self.argv = ["prog"]


_cur = Env()


def current():
    return _cur


def reset():
    global _cur
    _cur = Env()
    return _cur
