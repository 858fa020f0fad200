"""Lazy import, so that case names can be listed without loading TensorFlow."""
import importlib


class Lazy:
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, k):
        return getattr(importlib.import_module(self._n), k)
