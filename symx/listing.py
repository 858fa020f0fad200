"""Case names of a property without importing the code under test."""
import importlib


def _cases(pid):
    return list(importlib.import_module(f"props.{pid}").cases())


def names(pid, tier):
    return [c[0] for c in _cases(pid) if c[1].get("tier", "quick") == "quick" or tier == "thorough"]


def budgets(pid):
    return {c[0]: c[1].get("budget", 60) for c in _cases(pid)}


def meta(pid):
    return getattr(importlib.import_module(f"props.{pid}"), "META", {})
