"""All checks by property id."""
import importlib

MODULES = {
    "C01": "parsing", "C02": "parsing", "C03": "parsing", "C04": "parsing",
    "C06": "effects", "C27": "exported", "C08": "glue", "C13": "frontends", "C29": "frontends", "C24": "convert", "C25": "convert", "C21": "cmdline", "C22": "cmdline", "C23": "cmdline", "C09": "safety", "C10": "safety", "C11": "safety",
    "C32": "search", "C33": "building",
    "C15": "matching", "C30": "matching", "C31": "rulematch",
    "C05": "rulematch", "C07": "rulematch", "C28": "progress", "C16": "pipes", "C26": "nth", "C17": "tables", "C18": "tables", "C19": "serial", "C20": "serial", "C12": "objects", "C14": "objects",
}


class _Lazy(dict):
    def __missing__(self, k):
        m = importlib.import_module("hx.checks." + MODULES[k])
        return getattr(m, k.lower())


CHECKS = _Lazy()
