"""One check per property."""
import importlib

WHERE = {
    "C01": "rendering", "C02": "rendering", "C03": "rendering",
    "C04": "rendering", "C05": "rendering", "C11": "rendering",
    "C12": "rendering", "C16": "rendering", "C18": "rendering",
    "C19": "rendering", "C13": "recursion", "C10": "streams",
    "C21": "annotations", "C06": "history", "C07": "threads",
    "C08": "compiling", "C09": "chunks", "C14": "hashing",
    "C15": "extraction", "C17": "files", "C20": "process", "C25": "process",
}


def find(prop):
    mod = importlib.import_module("simtal.checks." + WHERE[prop])
    return getattr(mod, prop)()
