"""Value specifications (JSON) shared by the simulated engines and the model.

["s", text]  ["o", text] object  ["i", number]  ["b", 0|1]  ["n"] nothing  ["d"] default
["l", [text...]]  sequence       ["map", {name: text}]
["m", {"id", "domain", "default", "mapping"}]  message object
["h", [nodes]]  well-formed markup      ["x", text]  malformed markup
["mac", file, name]  ["badmode"]  ["badver", which]  macro bindings
"""
import re

_ph = re.compile(r"\$\{([_A-Za-z][-\w]*)\}")


def interpolate(s, mapping):
    return _ph.sub(lambda m: str(mapping[m.group(1)])
                   if m.group(1) in mapping else m.group(0), s)


PLAIN = False                     # no special answers


def translation(msgid, domain, mapping):
    """What the simulated translation service answers."""
    if PLAIN:
        pass
    elif msgid.endswith("7"):
        return ""
    elif msgid.endswith("-none"):
        return None               # of an attribute: no translation
    return "{%s|%s}" % (domain, interpolate(msgid, mapping or {}))


_dummy = re.compile(r"\$(?:([_A-Za-z][-\w]*)|\{([_A-Za-z][-\w]*)\})")


def bundled_translation(msgid, domain, mapping):
    """What the translation service bundled with zope.tal answers, or None
    for requests it fails for (names without a value)."""
    text = getattr(msgid, domain)() if domain in METHODS else msgid.upper()
    mapping = mapping or {}
    names = [(a or b).lower() for a, b in _dummy.findall(text)]
    if not all(n in mapping for n in names):
        return None
    return _dummy.sub(lambda m: str(mapping[m.group(m.lastindex).lower()]), text)


METHODS = ("lower", "title", "swapcase")


def pick(specs, occ):
    return specs[occ % len(specs)]


EXC = ["RuntimeError", "KeyError", "TypeError", "IndexError", "AttributeError",
       "ValueError", "AssertionError", "MemoryError", "NameError", "OSError",
       "UnicodeError", "ZeroDivisionError", "RecursionError", "TALError",
       "METALError", "TALExpressionError", "LookupError", "NotImplementedError",
       "ArithmeticError", "EOFError", "ImportError", "ReferenceError", "Odd",
       "UnicodeEncodeError", "UnicodeDecodeError", "StopIteration",
       "StopAsyncIteration", "BlockingIOError", "InterruptedError",
       "TimeoutError", "ConnectionError", "FileNotFoundError", "PermissionError",
       "BufferError", "UserWarning", "DeprecationWarning", "I18NError",
       "HTMLParseError", "ExpatError", "CompilerError", "ExceptionGroup",
       "SubKeyError", "BrokenPipeError", "ConnectionResetError",
       "ConnectionAbortedError", "ConnectionRefusedError", "ChildProcessError",
       "FileExistsError", "IsADirectoryError", "NotADirectoryError",
       "ProcessLookupError", "FloatingPointError", "OverflowError", "SyntaxError",
       "IndentationError", "SystemError", "UnboundLocalError",
       "ModuleNotFoundError", "RuntimeWarning", "UnicodeWarning", "Exception",
       "NestingError", "Unprintable"]
# to some engines and iterators these are the end of a sequence
ENDS = ("IndexError", "LookupError", "StopIteration", "StopAsyncIteration")
BASE_EXC = ["KeyboardInterrupt", "SystemExit", "GeneratorExit", "OddBase"]


class Odd(Exception):
    """An exception whose text and comparison are of no help to anybody."""

    def __init__(self, tag):
        Exception.__init__(self)
        self.tag = tag

    def __str__(self):
        return ""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return False

    __hash__ = object.__hash__


class OddBase(BaseException):
    pass


class SubKeyError(KeyError):
    pass


class Unprintable(Exception):
    """An exception that cannot be shown."""

    def __str__(self):
        raise RuntimeError("cannot be shown")

    __repr__ = __str__


class Thing:
    """A value that is neither text nor a number, false, and equal to anything."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


def make_exception(kind, tag):
    import builtins
    if kind == "Odd":
        return Odd(tag)
    if kind == "OddBase":
        return OddBase(tag)
    if kind == "Unprintable":
        return Unprintable(tag)
    if kind == "NestingError":
        from zope.tal.htmltalparser import NestingError
        return NestingError(["simulated"], tag, (77, 7))
    if kind == "SubKeyError":
        return SubKeyError(tag)
    if kind == "UnicodeEncodeError":
        return UnicodeEncodeError("ascii", "\xe9", 0, 1, tag)
    if kind == "UnicodeDecodeError":
        return UnicodeDecodeError("ascii", b"\xe9", 0, 1, tag)
    if kind == "HTMLParseError":
        from zope.tal.htmltalparser import HTMLParseError
        return HTMLParseError("simulated " + tag, (77, 7))
    if kind == "ExpatError":
        from xml.parsers.expat import ExpatError
        return ExpatError("simulated " + tag)
    if kind == "CompilerError":
        from zope.tal.dummyengine import CompilerError
        return CompilerError("simulated " + tag)
    if kind == "ExceptionGroup":
        return ExceptionGroup("simulated " + tag, [KeyError(tag)])
    if kind in ("TALError", "METALError", "TALExpressionError", "I18NError"):
        from zope.tal import taldefs
        return getattr(taldefs, kind)("simulated " + tag, (77, 7))
    return getattr(builtins, kind)("simulated " + tag)
