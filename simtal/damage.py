"""Is a piece of markup well-formed?  Independent of zope.tal."""
import re
from xml.parsers import expat


def wellformed(s, mode):
    """True, False, or None if this oracle does not decide."""
    if mode == "xml":
        p = expat.ParserCreate(namespace_separator=" ")
        p.UseForeignDTD(False)
        try:
            p.Parse(("<foo>%s</foo>" % s).encode("utf-8"), True)
        except expat.ExpatError as e:
            return False
        return True
    tail = s[s.rfind("<"):] if "<" in s else ""
    if re.match(r"</?[a-zA-Z][^>]*$", tail) and \
            not re.search(r"<(!|\?|/?(script|style|textarea|title|plaintext|xmp|iframe"
                          r"|noembed|noframes))", s, re.I):
        return False              # ends inside a tag
    return None
