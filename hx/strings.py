"""Which strings are possible where a state is: facts about an unknown string, evaluated for one text."""
from .dom import *


class Unknown(Exception):
    pass


def value(t, name, txt):
    """value of a term when the string `name` is txt"""
    def v(x):
        return value(x, name, txt)
    if t == name:
        return txt
    k = t[0]
    if k in ("i", "str"):
        return t[1]
    if k == "lin":
        return t[1] + sum(v(x) * n for x, n in t[2])
    if k == "not":
        return int(not v(t[1]))
    if k == "eq":
        return int(v(t[1]) == v(t[2]))
    if k == "lt":
        return int(v(t[1]) < v(t[2]))
    if k != "ap":
        raise Unknown()
    f, a = t[1], t[2:]
    if f in ("size", "strlen"):
        return len(v(a[0]))
    if f in ("data", "cstr"):
        return v(a[0])
    if f == "at":
        s, i = v(a[0]), v(a[1])
        if i > len(s):
            raise Unknown()
        return ord((s + "\0")[i])
    if f == "chr":
        return chr(v(a[0]) & 255)
    if f == "streq":
        return int(v(a[0]) == v(a[1]))
    if f == "compare" and len(a) == 2:
        x, y = v(a[0]), v(a[1])
        return (x > y) - (x < y)
    if f == "substr":
        n = v(a[2]) if len(a) > 2 else 2 ** 64
        return v(a[0])[v(a[1]) if len(a) > 1 else 0:][:n]
    if f in ("prefix", "sv") and len(a) > 1:
        return v(a[0])[:v(a[1])]
    if f == "cat":
        return "".join(v(x) for x in a)
    if f in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
        s, w, p = v(a[0]), v(a[1]), v(a[2]) if len(a) > 2 else 0
        if f == "find":
            r = s.find(w, p)
        elif f == "rfind":
            r = s.rfind(w)
        else:
            i = [n for n, c in enumerate(s) if (c in w) != f.endswith("not_of") and (n >= p or "last" in f)]
            r = -1 if not i else i[-1] if "last" in f else i[0]
        return r % 2 ** 64
    raise Unknown()


def possible(st, name, txt):
    """can the string be txt in this state: True, False, or None (facts about it that are not understood)"""
    about = lambda x: x == name
    sure = True
    facts = []
    for t, d in st.dom.items():
        if mentions(t, about):
            facts.append((t, d))
    for t, (lo, hi, ne, al) in facts:
        try:
            v = value(t, name, txt)
        except (Unknown, TypeError, IndexError):
            sure = False
            continue
        if not isinstance(v, int):
            sure = False
            continue
        if lo is not None and v < lo or hi is not None and v > hi or v in (ne or ()) or al is not None and v not in al:
            return False
    for c, ts in st.rels:
        if not any(mentions(x, about) for x, k in ts):
            continue
        try:
            if c + sum(value(x, name, txt) * k for x, k in ts) > 0:
                return False
        except (Unknown, TypeError, IndexError):
            sure = False
    pairs = [(a, b, True) for a, c in st.eqs.items() for b in (c if isinstance(c, (set, frozenset, list, tuple)) else ()) if isinstance(b, tuple)]
    pairs += [(p[0], p[1], False) for p in st.nes if isinstance(p, tuple) and len(p) == 2]
    for a, b, same in pairs:
        if not (mentions(a, about) or mentions(b, about)):
            continue
        try:
            if (value(a, name, txt) == value(b, name, txt)) != same:
                return False
        except (Unknown, TypeError, IndexError):
            sure = False
    return True if sure else None
