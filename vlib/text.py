"""Normal form of texts that contain numbers (shared by mc and ref)."""
import re as _re

I32 = (-2**31, 2**31 - 1)
NUM = _re.compile(r"-?(?:0|[1-9][0-9]{0,9})(?![0-9])")


class SymText:
    """Marks a symbolic number inside a text."""
    table = []

    @classmethod
    def mark(cls, v):
        cls.table.append(v)
        return "\x01%d\x02" % (len(cls.table) - 1)

    @classmethod
    def split(cls, text):
        args = []

        def rep(m):
            args.append(cls.table[int(m.group(1))])
            return "\0"
        t = _re.sub("\x01(\\d+)\x02", rep, text)
        return args, t


def norm_parts(parts):
    """parts: str | domain int  ->  (skeleton, values).

    Decimal numerals inside texts count as values too, so that a constant
    printed as text and the same number printed from a score are equal.
    """
    skel = []
    args = []
    buf = ""

    def flush():
        nonlocal buf
        t = buf
        buf = ""
        i = 0
        out = ""
        while i < len(t):
            if t[i] == "\x01":
                j = t.index("\x02", i)
                skel.append(out)
                out = ""
                args.append(SymText.table[int(t[i + 1:j])])
                i = j + 1
                continue
            m = NUM.match(t, i)
            if m and not (i and t[i - 1].isdigit()) and \
                    I32[0] <= int(m.group(0)) <= I32[1] and \
                    str(int(m.group(0))) == m.group(0):
                skel.append(out)
                out = ""
                args.append(int(m.group(0)))
                i = m.end()
                continue
            out += t[i]
            i += 1
        skel.append(out)

    for p in parts:
        if isinstance(p, str):
            buf += p
        else:
            flush()
            args.append(p)
    flush()
    return tuple(skel), args


def restyle(parts):
    """Replace section-sign codes by one marker per change of style."""
    cur = last = (None, ())
    out = []
    for p in parts:
        if not isinstance(p, str):
            if cur != last:
                out.append(style_mark(cur))
                last = cur
            out.append(p)
            continue
        i = 0
        while i < len(p):
            c = p[i]
            if c == "\xa7" and i + 1 < len(p):
                k = p[i + 1]
                if k == "\x01":
                    from .sym import Unsupported
                    raise Unsupported("style code taken from a value")
                i += 2
                if k == "r":
                    cur = (None, ())
                elif k in "klo":
                    cur = (cur[0], tuple(sorted(set(cur[1]) | {k})))
                else:
                    cur = (k, cur[1])
                continue
            if cur != last:
                out.append(style_mark(cur))
                last = cur
            out.append(c)
            i += 1
    return out


def style_mark(st):
    return "\x04%s%s\x05" % (st[0] or "-", "".join(st[1]))


NUMTOK = _re.compile(r"([~^]?)(-?)(\d+)\.(\d+)(?![^ ])|([~^])-?0(?![^ ])")


def norm_numbers(text):
    """One form for the numbers of a command: 1.500 is 1.5, ~0.0 is ~."""
    def rep(m):
        if m.group(5):
            return m.group(5)
        k, neg, ip, fp = m.group(1, 2, 3, 4)
        fp = fp.rstrip("0")
        t = ip.lstrip("0") + ("." + fp if fp else "")
        if not ip.strip("0") and not fp:
            return k or "0"
        return k + neg + (t if t[0] != "." else "0" + t)
    if text.startswith("ride "):
        text = _re.sub("  +", " ", text)
    text = _re.sub(r"(?<![^ ])" + NUMTOK.pattern, rep, text)
    return _re.sub("\0\\.0+(?![^ ])", "\0", text)
