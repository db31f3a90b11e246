"""Values of documents and constants, and their texts.  A value is the JSON record which the TLA+ modules use (see spec/Values.tla),
with Go-specific extras (g: text of a number, gt: Go type) for the driver."""
from fractions import Fraction
import base64

U64 = (1 << 64) - 1
I64MAX = (1 << 63) - 1
I64MIN = -(1 << 63)


def limbs(fr):
    n = abs(fr) * 10 ** 12
    n = n.numerator // n.denominator
    s = 0 if n == 0 else (1 if fr > 0 else -1)
    m = []
    while n:
        m.append(n % 10000)
        n //= 10000
    return s, m


def plain(fr):
    """exact decimal text of a fraction with at most 12 decimals"""
    n = abs(fr) * 10 ** 12
    n = n.numerator // n.denominator
    i, f = divmod(n, 10 ** 12)
    t = str(i)
    if f:
        t += "." + ("%012d" % f).rstrip("0")
    return ("-" if fr < 0 and n else "") + t


def num(k, fr, gt=None):
    fr = Fraction(fr)
    s, m = limbs(fr)
    v = {"t": "num", "k": k, "s": s, "m": m, "g": plain(fr)}
    if gt:
        v["gt"] = gt
    return v


def add_num(v):
    """completes a number which has g only (from the driver)"""
    s, m = limbs(Fraction(v["g"]))
    v["s"], v["m"] = s, m
    return v


def I(n, gt=None):
    return num("i", n, gt)


def U(n, gt=None):
    return num("u", n, gt)


def B(x):
    """a constant of bytes"""
    return {"t": "bin", "c": codes(x)}


def F(x, gt=None):
    return num("f", Fraction(str(x)), gt)


def flt(x):
    """a double, written with as many decimals as it needs"""
    from decimal import Decimal
    v = num("f", Fraction(x))
    v["g"] = format(Decimal(repr(x)), "f")
    if v["g"].endswith(".0"):
        v["g"] = v["g"][:-2]
    return v


def jint(n):
    """an integer of a document"""
    if I64MIN <= n <= I64MAX:
        return num("i", n)
    if 0 <= n <= U64:
        return num("u", n)
    return num("f", n)


def codes(s):
    return [ord(c) for c in s]


def S(s):
    return {"t": "str", "c": codes(s)}


NULL = {"t": "null"}
TRUE = {"t": "bool", "b": True}
FALSE = {"t": "bool", "b": False}


def A(*e):
    return {"t": "arr", "e": list(e)}


def O(*kv):
    return {"t": "obj", "m": [{"k": k, "v": v} for k, v in kv]}


def text_of(cs):
    return "".join(map(chr, cs))


ESC = {0x22: '\\"', 0x5C: "\\\\", 0x08: "\\b", 0x0C: "\\f", 0x0A: "\\n", 0x0D: "\\r", 0x09: "\\t"}


class Style:
    """How to write a document: white space, escapes, spelling of numbers.  rng None: the compact canonical form"""

    def __init__(self, rng=None, ws=0.0, esc=0.0, shuffle=False, spell=0.0):
        self.rng, self.ws, self.esc, self.shuffle, self.spell = rng, ws, esc, shuffle, spell

    def space(self):
        if self.rng is None or self.rng.random() >= self.ws:
            return ""
        return "".join(self.rng.choice(" \t\n\r") for _ in range(self.rng.randint(1, 3)))


def u16(c):
    return "\\u%04x" % c


def jstr(cs, st):
    out = ['"']
    r = st.rng
    for c in cs:
        if c in (0x22, 0x5C) or c < 0x20:
            if c in ESC and (r is None or r.random() < 0.7):
                out.append(ESC[c])
            else:
                out.append(u16(c))
        elif r is not None and r.random() < st.esc:
            k = r.random()
            if c == 0x2F and k < 0.5:
                out.append("\\/")
            else:
                if c >= 0x10000:
                    d = c - 0x10000
                    t = u16(0xD800 + (d >> 10)) + u16(0xDC00 + (d & 0x3FF))
                else:
                    t = u16(c)
                if r.random() < 0.3:
                    t = t[:2] + t[2:6].upper() + (t[6:8] + t[8:].upper() if len(t) > 6 else "")
                out.append(t)
        else:
            out.append(chr(c))
    out.append('"')
    return "".join(out)


def jnum(v, st):
    g = v["g"]
    r = st.rng
    if v["k"] != "f":
        if r is not None and g == "0" and r.random() < st.spell:
            return "-0"
        return g
    if "." not in g and "e" not in g and not I64MIN <= int(g) <= U64 and (r is None or r.random() < 0.5):
        return g             # an integer which no integer type has
    if "." not in g and "e" not in g:
        g0 = g + ".0" if (r is None or r.random() < 0.5) else g + "e0"
    else:
        g0 = g
    if r is None or r.random() >= st.spell:
        return g0
    neg = g.startswith("-")
    d = g.lstrip("-")
    ip, _, fp = d.partition(".")
    k = r.randint(0, 5)
    z = r.randint(0, 3) if r.random() < 0.7 else r.choice([15, 17, 20, 30, 40, 64, 100, 330])
    if k == 0:
        t = ip + "." + (fp or "0") + "0" * z
    elif k == 1:
        t = ip + ("." + fp if fp else "") + r.choice(["e0", "E0", "e+0", "e-0", "E-00", "e00"])
    elif k == 2:  # shift the point to the right: integer mantissa
        mant = (ip + fp).lstrip("0") or "0"
        if mant != "0":
            t = mant + "0" * z + r.choice("eE") + "-" + "%d" % (len(fp) + z)
        else:
            t = mant + r.choice("eE") + "-" + "%d" % len(fp)
    elif k == 3:  # one digit before the point
        ds = (ip + fp).lstrip("0")
        if not ds:
            t = "0.0e5"
        else:
            e = len(ip) - 1 - (len(ip + fp) - len(ds))
            t = ds[0] + "." + (ds[1:] or "0") + r.choice("eE") + (("+" if r.random() < 0.5 else "") if e >= 0 else "") + str(e)
    elif k == 4:  # zeros behind the point
        ds = (ip + fp).lstrip("0") or "0"
        t = "0." + "0" * z + ds + r.choice("eE") + r.choice(["", "+"]) + str(len(ds) - len(fp) + z)
        if len(ds) - len(fp) + z < 0:
            t = t.replace("+", "")
    else:
        t = g0.lstrip("-")
    return ("-" if neg else "") + t


def jtext(v, st):
    t = v["t"]
    if t == "null":
        return "null"
    if t == "bool":
        return "true" if v["b"] else "false"
    if t == "num":
        return jnum(v, st)
    if t == "str":
        return jstr(v["c"], st)
    if t == "arr":
        sp = st.space
        return "[" + sp() + ",".join(sp() + jtext(x, st) + sp() for x in v["e"]) + "]"
    if t == "obj":
        sp = st.space
        ms = list(v["m"])
        if st.shuffle:
            st.rng.shuffle(ms)
        return "{" + sp() + ",".join(
            sp() + jstr(codes(m["k"]), st) + sp() + ":" + sp() + jtext(m["v"], st) + sp() for m in ms) + "}"
    raise ValueError(t)


def doc_bytes(v, st=None):
    st = st or Style()
    return (st.space() + jtext(v, st) + st.space()).encode("utf-8")


def b64(b):
    return base64.b64encode(b).decode()


def slim(x):
    """drops the driver's extras for the log which TLC reads"""
    if isinstance(x, dict):
        return {k: slim(v) for k, v in x.items() if k not in ("g", "gt", "msg")}
    if isinstance(x, list):
        return [slim(y) for y in x]
    return x


# ---- the value of a text, as far as it goes ----

class _Stop(Exception):
    pass


WS = b" \t\n\r"
ESCD = {0x22: 0x22, 0x5C: 0x5C, 0x2F: 0x2F, 0x62: 8, 0x66: 12, 0x6E: 10, 0x72: 13, 0x74: 9}
CUT = {"t": "cut"}


def partial(b):
    """The value of the text b up to its end or first error: (value, complete, duplicate keys, loose).  Containers whose end was
    not reached are marked open, values whose end was not reached are cut.  The text behind a complete value does not matter.
    loose: what stops it is a token out of place within a nested value (or a trailing comma), which is only noticed if the
    expression refers to something in that value"""
    pos = 0
    n = len(b)
    dup = [False]
    loose = [False]
    depth = [0]

    def token():
        """whether a token other than a key or value starts here (it is out of place), rather than the text being cut or not
        made of tokens"""
        if pos < n and (b[pos] in b"{}[],:\"-0123456789" or any(b[pos:].startswith(x) for x in (b"true", b"false", b"null"))):
            if depth[0] > 1 or b[pos] in b"}]":
                loose[0] = True

    def ws():
        nonlocal pos
        while pos < n and b[pos] in WS:
            pos += 1

    def string():
        """codes, or None if it is cut or malformed"""
        nonlocal pos
        pos += 1
        out = bytearray()
        units = []

        def flush():
            nonlocal out
            if out:
                units.extend(ord(ch) for ch in out.decode("utf-8", "replace"))
                out = bytearray()
        while True:
            if pos >= n:
                return None
            ch = b[pos]
            if ch == 0x22:
                pos += 1
                flush()
                return surr(units)
            if ch < 0x20:
                return None
            if ch == 0x5C:
                if pos + 1 >= n:
                    return None
                e = b[pos + 1]
                if e in ESCD:
                    flush()
                    units.append(ESCD[e])
                    pos += 2
                elif e == 0x75:
                    h = b[pos + 2:pos + 6]
                    if len(h) < 4 or any(x not in b"0123456789abcdefABCDEF" for x in h):
                        return None
                    flush()
                    units.append(("u", int(h, 16)))
                    pos += 6
                else:
                    return None
            else:
                out.append(ch)
                pos += 1

    def number():
        nonlocal pos
        import re
        m = re.compile(rb"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?").match(b, pos)
        if not m:
            return None
        t = m.group(0)
        rest = b[m.end():m.end() + 2]
        if not m.group(3):
            # the beginning of a fraction or an exponent which does not go on
            if rest[:1] in (b"e", b"E") or (rest[:1] == b"." and not m.group(2)):
                return None
        pos = m.end()
        if m.group(3) and abs(int(m.group(3)[1:])) > 300:
            return CUT                  # out of range: left open
        if m.group(2) or m.group(3):
            return num("f", Fraction(t.decode()))
        return jint(int(t))

    def value():
        """(value, complete)"""
        nonlocal pos
        ws()
        if pos >= n:
            return CUT, False
        ch = b[pos]
        if ch == 0x7B:
            pos += 1
            m = []
            o = {"t": "obj", "m": m, "open": True}
            depth[0] += 1
            ws()
            if pos < n and b[pos] == 0x7D:
                pos += 1
                depth[0] -= 1
                del o["open"]
                return o, True
            while True:
                ws()
                if pos >= n or b[pos] != 0x22:
                    token()
                    return o, False
                k = string()
                if k is None:
                    return o, False
                k = text_of(k)
                if any(x["k"] == k for x in m):
                    dup[0] = True
                ws()
                if pos >= n or b[pos] != 0x3A:
                    token()
                    m.append({"k": k, "v": CUT})
                    return o, False
                pos += 1
                v, c = value()
                m.append({"k": k, "v": v})
                if not c:
                    return o, False
                ws()
                if pos < n and b[pos] == 0x2C:
                    pos += 1
                elif pos < n and b[pos] == 0x7D:
                    pos += 1
                    depth[0] -= 1
                    del o["open"]
                    return o, True
                else:
                    token()
                    return o, False
        if ch == 0x5B:
            pos += 1
            e = []
            a = {"t": "arr", "e": e, "open": True}
            depth[0] += 1
            ws()
            if pos < n and b[pos] == 0x5D:
                pos += 1
                depth[0] -= 1
                del a["open"]
                return a, True
            while True:
                p0 = pos
                ws()
                if pos >= n or b[pos] in b",]}:":
                    token()
                    return a, False
                v, c = value()
                if not c:
                    e.append(v)
                    return a, False
                e.append(v)
                ws()
                if pos < n and b[pos] == 0x2C:
                    pos += 1
                elif pos < n and b[pos] == 0x5D:
                    pos += 1
                    depth[0] -= 1
                    del a["open"]
                    return a, True
                else:
                    token()
                    return a, False
        if ch == 0x22:
            s = string()
            return (CUT, False) if s is None else ({"t": "str", "c": s}, True)
        for lit, v in ((b"true", TRUE), (b"false", FALSE), (b"null", NULL)):
            if b[pos:pos + len(lit)] == lit:
                pos += len(lit)
                return v, True
        if ch in b"-0123456789":
            v = number()
            return (CUT, False) if v is None else (v, True)
        token()
        return CUT, False

    v, c = value()
    return v, c, dup[0], loose[0]


def surr(units):
    """UTF-16 escapes to code points"""
    out = []
    i = 0
    while i < len(units):
        u = units[i]
        if not isinstance(u, tuple):
            out.append(u)
            i += 1
            continue
        x = u[1]
        if 0xD800 <= x < 0xDC00 and i + 1 < len(units) and isinstance(units[i + 1], tuple) and 0xDC00 <= units[i + 1][1] < 0xE000:
            out.append(0x10000 + ((x - 0xD800) << 10) + (units[i + 1][1] - 0xDC00))
            i += 2
        else:
            out.append(0xFFFD if 0xD800 <= x < 0xE000 else x)
            i += 1
    return out
