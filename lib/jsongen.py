"""JSON texts of libENI's subset, with an independent reference reader.

A value is ('i', int) ('b', bool) ('s', bytes) ('a', [value]) ('o', [(bytes, value)]).
Strings are byte strings: a \\u escape up to U+00FF stands for that byte.
"""
import re

LIMIT = 1 << 256      # integers are smaller than this in magnitude
SAFE_DEPTH = 1000     # nesting that has to be accepted


class Malformed(Exception):
    pass


class DontCare(Exception):
    """Neither required nor forbidden (raw control characters, \\u over U+00FF, extreme nesting)."""


RUN = re.compile(rb'[^"\\\x00-\x1f]+')


def parse(t):
    """The reference reader."""
    n = len(t)
    WS = b" \t\n\r"
    care = []

    def ws(i):
        while i < n and t[i] in WS:
            i += 1
        return i

    def string(i):
        out = bytearray()
        while True:
            m = RUN.match(t, i)
            if m:
                out += m.group()
                i = m.end()
            if i >= n:
                raise Malformed("unterminated string")
            c = t[i]
            if c == 0x22:
                return bytes(out), i + 1
            if c == 0x5C:
                if i + 1 >= n:
                    raise Malformed("escape")
                e = t[i + 1:i + 2]
                k = b'"\\/bfnrt'.find(e)
                if k >= 0:
                    out.append(b'"\\/\b\f\n\r\t'[k])
                    i += 2
                    continue
                if e != b"u":
                    raise Malformed("escape")
                h = t[i + 2:i + 6]
                if len(h) != 4 or any(x not in b"0123456789abcdefABCDEF" for x in h):
                    raise Malformed("code")
                v = int(h, 16)
                if v > 255:
                    care.append("code")
                out.append(v & 255)
                i += 6
                continue
            if c < 0x20:
                care.append("control")
            out.append(c)
            i += 1

    def value0(i):
        """A scalar, or the opening of a container."""
        i = ws(i)
        c = t[i:i + 1]
        if c == b'"':
            s, i = string(i + 1)
            return ("s", s), i
        if c == b"t":
            if t[i:i + 4] != b"true":
                raise Malformed("true")
            return ("b", True), i + 4
        if c == b"f":
            if t[i:i + 5] != b"false":
                raise Malformed("false")
            return ("b", False), i + 5
        j = i
        if t[j:j + 1] == b"-":
            j += 1
        k = j
        if t[k:k + 1] == b"0":
            k += 1
        else:
            while k < n and t[k] in b"0123456789":
                k += 1
        if k == j:
            raise Malformed("value")
        if k - j > 100 or int(t[i:k]) >= LIMIT or int(t[i:k]) <= -LIMIT:
            raise Malformed("range")
        return ("i", int(t[i:k])), k

    stack = []   # (kind, items, key)
    i = 0
    done = None
    while True:
        # a value is expected at i
        i = ws(i)
        c = t[i:i + 1]
        if c == b"[" or c == b"{":
            stack.append([c, [], None])
            if len(stack) > SAFE_DEPTH:
                care.append("depth")
            i = ws(i + 1)
            if t[i:i + 1] == (b"]" if c == b"[" else b"}"):
                i += 1
                k, items, _ = stack.pop()
                v = ("a" if k == b"[" else "o", items)
            else:
                if c == b"{":
                    i = key(t, i, stack, ws, string)
                continue
        else:
            v, i = value0(i)
        # v is complete: close as far as possible
        while True:
            if not stack:
                done = v
                break
            top = stack[-1]
            top[1].append(v if top[0] == b"[" else (top[2], v))
            i = ws(i)
            c = t[i:i + 1]
            if c == b",":
                i += 1
                if top[0] == b"{":
                    i = key(t, ws(i), stack, ws, string)
                break
            if c != (b"]" if top[0] == b"[" else b"}"):
                raise Malformed("close")
            i += 1
            stack.pop()
            v = ("a" if top[0] == b"[" else "o", top[1])
        if done is not None:
            break
    if ws(i) != n:
        raise Malformed("trailing")
    if care:
        raise DontCare(done, sorted(set(care)))
    return done


def key(t, i, stack, ws, string):
    if t[i:i + 1] != b'"':
        raise Malformed("key")
    k, i = string(i + 1)
    i = ws(i)
    if t[i:i + 1] != b":":
        raise Malformed("colon")
    stack[-1][2] = k
    return i + 1


def dump(v):
    """What host.cpp's dump() must say about this value."""
    out = []

    def go(v):
        k, x = v
        if k == "i":
            out.append(b"i%d;" % x)
        elif k == "b":
            out.append(b"T" if x else b"F")
        elif k == "s":
            out.append(b"s%d:" % len(x))
            out.append(x)
        elif k == "a":
            out.append(b"a%d[" % len(x))
            for e in x:
                go(e)
            out.append(b"]")
        elif k == "o":
            d = dict(x)
            out.append(b"o%d{" % len(d))
            for kk in sorted(d):
                out.append(b"%d:" % len(kk))
                out.append(kk)
                out.append(b"=")
                go(d[kk])
            out.append(b"}")
        else:
            out.append(b"u")
    go(v)
    return b"".join(out)


def to_py(v):
    """The value as json.loads would give it, byte strings read as Latin-1."""
    k, x = v
    if k == "s":
        return x.decode("latin-1")
    if k == "a":
        return [to_py(e) for e in x]
    if k == "o":
        return {kk.decode("latin-1"): to_py(e) for kk, e in x}
    return x


SHORT = {0x22: b'\\"', 0x5C: b"\\\\", 0x2F: b"\\/", 8: b"\\b", 12: b"\\f", 10: b"\\n", 13: b"\\r", 9: b"\\t"}


U_LOW = [b"\\u%04x" % c for c in range(256)]
U_UP = [b"\\u%04X" % c for c in range(256)]
ESC0 = [SHORT[c] if c in SHORT and c != 0x2F else U_LOW[c] if c < 0x20 else bytes([c]) for c in range(256)]


def emit_string(s, r, style):
    if style == 1 and len(s) > 200:
        return b'"' + b"".join(map(r.choice((U_LOW, U_UP)).__getitem__, s)) + b'"'
    if style == 0 and len(s) > 200:
        return b'"' + b"".join(map(ESC0.__getitem__, s)) + b'"'
    out = bytearray(b'"')
    for c in s:
        if c in SHORT and (c != 0x2F or style == 2) and (style != 1):
            out += SHORT[c]
        elif c < 0x20 or c in (0x22, 0x5C) or style == 1 or (style == 2 and r.random() < 0.2):
            out += (b"\\u%04x" if r.random() < 0.5 else b"\\u%04X") % c
        else:
            out.append(c)
    out += b'"'
    return bytes(out)


def emit(v, r, wsp=0.15, mode=None):
    """A text of the value, in one of its many spellings."""
    out = []
    mode = r.choice((0, 0, 0, 1, 2, 3)) if mode is None else mode

    def w():
        if r.random() < wsp:
            out.append(bytes(r.choice(b" \t\n\r") for _ in range(r.choice((1, 1, 1, 2, 3, 9)))))

    def go(v):
        k, x = v
        w()
        if k == "i":
            out.append(b"-0" if x == 0 and r.random() < 0.1 else b"%d" % x)
        elif k == "b":
            out.append(b"true" if x else b"false")
        elif k == "s":
            out.append(emit_string(x, r, mode if mode < 3 else r.randrange(3)))
        elif k == "a":
            out.append(b"[")
            for i, e in enumerate(x):
                if i:
                    out.append(b",")
                go(e)
            w()
            out.append(b"]")
        else:
            out.append(b"{")
            for i, (kk, e) in enumerate(x):
                if i:
                    out.append(b",")
                w()
                out.append(emit_string(kk, r, mode if mode < 3 else r.randrange(3)))
                w()
                out.append(b":")
                go(e)
            w()
            out.append(b"}")
        w()
    go(v)
    return b"".join(out)


LENS = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 130, 159, 160, 161, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1000]
BIGLENS = [1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072]
# numbers of elements around growth steps of vectors and hash tables
COUNTS = list(range(0, 20)) + [27, 28, 29, 31, 32, 33, 50, 51, 52, 63, 64, 65, 72, 73, 74, 127, 128, 129, 147, 148, 149,
                               255, 256, 257, 314, 315, 316]
BIGCOUNTS = [511, 512, 513, 732, 733, 734, 1023, 1024, 1025, 1944, 1945, 1946, 3074, 3075]


def _table(alphabet):
    return bytes(alphabet[i % len(alphabet)] for i in range(256))


TABLES = {
    "a": _table(bytes(range(0x20, 0x7F))),                     # printable
    "b": bytes(range(256)),                                    # any byte
    "d": _table(b'"\\/\b\f\n\r\t\0\x1f\x7f'),                # what has to be escaped
    "f": _table(b"0123456789abcdefABCDEF"),                    # digits and hexadecimal
    "g": _table(b'{}[]:,"\\truefalse0123456789-+.eE nul/u'),   # looks like JSON
    "i": bytes(i & 31 for i in range(256)),                    # control characters
}


def rand_bytes(r, n, kind=None):
    kind = kind or r.choice("aaabbcdefghij")
    if kind in TABLES:
        return r.randbytes(n).translate(TABLES[kind])
    if kind == "c":      # one byte, repeated
        return bytes([r.randrange(256)]) * n
    if kind == "e":      # UTF-8
        s = "".join(chr(r.choice((r.randrange(0x80, 0x800), r.randrange(0x800, 0xD800), r.randrange(0x10000, 0x110000))))
                    for _ in range(min(n, 60))).encode()
        if n > 60:
            s = s * (n // 60)
        return s[:n] if r.random() < 0.3 else s
    if kind == "h":      # one odd byte in plain text
        s = bytearray(b"x" * n)
        if n:
            s[r.choice((0, n - 1, r.randrange(n)))] = r.randrange(256)
        return bytes(s)
    return (b"abcdefghij" * (n // 10 + 1))[:n]


def rand_len(r, big=0.004):
    if r.random() < big:
        return r.choice(BIGLENS)
    return r.choice((r.choice(LENS), r.randrange(12), r.randrange(40)))


def rand_int(r):
    c = r.randrange(8)
    if c == 0:
        v = r.choice((0, 1, 2, 9, 10, 255, 256))
    elif c == 1:
        v = (1 << r.randrange(0, 257)) + r.choice((-2, -1, 0, 1, 2))
    elif c == 2:
        v = 10 ** r.randrange(0, 78) + r.choice((-1, 0, 1))
    elif c == 3:
        v = LIMIT - 1 - r.randrange(5)
    elif c == 4:
        v = int(str(r.randrange(1, 10)) * r.randrange(1, 78))
    else:
        v = r.getrandbits(r.randrange(1, 257))
    v = min(abs(v), LIMIT - 1)
    return -v if r.random() < 0.4 else v


def rand_scalar(r):
    c = r.random()
    if c < 0.4:
        return ("s", rand_bytes(r, rand_len(r)))
    if c < 0.8:
        return ("i", rand_int(r))
    return ("b", r.random() < 0.5)


TWINS = [(b"5mi7hvu", b"gphu8w6"), (b"5zjh9zk", b"3rhgbbe"), (b"dazxs02", b"vj2insj"), (b"a3h22ty", b"uzsomud"), (b"5ry3xcj", b"wvygr2u")]


def rand_keys(r, n):
    """n key texts, often related to one another, sometimes repeated."""
    c = r.randrange(6)
    if c == 0:
        ks = [b"k%d" % i for i in range(n)]
    elif c == 1 and n < 400:     # prefixes of one another
        base = rand_bytes(r, n + 1, "j")
        ks = [base[:i] for i in range(n)]
    elif c == 2 and n < 70:     # one SDBM hash and one length
        k = n.bit_length() + r.randrange(3)
        ks = [b"".join(TWINS[j % len(TWINS)][i >> j & 1] for j in range(k)) for i in range(n)]
    elif c == 3 and n < 600:     # one hash: quadratic
        ks = [b"\0" * i + b"a" for i in range(n)]
    else:
        ks = [rand_bytes(r, r.randrange(0, 30)) for _ in range(n)]
    r.shuffle(ks)
    if r.random() < 0.4 and n > 1:
        for _ in range(r.randrange(1, 4)):
            ks[r.randrange(n)] = ks[r.randrange(n)]
    return ks


def rand_value(r, depth=0, budget=None):
    budget = budget if budget is not None else [r.choice((5, 20, 60, 200))]
    c = r.random()
    if depth == 0 and c < 0.06:
        n = r.choice(COUNTS if r.random() < 0.94 else BIGCOUNTS)
        return ("a", [("i", rand_int(r)) if r.random() < 0.5 else ("b", True) for _ in range(n)])
    if depth == 0 and c < 0.14:
        n = r.choice(COUNTS if r.random() < 0.94 else BIGCOUNTS)
        return ("o", [(k, ("i", i)) for i, k in enumerate(rand_keys(r, n))])
    if depth == 0 and c < 0.17:
        d = r.choice((10, 50, 100, 200, r.randrange(1, 400)))
        v = rand_scalar(r)
        for _ in range(d):
            v = ("a", [v]) if r.random() < 0.5 else ("o", [(rand_bytes(r, r.randrange(4)), v)])
        return v
    if depth > 8 or budget[0] <= 0 or c < (0.25 if depth else 0.35):
        budget[0] -= 1
        return rand_scalar(r)
    n = r.choice((0, 1, 1, 2, 3, 4, 7))
    budget[0] -= n
    if c < 0.62:
        return ("a", [rand_value(r, depth + 1, budget) for _ in range(n)])
    return ("o", [(k, rand_value(r, depth + 1, budget)) for k in rand_keys(r, n)])


def mutate(t, r):
    """An edit of a text, most of the time making it malformed."""
    t = bytearray(t)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        if not t:
            t += b"["
        c = r.randrange(13)
        i = r.randrange(len(t))
        if c == 0:
            del t[i]
        elif c == 1:
            t[i] = r.randrange(256)
        elif c == 2:
            t[i:i] = bytes([r.choice(b'{}[]:,"\\0123456789-+.eEtrufalsn \t\n\r\0/*\'')])
        elif c == 3:
            del t[i:]
        elif c == 4:
            j = min(len(t), i + r.randrange(1, 9))
            t[i:i] = t[i:j]
        elif c == 5:
            t += r.choice((b" x", b"]", b"}", b",", b"1", b'"', b"\0", b"\xff", b" [", b"//", b"\x0b", b"\x0c"))
        elif c == 6:
            t[i:i] = r.choice((b"null", b"1.5", b"1e3", b"01", b"-", b"+1", b"NaN", b"0x10", b"tru", b"fals", b"TRUE", b"--1",
                               b"\\u12", b"\\x41", b"\\u00g0", b"'a'", b"\xef\xbb\xbf", b"\x00", b"-a", b"00", b"1 2"))
        elif c == 7:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif c == 8:
            t = bytearray(bytes(t).replace(b",", r.choice((b",,", b"", b";", b" ")), 1))
        elif c == 9:
            t = bytearray(bytes(t).replace(b":", r.choice((b"::", b"", b"=", b",")), 1))
        elif c == 10:
            t = bytearray(bytes(t).replace(b'"', b"", 1))
        elif c == 11:
            t = bytearray(bytes(t).replace(r.choice((b"]", b"}")), r.choice((b"", b",]", b"]", b"}", b",}")), 1))
        else:
            t[0:0] = r.choice((b"]", b",", b"[", b"x", b"\xef\xbb\xbf", b"\0", b"{", b":", b'"', b"\x0b"))
    return bytes(t)


def classify(t):
    """-> ('ok', value) / ('bad', why) / ('any', value)"""
    try:
        return "ok", parse(t)
    except Malformed as e:
        return "bad", str(e)
    except DontCare as e:
        return "any", e.args[0]
