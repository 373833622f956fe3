"""The checks: what is run, and the oracle that judges what was observed."""
import base64
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

import core
import jsongen as jg
from core import Crash, HarnessError, b, builder, clip, hexcase, show

CHECKS, LEVELS = {}, {}
OPS = ("reverse", "json", "scrypt", "rsa_encrypt", "rsa_decrypt")


def check(prop, level="exploration"):
    def deco(f):
        CHECKS[prop] = f
        LEVELS[prop] = level
        return f
    return deco


def usable(r):
    return r is not None and not isinstance(r, Crash) and r[:1] not in ([b"?exception"], [b"?exit"], [b"?known"])


def diff(a, x):
    """Where two byte strings part."""
    i = 0
    while i < min(len(a), len(x)) and a[i] == x[i]:
        i += 1
    return "at byte %d: expected ...%r got ...%r" % (i, a[max(0, i - 20):i + 60], x[max(0, i - 20):i + 60])


def fixtures():
    with open(os.path.join(core.VERIF, "fixtures", "rsa.json")) as f:
        return json.load(f)


def text(v, r=None):
    """A text of the value; with r, one of its many spellings."""
    return jg.emit(v, r or random.Random(0), 0.1 if r else 0, None if r else 0)


def S(s):
    return ("s", b(s))


def I(n):
    return ("i", n)


def A(*xs):
    return ("a", list(xs))


def no_nul(t):
    return b"\0" not in t


# -- JSON ---------------------------------------------------------------------
FIXED_OK = [b"[]", b"{}", b"0", b"-0", b'""', b"true", b"false", b" [ ] ", b"\t{\r}\n", b'[[],{},[{}]]', b'{"":{"":""}}',
            b'{"a":1,"a":2}', b'{"a":{"b":1},"a":3,"b":[],"a":"x"}', b'["\\u0041\\u00e9\\u00FF\\u0000\\u007f"]',
            b'["\\"\\\\\\/\\b\\f\\n\\r\\t"]', b'["\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80\xff\x80"]', b"[-1,0,1,-0]",
            b'["a\x7f","]","}",",",":","[","{","true","null","//","\\\\"]', b"1", b"-12345678901234567890123456789"]


def c01_cases(r, n):
    for t in FIXED_OK:
        yield jg.parse(t), t
    for d in (1, 2, 50, 200, 500, 999, 1000):
        for o, c in ((b"[", b"]"), (b"[1,", b"]"), (b'{"k":', b"}"), (b' [ {"a" : ', b" } ] "))[:2 if d == 999 else 4]:
            k = d if o.count(b"[") + o.count(b"{") == 1 else d // 2
            t = o * k + b"7" + c * k
            yield jg.parse(t), t
    for k in range(0, 0x100):                       # every escape and every raw byte
        if k >= 0x20:
            t = b'["a%sb","%s"]' % (bytes([k]) if k not in (0x22, 0x5C) else b"\\" + bytes([k]), b"\\u%04X" % k)
        else:
            t = b'["a\\u%04xb"]' % k
        yield jg.parse(t), t
    for k in jg.COUNTS + jg.BIGCOUNTS + [4097, 8191, 20000]:
        t = b"[" + b",".join(b"%d" % i for i in range(k)) + b"]"
        yield jg.parse(t), t
        t = b"{" + b",".join(b'"%s%d":%d' % (b"p" * (i % 5), i, i) for i in range(k)) + b"}"
        yield jg.parse(t), t
    for k in (1000, 1001, 1024, 1025, 1026, 2100, 5000):   # many containers, none deep
        for x in (b"[]", b"{}", b'[1]', b'{"a":[]}'):
            t = b"[" + b",".join([x] * k) + b"]"
            yield jg.parse(t), t
            t = b"{" + b",".join(b'"%d":' % i + x for i in range(k)) + b"}"
            yield jg.parse(t), t
    for k in jg.LENS + jg.BIGLENS + [1 << 20]:
        s = jg.rand_bytes(r, k, "j")
        yield ("s", s), text(("s", s))
        if k < 140000:
            yield A(("o", [(s, S(s[::-1])), (s + b"x", I(1)), (s[:-1] + b"y", I(2))])), \
                text(A(("o", [(s, S(s[::-1])), (s + b"x", I(1)), (s[:-1] + b"y", I(2))])))
    for _ in range(n):
        v = jg.rand_value(r)
        yield v, jg.emit(v, r)


def judge_parse(c, t, v, res, cause):
    want = jg.dump(v)
    if res[0] != b"ok":
        c.violation(cause + ":rejected", "well-formed text rejected (%r): %r" % (res[5][:80], t[:200]),
                    {"case": hexcase(["parse", t])})
    elif res[1] != want:
        c.violation(cause + ":value", "decoded differently %s; text %r" % (diff(want, res[1]), t[:200]),
                    {"case": hexcase(["parse", t])})


def vast(c, mode, gb, count=1):
    """Texts and sequences of 2 to 8 GiB, where the memory allows it."""
    with open("/proc/meminfo") as f:
        free = int(re.search(r"MemAvailable:\s*(\d+) kB", f.read()).group(1)) / 1048576
    if free < gb * 1.3 + 1:
        c.add("left out for want of memory: texts of several GiB")
        return
    exe = builder().harness("vast", "o2", ops=True, libs=("-lpthread",))
    c.harness(exe, count, mode=mode, size=c.n(0, 1), shards=1, watchdog=600, label="vast")


@check("C01")
def c01(c):
    c.rule = "texts spelled from generated values (all escapes, bytes, sizes around growth steps, nesting to 1000); " \
             "non-trivial: distinct texts decoded and compared node by node with an independent reader"
    c.assumptions = ["strings are byte strings: \\u0080-\\u00FF stand for one byte, as the code has it"]
    cases = list(c01_cases(c.rng, c.n(2500, 60000)))
    res = c.host([["parse", t] for _, t in cases], leaks=False)
    if c.thorough:
        vast(c, "json", 15, 2)
    for (v, t), x in zip(cases, res):
        if usable(x):
            c.seen(t)
            judge_parse(c, t, v, x, "parse")
            if 20 < len(t) < 200:
                c.sample("parse %r" % t)
    # the same through the C interface: what an operation's parse() is told
    sub = [(v, t) for v, t in cases if v[0] == "a" and no_nul(t) and len(t) < 300000][:c.n(1500, 20000)]
    res = c.host([["op", "echo", "run", t] for _, t in sub], leaks=False)
    for (v, t), x in zip(sub, res):
        if not usable(x):
            continue
        c.seen("echo", t)
        if x[0] != b"str":
            c.violation("echo:" + x[0].decode(), "well-formed arguments were not run: %r -> %r" % (t[:200], x[:2]),
                        {"case": hexcase(["op", "echo", "run", t])})
            continue
        k, w = jg.classify(x[1])
        if k == "bad" or jg.dump(w) != jg.dump(v):
            c.violation("echo:value", "an operation giving its arguments back gave %r for %r" % (x[1][:200], t[:200]),
                        {"case": hexcase(["op", "echo", "run", t])})
    # \u over U+00FF: a listed finding while it is cut to its low byte
    r = c.rng
    codes = [0x100, 0x13A, 0x4E2D, 0x20AC, 0xFFFD, 0x0141, 0x3000] + [r.randrange(0x101, 0xD800) for _ in range(40)]
    pr = [b'["x\\u%04xy"]' % k for k in codes]
    res = c.host([["parse", t] for t in pr], leaks=False)
    for k, t, x in zip(codes, pr, res):
        if not usable(x):
            continue
        c.seen("code", k)
        right = jg.dump(A(("s", b"x" + chr(k).encode() + b"y")))
        cut = jg.dump(A(("s", b"x" + bytes([k & 255]) + b"y")))
        if x[0] == b"fail" or x[1] == right:
            continue
        key = "code-point-cut-to-low-byte" if x[1] == cut else "code-point"
        c.violation(key, "%r decoded to %r instead of U+%04X" % (t, x[1], k), {"case": hexcase(["parse", t])})


BAD = [b"", b" ", b"[", b"]", b"{", b"}", b"[1", b"[1,", b"[,]", b"[1,]", b"[,1]", b"[1 2]", b'{"a"}', b'{"a":}', b'{a:1}',
       b"{'a':1}", b'{"a":1,}', b'{,}', b'{"a":1 "b":2}', b'{"a":1,,"b":2}', b'{1:2}', b'{"a" 1}', b'{"a"::1}', b'"', b'"a',
       b'["a]', b'["a\\"]', b'["\\"]', b'["\\x41"]', b'["\\u12"]', b'["\\u"]', b'["\\u00g0"]', b'["\\u 041"]', b'["\\U0041"]',
       b'["\\a"]', b"['a']", b"null", b"[null]", b'{"a":null}', b"[1.5]", b"[1.]", b"[.5]", b"[1e3]", b"[1E3]", b"[1e+3]",
       b"[-]", b"[--1]", b"[+1]", b"[01]", b"[-01]", b"[00]", b"[0x1]", b"[1a]", b"[- 1]", b"[-a]", b"[1-]", b"[1_0]", b"[1 000]",
       b"[tru]", b"[truE]", b"[True]", b"[TRUE]", b"[truetrue]", b"[fals]", b"[False]", b"[f]", b"[t]", b"t", b"f", b"tr", b"fa",
       b"[nul]", b"[NaN]", b"[Infinity]", b"[undefined]", b"[1]x", b"[1] x", b"[1]]", b"[1][2]", b"[1],", b"[1],[2]", b"1 2",
       b'{"a":1}}', b'{"a":1}{', b'"a""b"', b'true false', b"[]{}", b"// c\n[1]", b"[1]//c", b"[1/*c*/]", b"#[1]", b"\xef\xbb\xbf[1]",
       b"[1]\0", b"\0[1]", b"[\0]", b"[1\0]", b"[1]\x0b", b"\x0c[1]", b"[1\xa0]", b"[\xe2\x80\x83]", b"[[1]", b"[{]", b"[}", b"{]",
       b'[{"a":1]', b'{"a":[1}', b'{"a":1]', b"[1}", b'["a" "b"]', b'["a":"b"]', b"[1:2]", b"(1)", b"<1>", b"[1;2]", b'{"a"=1}',
       b'{"a":1;"b":2}', b"[" * 2000, b"[" * 1500 + b"]" * 1499, b'{"a":' * 700 + b"1" + b"}" * 699, b"[" * 300 + b"]" * 301,
       b'{"k":tru}', b'{"k":"v}', b'{"k:1}', b'{"k\\":1}', b'{"k"}', b'{"k",1}', b'{[1]:2}', b'{true:1}', b'["\\ud8"]']


# what other notations write and JSON does not: each of it, where a value belongs and between any two tokens
ALMOST = [b"1E0", b"0E0", b"1e0", b"12E0", b"0e0", b"-0e0", b"1E+0", b"1E-0", b"1e00", b"1e", b"1E", b"1e+", b"10e-1", b"1.0", b"0.0", b"-0.0", b"1.", b".0",
          b"1_000", b"1'000", b"1,", b"0b1", b"0B1", b"0o7", b"0O7", b"0x1F", b"0X1f", b"-0x1", b"1n", b"1L", b"1u", b"1f", b"1.0f", b"0d", b"+0", b"+1", b"-+1", b"+-1",
          b"--0", b"- 0", b"-\t1", b"1-", b"1+", b"1+1", b"1-1", b"0-0", b"00", b"-00", b"007", b"0 0", b"1/2", b"1%", b"$1", b"1:1", b"\xd9\xa1", b"\xef\xbc\x91", b"\xc2\xb2",
          b"\xe2\x88\x921", b"\xe2\x88\x9e", b"inf", b"-inf", b"Inf", b"nan", b"-NaN", b"Infinity", b"-Infinity", b"undefined", b"None", b"nil", b"NULL", b"Null",
          b"null", b"nul", b"yes", b"no", b"on", b"off", b"Yes", b"TRUE", b"True", b"tRUE", b"truE", b"true1", b"trueX", b"true_", b"true.", b"!0", b"!!1", b"#t", b"#f", b"falsee",
          b"'a'", b"'", b"`a`", b"`", b"\"a\"\"b\"", b"\"a\"+\"b\"", b"\"a\" \"b\"", b"u\"a\"", b"r\"a\"", b"b\"a\"", b"\"\"\"a\"\"\"", b"\\\"a\\\"", b"&quot;a&quot;",
          b"\xe2\x80\x9ca\xe2\x80\x9d", b"\xc2\xaba\xc2\xbb", b"\"a\\\nb\"", b"\"a\\\r\nb\"", b"\"\\'\"", b"\"\\u{41}\"", b"\"\\x41\"", b"\"\\X41\"", b"\"\\0\"", b"\"\\101\"",
          b"\"\\v\"", b"\"\\a\"", b"\"\\e\"", b"\"\\s\"", b"\"\\N{DASH}\"", b"\"\\U00000041\"", b"\"\\u41\"", b"\"\\u 041\"", b"\"\\u+041\"", b"\"\\u-041\"", b"\"\\u0x41\"",
          b"\"\\u00\"", b"\"\\u004\"", b"\"\\uu0041\"", b"\"\\B\"", b"\"\\T\"", b"\"\\R\"", b"\"\\F\"", b"\"\\ \"", b"\"\\&\"", b"\"\\(a)\"",
          b"//", b"//\n", b"// c\n", b"/", b"/**/", b"/* c */", b"/*", b"*/", b"/*\n*/", b"#", b"# c\n", b"#\n", b"--\n", b"-- c\n", b";", b";c\n", b"%", b"<!-- c -->", b"'c\n", b"\\", b"\\\n", b"\\ ",
          b"\0", b"\x01", b"\x07", b"\x08", b"\x0b", b"\x0c", b"\x1a", b"\x1b", b"\x1c", b"\x1d", b"\x1e", b"\x1f", b"\x7f", b"\x80", b"\x85", b"\x86", b"\xa0", b"\xff", b"\xfe\xff", b"\xff\xfe",
          b"\xc2\x85", b"\xc2\xa0", b"\xc2\xad", b"\xe1\x9a\x80", b"\xe1\xa0\x8e", b"\xe2\x80\x80", b"\xe2\x80\x83", b"\xe2\x80\x89", b"\xe2\x80\x8a", b"\xe2\x80\x8b", b"\xe2\x80\x8c",
          b"\xe2\x80\x8d", b"\xe2\x80\xa8", b"\xe2\x80\xa9", b"\xe2\x80\xaf", b"\xe2\x81\x9f", b"\xe2\x81\xa0", b"\xe3\x80\x80", b"\xef\xbb\xbf", b"\xef\xbf\xbd", b"\xc0\xa0", b"\xc0\x8a",
          b"&nbsp;", b"\\n", b"\\t", b"\\u0020", b"%20", b"+", b"-", b"_", b".", b"..", b"...", b",", b",,", b", ,", b":", b"::", b":=", b"=", b"=>", b"->", b"|", b"||", b"&", b"&&", b"?", b"??", b"!", b"@",
          b"$", b"^", b"~", b"*", b"**", b"(", b")", b"()", b"(1)", b"<", b">", b"<>", b"[", b"]", b"[]", b"{", b"}", b"{}", b"]]", b"}}", b"[[", b"{{", b"a", b"a:", b"a:1", b"e", b"E", b"u", b"x", b"n",
          b"new Date()", b"\"a\".b", b"a.b", b"a[0]", b"[1,2][0]", b"1..2", b"[1..2]", b"1 if 2", b"*a", b"&a 1", b"!!str a", b"- 1", b"? a", b"| a", b"> a", b"---", b"--- ", b"...\n", b"%YAML", b"<a>", b"\xf0\x9f\x98\x80"]
PLACES = [[b"[", b"1", b",", b"\"s\"", b",", b"true", b"]"], [b"{", b"\"k\"", b":", b"-2", b",", b"\"m\"", b":", b"false", b"}"],
          [b"[", b"[", b"]", b",", b"{", b"}", b",", b"{", b"\"a\"", b":", b"[", b"0", b"]", b"}", b"]"], [b"\"t\""], [b"7"], [b"true"]]


def almost():
    for n, f in enumerate(ALMOST):
        yield f
        for j, p in enumerate(PLACES):
            for i in range(len(p) + 1):
                yield b"".join(p[:i]) + f + b"".join(p[i:])             # between two tokens
                if i < len(p):
                    yield b"".join(p[:i]) + f + b"".join(p[i + 1:])     # instead of one
                if (n + i) % 4 == 0:
                    s = (b" ", b"\n", b"\t")[(n + j) % 3]
                    yield s.join(p[:i] + [f] + p[i:])
                    if i < len(p):
                        yield p[i].join([b"".join(p[:i]), f + b"".join(p[i + 1:])])


def truncations(t):
    return [t[:i] for i in range(len(t))]


@check("C02")
def c02(c):
    c.rule = "mutated and truncated texts, fixed malformed forms in every context, that the independent reader rejects; " \
             "non-trivial: distinct texts the reference rejects (accepted ones are counted apart)"
    c.assumptions = ["raw control characters inside strings and \\u over U+00FF are neither required nor forbidden"]
    r = c.rng
    texts = list(BAD) + list(almost())
    c.extra["spellings of other notations"] = len(ALMOST)
    c.extra["texts with one of them"] = len(set(texts)) - len(BAD)
    for t in BAD[3:]:                              # the same, inside something
        if len(t) < 40:
            for pre, post in ((b"[1,", b"]"), (b'{"a":', b"}"), (b'[{"x":[', b"]}]"), (b'["s",{"k":', b'},true]')):
                texts.append(pre + t + post)
    for d in (1, 10, 100, 400):
        for t in (b"tru", b"nul", b"1.5", b'"', b"01", b"-", b""):
            texts.append(b"[" * d + t + b"]" * d)
            texts.append(b'{"a":' * d + t + b"}" * d)
    for v in ("abc", "true", "-12"):
        texts += truncations(b'[true,false,"%s",-1203,{"k":["%s",{}]},"\\u0041\\n"]' % (v.encode(), v.encode()))[:-1]
    for n in (78, 79, 80, 100, 1000, 100000):
        texts.append(b"[" + b"9" * n + b"]")
        texts.append(b"[-1" + b"0" * n + b"]")
    for k in range(256):                           # each byte, where a value, a separator or the end belongs
        if bytes([k]) not in b' \t\n\r0123456789"[{tf-':
            texts.append(bytes([k]))
            texts.append(b"[" + bytes([k]) + b"1]")
        if bytes([k]) not in b" \t\n\r":
            texts.append(b"[1]" + bytes([k]))
            texts.append(b'{"a":1}' + bytes([k]))
        if bytes([k]) not in b' \t\n\r,]0123456789':
            texts.append(b"[1" + bytes([k]) + b"2]")
        if bytes([k]) not in b'"\\/bfnrtu':
            texts.append(b'["a\\' + bytes([k]) + b'b"]')
        if bytes([k]) not in b"0123456789abcdefABCDEF":
            for i in range(4):
                h = bytearray(b"0041")
                h[i] = k
                texts.append(b'["\\u' + bytes(h) + b'"]')
    base = []
    for _ in range(c.n(2500, 60000)):
        v = jg.rand_value(r)
        t = jg.emit(v, r)
        if len(t) > 20000:
            continue
        base.append(t)
        texts.append(jg.mutate(t, r))
    bad = []
    for t in texts:
        k, w = jg.classify(t)
        c.add(k)
        if k == "bad":
            bad.append((t, w))
    bad = list(dict(bad).items())
    # (the parser alone reads a value at the start of the text: eni_json relies on it)
    alone = [(t, w) for t, w in bad if w != "trailing"]
    res = c.host([["parse", t] for t, _ in alone], leaks=False)
    for (t, why), x in zip(alone, res):
        if not usable(x):
            continue
        c.seen(t)
        if len(t) < 120:
            c.sample("reject %r (%s)" % (t, why))
        if x[0] != b"fail":
            c.violation("accepted:" + why, "malformed text (%s) accepted: %r read as %r" % (why, t[:200], x[1][:200]),
                        {"case": hexcase(["parse", t])})
        elif not x[5]:
            c.violation("silent:" + why, "rejected without a diagnostic: %r" % t[:200], {"case": hexcase(["parse", t])})
    sub = [(t, w) for t, w in bad if no_nul(t)]
    cases = [["life", "echo", "g" if i % 2 else "s", t] for i, (t, w) in enumerate(bad) if not no_nul(t) or i % 4 == 0]
    for case, x in zip(cases, c.host(cases, leaks=False)):
        if usable(x):
            c.seen(*case)
            if x != [b"exit87"]:
                c.violation("object", "malformed arguments: expected exit 87, got %r for %s" % (x[:2], show(case)), {"case": hexcase(case)})
    cases = []
    for i, (t, w) in enumerate(sub):
        cases.append(["op", "echo", "run" if i % 2 else "gas", t])
        if i % 3 == 0:
            cases.append(["op", OPS[i // 3 % 5], "run" if i % 2 else "gas", t])
    res = c.host(cases, leaks=False, undefined=True)
    for case, x in zip(cases, res):
        if not usable(x):
            continue
        c.seen(*case[1:])
        if x[:2] != [b"exit", b"87"]:
            c.violation("op:" + case[1] + ":" + case[2], "malformed arguments: expected exit 87, got %r for %s" % (x[:2], show(case)),
                        {"case": hexcase(case)})
        elif not x[3]:
            c.violation("op-silent:" + case[1], "exit 87 without a diagnostic for %s" % show(case), {"case": hexcase(case)})
        elif case[1] == "echo" and b"parsed0 ran0" not in x[2]:
            c.violation("op-ran:" + case[2], "the operation was used although its arguments are malformed: %s" % show(case),
                        {"case": hexcase(case)})


@check("C03")
def c03(c):
    c.rule = "values parsed from generated texts or built through the API, printed, read by Python's JSON reader and by libENI again; " \
             "non-trivial: distinct printed texts"
    r = c.rng
    vals = []
    for v, t in c01_cases(r, c.n(2500, 60000)):
        if len(t) < 600000:
            vals.append((v, t))
    res = c.host([["parse", t] for _, t in vals], leaks=False)
    for (v, t), x in zip(vals, res):
        if not usable(x) or x[0] != b"ok":
            continue
        c.seen(x[2])
        printed(c, ["parse", t], x[2], v)
        if x[3] != x[1]:
            c.violation("reparse", "printing and reading again changes the value: %s for %r" % (diff(x[1], x[3]), t[:200]),
                        {"case": hexcase(["parse", t])})
    # built through the API
    cases = []
    for k in range(256):
        s = bytes([k])
        cases += [(["value", "str", s], S(s)), (["value", "object", s, b"vv", b"k" + s, s + s], ("o", [(s, S(b"vv")), (b"k" + s, S(s + s))])),
                  (["value", "array", s, b"x" + s + b"y"], A(S(s), S(b"x" + s + b"y")))]
        if k:
            cases.append((["value", "cstr", b"a" + s], S(b"a" + s)))
    for _ in range(c.n(1500, 30000)):
        s = jg.rand_bytes(r, jg.rand_len(r))
        n = r.choice((0, 1, 2, 5, 9))
        c_ = r.randrange(4)
        if c_ == 0:
            cases.append((["value", "str", s], S(s)))
        elif c_ == 1:
            xs = [jg.rand_bytes(r, jg.rand_len(r)) for _ in range(n)]
            cases.append((["value", "array"] + xs, A(*map(S, xs))))
        elif c_ == 2:
            ks = jg.rand_keys(r, n)
            kv, f = [], []
            for kk in ks:
                e = jg.rand_bytes(r, r.randrange(0, 12))
                f += [kk, e]
                kv.append((kk, I(len(e)) if len(e) & 1 else S(e)))
            cases.append((["value", "object"] + f, ("o", kv)))
        else:
            i = jg.rand_int(r)
            cases.append((["value", "s256", "%d" % i], I(i)))
    for v in (True, False):
        cases.append((["value", "bool", "1" if v else "0"], ("b", v)))
    for loc in [None] + core.locales():
        sub = cases if loc is None else cases[:600] + cases[-600:]
        res = c.host([x for x, _ in sub], leaks=False, env=loc)
        for (case, v), x in zip(sub, res):
            if not usable(x):
                continue
            c.seen(x[0])
            printed(c, case, x[0], v)
            if x[1] != jg.dump(v):
                c.violation("api:" + case[1], "the value built is not the one given: %s for %s" % (diff(jg.dump(v), x[1]), show(case)),
                            {"case": hexcase(case)})
    # wide and long ones
    wide = [A(*[I(i % 10) for i in range(n)]) for n in (255, 256, 257, 4097, 32769, 65537, 70001) + ((1 << 20,) if c.thorough else ())]
    wide += [("o", [(b"%x" % i, ("b", i % 3 == 0)) for i in range(n)]) for n in (257, 4097, 33001, 66001)]
    wide += [A(S(bytes((i * 7 + i // 256) & 255 for i in range(n)))) for n in (4097, 65537, 1 << 20)]
    wide.append(A(A(*[I(1)] * 66000), A(*[A()] * 66000), A(*[S(b"")] * 66000)))
    cases = [["parse", text(v)] for v in wide]
    for v, case, x in zip(wide, cases, c.host(cases, leaks=False, chunk=1)):
        if usable(x) and x[0] == b"ok":
            c.seen(x[2])
            printed(c, case, x[2], v)
            if x[3] != x[1]:
                c.violation("reparse", "printing and reading again changes a wide value of %d" % len(v[1]), {"case": hexcase(case)})
        elif usable(x):
            c.violation("wide", "a wide value of %d is not read" % len(v[1]), {"case": hexcase(case)})
    # operations' results
    cases = []
    for _ in range(c.n(600, 10000)):
        s = jg.rand_bytes(r, jg.rand_len(r)).replace(b"\0", b"\1")
        cases.append((["op", "reverse", "run", text(A(S(s)), r)], A(S(s[::-1]))))
    for v, t in vals:
        if v[0] == "a" and no_nul(t) and len(cases) < c.n(2200, 30000):
            cases.append((["op", "echo", "run", t], v))
    res = c.host([x for x, _ in cases], leaks=False)
    for (case, v), x in zip(cases, res):
        if usable(x) and x[0] == b"str":
            c.seen(x[1])
            printed(c, case, x[1], v)
            c.sample("result %r" % x[1])


def printed(c, case, p, v):
    try:
        got = json.loads(p.decode("latin-1"))
    except (ValueError, RecursionError) as e:
        if isinstance(e, RecursionError):
            return
        c.violation("invalid-json", "printed text is not JSON (%s): %r for %s" % (e, p[:200], show(case)), {"case": hexcase(case)})
        return
    if got != jg.to_py(v) or kinds(got) != kinds(jg.to_py(v)):
        c.violation("other-value", "printed %r for %s" % (p[:200], show(case)), {"case": hexcase(case)})


def kinds(x):
    """Tells True from 1."""
    if isinstance(x, list):
        return [kinds(e) for e in x]
    if isinstance(x, dict):
        return {k: kinds(e) for k, e in x.items()}
    return type(x).__name__


@check("C04")
def c04(c):
    c.rule = "integers at and around every power of two and ten to 2^256, random widths, and beyond; text, API and to_string; " \
             "non-trivial: distinct integers"
    r = c.rng
    ints = set()
    for k in range(0, 257):
        for d in (-2, -1, 0, 1, 2):
            ints.add((1 << k) + d)
    for k in range(0, 80):
        for d in (-1, 0, 1):
            ints.add(10 ** k + d)
    for d in range(1, 10):
        for k in range(1, 80):
            ints.add(int(str(d) * k))
    for _ in range(c.n(2000, 60000)):
        ints.add(jg.rand_int(r))
        ints.add(r.getrandbits(r.randrange(250, 300)))
    for k in (80, 81, 100, 154, 155, 500, 5000):
        ints.add(10 ** k)
        ints.add(10 ** k + (1 << 64))
        ints.add((1 << (k * 3)) + 5)
    ints |= {-i for i in ints}
    ints = sorted(ints)
    cases, want = [], []
    for i in ints:
        d = str(i).encode() if abs(i) < 10 ** 4000 else big(i)
        t = r.choice((b"%s", b"[%s]", b' [1, %s ]', b'{"k":%s}')) % d
        cases.append(["parse", t])
        want.append(jg.classify(t))
    res = c.host(cases, leaks=False)
    for i, case, (k, v), x in zip(ints, cases, want, res):
        if not usable(x):
            continue
        c.seen(i)
        if k == "bad" and x[0] != b"fail":
            c.violation("out-of-range", "an integer of more than 256 bits was accepted: %r as %r" % (case[1][:120], x[1][:120]),
                        {"case": hexcase(case)})
        elif k == "ok":
            judge_parse(c, case[1], v, x, "parse")
            if x[0] == b"ok" and jg.classify(x[2])[1] != v:
                c.violation("print", "printed as %r: %r" % (x[2][:200], case[1]), {"case": hexcase(case)})
    ok = [i for i in ints if abs(i) < jg.LIMIT]
    cases, want = [], []
    for i in ok:
        cases.append(["value", "s256", "%d" % i])
        want.append([b"%d" % i, b"i%d;" % i])
        if -2 ** 31 <= i < 2 ** 31:
            cases.append(["value", "int", "%d" % i])
            want.append([b"%d" % i, b"i%d;" % i])
        cases.append(["tostr", "s256", "%d" % i])
        want.append([b"%d" % i])
        for t, w in (("u64", 64), ("u128", 128), ("u160", 160), ("u256", 256)):
            if 0 <= i < 1 << w:
                cases.append(["tostr", t, "%d" % i])
                want.append([b"%d" % i])
    cases += [["tostr", "bool", "1"], ["tostr", "bool", "0"]]
    want += [[b"true"], [b"false"]]
    for env in [None] + core.locales():
        ix = list(range(len(cases)))
        if env:
            ix = r.sample(ix, len(ix) // 3)
        res = c.host([cases[i] for i in ix], leaks=False, env=env)
        for case, w, x in zip([cases[i] for i in ix], [want[i] for i in ix], res):
            if not usable(x):
                continue
            c.seen(*case)
            if x != w:
                c.violation(":".join(case[:2]), "%s gave %r" % (show(case), x), {"case": hexcase(case)})
    cases = [["op", "echo", "run", "[%d,%d]" % (i, -i)] for i in ok[::3]]
    res = c.host(cases, leaks=False)
    for i, case, x in zip(ok[::3], cases, res):
        if usable(x):
            c.seen(*case)
            c.sample("%s -> %r" % (case[3], x[1]))
            if x[:2] != [b"str", b"[%d,%d]" % (i, -i)]:
                c.violation("echo", "%s gave %r" % (show(case), x[:2]), {"case": hexcase(case)})


def big(i):
    """Decimal digits of an integer of any size (Python limits str())."""
    import sys
    sys.set_int_max_str_digits(0)
    return str(i).encode()


# -- memory -------------------------------------------------------------------
def valid_args(r, fx):
    """Plausible arguments of each operation."""
    k = r.choice(fx["keys"])
    op = r.choice(OPS + ("echo",))
    if op == "reverse":
        v = A(S(jg.rand_bytes(r, jg.rand_len(r, 0.01))))
    elif op == "scrypt":
        v = A(S(jg.rand_bytes(r, r.randrange(0, 170), "f")))
    elif op == "rsa_encrypt":
        n = (int(k["n"]).bit_length() + 7) // 8
        v = A(S(k["pub"]), S(jg.rand_bytes(r, r.choice((0, 1, n - 1, n, n + 1, r.randrange(n + 5))))))
    elif op == "rsa_decrypt":
        n = (int(k["n"]).bit_length() + 7) // 8
        v = A(S(k[r.choice(("pkcs1", "pkcs8"))] if n < 300 else k["pkcs1"]),
              S(jg.rand_bytes(r, r.choice((0, 1, n - 1, n, n + 1, r.randrange(n + 5)))).hex()))
    elif op == "json":
        v = json_args(r)[0]
    else:
        v = A(*[jg.rand_value(r, 1, [10]) for _ in range(r.randrange(4))])
    return op, v


def json_text(r, depth=0, budget=None):
    """JSON as eni_json is given it: with fractions and null as well. -> value with ('p', literal) primitives"""
    budget = budget if budget is not None else [r.choice((4, 12, 40))]
    budget[0] -= 1
    k = r.random()
    if depth > 6 or budget[0] <= 0 or (k < 0.4 and depth):
        j = r.random()
        if j < 0.5:
            return ("s", jg.rand_bytes(r, r.choice((0, 1, 2, 5, 17, 40)), r.choice("aabdgj")))
        if j < 0.8:
            return ("p", b"%d" % jg.rand_int(r))
        return ("p", r.choice((b"true", b"false", b"null", b"1.5", b"-0.25e-3", b"0", b"1E9")))
    n = r.choice((0, 1, 1, 2, 3, 5, 8))
    if k < 0.7:
        return ("a", [json_text(r, depth + 1, budget) for _ in range(n)])
    ks = [jg.rand_bytes(r, r.choice((0, 1, 2, 3, 9, 20)), r.choice("abdgj")) for _ in range(n)]
    if n > 2 and r.random() < 0.3:
        ks[0] = ks[-1]
    return ("o", [(kk, json_text(r, depth + 1, budget)) for kk in ks])


def spell(v, r, out, spans):
    """Write the text of v to out; spans: id(node) -> (begin, end) of its text."""
    def w():
        if r.random() < 0.15:
            out.extend(r.choice(b" \t\n\r") for _ in range(r.choice((1, 2, 5))))
    k, x = v
    w()
    at = len(out)
    if k == "p":
        out += x
    elif k == "s":
        out += jg.emit_string(x, r, r.randrange(3))
    elif k == "a":
        out += b"["
        for i, e in enumerate(x):
            if i:
                out += b","
            spell(e, r, out, spans)
        w()
        out += b"]"
    else:
        out += b"{"
        for i, (kk, e) in enumerate(x):
            if i:
                out += b","
            w()
            out += jg.emit_string(kk, r, r.randrange(3))
            w()
            out += b":"
            spell(e, r, out, spans)
        w()
        out += b"}"
    spans[id(v)] = (at, len(out))
    w()


def json_args(r):
    """Arguments for eni_json, and the result they must have (None: not specified)."""
    v = json_text(r)
    pre = r.choice((b"", b"", b"x", b"[1,", b'{"a":', b"[[[", b'"', jg.rand_bytes(r, r.randrange(30), "g")))
    post = r.choice((b"", b"", b"]", b"}", b",1]", b'"', b"]]", jg.rand_bytes(r, r.randrange(30), "g")))
    out, spans = bytearray(), {}
    spell(v, r, out, spans)
    data = pre + bytes(out) + post
    off = len(pre)
    nodes = []

    def walk(n):
        nodes.append(n)
        for e in n[1] if n[0] == "a" else [y for _, y in n[1]] if n[0] == "o" else ():
            walk(e)
    walk(v)
    n = r.choice(nodes)
    lo, hi = spans[id(n)]

    def tok(m):
        p, q = spans[id(m)]
        return b"%08x%08x" % (p + off, q + off)
    c = r.choice("aagoos")
    if c == "g" and not (n[0] == "a" and n[1]) or c == "o" and n[0] == "a" or c == "s" and n[0] != "s":
        c = "a"             # what is not specified otherwise is left out: see harness/known.h
    args = [S(data), I(lo + off), I(hi + off)]
    if c == "s":
        return A(S("parseString"), *args), n[1]
    if c == "a":
        want = b"".join(map(tok, n[1])) if n[0] == "a" else None if n[0] == "o" else b""
        return A(S("parseArray"), *args), want
    if c == "g":
        i = r.choice((0, 0, 1, len(n[1]) - 1, r.randrange(len(n[1]))))
        i = min(i, len(n[1]) - 1)
        return A(S("arrayGet"), *args, I(i)), tok(n[1][i])
    d = dict(n[1]) if n[0] == "o" else {}
    key = r.choice(list(d)) if d and r.random() < 0.85 else jg.rand_bytes(r, r.randrange(6))
    return A(S("objectGet"), *args, S(key)), tok(d[key]) if key in d else b"0" * 16


# Calls of the examples that are undefined (harness/known.h), and the checks they are findings of.
FINDINGS = [
    ("reverse-arguments", ("C06", "C18"), "reverse", A()),
    ("reverse-arguments", ("C06", "C18"), "reverse", A(I(5))),
    ("json-arguments", ("C06", "C18"), "json", A()),
    ("json-arguments", ("C06", "C18"), "json", A(S("parseArray"), S("[1]"), S("0"), I(3))),
    ("json-arguments", ("C06", "C18"), "json", A(S("arrayGet"), S("[1]"), I(0), I(3))),
    ("json-span", ("C06", "C18"), "json", A(S("parseString"), S('"a"'), I(4), I(4))),
    ("json-span", ("C06", "C18"), "json", A(S("parseArray"), S("[1]"), I(2), I(1))),
    ("json-index", ("C06", "C25"), "json", A(S("arrayGet"), S("[1,2]"), I(0), I(5), I(2))),
    ("json-not-json", ("C06", "C25"), "json", A(S("parseArray"), S(""), I(0), I(0))),
    ("json-not-a-string", ("C06", "C25"), "json", A(S("parseString"), S("true"), I(0), I(4))),
    ("json-not-an-object", ("C06", "C25"), "json", A(S("objectGet"), S("[ [1] ,2]"), I(0), I(9), S("a"))),
]


def findings(c):
    """Show the known findings of this check again."""
    for key, props, op, v in FINDINGS:
        if c.prop in props:
            res, _ = core.host_run([["force", op, "run", text(v)]], env=None)
            x = res[0]
            bad = isinstance(x, Crash) or x[0] == b"?exception" or (c.prop == "C18" and x[0] != b"null")
            c.seen("finding", op, text(v))
            if bad:
                c.violation(key, "%s_run(%s) is not refused: %s" % (
                    op, text(v).decode(), x.kind if isinstance(x, Crash) else b" ".join(x[:2]).decode(errors="replace")),
                    {"case": hexcase(["force", op, "run", text(v)])})


JSON_DATA = re.compile(rb"^([0-9a-f]{16})*$")


LABELS = ("PUBLIC KEY", "RSA PUBLIC KEY", "PRIVATE KEY", "RSA PRIVATE KEY", "ENCRYPTED PRIVATE KEY", "EC PRIVATE KEY", "CERTIFICATE", "X", "")


def odd_pems(r, fx, n):
    """PEM texts that are nearly keys: other labels, text around, blocks in a row, damaged or foreign contents."""
    k = fx["keys"]
    for i in range(n):
        key = r.choice(k[:8])
        t = key[r.choice(("pub", "pkcs1", "pkcs8", "pub", "pkcs1", "pkcs8", "rsapub"))]
        t = t if isinstance(t, str) else t.decode()
        lines = t.strip().split("\n")
        for _ in range(r.choice((1, 1, 2, 3))):
            q = r.randrange(13)
            body = lines[1:-1]
            if q == 0:
                a = r.choice(LABELS)
                lines = ["-----BEGIN %s-----" % a] + body + ["-----END %s-----" % (a if r.random() < 0.8 else r.choice(LABELS))]
            elif q == 1:
                raw = bytearray(base64.b64decode("".join(body) + "==", validate=False)) if all(re.match("^[A-Za-z0-9+/=]*$", x) for x in body) else bytearray(b"0")
                for _ in range(r.choice((1, 1, 2, 9))):
                    if raw:
                        raw[r.choice((r.randrange(len(raw)), r.randrange(min(30, len(raw)))))] = r.choice((0, 1, 0x30, 2, 3, 4, 0x80, 0x82, 0xff, r.randrange(256)))
                if r.random() < 0.3:
                    raw = raw[:r.randrange(len(raw) + 1)]
                e = base64.b64encode(bytes(raw)).decode()
                lines[1:-1] = [e[j:j + 64] for j in range(0, len(e), 64)]
            elif q == 2:
                lines = ["some text", "", "more: text"][:r.randrange(1, 4)] + lines
            elif q == 3:
                lines = lines + ["more", "lines" * r.choice((1, 1, 300)), ""][:r.randrange(1, 4)]
            elif q == 4:
                lines = lines + r.choice(k)[r.choice(("pub", "pkcs8"))].strip().split("\n")
            elif q == 5:
                lines = r.choice(fx["encrypted"] + fx["foreign"] + [fx["ec"], fx["ecpub"]]).strip().split("\n") + lines
            elif q == 6:
                del lines[r.randrange(len(lines)):]
            elif q == 7:
                del lines[:r.randrange(1, len(lines) + 1)]
            elif q == 8:
                lines[1:-1] = [r.choice(("AAAA", "", "=", "MA==", "MIIB", "!!!!", "A" * 200, "MAA="))]
            elif q == 9 and len(lines) > 2:
                j = r.randrange(1, len(lines) - 1)
                x = lines[j]
                m = r.randrange(len(x) + 1)
                lines[j] = r.choice((x[:m], x[:m] + "=" + x[m:], x[:m] + " " + x[m:], x[:m] + "\xe9" + x[m + 1:], x + x, "", x + "\r"))
            elif q == 10:
                lines[1:1] = r.choice((["Proc-Type: 4,ENCRYPTED", "DEK-Info: AES-128-CBC,0123456789ABCDEF0123456789ABCDEF", ""], ["Proc-Type: 4,ENCRYPTED", ""],
                                       ["Proc-Type: 4,ENCRYPTED", "DEK-Info: NONE,00", ""], ["Proc-Type: 4,MIC-ONLY", ""], ["Comment: x", ""], [""]))
            elif q == 11:
                lines = [x + "\r" for x in lines]
            elif q == 12:
                lines = ["".join(lines)] if r.random() < 0.3 else [x + " " * r.randrange(3) for x in lines]
            if not lines:
                lines = [""]
        yield ("\n".join(lines) + r.choice(("\n", "\n", "", "\n\n"))).encode("latin-1", errors="replace")


def hostile(r, fx, n):
    """Arguments nobody would write on purpose."""
    for t in odd_pems(r, fx, n // 8):
        if r.random() < 0.5:
            yield "rsa_encrypt", text(A(S(t), S(jg.rand_bytes(r, r.randrange(60)))))
        else:
            yield "rsa_decrypt", text(A(S(t), S("1f" * r.choice((1, 64, 128)))))
    for key, size in odd_keys(r, n // 8):
        yield "rsa_decrypt", text(A(S(key), S(r.choice(("00", "01", "1f", "ff")) * r.choice((1, size, size, size + 1)))))
    for key, size in odd_public_keys(r, n // 8):
        yield "rsa_encrypt", text(A(S(key), S("\1" * r.choice((0, 1, size, size, size + 1)))))
    for d in (100, 1000, 1023, 1024, 1025, 1026, 5000, 100000):
        for op in ("reverse", "echo"):
            for o, cl in ((b"[", b"]"), (b'{"":', b"}"), (b'[{"a":', b"}]")):
                yield op, o * d + cl * d
                yield op, b"[" + o * d + b"1" + cl * d + b"]"
                yield op, o * d
    for k in (1 << 16, (1 << 16) - 1, 1 << 20):
        yield "reverse", b'["' + b"a" * k + b'"]'
        yield "reverse", b'["' + b"\\u0061" * (k // 6) + b'"]'
        yield "scrypt", b'["' + b"a" * k + b'"]'
        yield "rsa_encrypt", b'["' + b"a" * k + b'","' + b"b" * k + b'"]'
        yield "rsa_decrypt", b'["' + b"a" * k + b'","' + b"0" * k + b'"]'
        yield "echo", b"[" + b"9" * k + b"]"
        yield "echo", b'{"' + b"k" * k + b'":1}'
        yield "echo", b" " * k + b"[1]"
    for key in fx["keys"] + fx["rare"]:
        nb = (int(key["n"]).bit_length() + 7) // 8
        for ln in (0, 1, nb - 1, nb, nb + 1, 2 * nb, 5000):
            yield "rsa_encrypt", text(A(S(key["pub"]), S(b"a" * ln)))
            yield "rsa_encrypt", text(A(S(key["pub"]), S(b"\xff" * ln)))
            yield "rsa_encrypt", text(A(S(key["pub"]), S(b"\0" * ln)))
            yield "rsa_decrypt", text(A(S(key["pkcs1"]), S("ff" * ln)))
            yield "rsa_decrypt", text(A(S(key["pkcs1"]), S("00" * ln)))
            yield "rsa_decrypt", text(A(S(key["pkcs1"]), S("01" * ln)))
    for e in fx["encrypted"] + fx["foreign"] + [fx["ec"], fx["ecpub"], ""]:
        yield "rsa_decrypt", text(A(S(e), S("00")))
        yield "rsa_encrypt", text(A(S(e), S("00")))
    J = ("parseString", "parseArray", "arrayGet", "objectGet", "parse", "")
    datas = [b"", b"[", b"[1", b"[1,2]", b'{"a":1}', b'{"a"', b'{"a":', b'"', b'"a', b'"a"', b"]", b"1", b"[[[[", b"{{{{", b'[{"a":[1,{"b":2}]}]',
             b":", b",", b"\xff", b"[1,2", b'{"a" "b"}', b"{1:2}", b'["a]', b'"\\', b'"\\u', b'"\\u00', b"{:}", b'{"a":1,"b"}', b"a:b", b"{]", b"[}"]
    for o in J:
        for d in datas:
            for lo in (0, 1, len(d) - 1, len(d), -1, len(d) + 1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 63, 2 ** 255):
                hi = r.choice((0, 1, len(d), len(d) - 1, len(d) + 1, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + len(d), 2 ** 64 + len(d)))
                yield "json", text(A(S(o), S(d), I(lo), I(hi), r.choice((I(0), I(-1), I(1), I(2 ** 31), I(2 ** 40), S(b"a"), S(b"")))))
    for i in range(n):
        k = r.random()
        op, v = valid_args(r, fx)
        t = jg.emit(v, r)
        if k < 0.35:
            yield op, t
        elif k < 0.75:
            yield op, jg.mutate(t, r)
        elif k < 0.85:
            yield op, jg.rand_bytes(r, r.randrange(0, 60))
        else:           # the arguments of another operation, or rearranged
            xs = list(v[1]) if v[0] == "a" else [v]
            for _ in range(r.choice((1, 2))):
                j = r.randrange(len(xs) + 1)
                q = r.random()
                if q < 0.4 and xs:
                    del xs[r.randrange(len(xs))]
                elif q < 0.8:
                    xs.insert(j, jg.rand_value(r, 1, [6]))
                elif xs:
                    xs[r.randrange(len(xs))] = jg.rand_value(r, 1, [6])
            yield r.choice((op, r.choice(OPS))), text(("a", xs), r)


@check("C06")
def c06(c):
    c.rule = "hostile argument texts given to X_run and X_gas of every operation under ASan, UBSan and libstdc++ assertions, plus " \
             "in-process coverage-guided fuzzing; non-trivial: distinct argument texts, and inputs that reached new edges"
    fx = fixtures()
    r = c.rng
    cases, seen = [], set()
    for op, t in hostile(r, fx, c.n(2500, 60000)):
        t = t.replace(b"\0", b"")
        if len(t) > 300000 and r.random() < 0.5 and not c.thorough:
            continue
        for w in ("run", "gas"):
            if (op, t, w) not in seen and (len(t) < 3000 or r.random() < 0.6):
                seen.add((op, t, w))
                cases.append(["op", op, w, t])
    r.shuffle(cases)
    findings(c)
    res = c.host(cases, leaks=False, undefined=True)
    for case, x in zip(cases, res):
        if not usable(x):
            continue
        c.seen(*case[1:])
        c.add(case[1] + "." + x[0].decode())
        if len(case[3]) < 200:
            c.sample("%s_%s(%r) -> %r" % (case[1], case[2], case[3], x[:2]))
        if x[0] == b"exit" and x[1] != b"87":
            c.violation("exit", "exit(%s) on %s" % (x[1].decode(), show(case)), {"case": hexcase(case)})
        if b"modified" in x[2]:
            c.violation("modified", "the argument text was written to: %s" % show(case), {"case": hexcase(case)})
    exe = builder().harness("fuzz", extra=("-fsanitize-coverage=trace-pc",) + core.EXIT, ops=True, cov=True)
    c.harness(exe, c.n(24, 48), size=c.n(12000, 100000), label="fuzz", watchdog=c.n(120, 900), timeout=3000, shards=core.JOBS,
              env={"ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"] + ":detect_leaks=0"})


@check("C07")
def c07(c):
    c.rule = "every operation, parser and RSA helper on valid, invalid and malformed inputs under LeakSanitizer, and 2x200 repetitions " \
             "with the allocator's live bytes compared; non-trivial: distinct calls"
    fx = fixtures()
    r = c.rng
    cases, done = [], set()
    for op, t in hostile(r, fx, c.n(2000, 40000)):
        t = t.replace(b"\0", b"")
        if len(t) < 20000:
            cases.append(["op", op, r.choice(("run", "gas")), t])
    for _ in range(c.n(800, 10000)):
        t = jg.emit(jg.rand_value(r), r)
        cases.append(["parse", t if r.random() < 0.6 else jg.mutate(t, r)])
    for k in fx["keys"] + fx["rare"]:
        nb = (int(k["n"]).bit_length() + 7) // 8
        for fn, pem in (("pub_encrypt", k["pub"]), ("pub_decrypt", k["pub"]), ("priv_encrypt", k["pkcs1"]), ("priv_decrypt", k["pkcs8"])):
            cases.append(["rsa", fn, pem, b"abc", b"\xff" * nb, b"a" * (nb + 1), b"\1" + b"\0" * (nb - 1)])
    for pem in fx["encrypted"] + fx["foreign"] + [fx["ec"], fx["ecpub"], "", "x", fx["keys"][0]["pub"][:100], fx["keys"][0]["rsapub"]]:
        cases += [["rsa", "pub_encrypt", pem], ["rsa", "priv_decrypt", pem]]
    for t in odd_pems(r, fx, c.n(500, 8000)):
        cases.append(["rsa", r.choice(("pub_encrypt", "pub_decrypt", "priv_encrypt", "priv_decrypt")), t.replace(b"\0", b""), b"abc", b"\1" * 64])
    for s in (b"", b"0", b"00", b"zz", b"0g", b"ff" * 1000):
        cases += [["hex", "dec", s], ["hex", "enc", s], ["op", "scrypt", "run", text(A(S(s)))]]
    for _ in range(c.n(300, 3000)):
        op, v = valid_args(r, fx)
        if op in ("scrypt", "rsa_encrypt", "rsa_decrypt", "echo"):
            cases.append(["life", op, r.choice(("", "g", "s", "gs", "sg", "ss", "gsgsgs")), jg.emit(v, r).replace(b"\0", b"")])
    for i in range(60):
        cases.append(["value", "object"] + [x for j in range(i) for x in (b"k%d" % (j % 17), b"v" * (j % 3))])
    r.shuffle(cases)
    res = c.host(cases, leaks=True, chunk=max(1, len(cases) // 24), undefined=True)
    for case, x in zip(cases, res):
        if usable(x):
            c.seen(*case)
            if len(show(case)) < 200:
                c.sample(show(case))
    # what stays reachable, but grows
    rep = []
    for op in OPS + ("echo",):
        for w in ("run", "gas"):
            rep.append([op, w, b"[1"])
            rep.append([op, w, b"[]"])
            rep.append([op, w, b"5"])
            rep.append([op, w, b'["x",{"a":[1,"b",true,{"c":-5}]},-77,"y",0]'])
            for _ in range(c.n(6, 40)):
                while True:
                    o, v = valid_args(r, fx)
                    if o == op:
                        break
                rep.append([op, w, jg.emit(v, r).replace(b"\0", b"")])
    cases = [["repeat", o, w, "20" if len(t) > 20000 or o == "scrypt" else "100", t] for o, w, t in rep]
    r.shuffle(cases)
    for variant in ("asan", "o2"):
        # (freed blocks in the thread cache and fast bins would count as in use)
        res = c.host(cases, leaks=variant == "asan", variant=variant, undefined=True,
                     env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0"})
        for case, x in zip(cases, res):
            if not usable(x):
                continue
            c.seen(variant, *case)
            c.add("repeated calls", 4 * int(case[3]))
            if int(x[-1]) >= int(case[3]) * (1 if variant == "asan" else 24):
                c.violation("growth:%s:%s" % (case[1], case[2]), "%s more bytes in use after %s more calls: %s" % (
                    x[-1].decode(), case[3], show(case)), {"case": hexcase(case)})
    exe = builder().harness("value")
    c.harness(exe, c.n(160, 3000), label="value")
    for h in ("hash", "vector"):
        c.harness(builder().harness(h), c.n(160, 2000), mode="all", label=h)


# -- the operations -----------------------------------------------------------
def run_gas(c, cases, want, leaks=False, variant="asan", env=None, undefined=False):
    """cases: (op, text); want: (result value or None, gas). Both entry points of each."""
    hc = []
    for op, t in cases:
        hc += [["op", op, "run", t], ["op", op, "gas", t]]
    res = c.host(hc, leaks=leaks, variant=variant, env=env, undefined=undefined)
    for i, ((op, t), (v, g)) in enumerate(zip(cases, want)):
        run, gas = res[2 * i], res[2 * i + 1]
        if usable(run):
            c.seen(op, "run", t)
            if v is None:
                if run[0] != b"null":
                    c.violation(op + ":run:accepted", "%s_run must fail but gave %r for %r" % (op, run[:2], t[:300]), {"case": hexcase(hc[2 * i])})
            else:
                k, w = jg.classify(run[1]) if run[0] == b"str" else ("bad", None)
                if k == "bad" or jg.dump(w) != jg.dump(v):
                    c.violation(op + ":run", "%s_run gave %r, expected %r, for %r" % (op, run[:2], jg.dump(v)[:300], t[:300]),
                                {"case": hexcase(hc[2 * i])})
            if b"modified" in run[2]:
                c.violation(op + ":modified", "%s_run wrote to its argument text %r" % (op, t[:300]), {"case": hexcase(hc[2 * i])})
        if usable(gas) and g is not None:
            c.seen(op, "gas", t)
            if gas[:2] != [b"gas", b"%d" % g]:
                c.violation(op + ":gas", "%s_gas gave %r, expected %d, for %r" % (op, gas[:2], g, t[:300]), {"case": hexcase(hc[2 * i + 1])})
    return res


def args_valid(op, v):
    """Are these arguments that the operation takes? (the documented signatures)"""
    if v[0] != "a":
        return False
    xs = v[1]
    kind = [x[0] for x in xs]
    if op == "reverse":
        return kind[:1] == ["s"]
    if op == "scrypt":
        return kind[:1] == ["s"] and len(xs[0][1]) <= 160 and re.fullmatch(rb"[0-9a-fA-F]*", xs[0][1]) is not None
    if op in ("rsa_encrypt", "rsa_decrypt"):
        if kind[:2] != ["s", "s"]:
            return False
        if op == "rsa_decrypt" and (len(xs[1][1]) % 2 or not re.fullmatch(rb"[0-9a-fA-F]*", xs[1][1])):
            return False
        return None         # depends on the key
    if kind[:4] != ["s", "s", "i", "i"]:
        return False
    lo, hi = xs[2][1], xs[3][1]
    if not 0 <= lo <= hi <= len(xs[1][1]):
        return False
    o = xs[0][1]
    if o in (b"parseString", b"parseArray"):
        return True
    if o == b"arrayGet":
        return len(xs) > 4 and kind[4] == "i" and xs[4][1] >= 0
    if o == b"objectGet":
        return len(xs) > 4 and kind[4] == "s"
    return False


@check("C18")
def c18(c):
    c.rule = "argument lists of each operation with arguments dropped, added, retyped, out of range, and roots that are no array, judged " \
             "by the documented signature; non-trivial: distinct invalid lists (valid ones are counted apart)"
    c.assumptions = ["arguments after the documented ones are ignored, as the code has it"]
    fx = fixtures()
    r = c.rng
    pub, priv = S(fx["keys"][8]["pub"]), S(fx["keys"][8]["pkcs1"])
    small = fx["keys"][0]
    bad_pem = [S(x) for x in (b"", b"x", fx["ec"], fx["ecpub"], small["pub"][:-30], small["pub"].replace("M", "N", 3),
                              *fx["encrypted"], *fx["foreign"], small["rsapub"], "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n")]
    sample = [I(0), I(-1), I(5), ("b", True), ("b", False), S(b""), S(b"abc"), S(b"00"), A(), A(S(b"abc")), A(S(b"00"), S(b"00")), ("o", []),
              ("o", [(b"0", S(b"a"))])]
    good = {
        "reverse": [A(S(b"abc"))], "scrypt": [A(S(b"00ff"))], "rsa_encrypt": [A(S(small["pub"]), S(b"m"))],
        "rsa_decrypt": [A(S(small["pkcs1"]), S(b"00" * 64))],
        "json": [A(S("parseString"), S(b'"ab"'), I(0), I(4)), A(S("parseArray"), S(b"[1,2]"), I(0), I(5)),
                 A(S("arrayGet"), S(b"[1,2]"), I(0), I(5), I(1)), A(S("objectGet"), S(b'{"a":1}'), I(0), I(7), S("a"))],
    }
    lists = []
    for op in OPS:
        for v in sample:
            lists.append((op, v))                        # roots that are not arrays, and one-element arrays of everything
            lists.append((op, A(v)))
            for w in sample:
                lists.append((op, A(v, w)))
        for g in good[op]:
            xs = g[1]
            lists.append((op, g))
            for i in range(len(xs) + 1):
                lists.append((op, ("a", xs[:i])))
                for s in sample:
                    if i < len(xs):
                        lists.append((op, ("a", xs[:i] + [s] + xs[i + 1:])))
                        lists.append((op, ("a", xs[:i] + [A(xs[i])] + xs[i + 1:])))
                        lists.append((op, ("a", xs[:i] + xs[i + 1:])))
                    lists.append((op, ("a", xs[:i] + [s] + xs[i:])))
            lists.append((op, ("o", [(b"%d" % i, x) for i, x in enumerate(xs)])))
            lists.append((op, A(g)))
    for n in list(range(0, 175)) + [255, 256, 320, 1000, 65536, 65536 + 20]:
        lists.append(("scrypt", A(S(b"a" * n))))
    for k in range(256):
        lists.append(("scrypt", A(S(b"00" + bytes([k])))))
        lists.append(("scrypt", A(S(bytes([k]) + b"0"))))
        lists.append(("rsa_decrypt", A(priv, S(b"0" + bytes([k])))))
        lists.append(("rsa_decrypt", A(priv, S(bytes([k]) + b"0" + b"00" * 20))))
    for n in range(9):
        lists.append(("rsa_decrypt", A(priv, S(b"0" * n))))
    for q in (b"", b"00", b"12ab", b"ff" * 20, b"0" * 128):      # hexadecimal as it is written elsewhere
        for h in (b"0x" + q, b"0X" + q, b"x" + q, b"\\x" + q, b"#" + q, b"$" + q, b"0x" + q[1:], q + b"h", q + b"H", q + b"L", b"+" + q, b"-" + q,
                  b" " + q, q + b" ", q + b"\n", b"\t" + q, q[:2] + b" " + q[2:], q[:2] + b":" + q[2:], q[:4] + b"_" + q[4:], q[:2] + b"\0" + q[2:],
                  q + b"\0", b"\0" + q, b'"' + q + b'"', b"0b" + q, b"\xef\xbb\xbf" + q, b"h'" + q + b"'"):
            for z in (h, h + b"0", h + b" "):
                lists.append(("scrypt", A(S(z))))
                lists.append(("rsa_decrypt", A(priv, S(z))))
    for k, nb in ((priv, rsa_size(fx["keys"][8])), (S(small["pkcs1"]), rsa_size(small))):     # as long as the cipher text and longer
        for n in (2 * nb - 2, 2 * nb - 1, 2 * nb, 2 * nb + 1, 2 * nb + 2, 4 * nb, 4 * nb + 1, 5000, 5001):
            for at in (0, 1, n // 2, n - 2, n - 1):
                h = bytearray(b"0" * n)
                h[at] = r.choice(b"gGxX \n-+@`/:")
                lists.append(("rsa_decrypt", A(k, S(bytes(h)))))
            lists.append(("rsa_decrypt", A(k, S(b"0" * n))))
    d = b'[1,"ab",{"c":3}]'
    for o in ("parseString", "parseArray", "arrayGet", "objectGet", "parseObject", "", "ParseArray", "parseArray ", "parseArra", "arrayGet\0"):
        for lo in (-2 ** 255, -2 ** 32, -2 ** 31, -1, 0, 1, 5, len(d) - 1, len(d), len(d) + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 64, 2 ** 255):
            for hi in (lo - 1, lo, lo + 1, 0, len(d), len(d) + 1, 2 ** 32 + len(d), -1):
                lists.append(("json", A(S(o), S(d), I(lo), I(hi), I(0) if o != "objectGet" else S(b"c"))))
        for ix in (I(-1), I(-2 ** 31), I(-2 ** 64), I(-2 ** 255), I(0), I(2 ** 70), S(b"0"), ("b", True), None):
            lists.append(("json", A(S(o), S(d), I(0), I(len(d)), *([ix] if ix else []))))
    for _ in range(c.n(1200, 30000)):
        op, v = valid_args(r, fx)
        if op == "echo":
            continue
        xs = list(v[1])
        for _ in range(r.choice((1, 1, 2))):
            q = r.random()
            j = r.randrange(len(xs)) if xs else 0
            if q < 0.25 and xs:
                del xs[j]
            elif q < 0.5 and xs:
                xs[j] = r.choice(sample)
            elif q < 0.7:
                xs.insert(j, jg.rand_scalar(r))
            elif xs and xs[j][0] == "i":
                xs[j] = I(r.choice((xs[j][1] - 1, -xs[j][1], xs[j][1] + 2 ** 32, jg.rand_int(r))))
            elif xs and xs[j][0] == "s":
                xs[j] = S(jg.rand_bytes(r, r.randrange(0, 12)))
        lists.append((op, ("a", xs)))
    cases, want = [], []
    for op, v in lists:
        ok = args_valid(op, v)
        c.add("valid" if ok else "key" if ok is None else "invalid")
        if ok is False:
            cases.append((op, text(v)))
            want.append((None, 1500))
    for p in bad_pem:
        for op, m in (("rsa_encrypt", b"m"), ("rsa_decrypt", b"00" * 64)):
            cases.append((op, text(A(p, S(m)))))
            want.append((None, 1500))
    cases.append(("rsa_encrypt", text(A(priv, S(b"m")))))       # a private key where the public one belongs, and back
    cases.append(("rsa_decrypt", text(A(pub, S(b"00")))))
    want += [(None, 1500)] * 2
    order = list(range(len(cases)))
    r.shuffle(order)
    cases, want = [cases[i] for i in order], [want[i] for i in order]
    for op, t in cases[:5]:
        c.sample("%s %r: invalid" % (op, t))
    findings(c)
    run_gas(c, cases, want, undefined=True)
    # and the valid ones are taken
    cases, want = [], []
    for op, v in lists:
        if args_valid(op, v) and op in ("reverse", "scrypt"):
            cases.append((op, text(v)))
    res = c.host([["op", op, "run", t] for op, t in cases], leaks=False)
    for (op, t), x in zip(cases, res):
        if usable(x):
            c.seen(op, t)
            if x[0] != b"str":
                c.violation(op + ":refused", "valid arguments refused: %s %r" % (op, t[:200]), {"case": hexcase(["op", op, "run", t])})


@check("C19")
def c19(c):
    c.rule = "strings of every byte, of all lengths to 1000 and to 1 MiB, in many spellings; non-trivial: distinct strings reversed"
    r = c.rng
    strs = [bytes([i, j]) for i in range(256) for j in (0x61, 255 - i)]
    strs += [bytes(range(256)), b"", b"\0", b"a\0b", b"\0\0a", b'"', b"\\", b"\\\"", "é中😀".encode()]
    strs += [jg.rand_bytes(r, n) for n in list(range(0, 300)) + jg.LENS + jg.BIGLENS + [1 << 20]]
    strs += [jg.rand_bytes(r, jg.rand_len(r)) for _ in range(c.n(2000, 60000))]
    cases, want = [], []
    for s in strs:
        xs = [S(s)]
        while r.random() < 0.2:
            xs.append(jg.rand_scalar(r))
        cases.append(("reverse", text(("a", xs), r)))
        want.append((A(S(s[::-1])), 10 * len(s)))
        if len(s) < 60:
            c.sample("reverse %r" % s)
    run_gas(c, cases, want)


def rsa_size(k):
    return (int(k["n"]).bit_length() + 7) // 8


def messages(r, size, n):
    """Messages of an RSA key: all the lengths, odd contents."""
    for ln in sorted({0, 1, 2, 3, 16, size // 2, size - 2, size - 1, size, size + 1, size + 2, 2 * size, 5 * size} & set(range(10 ** 6))):
        yield jg.rand_bytes(r, ln, "a")
        yield jg.rand_bytes(r, ln, "b")
        yield b"\0" * ln
        yield b"\xff" * ln
    yield b"a\0b"
    yield b"\0\0\0a"
    yield b"a" + b"\0" * 5
    yield b"\0" * (size - 1) + b"\1"
    yield b"\1" + b"\0" * (size - 1)
    for _ in range(n):
        m = jg.rand_bytes(r, r.choice((size, size, size - 1, r.randrange(size + 1))))[:size + 3]
        if r.random() < 0.4:
            m = b"\0" * r.randrange(4) + m
        if r.random() < 0.4:
            m = m[:r.randrange(len(m) + 1)] + b"\0" * r.randrange(5)
        yield m[:size] if r.random() < 0.9 else m


def rsa_enc(m, n, e, size):
    """What pub_encrypt / priv_encrypt must give (None: refused)."""
    if len(m) > size:
        return None
    x = int.from_bytes(m + b"\0" * (size - len(m)), "big")
    return None if x >= n else pow(x, e, n).to_bytes(size, "big")


def rsa_dec(m, n, d, size):
    if len(m) > size:
        return None
    x = int.from_bytes(m, "big")
    return None if x >= n else pow(x, d, n).to_bytes(size, "big").rstrip(b"\0")


def probable_prime(n, r):
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47):
        if n % p == 0:
            return n == p
    d, k = n - 1, 0
    while d % 2 == 0:
        d, k = d // 2, k + 1
    for _ in range(24):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(k - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime(r, bits, e):
    while True:
        p = r.getrandbits(bits) | (3 << (bits - 2)) | 1
        if p % e != 1 and probable_prime(p, r):
            return p


def der(tag, *parts):
    x = b"".join(parts)
    n = len(x)
    if n < 128:
        ln = bytes([n])
    else:
        k = (n.bit_length() + 7) // 8
        ln = bytes([0x80 | k]) + n.to_bytes(k, "big")
    return bytes([tag]) + ln + x


def der_int(i):
    return der(2, i.to_bytes(i.bit_length() // 8 + 1, "big"))


def pem(label, x):
    t = base64.b64encode(x).decode()
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (label, "\n".join(t[i:i + 64] for i in range(0, len(t), 64)), label)


RSA_OID = der(0x30, bytes.fromhex("06092a864886f70d010101"), bytes.fromhex("0500"))


def fresh_keys(r, sizes):
    """New keys of this run, from its seed."""
    keys = []
    for bits in sizes:
        e = r.choice((3, 17, 257, 65537, 65537, prime(r, 31, 4)))
        p = prime(r, (bits + 1) // 2, e)
        q = prime(r, bits // 2, e)
        while q == p:
            q = prime(r, bits // 2, e)
        n, d = p * q, pow(e, -1, (p - 1) * (q - 1))
        p1 = der(0x30, *map(der_int, (0, n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p))))
        p8 = der(0x30, der_int(0), RSA_OID, der(4, p1))
        pub = der(0x30, RSA_OID, der(3, b"\0", der(0x30, der_int(n), der_int(e))))
        keys.append({"n": str(n), "e": str(e), "d": str(d), "pkcs8": pem("PRIVATE KEY", p8), "pkcs1": pem("RSA PRIVATE KEY", p1),
                     "pub": pem("PUBLIC KEY", pub)})
    return keys


def odd_keys(r, n):
    """Private keys whose parts do not fit together."""
    out = []
    for _ in range(n):
        bits = r.choice((64, 128, 192, 512, 520, 1024))
        e = r.choice((3, 17, 65537))
        p, q = prime(r, bits // 2, e), prime(r, bits // 2, e)
        m, d = p * q, pow(e, -1, (p - 1) * (q - 1)) if p != q else 3
        parts = [0, m, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p) if p != q else 1]
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            i = r.randrange(1, 9)
            x = parts[i]
            parts[i] = r.choice((x + 1, max(x - 1, 0), x + 2, x ^ 1 << r.randrange(max(x.bit_length(), 1)), x ^ 4, 0, 1, 2, 3, x * 3, x >> 8, x << 8, parts[r.randrange(1, 9)], -x,
                                 prime(r, bits // 2, e), r.getrandbits(bits)))
        x = der(0x30, *[der(2, v.to_bytes(v.bit_length() // 8 + 1, "big", signed=True)) for v in parts])
        out.append((r.choice((pem("RSA PRIVATE KEY", x), pem("PRIVATE KEY", der(0x30, der_int(0), RSA_OID, der(4, x))))), (parts[1].bit_length() + 7) // 8))
    return out


def odd_public_keys(r, n):
    """Public keys no private key belongs to."""
    out = []
    for _ in range(n):
        m = r.getrandbits(r.choice((8, 64, 512, 513, 1024, 3072, 3080, 16384, 16392))) | r.randrange(2)
        m = r.choice((m, m, m, m & ~1, 0, 1, 2, -m))
        e = r.choice((0, 1, 2, 3, 65537, 2 ** 33 + 1, 2 ** 63 + 1, 2 ** 64 + 1, 2 ** 65 + 1, m, m - 1, m + 2, -3, r.getrandbits(1000)))
        x = der(0x30, *[der(2, v.to_bytes(v.bit_length() // 8 + 1, "big", signed=True)) for v in (m, e)])
        out.append((pem("PUBLIC KEY", der(0x30, RSA_OID, der(3, b"\0", x))), (m.bit_length() + 7) // 8))
    return out


@check("C20")
def c20(c):
    c.rule = "20 keys of 512 to 8192 bits (odd sizes, e of 3, 17, 65537 and of 1000 bits, three primes) and fresh ones, messages of all lengths around the key size, NUL " \
             "bytes anywhere, values above the modulus, texts of 2 and 4 GiB, against pow(m, e, n); non-trivial: distinct (key, function, message)"
    vast(c, "rsa", 4.1)
    r = c.rng
    fx = fixtures()
    keys = fx["keys"] + fx["rare"] + fresh_keys(r, [r.randrange(512, 900) for _ in range(6)] + [1024] + ([r.randrange(900, 2100) for _ in range(12)] if c.thorough else []))
    cases, want = [], []
    for k in keys:
        n, e, d, size = int(k["n"]), int(k["e"]), int(k["d"]), rsa_size(k)
        few = size > 256
        ms = list(messages(r, size, c.n(4 if few else 25, 60 if few else 400)))
        if few:
            ms = ms[::2]
        if size > 600:
            ms = ms[::10]
        # a message and a cipher text whose integer is n-1, n, n+1
        for x in (n - 1, n, n + 1, 0, 1):
            ms.append(x.to_bytes(size, "big"))
        for fn, pem, exp in (("pub_encrypt", k["pub"], e), ("priv_encrypt", k[r.choice(("pkcs1", "pkcs8"))], d)):
            cases.append(["rsa", fn, pem] + ms)
            want.append([rsa_enc(m, n, exp, size) for m in ms])
            dec = []
            other = d if exp == e else e
            for m in ms[:c.n(12 if few else 40, 200)]:
                x = rsa_enc(m, n, exp, size)
                if x is not None:
                    dec.append(x)
                    if r.random() < 0.1:
                        dec.append(x.lstrip(b"\0"))
            dec += ms[::7]
            dec.append(pow(int.from_bytes(b"\0" * (size - 3) + b"abc", "big"), exp, n).to_bytes(size, "big"))
            dec = [m for m in dec if m]          # (what an empty text decrypts to is not specified)
            fn2, pem2 = ("priv_decrypt", k[r.choice(("pkcs1", "pkcs8"))]) if exp == e else ("pub_decrypt", k["pub"])
            cases.append(["rsa", fn2, pem2] + dec)
            want.append([rsa_dec(m, n, other, size) for m in dec])
    res = c.host(cases, leaks=False, chunk=2)
    for case, w, x in zip(cases, want, res):
        if not usable(x):
            continue
        if x[0] != b"key":
            c.violation("key:" + case[1], "a good key was refused: %s" % case[2][:40], {"case": hexcase(case)})
            continue
        for i, (m, y) in enumerate(zip(case[3:], w)):
            c.seen(case[1], case[2], m)
            rc, got = x[1 + 2 * i], x[2 + 2 * i]
            if (rc == b"1") != (y is not None) or (y is not None and got != y):
                c.violation(case[1] + (":refused" if y is not None and rc != b"1" else ":accepted" if y is None else ":result"),
                            "%s with %d-byte message %r gave %r %r, expected %r" % (case[1], len(m), m[:80], rc, got[:80], y and y[:80]),
                            {"case": hexcase(case[:3] + [m])})
        if b"?destroy" in x:
            c.violation("destroy", "destroy() left the pointer set", {"case": hexcase(case)})
        c.sample("%s, %d messages" % (case[1], len(w)))
    bad = []
    k = fx["keys"][8]
    for pem in fx["encrypted"] + fx["foreign"] + [fx["ec"], fx["ecpub"], "", "x", k["pub"][:-40], k["pkcs1"][:-60], k["rsapub"]]:
        bad += [["rsa", "pub_encrypt", pem, "a"], ["rsa", "priv_encrypt", pem, "a"]]
    bad += [["rsa", "pub_encrypt", k["pkcs1"], "a"], ["rsa", "priv_encrypt", k["pub"], "a"]]
    for case, x in zip(bad, c.host(bad, leaks=False)):
        if usable(x):
            c.seen(*case)
            if x != [b"nokey"]:
                c.violation("badkey:" + case[1], "no key was expected from %r" % case[2][:60], {"case": hexcase(case)})


@check("C21")
def c21(c):
    c.rule = "rsa_encrypt and rsa_decrypt through the C interface, JSON in and out, on the key fixtures and fresh keys; non-trivial: " \
             "distinct (operation, arguments)"
    r = c.rng
    fx = fixtures()
    keys = fx["keys"] + fx["rare"] + fresh_keys(r, [r.randrange(512, 1100) for _ in range(c.n(4, 20))])
    cases, want = [], []
    for k in keys:
        n, e, d, size = int(k["n"]), int(k["e"]), int(k["d"]), rsa_size(k)
        ms = list(messages(r, size, c.n(6, 80)))
        if size > 200:
            ms = ms[::3]
        if size > 600:
            ms = ms[::4]
        ms.append((n - 1).to_bytes(size, "big"))
        ms.append(n.to_bytes(size, "big"))
        for m in ms:
            x = rsa_enc(m, n, e, size)
            cases.append(("rsa_encrypt", text(A(S(k["pub"]), S(m)), r)))
            want.append((None if x is None else A(S(x.hex())), size * 10))
            if x is None:
                x = m
            h = x.hex()
            h = h.upper() if r.random() < 0.2 else "".join(r.choice((q, q.upper())) for q in h) if r.random() < 0.2 else h
            y = rsa_dec(x, n, d, size)
            cases.append(("rsa_decrypt", text(A(S(k[r.choice(("pkcs1", "pkcs8"))]), S(h)), r)))
            want.append((None if y is None else A(S(y)), size * 10))
    res = run_gas(c, cases, want)
    for (op, t), x in list(zip(cases, res[::2]))[:4]:
        c.sample("%s -> %s" % (op, show(x) if usable(x) else x))
    # an operation's own output, fed back
    k = fx["keys"][8]
    ms = [jg.rand_bytes(r, r.randrange(0, 127), "a") for _ in range(c.n(40, 400))]
    enc = c.host([["op", "rsa_encrypt", "run", text(A(S(k["pub"]), S(m)))] for m in ms], leaks=False)
    dec = []
    for m, x in zip(ms, enc):
        h = json.loads(x[1])[0] if usable(x) and x[0] == b"str" else ""
        dec.append(["op", "rsa_decrypt", "run", text(A(S(k["pkcs1"]), S(h)))])
    for m, case, x in zip(ms, dec, c.host(dec, leaks=False)):
        if usable(x):
            c.seen("trip", m)
            if x[0] != b"str" or jg.classify(x[1])[1] != A(S(m)):
                c.violation("trip", "%r came back as %r" % (m, x[:2]), {"case": hexcase(case)})


@check("C22")
def c22(c):
    c.rule = "all bytes and byte pairs at both positions, strings of all lengths to 1000 and to 1 MiB; non-trivial: distinct inputs"
    if c.thorough:
        vast(c, "hex", 11)
    r = c.rng
    enc = [bytes([i]) for i in range(256)] + [bytes(range(256)), b""]
    enc += [jg.rand_bytes(r, n) for n in list(range(200)) + jg.LENS + jg.BIGLENS + [1 << 20]]
    enc += [jg.rand_bytes(r, jg.rand_len(r)) for _ in range(c.n(1500, 30000))]
    dec = [bytes([i, j]) for i in range(256) for j in range(256)]
    dec += [b"00" * k + bytes([j]) + b"1" + b"ff" * (k % 3) for k in (1, 2, 7) for j in range(256)]
    dec += [b"0" * n for n in range(40)]
    for q in (b"", b"00", b"12ab", b"ff" * 20):                  # hexadecimal as it is written elsewhere
        for h in (b"0x" + q, b"0X" + q, b"\\x" + q, b"#" + q, q + b"h", q + b"L", b"+" + q, b"-" + q, b" " + q, q + b" ", q + b"\n", q + b"\r\n",
                  q[:2] + b" " + q[2:], q[:2] + b":" + q[2:], q[:4] + b"_" + q[4:], q[:2] + b"\0" + q[2:], q + b"\0", b"\xef\xbb\xbf" + q):
            dec += [h, h + b"0", h + b"00"]
    for s in enc:
        h = s.hex().encode()
        dec += [h, h.upper()]
        if h and r.random() < 0.3:
            i = r.randrange(len(h))
            dec.append(h[:i] + bytes([r.randrange(256)]) + h[i + 1:])
            dec.append(h[:-1])
            dec.append(h + bytes([r.randrange(256)]))
    pack = 64                                      # several per record, to keep files small
    cases = [["hex", "enc", s] for s in enc] + [["hex", "dec", s] for s in dec]
    for env in [None] + core.locales():
        sub = cases if env is None else cases[:500] + cases[-500:]
        for case, x in zip(sub, c.host(sub, leaks=False, env=env)):
            if not usable(x):
                continue
            c.seen(case[1], case[2])
            s = case[2]
            if case[1] == "enc":
                if x != [b"1", s.hex().encode()]:
                    c.violation("enc", "str2hex(%r) gave %r" % (s[:60], x[1][:120]), {"case": hexcase(case)})
            elif len(s) % 2 == 0 and re.fullmatch(rb"[0-9a-fA-F]*", s):
                if x != [b"1", bytes.fromhex(s.decode())]:
                    c.violation("dec", "hex2str(%r) gave %r" % (s[:120], x), {"case": hexcase(case)})
            elif x[0] != b"0":
                c.violation("dec-accepts", "hex2str(%r) is not hexadecimal but gave %r" % (s[:120], x), {"case": hexcase(case)})
    c.sample("enc %r, dec %r" % (enc[300], dec[-1][:100]))


def scrypt_ref(h):
    if len(h) % 2:
        h = b"0" + h
    x = bytes.fromhex(h.decode())
    x += b"\0" * (80 - len(x))
    return hashlib.scrypt(x, salt=x, n=1024, r=1, p=1, dklen=32)


@check("C23")
def c23(c):
    c.rule = "headers of all lengths 0 to 160 digits in both cases, every byte at every position, against hashlib.scrypt; non-trivial: " \
             "distinct arguments"
    r = c.rng
    hs = []
    for n in range(161):
        hs.append(jg.rand_bytes(r, n, "f"))
        hs.append(b"0" * n)
        hs.append(b"f" * n)
        hs.append(b"F" * n)
    for i in range(256):
        hs.append(b"%02x" % i)
        hs.append((b"%02X" % i) * 80)
        p = r.randrange(80)
        hs.append(b"00" * p + b"%02x" % i + b"00" * (79 - p))
    for p in range(160):
        hs.append(b"0" * p + r.choice((b"1", b"8", b"a", b"F")) + b"0" * (159 - p))
    hs += [jg.rand_bytes(r, r.choice((160, 160, 159, r.randrange(161))), "f") for _ in range(c.n(600, 20000))]
    cases = [("scrypt", text(A(S(h)), r)) for h in hs]
    want = [(A(S(scrypt_ref(h).hex())), (len(h) + 1) // 2 * 10) for h in hs]
    run_gas(c, cases, want)
    for h in hs[-4:]:
        c.sample("scrypt %r" % h)


@check("C24")
def c24(c):
    c.rule = "PBKDF2 with passwords and salts around the block sizes, 0 to 10000 rounds' counts, output lengths around multiples of 32; " \
             "scrypt core on 80-byte blocks at every alignment of the scratchpad; against hashlib; non-trivial: distinct inputs"
    r = c.rng
    cases, want = [], []
    edge = [0, 1, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 66, 119, 120, 127, 128, 129, 200, 255, 256, 257, 1000, 5000]

    def pb(pw, salt, n, dk):
        cases.append(["pbkdf2", pw, salt, "%d" % n, "%d" % dk])
        want.append([hashlib.pbkdf2_hmac("sha256", pw, salt, n, dk), b""])
    for n in edge:
        pb(jg.rand_bytes(r, n, "b"), b"salt", 1, 32)
        pb(b"password", jg.rand_bytes(r, n, "b"), 2, 64)
        pb(jg.rand_bytes(r, n, "b"), jg.rand_bytes(r, n, "b"), 1, 128)
    for dk in range(1, 200):
        pb(b"pw", b"salt", 1, dk)
    for dk in (255, 256, 257, 1000, 8159, 8160, 8161, 8192, 8193, 8224, 20000, 70000):
        pb(b"pw", b"NaCl", 1, dk)
    for n in (1, 2, 3, 4, 5, 10, 255, 256, 257, 1000):
        pb(b"passwd", b"salt", n, r.choice((1, 20, 32, 33, 64, 65)))
    pb(b"passwd", b"salt", 65537, 40)            # counters of 16 bits
    pb(b"p", b"s", 1, 32 * 65537)
    if c.thorough:
        pb(b"p", b"s", 1, 32 * (1 << 19) + 5)
    for _ in range(c.n(800, 20000)):
        pb(jg.rand_bytes(r, r.choice((r.choice(edge[:-2]), r.randrange(100))), "b"),
           jg.rand_bytes(r, r.choice((r.choice(edge[:-2]), r.randrange(100))), "b"), r.choice((1, 1, 2, 3, 7)), r.randrange(1, 200))
    for i in range(c.n(500, 10000)):
        x = jg.rand_bytes(r, 80, "b") if i > 160 else (b"\0" * (i // 2) + bytes([r.choice((1, 128, 255)) if i & 1 else 0]) + b"\0" * 80)[:80]
        y = hashlib.scrypt(x, salt=x, n=1024, r=1, p=1, dklen=32)
        cases.append(["scryptcore", x, "%d" % (i % 64)])
        want.append([y, y, b""])
    order = list(range(len(cases)))
    r.shuffle(order)
    cases, want = [cases[i] for i in order], [want[i] for i in order]
    res = c.host(cases, leaks=False)
    for case, w, x in zip(cases, want, res):
        if not usable(x):
            continue
        c.seen(*case)
        if len(show(case)) < 150:
            c.sample(show(case))
        if x[0] != w[0] or (case[0] == "scryptcore" and x[1] != w[1]):
            c.violation(case[0], "%s gave %s, expected %s" % (show(case), x[0][:40].hex(), w[0][:40].hex()), {"case": hexcase(case)})
        if x[-1]:
            c.violation(case[0] + ":modified", "the input was written to: %s" % show(case), {"case": hexcase(case)})


@check("C25")
def c25(c):
    c.rule = "documents (with null, fractions, duplicate keys, escapes, white space) embedded in other text; every node addressed by its " \
             "span, and walks from the root by the spans returned; non-trivial: distinct calls"
    c.assumptions = ["parseArray/arrayGet on an object are not specified (results must stay inside the text)",
                     "calls listed in harness/known.h (findings: text that is not JSON, an index past the end) are left out"]
    r = c.rng
    cases, want, hosts = [], [], []
    for _ in range(c.n(3000, 60000)):
        v, w = json_args(r)
        if w is None:
            hosts.append(v)
            continue
        cases.append(("json", text(v, r)))
        want.append((A(S(w)), 10 * len(w)))
    for n in (0, 1, 2, 100, 1000, 5000):
        d = b"[" + b",".join(b'"%d"' % i if i % 3 else b"[%d,{}]" % i for i in range(n)) + b"]"
        k = r.randrange(max(n, 1))
        v = A(S("arrayGet"), S(d), I(0), I(len(d)), I(k))
        if n:
            e = b'"%d"' % k if k % 3 else b"[%d,{}]" % k
            at = len(b"[" + b",".join(b'"%d"' % i if i % 3 else b"[%d,{}]" % i for i in range(k)) + (b"," if k else b""))
            cases.append(("json", text(v)))
            want.append((A(S(b"%08x%08x" % (at, at + len(e)))), 160))
    for op, t in cases[:4]:
        c.sample(t.decode("latin-1"))
    run_gas(c, cases, want)
    # not JSON, or not specified: any answer, but inside the text
    for _ in range(c.n(1500, 30000)):
        v, w = json_args(r)
        xs = v[1]
        d = jg.mutate(xs[1][1], r)
        lo = r.randrange(len(d) + 1)
        hi = r.randrange(lo, len(d) + 1)
        hosts.append(("a", [xs[0], S(d), I(lo), I(hi)] + xs[4:]))
    findings(c)
    hc = [["op", "json", "run", text(v)] for v in hosts]
    for v, case, x in zip(hosts, hc, c.host(hc, leaks=False, undefined=True)):
        if not usable(x):
            continue
        c.seen(*case)
        lo, hi, op = v[1][2][1], v[1][3][1], v[1][0][1]
        if x[0] != b"str":
            c.violation("refused", "valid arguments refused: %s" % show(case), {"case": hexcase(case)})
        elif op != b"parseString":
            k, w = jg.classify(x[1])
            s = w[1][0][1] if k != "bad" and w[0] == "a" and len(w[1]) == 1 and w[1][0][0] == "s" else b"?"
            if not JSON_DATA.match(s) or any(
                    not (lo <= int(s[i:i + 8], 16) <= int(s[i + 8:i + 16], 16) <= hi) for i in range(0, len(s), 16)
                    if s[i:i + 16] != b"0" * 16):
                c.violation("outside", "%s answered %r" % (show(case), x[1]), {"case": hexcase(case)})
    # walk: from the root by the spans that the operation itself returns
    for _ in range(c.n(3, 30)):
        v = json_text(r, 0, [40])
        out, spans = bytearray(), {}
        spell(v, r, out, spans)
        d = bytes(out)
        level = [(v, 0, len(d))]
        while level:
            cs = []
            for node, lo, hi in level:
                if node[0] == "a":
                    cs += [(e, A(S("arrayGet"), S(d), I(lo), I(hi), I(i))) for i, e in enumerate(node[1])]
                elif node[0] == "o":
                    cs += [(e, A(S("objectGet"), S(d), I(lo), I(hi), S(k))) for k, e in dict(node[1]).items()]
            res = c.host([["op", "json", "run", text(a)] for _, a in cs], leaks=False) if cs else []
            level = []
            for (e, a), x in zip(cs, res):
                if not usable(x):
                    continue
                c.seen("walk", text(a))
                s = json.loads(x[1])[0] if x[0] == b"str" else ""
                if len(s) != 16 or (int(s[:8], 16), int(s[8:], 16)) != spans[id(e)]:
                    c.violation("walk", "%r gave %r, expected %r" % (text(a)[:300], x[:2], spans[id(e)]), {"case": hexcase(["op", "json", "run", text(a)])})
                else:
                    level.append((e, int(s[:8], 16), int(s[8:], 16)))
            c.add("walk levels")


# -- containers and values: C++ monitors that run beside a model -----------------
@check("C05")
def c05(c):
    c.rule = "random histories of construction, copy, move, assignment (also from an own part), mutation through every accessor and container " \
             "call on json::Value/Array/Object beside a model tree; every value is compared after every step. Non-trivial: distinct trees"
    exe = builder().harness("value")
    c.harness(exe, c.n(6000, 150000), label="value")


def own_tables(c):
    """Tables whose entry type and allocator are the user's; the monitor of the others has been built."""
    try:
        exe = builder().harness("hashown")
    except core.HarnessError as e:
        if c.prop != "C08":
            return
        line = [x for x in str(e).splitlines() if "error:" in x][:1]
        c.violation("own-entry-compile", "a table with an entry type or an allocator of its own cannot be compiled: " + "".join(line))
        return
    c.harness(exe, c.n(1600, 30000), mode="all", size=c.n(600, 1500), label="own entry type and allocator")


@check("C08")
def c08(c):
    c.rule = "random histories on HashTable and StringHashTable (15 kinds of key, hasher, entry type and allocator, colliding hashes included) beside std::map, all keys " \
             "looked up after steps; non-trivial: distinct (contents) seen"
    exe = builder().harness("hash")
    c.harness(exe, c.n(6000, 120000), mode="map", size=c.n(600, 1500))
    c.harness(exe, c.n(16, 64), mode="big", size=c.n(100000, 400000))
    own_tables(c)


@check("C09")
def c09(c):
    c.rule = "the same histories with every bucket scanned after every step: hashes, counters, an empty bucket left, no more buckets than " \
             "the entries ever held justify; non-trivial: distinct (buckets, entries, tombstones)"
    exe = builder().harness("hash")
    c.harness(exe, c.n(4000, 80000), mode="structure", size=c.n(600, 1500))
    c.harness(exe, c.n(16, 64), mode="big", size=c.n(100000, 400000))


@check("C10")
def c10(c):
    c.rule = "random histories on StringMap with keys of any bytes and lengths to 64 MiB (thorough: 4 GiB) that share hashes, prefixes or lengths mod 2^8, 2^16, " \
             "2^24 (2^32), beside std::map; non-trivial: distinct (size, key)"
    exe = builder().harness("hash")
    c.harness(exe, c.n(1200, 20000), mode="strmap", size=c.n(26, 32), watchdog=c.n(20, 400))


@check("C11")
def c11(c):
    c.rule = "full and chain iteration, const and not, after the steps of random histories, each entry exactly once against std::map; " \
             "non-trivial: distinct contents iterated"
    exe = builder().harness("hash")
    c.harness(exe, c.n(6000, 100000), mode="iterate", size=c.n(500, 1200))


@check("C12")
def c12(c):
    c.rule = "random histories on Vector (int, string, checked elements) beside std::vector, with arguments taken from the vector itself; " \
             "non-trivial: distinct (operation, contents)"
    exe = builder().harness("vector")
    c.harness(exe, c.n(12000, 300000), mode="vec")
    if c.thorough:
        vast(c, "vector", 9)


@check("C13")
def c13(c):
    c.rule = "an element type that checks each construction, assignment, read and destruction against the set of living objects, in Vector " \
             "(copies that throw included) and hash table histories, with an allocator beside them that counts its blocks; non-trivial: distinct histories"
    exe = builder().harness("vector")
    c.harness(exe, c.n(8000, 150000), mode="life", label="vector")
    c.harness(builder().harness("hash"), c.n(2500, 40000), mode="all", label="hash")
    own_tables(c)


@check("C14")
def c14(c):
    c.rule = "accesses and sizes outside the contract (positions, sizes, keys, kinds), each beside the documented exception and an unchanged " \
             "container; non-trivial: distinct (call, argument, state)"
    exe = builder().harness("contract")
    c.harness(exe, c.n(8000, 200000), mode="contract")
    c.harness(builder().harness("vector"), c.n(2000, 40000), mode="range", label="vector")


@check("C15")
def c15(c):
    c.rule = "random sequences of getGas and start on operations whose callbacks succeed, fail or give any value, and the C entry points, " \
             "beside a model of the life cycle; non-trivial: distinct sequences"
    exe = builder().harness("lifecycle")
    c.harness(exe, c.n(16000, 400000), label="life")
    if c.thorough:
        vast(c, "op", 13)


@check("C27")
def c27(c):
    c.rule = "every string hasher on random and structured byte strings against reference definitions, and the ES filter on random pairs " \
             "(a name contained in another is never ruled out); non-trivial: distinct strings"
    exe = builder().harness("contract")
    c.harness(exe, c.n(20000, 400000), mode="hasher")
    for env in core.locales():
        c.harness(exe, c.n(4000, 40000), mode="hasher", env=env, label="hasher in " + env["VERIF_LOCALE"])
    vast(c, "hasher", 4.2)


@check("C29")
def c29(c):
    c.rule = "random walks of Vector, array and pointer iterators in both directions, differences, order and conversions against indices; " \
             "non-trivial: distinct (size, position, step)"
    exe = builder().harness("contract")
    c.harness(exe, c.n(16000, 300000), mode="iterator")


@check("C17")
def c17(c):
    c.rule = "2 to 8 threads start together on operations, parsing, printing, values, keys, hashing and reads of shared values and tables, " \
             "with yields injected at allocations; ThreadSanitizer watches, results are compared with those of one thread. Processes are " \
             "short, so that first uses meet. Non-trivial: distinct orders of the start and end events of the tasks"
    exe = builder().harness("threads", "tsan", ops=True, libs=("-lpthread",))
    c.harness(exe, c.n(2000, 30000), label="threads", watchdog=120, per=4)


@check("C28", level="fault_enumeration")
def c28(c):
    c.rule = "for operations of random histories on Vector, HashTable, StringHashTable, StringMap and JSON values, every allocation inside " \
             "the operation is made to fail in turn (alone, and with all after it): the exception, the contents, leaks and later use are " \
             "checked. Non-trivial: distinct (case, failing allocation, site kind)"
    c.assumptions = ["one operation per scenario fails; the histories before it and after it have memory"]
    c.harness(faulty("alloc"), c.n(4900, 200000), label="alloc")


def faulty(name, **kw):
    """A monitor in whose allocations faults are injected."""
    wrap = "malloc,calloc,realloc,free,aligned_alloc,posix_memalign,strdup,strndup".split(",")
    return builder().harness(name, flags=("-Wl," + ",".join("--wrap=" + w for w in wrap),), **kw)


@check("C30", level="fault_enumeration")
def c30(c):
    c.rule = "for operations (run and gas), parsing, printing, hexadecimal and RSA calls on random arguments, every allocation of the call is " \
             "made to fail in turn (alone, and with all after it), for RSA also those inside OpenSSL: the answer, what is released and the " \
             "next call are checked. Non-trivial: distinct (call, failing allocation)"
    c.assumptions = ["memory that OpenSSL itself loses when its own allocations fail is not counted",
                     "gas is 1500, as for refused arguments, when OpenSSL has no memory for the key"]
    exe = faulty("oom", ops=True)
    c.harness(exe, c.n(3000, 120000), label="oom", per=c.n(200, 1000))
    nolsan = {"ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")}
    c.harness(exe, c.n(160, 4000), mode="openssl", env=nolsan, per=c.n(10, 40), watchdog=120)


# -- the command line tools ------------------------------------------------------
USAGE, LOAD, SYM, REFUSED = "usage", "load", "symbol", "refused"


def tool_model(argv):
    """What the words of a command line stand for: [library, operation, parameters] or None."""
    pos, options = [], True
    for a in argv:
        if options and a[:1] == b"-":
            if a == b"--":
                options = False
        else:
            pos.append(a)
    return pos if len(pos) == 3 else None


def run_tools(jobs, env=None):
    """jobs: (program, argv, cwd, env) -> [(exit status, stdout, stderr)]"""
    import concurrent.futures as cf

    def go(j):
        exe, argv, cwd, extra = j
        e = dict(os.environ)
        e.update(core.SAN_ENV)
        e.update(env or {})
        e.update(extra or {})
        try:
            p = subprocess.run([exe] + [core.b(a) for a in argv], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=120)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return None, b"", b"timeout"
        except OSError:             # a word longer than this system takes
            if max(map(len, argv), default=0) < 100000:
                raise
            return "skip", b"", b""
    with cf.ThreadPoolExecutor(core.JOBS) as pool:
        return list(pool.map(go, jobs))


PROBE = {   # operation -> (run, gas): bytes printed, REFUSED or SYM
    b"echo": (None, None), b"null": (REFUSED, REFUSED), b"norun": (REFUSED, b"7"), b"nogas": (b"[]", REFUSED), b"onlyrun": (b"[1]", SYM),
    b"onlygas": (SYM, b"5"), b"empty": (b"", b"0"), b"max": (b"\n", b"18446744073709551615"), b"half": (b"%s%n\\", b"9223372036854775808"),
    b"mid": (b" [ ] ", b"4294967296"), b"": (b"no name", b"11"), b"echo_run": (b"longer name", b"12"), b"count": (b"1", b"1"),
    b"big": (bytes(33 + i * 7 % 90 for i in range(3000000)), b"1234567890123456789"),
    b"missing": (SYM, SYM), b"ech": (SYM, SYM), b"echo_gas": (SYM, SYM), b"Echo": (SYM, SYM), b"echo ": (SYM, SYM), b"big_ru": (SYM, SYM)}


@check("C26")
def c26(c):
    c.rule = "command lines of 0 to 7 words for eni_run and eni_gas (dashes, --, empty words, other libraries, missing entry points, operations " \
             "that refuse, give extreme figures or 3 MB; parameters of any bytes to 100 KB; the real operations), under ASan and as optimised " \
             "programs; exit status, standard output and error are judged. Non-trivial: distinct command lines"
    c.assumptions = ["one word of a command line is at most 128 KiB and has no NUL (the kernel's limits)"]
    r = c.rng
    fx = fixtures()
    scratch = tempfile.mkdtemp(prefix="vf")
    try:
        for variant in ("asan", "o2"):
            t = builder().cli(variant)
            probe = builder().module(variant, "probe", os.path.join(core.VERIF, "harness", "probe.cpp"))
            d = os.path.join(scratch, variant)
            os.makedirs(os.path.join(d, "a dir"))
            for n in ("probe.so", "-probe.so", "a dir/p.so", "probe"):
                shutil.copy(probe, os.path.join(d, n))
            for n, s in (("text.so", b"not a library\n"), ("none.so", b""), ("cut.so", open(probe, "rb").read()[:40])):
                with open(os.path.join(d, n), "wb") as f:
                    f.write(s)
            good = [probe, "./probe.so", "./-probe.so", "./a dir/p.so", "a dir/p.so", "./probe", d + "/../" + variant + "/probe.so"]
            bad = ["./missing.so", "/nowhere/x.so", "./text.so", "./none.so", "./cut.so", ".", "./a dir", "probe.so ", "libno-such-library.so"]
            jobs, want = [], []

            def add(tool, argv, w, extra=None):
                if isinstance(w, str) or w == 87:      # (what the process holds when it fails is not looked at)
                    extra = dict(extra or {}, ASAN_OPTIONS=core.SAN_ENV["ASAN_OPTIONS"] + ":detect_leaks=0")
                jobs.append((t[tool], argv, d, extra))
                want.append((tool, w))

            def expect(tool, pos):
                """What a command line with these three words must give."""
                lib, op, params = pos
                if lib.decode(errors="surrogateescape") not in good:
                    return LOAD
                w = PROBE.get(op, (SYM, SYM))[tool == "eni_gas"]
                if w is None:
                    w = params if tool == "eni_run" else b"%d" % len(params)
                return w if isinstance(w, str) else w + b"\n"

            def param():
                k = r.random()
                if k < 0.3:
                    return text(jg.rand_value(r, 1, [6]), r).replace(b"\0", b"")
                if k < 0.5:
                    return r.choice((b"", b"-", b"--", b"-1", b"--x", b"[]", b" ", b"\n", b"%s%n", b"a\\nb", b"$HOME", b"*"))
                return jg.rand_bytes(r, r.choice((1, 3, 10, 100, 1000))).replace(b"\0", b"\1")
            for tool in ("eni_run", "eni_gas"):
                for op in PROBE:
                    pos = [core.b(good[1]), op, param()]
                    add(tool, [b"--"] + pos, expect(tool, pos))
                for lib in good + bad:
                    pos = [core.b(lib), b"echo", b"[1]"]
                    add(tool, pos if lib[:1] != "-" else [b"--"] + pos, expect(tool, pos))
                for n in (30000, 100000, 131000):
                    pos = [core.b(probe), b"echo", bytes(r.randrange(1, 256) for _ in range(n))]
                    add(tool, [b"--"] + pos, expect(tool, pos))
                for i in range(1, 256):
                    if variant == "o2" or i < 3 or i == 45:
                        pos = [core.b(probe), b"echo", bytes([i, 255 - i or 1])]
                        add(tool, [b"--"] + pos, expect(tool, pos))
                for i in range(c.n(500 if variant == "asan" else 1200, 12000)):
                    argv = [core.b(r.choice(good) if r.random() < 0.9 else r.choice(bad)), r.choice([b"echo"] * 12 + list(PROBE)), param()]
                    if r.random() < 0.3:
                        argv[2] = r.choice((b"-x", b"-", b"--", b"", b"---", b"-1"))
                    for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
                        argv.insert(r.randrange(len(argv) + 1), r.choice((b"--", b"--", b"-", b"-v", b"--help", b"-h", b"---", b"-1", b"--=", b"-\xff",
                                                                         b"x", b"[2]", b"")))
                    if r.random() < 0.15:
                        del argv[r.randrange(len(argv))]
                    pos = tool_model(argv)
                    w = USAGE if pos is None else expect(tool, pos) if pos[0] != b"" else SYM
                    add(tool, argv, w)
                for argv in ([], [b"--"], [b"--", b"--", b"--"], [b"--", b"--", b"--", b"--"], [b"-"] * 3, [b"a"], [b"a", b"b"], [b"a", b"b", b"c", b"d"], [b""] * 4,
                             [b"-a", b"-b", b"-c"], [core.b(probe), b"echo"], [core.b(probe), b"echo", b"x", b""], [core.b(probe), b"echo", b"x", b"y", b"z"]):
                    pos = tool_model(argv)
                    add(tool, argv, USAGE if pos is None else expect(tool, pos))
                # the library found by name
                add(tool, ["probe.so", "echo", "xyz"], b"xyz\n" if tool == "eni_run" else b"3\n", {"LD_LIBRARY_PATH": d})
                # the real operations
                k = fx["keys"][2]
                for s in (b"", b"abc", b"a\0b", bytes(range(256)), jg.rand_bytes(r, 300), b"a" * 60000):
                    a = text(A(S(s)))
                    add(tool, [t["eni_reverse"], "reverse", a],
                        (A(S(s[::-1])) if tool == "eni_run" else b"%d\n" % (10 * len(s))))
                add(tool, [t["eni_json"], "json", text(A(S("arrayGet"), S("[1,[22],3]"), I(0), I(10), I(1)))],
                    A(S("0000000300000007")) if tool == "eni_run" else b"160\n")
                h = bytes(r.randrange(256) for _ in range(80))
                add(tool, [t["eni_scrypt"], "scrypt", text(A(S(h.hex())))],
                    A(S(hashlib.scrypt(h, salt=h, n=1024, r=1, p=1, dklen=32).hex())) if tool == "eni_run" else b"800\n")
                size = rsa_size(k)
                e = rsa_enc(b"\1hello", int(k["n"]), int(k["e"]), size)
                add(tool, [t["eni_crypto"], "rsa_encrypt", text(A(S(k["pub"]), S(b"\1hello")))],
                    A(S(e.hex())) if tool == "eni_run" else b"%d\n" % (10 * size))
                add(tool, [t["eni_crypto"], "rsa_decrypt", text(A(S(k["pkcs1"]), S(e.hex())))],
                    A(S(b"\1hello")) if tool == "eni_run" else b"%d\n" % (10 * size))
                mods = {"reverse": "eni_reverse", "json": "eni_json", "scrypt": "eni_scrypt", "rsa_encrypt": "eni_crypto", "rsa_decrypt": "eni_crypto"}
                for op, m in mods.items():
                    for a in (b"", b"[", b"[1", b"{", b"x", b"[1]]", b"[null]", b"[1.5]", b'["\\x"]', b"-", b"--", b"[tru]", b"\xff"):
                        add(tool, [t[m], op, b"--", a] if a[:1] != b"-" else [t[m], b"--", op, a], 87)
                    for a in (b"{}", b"5", b'"abc"', b"true"):
                        add(tool, [t[m], op, a], REFUSED if tool == "eni_run" else b"1500\n")
                    add(tool, [t[m], op + "_", "[1"], SYM)
            # an output that cannot be written
            for tool in ("eni_run", "eni_gas"):
                for op in (b"echo", b"big", b"mid", b"half"):
                    for where in (">/dev/full", ">&-", "</dev/null >/dev/full 2>&1"):
                        argv = ["-c", '"$0" "$@" ' + where, t[tool], "--", core.b(probe), op, b"[1]"]
                        rc, out, err = run_tools([("/bin/sh", argv, d, {"ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"] + ":detect_leaks=0"})])[0]
                        c.seen(variant, tool, op, where)
                        c.add("output that cannot be written")
                        if rc is None or rc <= 0 or rc in (97, 98, 99):
                            c.violation("%s:unwritten" % tool, "exit status %s although the output could not be written: %s %s %s" % (rc, tool, op.decode(), where),
                                        {"argv": [core.b(a).hex() for a in argv], "stderr": clip(err.decode(errors="replace"))})
            res = run_tools(jobs)
            for (exe, argv, _, _), (tool, w), (rc, out, err) in zip(jobs, want, res):
                if rc == "skip":
                    c.add("too long for this system")
                    continue
                line = "%s %s" % (tool, " ".join(repr(core.b(a))[1:][:100] for a in argv))
                c.seen(variant, tool, argv)
                what = w if isinstance(w, str) else "status 87" if w == 87 else "result"
                c.add(what)
                if len(line) < 200:
                    c.sample("%s: %r (%s)" % (line.replace(core.BUILD, ""), out[:60], what))
                data = {"argv": [core.b(a).hex() for a in argv], "tool": tool, "variant": variant, "rc": rc, "stdout": repr(out[:2000]),
                        "stderr": clip(err.decode(errors="replace"))}
                log = err.decode(errors="replace")
                if rc is None or rc < 0 or rc in (97, 98, 99):
                    kind, one = core.classify(rc, log)
                    c.violation("%s:%s" % (tool, one), "%s: %s" % (one, line), data)
                    continue
                if isinstance(w, (bytes, tuple)):
                    if rc != 0:
                        c.violation(tool + ":status", "exit status %d, expected a result: %s" % (rc, line), data)
                    elif isinstance(w, bytes) and out != w:
                        c.violation(tool + ":output", "%s in the output of %s" % (diff(w, out), line), data)
                    elif isinstance(w, tuple):
                        k, v = jg.classify(out[:-1])
                        if out[-1:] != b"\n" or k == "bad" or jg.dump(v) != jg.dump(w):
                            c.violation(tool + ":result", "%r, expected %r: %s" % (out[:200], jg.dump(w)[:200], line), data)
                    continue
                if out:
                    c.violation("%s:stdout:%s" % (tool, what), "output %r although it failed (%s): %s" % (out[:100], what, line), data)
                if w == 87:
                    if rc != 87 or not err:
                        c.violation(tool + ":malformed", "malformed parameters: exit status %d, diagnostic %r: %s" % (rc, err[:100], line), data)
                elif rc == 0 or rc == 87:
                    c.violation("%s:%s" % (tool, what), "exit status %d although it failed (%s): %s" % (rc, what, line), data)
                elif w == USAGE and (core.b(tool) not in err or b"LIBPATH" not in err):
                    c.violation(tool + ":usage", "no usage on standard error (%r): %s" % (err[:100], line), data)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# -- determinism -----------------------------------------------------------------
def outcome(x):
    """What a call gave, without the diagnostic text."""
    if x is None or isinstance(x, Crash):
        return x.kind.split(" in ")[0] if x else None
    return x


def kin_keys(r, fx):
    """Calls with keys that are alike, and with the same message or header but for one byte."""
    out = []
    size = r.choice([rsa_size(k) for k in fx["keys"]])
    keys = [k for k in fx["keys"] if rsa_size(k) == size][:4]
    m = b"\1" + jg.rand_bytes(r, r.randrange(size // 2))
    for k in keys + keys[:1]:
        for x in (m, m[:-1] + b"\x7e"):
            out.append(["op", "rsa_encrypt", r.choice(("run", "gas")), text(A(S(k["pub"]), S(x)))])
            out.append(["op", "rsa_decrypt", r.choice(("run", "run", "gas")), text(A(S(k["pkcs1"]), S(("%02x" % len(x)) * size)))])
            out.append(["rsa", "pub_encrypt", k["pub"], x])
            out.append(["rsa", "priv_decrypt", k["pkcs8"], b"\1" * size])
    h = bytearray(jg.rand_bytes(r, 80))
    for i in (0, 3, 4, 35, 36, 63, 64, 67, 68, 75, 76, 79):
        h[i] ^= 1
        out.append(["op", "scrypt", r.choice(("run", "run", "gas")), text(A(S(bytes(h).hex())))])
        out.append(["scryptcore", bytes(h)])
    return [[x if isinstance(x, str) else x.replace(b"\0", b"") if i[0] == "op" else x for x in i] for i in out]


def kin(r, n):
    """Calls with texts of about n bytes that differ little, or not at all, from each other."""
    s = jg.rand_bytes(r, n, "a")
    k = r.randrange(n) if n else 0
    forms = [s, s[:-1] + b"!", b"!" + s[1:], s[:k] + b"!" + s[k + 1:], s[::-1], s[:k] + s[k + 1:], s + b"x", s]
    form = r.randrange(4)
    out = []
    for t in forms:
        t = t.decode()
        if form == 0:
            out += [["op", "reverse", m, text(A(S(t)))] for m in ("gas", "run")]
        elif form == 1:
            out += [["op", op, m, text(A(S(t), S("x"), I(len(t)), ("b", t != ""), S(t[-3:])))] for op, m in (("echo", "gas"), ("echo", "run"), ("reverse", "gas"), ("rsa_encrypt", "run"))]
        elif form == 2:
            v = text(A(*([S(t[i:i + 9]) for i in range(0, len(t), 9)] + [S(t[:9])])))
            out += [["parse", v], ["op", "echo", "run", v], ["op", "echo", "gas", v[:-1]]]
        else:
            o = text(A(S("arrayGet"), S('["%s","%s"]' % (t, t[-5:])), I(0), I(2 * len(t) + 20), I(r.randrange(2))))
            out += [["op", "json", m, o] for m in ("run", "gas", "run")]
    return [[x if isinstance(x, str) else x.replace(b"\0", b"") for x in i] for i in out]


@check("C16")
def c16(c):
    c.rule = "one list of calls (all operations, parsing and printing, RSA helpers, hexadecimal, decimal) in processes that differ in optimisation " \
             "level, order, earlier calls (alike ones, or 10^5 of them), contents of fresh memory, layout, environment, locale, directory, and whose clock, random numbers, " \
             "process id and environment are invented; every outcome must be the same. Valgrind watches for unwritten memory. Non-trivial: " \
             "distinct (configuration, call)"
    c.assumptions = ["calls that harness/known.h leaves out are left out", "one machine: x86-64, glibc"]
    r = c.rng
    fx = fixtures()
    calls = []
    for _ in range(c.n(700, 8000)):
        op, v = valid_args(r, fx)
        t = jg.emit(v, r).replace(b"\0", b"")
        calls.append(["op", op, r.choice(("run", "run", "gas")), t if r.random() < 0.8 else jg.mutate(t, r).replace(b"\0", b"")])
    for op, t in hostile(r, fx, c.n(100, 2000)):
        t = t.replace(b"\0", b"")
        if len(t) < 5000 and r.random() < 0.2:
            calls.append(["op", op, r.choice(("run", "gas")), t])
    for _ in range(c.n(500, 5000)):
        t = jg.emit(jg.rand_value(r), r)
        calls.append(["parse", t if r.random() < 0.7 else jg.mutate(t, r)])
    for op in OPS + ("echo",):
        for t in (b"[]", b"5", b"{}", b"[", b"", b"[true]", b'[""]', b'["",""]'):
            calls += [["op", op, "run", t], ["op", op, "gas", t]]
    for _ in range(c.n(150, 2000)):
        op, v = valid_args(r, fx)
        calls.append(["life", r.choice(("scrypt", "rsa_encrypt", "rsa_decrypt", "echo")), r.choice(("gs", "sg", "gsgs", "ss")), jg.emit(v, r).replace(b"\0", b"")])
        k = r.choice(fx["keys"])
        size = rsa_size(k)
        fn, pem = r.choice((("pub_encrypt", k["pub"]), ("pub_decrypt", k["pub"]), ("priv_encrypt", k["pkcs1"]), ("priv_decrypt", k["pkcs8"])))
        calls.append(["rsa", fn, pem] + [b"\0" * r.randrange(2) + jg.rand_bytes(r, r.randrange(1, size)) for _ in range(2)])
        calls.append(["hex", r.choice(("enc", "dec")), r.choice((jg.rand_bytes(r, r.randrange(40)), jg.rand_bytes(r, 9).hex()))])
        n, salt = r.randrange(100), jg.rand_bytes(r, r.randrange(90))
        calls.append(["pbkdf2", jg.rand_bytes(r, n), salt, "%d" % r.randrange(1, 4), "%d" % r.randrange(1, 150)])
        calls.append(["scryptcore", jg.rand_bytes(r, 80)])
        calls.append(["tostr", r.choice(("u64", "u128", "u160", "u256", "s256")), "%d" % r.randrange(2 ** 60)])
    # every length of the fixed buffers, also under valgrind
    lengths = [["op", "scrypt", "run", text(A(S(jg.rand_bytes(r, n, "f"))))] for n in range(161)]
    lengths += [["op", "reverse", "run", text(A(S(jg.rand_bytes(r, n, "a"))))] for n in list(range(0, 20)) + [31, 32, 33, 255, 256, 257]]
    lengths += [["pbkdf2", jg.rand_bytes(r, n, "a"), jg.rand_bytes(r, 100 - n, "a"), "1", "%d" % (n + 1)] for n in (0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 100)]
    for k in fx["keys"][::5]:
        size = rsa_size(k)
        for n in (0, 1, size // 2, size - 1, size):
            lengths.append(["op", "rsa_encrypt", "run", text(A(S(k["pub"]), S(b"\1" * n)))])
        lengths.append(["op", "rsa_decrypt", "run", text(A(S(k["pkcs1"]), S("01" * size)))])
    calls += lengths
    for key, size in odd_keys(r, c.n(150, 2000)):
        size = max(size, 1)
        m = b"\0" + jg.rand_bytes(r, size - 1)
        calls.append(["op", "rsa_decrypt", "run", text(A(S(key), S(m.hex())))])
        calls.append(["rsa", r.choice(("priv_encrypt", "priv_decrypt")), key, m, b"\1", m])
    for key, size in odd_public_keys(r, c.n(60, 800)):
        calls.append(["op", "rsa_encrypt", "run", text(A(S(key), S("\2" * max(size - 1, 0))))])
        calls.append(["rsa", r.choice(("pub_encrypt", "pub_decrypt")), key, b"\0" + b"\1" * max(size - 1, 0), b"\1"])
    # calls that are alike, one right after the other: what is kept from the one must not serve the other
    groups = [[x] for x in calls]
    alike = 0
    for n in (0, 3, 40, 300, 1100, 4097, 5000, 20000, 70000):
        for _ in range(c.n(3, 12)):
            g = kin(r, n)
            alike += len(g)
            groups.append(g)
    for _ in range(c.n(4, 30)):
        g = kin_keys(r, fx)
        alike += len(g)
        groups.append(g)
    c.extra["calls next to one they are like"] = alike
    r.shuffle(groups)
    calls, families = [], []
    for g in groups:
        families.append(list(range(len(calls), len(calls) + len(g))))
        calls += g
    scratch = tempfile.mkdtemp(prefix="vf")
    try:
        shim = {"LD_PRELOAD": builder().preload("shim")}
        noaslr = ["setarch", "-R"] if subprocess.call(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0 else None
        clean = {"TZ": "UTC", "LC_ALL": "C"}
        other = {"TZ": "Asia/Taipei", "LC_ALL": "C.UTF-8", "LANG": "de_DE.UTF-8", "HOME": "/nonexistent", "USER": "nobody", "PATH": "/nonexistent",
                 "TMPDIR": "/nonexistent", "COLUMNS": "20", "DEBUG": "1", "ENI_DEBUG": "1", "PAD": "x" * r.randrange(1, 20000)}
        configs = [     # name, variant, environment, launcher, order
            ("o2", "o2", {}, (), "same"),
            ("o2 again, other order", "o2", {}, (), "shuffled"),
            ("o3", "o3", {}, (), "shuffled"),
            ("sanitizers", "asan", {}, (), "shuffled"),
            ("fresh memory A5", "o0", {"MALLOC_PERTURB_": "90", "VERIF_STACK": "165"}, (), "same"),
            ("fresh memory FF", "o2", {"MALLOC_PERTURB_": "1", "VERIF_STACK": "255"}, (), "shuffled"),
            ("fresh memory 01", "o2", {"MALLOC_PERTURB_": "254", "VERIF_STACK": "1"}, (), "same"),
            ("used heap", "o2", {"VERIF_HEAP": "7", "VERIF_STACK": "48"}, (), "shuffled"),
            ("used heap o0", "o0", {"VERIF_HEAP": "8", "VERIF_STACK": "90"}, (), "reversed"),
            ("invented time, chance, environment", "o2", shim, (), "shuffled"),
            ("environment", "o2", other, (), "shuffled"),
            ("locale", "o2", core.locales()[0], (), "shuffled"),
            ("other locale", "o2", core.locales()[1], (), "shuffled"),
            ("arenas", "o2", {"GLIBC_TUNABLES": "glibc.malloc.mmap_threshold=64:glibc.malloc.tcache_count=0", "VERIF_CASE_CPU": "120"}, (), "same"),
        ]
        if noaslr:
            configs.append(("fixed layout", "o2", {}, noaslr, "same"))
            configs.append(("fixed layout, bottom-up", "o0", {}, ["setarch", "-R", "-L"], "reversed"))
        if c.thorough:
            for i in range(6):
                configs.append(("used heap %d" % i, "o2", {"VERIF_HEAP": "%d" % (20 + i), "VERIF_STACK": "%d" % (i * 40 + 1), "MALLOC_PERTURB_": "%d" % (i * 41 + 3)}, (),
                                "shuffled"))
        base, _ = core.host_run(calls, "o0", env=clean, sizes=[len(g) for g in families])
        base = [outcome(x) for x in base]
        groups = {}
        for i, x in zip(calls, base):
            k = "%s %s" % (":".join(map(str, i[:2])) if i[0] == "op" else i[0], x[0].decode() if isinstance(x, list) and i[0] in ("op", "parse") else "")
            groups[k] = groups.get(k, 0) + 1
            c.sample("%s -> %r" % (show(i), x[:2] if isinstance(x, list) else x))
        c.extra["first run"] = groups
        for name, variant, env, launch, order in configs:
            gs = list(families)
            if order == "shuffled":
                gs = [r.sample(g, len(g)) for g in r.sample(families, len(families))]
            elif order == "reversed":
                gs = [g[::-1] for g in families[::-1]]
            ix = [i for g in gs for i in g]
            res, _ = core.host_run([calls[i] for i in ix], variant, env=env, launch=launch, sizes=[len(g) for g in gs])
            c.add("configurations")
            for i, x in zip(ix, res):
                x = outcome(x)
                if base[i] is None or x is None or base[i] == [] and x == []:
                    continue
                if base[i][:1] == [b"?known"] or x[:1] == [b"?known"]:
                    c.add("left out")
                    continue
                c.seen(name, *calls[i])
                if x != base[i]:
                    c.violation("%s:%s" % (name, ":".join(map(str, calls[i][:2 if calls[i][0] in ("op", "rsa", "life") else 1]))),
                                "%s: %r, at first %r, for %s" % (name, x[:3] if isinstance(x, list) else x,
                                                                 base[i][:3] if isinstance(base[i], list) else base[i], show(calls[i])),
                                {"case": hexcase(calls[i]), "configuration": [name, variant, env, list(launch), order],
                                 "next to it": [hexcase(calls[j]) for g in families if i in g for j in g if j != i][:20]})
        # very many calls in one process
        k = min(fx["keys"], key=rsa_size)
        size = rsa_size(k)
        short = [["op", "reverse", "run", '["abc"]'], ["op", "reverse", "gas", '["abc"]'], ["op", "echo", "run", '[1,{"a":[true,"x"]},-5]'], ["op", "echo", "run", "[]"],
                 ["op", "json", "run", text(A(S("arrayGet"), S("[1,[22],3]"), I(0), I(10), I(1)))], ["parse", '{"a":1,"b":[2,3]}'], ["parse", '["\\u0041\\n"]'],
                 ["parse", "[1"], ["op", "echo", "run", "[1"], ["op", "echo", "gas", "5"], ["op", "scrypt", "gas", '["00ff"]'], ["op", "scrypt", "run", '["xx"]'],
                 ["hex", "enc", "abc\xff"], ["hex", "dec", "00ff7a"], ["tostr", "s256", "%d" % -2 ** 200], ["tostr", "u64", "12345"], ["hash", "abc"],
                 ["value", "array", "x", "y"], ["value", "object", "a", "b", "c", "d"], ["pbkdf2", "a", "b", "1", "33"]]
        slow = [["op", "scrypt", "run", text(A(S("5a" * 80)))], ["scryptcore", b"\7" * 80], ["op", "rsa_encrypt", "run", text(A(S(k["pub"]), S(b"\1hello")))],
                ["op", "rsa_decrypt", "run", text(A(S(k["pkcs1"]), S("01" * size)))], ["rsa", "priv_encrypt", k["pkcs8"], b"abc"], ["op", "rsa_encrypt", "gas", text(A(S(k["pub"]), S("")))],
                ["op", "rsa_decrypt", "run", text(A(S("no key"), S("00")))], ["life", "rsa_decrypt", "gs", text(A(S(k["pkcs1"]), S("01" * size)))]]
        pairs = [(x, r.choice(short)) for x in short] + [(x, r.choice(slow + short)) for x in slow]
        ec = [["endure", "%d" % (c.n(140000, 1200000) if x in short and y in short else c.n(9000, 70000)), "%d" % c.n(5, 60), "%d" % len(x)] + x + y for x, y in pairs]
        res, _ = core.host_run(ec, "o2", chunk=1, env={"VERIF_CASE_CPU": "%d" % c.n(120, 600)})
        least = None
        for case, x in zip(ec, res):
            c.seen(*case)
            if not isinstance(x, list):
                c.violation("endure", "ended after many calls: %s: %s" % (x and x.kind, show(case)), {"case": hexcase(case)})
                continue
            c.add("calls in long series", int(x[1]))
            least = min(int(x[1]), least or 10 ** 9)
            if x[0] != b"same":
                c.violation("endure:" + ":".join(map(str, case[4:6])), "call %s in a row gave something else: %r: %s" % (x[1].decode(), x[2:], show(case)), {"case": hexcase(case)})
        c.extra["shortest long series"] = least
        # alone in a process, and through the tools
        alone = [i for i in range(len(calls)) if isinstance(base[i], list) and base[i][:1] != [b"?known"]]
        alone = r.sample(alone, min(len(alone), c.n(250, 3000)))
        res, _ = core.host_run([calls[i] for i in alone], "o2", chunk=1, env=other)
        for i, x in zip(alone, res):
            x = outcome(x)
            c.seen("alone", *calls[i])
            if x is not None and x != base[i]:
                c.violation("alone:" + str(calls[i][0]), "in a process of its own: %r, among others %r, for %s" % (x[:3], base[i][:3], show(calls[i])),
                            {"case": hexcase(calls[i])})
        t = builder().cli("o2")
        mods = {"reverse": "eni_reverse", "json": "eni_json", "scrypt": "eni_scrypt", "rsa_encrypt": "eni_crypto", "rsa_decrypt": "eni_crypto"}
        tool = [i for i in range(len(calls)) if calls[i][0] == "op" and calls[i][1] in mods and isinstance(base[i], list) and base[i][:1] != [b"?known"]
                and len(calls[i][3]) < 60000]
        tool = r.sample(tool, min(len(tool), c.n(300, 3000)))
        jobs = [(t["eni_" + calls[i][2]], [t[mods[calls[i][1]]], "--", calls[i][1], calls[i][3]], scratch, r.choice(({}, shim, other))) for i in tool]
        for i, (rc, out, err) in zip(tool, run_tools(jobs)):
            if rc == "skip":
                continue
            c.seen("tool", *calls[i])
            k, v = base[i][:2]
            ok = (rc == 0 and out == v + b"\n") if k in (b"str", b"gas") else (rc == 87 and not out) if k == b"exit" else (rc not in (0, None) and rc > 0 and not out)
            if not ok:
                c.violation("tool:" + str(calls[i][1]), "eni_%s: status %s, %r; in the first run %r, for %s" % (calls[i][2], rc, out[:100], base[i][:2], show(calls[i])),
                            {"case": hexcase(calls[i])})
        # memory that was not written
        some = [i for i in range(len(calls)) if len(b"".join(map(b, calls[i]))) < 3000 and isinstance(base[i], list)]
        some = r.sample(some, min(len(some), c.n(400, 4000)))
        every = {tuple(hexcase(x)) for x in lengths}
        some = sorted(set(some) | {i for i in range(len(calls)) if tuple(hexcase(calls[i])) in every and isinstance(base[i], list)}, key=lambda i: (i * 7919) % 10007)
        res, _ = core.host_run([calls[i] for i in some], "o0", timeout=3000, env={"VERIF_CASE_CPU": "900"},
                               launch=["valgrind", "-q", "--num-callers=25", "--log-file=" + os.path.join(scratch, "vg.%p")], chunk=(len(some) + core.JOBS - 1) // core.JOBS)
        for i, x in zip(some, res):
            x = outcome(x)
            c.seen("valgrind", *calls[i])
            c.add("calls under valgrind")
            if x is not None and x != base[i]:
                c.violation("valgrind:" + str(calls[i][0]), "under valgrind: %r, at first %r, for %s" % (x[:3], base[i][:3], show(calls[i])),
                            {"case": hexcase(calls[i])})
        for f in sorted(os.listdir(scratch)):
            if f.startswith("vg."):
                with open(os.path.join(scratch, f), errors="replace") as fh:
                    log = fh.read()
                c.add("valgrind processes")
                for rep in re.split(r"\n==\d+== \n", log):
                    if re.search(r"ninitialised|Invalid (read|write|free)|Mismatched free", rep):
                        where = re.search(r"(?:at|by) 0x[0-9A-F]+: ([^\n]*?\((?!vg_)[\w.]+:\d+\))", rep)
                        first = re.sub(r"^==\d+== ", "", rep.strip().split("\n")[0])
                        c.violation("valgrind:" + first, "valgrind: %s %s" % (first, where.group(1) if where else ""), {"log": clip(rep)})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
