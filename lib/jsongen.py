"""Texts for the JSON checks (what they mean is decided by the specification)."""
import itertools, json, random

WS = [b"", b"", b"", b" ", b"\n", b"\t", b"\r", b"  ", b" \r\n\t"]
BADWS = [b"\x0b", b"\x0c", b"\xc2\xa0", b"\xef\xbb\xbf", b"\x00", b"//x\n", b"/**/"]
CPS = [0x20, 0x21, 0x22, 0x2f, 0x5c, 0x41, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x103ff, 0x10400, 0xfffff, 0x10fffe, 0x10ffff, 0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 0x1e, 0x1f]
NUMS = ["0", "-0", "1", "-1", "9", "10", "127", "128", "255", "256", "65535", "2147483647", "2147483648", "4294967295", "4294967296",
        "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551619", "18446744073709551620", "-18446744073709551615", "-18446744073709551616", "99999999999999999999", "184467440737095516150",
        "0.0", "-0.0", "0e0", "0E+5", "-0e-7", "1.0", "1e0", "1E5", "1e+5", "1e-5", "1.5", "0.1", "0.2", "0.3", "123.456e7", "123.456E-7", "1e22", "1e23", "1e-22", "1e-23", "8.5e22", "9007199254740993.0", "9007199254740993e0", "9007199254740993e5",
        "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "17976931348623158079372897140530341507993413271003782693617377898044496829276475094664901797758720709633028641669288791094655554785194040263065748867150582068190890200070838367627385484581771153176447573027006985557136695962284291481986083493647529271907416844436551070434271155969950809304288017790417449779",
        "1e308", "1e309", "-1e309", "1e400", "1e99999", "1e2147483647", "1e2147483648", "1e-2147483648", "0e2147483648", "0e99999999999999999999", "0.0e-99999999999999999999", "1e99999999999999999999", "1e-99999999999999999999", "-1e99999999999999999999",
        "5e-324", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.5e-324", "1e-323", "2.2250738585072014e-308", "2.2250738585072011e-308", "2.225073858507201e-308", "1e-400",
        "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126", "9007199254740993.000000000000000000001", "-9007199254740993.00000000000000000", "18446744073709551616.5", "1844674407370955161.59999", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880e0",
        "00", "01", "-", "-a", "-01", "+1", "1.", ".5", "1.e5", "1e", "1e+", "1e-", "1e1.5", "1.2.3", "0x10", "1_000", "Infinity", "-Infinity", "NaN", "1a", "--1", "1-", "1e5e5", "0.", "-.5", "1 2", "00.5", "1e0005", "1e-0005", "0.00000", "0.1e00"]
WORDS = [b"null", b"true", b"false", b"nul", b"tru", b"fals", b"nulll", b"truE", b"Null", b"NULL", b"n", b"t", b"f", b"nxll", b"trxe", b"falsx", b"undefined", b"nan"]


def utf8(c):
    return chr(c).encode("utf8", "surrogatepass")


class JGen:
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def ws(self):
        return self.rng.choice(WS)

    def char(self):
        """one character of a string in one of its notations"""
        rng = self.rng
        x = rng.random()
        if x < .5: c = rng.randrange(32, 127)
        elif x < .8: c = rng.choice(CPS)
        else:
            c = rng.choice((rng.randrange(0x80, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000)))
            if 0xd800 <= c < 0xe000: c = 0xe9
        y = rng.random()
        short = {8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 34: b'\\"', 92: b"\\\\", 47: b"\\/"}
        if c in short and y < .5: return short[c]
        if c < 32 or c in (34, 92) or y < .2:
            f = rng.choice(("%04x", "%04X"))
            if c >= 0x10000:
                c -= 0x10000
                return ("\\u" + f % (0xd800 + (c >> 10)) + "\\u" + f % (0xdc00 + (c & 0x3ff))).encode()
            return ("\\u" + f % c).encode()
        return utf8(c)

    def string(self, n=None):
        n = self.rng.choice((0, 1, 1, 2, 3, 5, 8)) if n is None else n
        return b'"' + b"".join(self.char() for _ in range(n)) + b'"'

    def num(self):
        rng = self.rng
        x = rng.random()
        if x < .3: return rng.choice(NUMS[:96]).encode()
        if x < .5: return str(rng.choice((1, -1)) * rng.getrandbits(rng.choice((3, 8, 16, 31, 32, 53, 62, 63, 64, 65, 80)))).encode()
        s = rng.choice(("", "", "-")) + (str(rng.getrandbits(rng.choice((1, 4, 10, 30, 60, 64, 70, 120)))))
        if x < .9 and rng.random() < .7: s += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice((1, 1, 2, 3, 8, 17, 25, 40))))
        if rng.random() < .5: s += rng.choice("eE") + rng.choice(("", "+", "-")) + str(rng.choice((0, 1, 2, 5, 10, 22, 23, 37, 100, 290, 300, 307, 308, 309, 310, 324, 340, 400, rng.randrange(30))))
        return s.encode()

    def value(self, d):
        rng = self.rng
        x = rng.random()
        if d <= 0 or x < .35:
            y = rng.random()
            if y < .3: return self.num()
            if y < .7: return self.string()
            return rng.choice((b"null", b"true", b"false"))
        n = rng.choice((0, 1, 1, 2, 3, 5))
        if x < .68:
            return b"[" + self.ws() + b",".join(self.ws() + self.value(d - 1) + self.ws() for _ in range(n)) + b"]"
        return b"{" + self.ws() + b",".join(self.ws() + (self.string() if rng.random() < .6 else b'"k"') + self.ws() + b":" + self.ws() + self.value(d - 1) + self.ws() for _ in range(n)) + b"}"

    def text(self):
        return self.ws() + self.value(self.rng.choice((0, 1, 2, 3, 4))) + self.ws()

    def mutate(self, b):
        rng = self.rng
        b = bytearray(b)
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            i = rng.randrange(len(b) + 1)
            x = rng.random()
            if x < .25 and b: del b[min(i, len(b) - 1)]
            elif x < .45: b[i:i] = rng.choice((b",", b":", b"[", b"]", b"{", b"}", b'"', b"\\", b"0", b"-", b".", b"e", b"1", b" ", b"null", b'"a"', b'"a":', b"\\u", b"\\ud83d", b"\\ude00", b"\\x", b"\x00", b"\x1f", b"\x7f") + tuple(BADWS))
            elif x < .6 and b: b[min(i, len(b) - 1)] = rng.randrange(256)
            elif x < .7: b[i:i] = bytes([rng.randrange(256)])
            elif x < .8: b = b[:i]
            elif x < .87 and b:
                k = rng.randrange(len(b) + 1)
                i, k = min(i, k), max(i, k)
                b[i:i] = b[i:k]
            elif x < .93 and len(b) > 1:
                k = min(i, len(b) - 2)
                b[k], b[k + 1] = b[k + 1], b[k]
            else: b[i:i] = rng.choice(WORDS + [x.encode() for x in NUMS if len(x) < 30])
        return bytes(b)


def exhaustive(alphabet, n):
    for k in range(n + 1):
        for x in itertools.product(alphabet, repeat=k):
            yield b"".join(x)


def texts(seed, thorough):
    """all fixed families and random texts"""
    g = JGen(seed)
    rng = g.rng
    out = []
    q = lambda a, b: b if thorough else a
    # every token sequence
    out += exhaustive([b"[", b"]", b"{", b"}", b",", b":", b'"a"', b"1"], q(5, 6))
    for _ in range(q(6000, 60000)):
        out.append(b"".join(rng.choice((b"[", b"]", b"{", b"}", b",", b":", b'"a"', b"1", b"null", b" ", b'"a":', b'"":')) for _ in range(rng.randrange(5, 13))))
    # every short number
    out += exhaustive([b"0", b"1", b"-", b"+", b".", b"e"], q(5, 7))
    out += [x.encode() for x in NUMS]
    for x in NUMS:
        out += [b"[" + x.encode() + b"]", b"[" + x.encode() + b",1]", b'{"a":' + x.encode() + b"}", x.encode() + b" ", x.encode() + b"x", b'"' + x.encode() + b'"', b"-" + x.encode()]
    out += [g.num() for _ in range(q(2500, 60000))]
    # numbers between two floats
    import struct
    from fractions import Fraction
    for _ in range(q(500, 10000)):
        bits = rng.getrandbits(63)
        a = struct.unpack(">d", struct.pack(">Q", bits))[0]
        if not (a == a) or a in (float("inf"),): continue
        if rng.random() < .7: a = rng.choice((rng.random(), rng.random() * 10 ** rng.randrange(-5, 25), float(rng.getrandbits(60)), rng.random() * 2.0 ** rng.randrange(-1070, -1000)))
        b = struct.unpack(">d", struct.pack(">Q", struct.unpack(">Q", struct.pack(">d", a))[0] + 1))[0]
        if b == float("inf"): continue
        mid = (Fraction(a) + Fraction(b)) / 2
        s = dec(mid)
        if len(s) > 420: continue
        k = rng.random()
        if k < .3: s = s
        elif k < .5: s = s + ("" if "." in s else ".") + "0" * rng.randrange(1, 4) + "1"
        elif k < .7: s = s[:-1] + str(max(0, int(s[-1]) - 1)) + "9"
        else: s = sci(s, rng)
        out.append(s.encode())
    # literals
    out += WORDS + [w[:k] for w in WORDS for k in range(len(w))] + [b"[" + w + b"]" for w in WORDS]
    # every byte on its own, after and before values, in strings, two bytes
    for b in range(256):
        c = bytes([b])
        out += [c, b"1" + c, c + b"1", b"[" + c + b"]", b'"' + c + b'"', b'"\\' + c + b'"', b'"\\u004' + c + b'"', b'"\\u' + c + b'041"', b'{"a"' + c + b"1}", b"[1" + c + b"2]", b'{"a":1' + c + b"}", b'"a' + c + b'b\\nc"', b'"\\n' + c, b"nul" + c, b"-" + c, b"1." + c, b"1e" + c, b"1e-" + c, b"0" + c, b'"' + c]
    lead = q([0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff], list(range(0x7f, 256)))
    edge = [0x00, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    for a in lead:
        for b in edge:
            out.append(b'"' + bytes([a, b]) + b'"')
            for c in edge[5:]:
                if a >= 0xe0: out.append(b'"' + bytes([a, b, c]) + b'"')
                if a >= 0xf0 and b >= 0x80:
                    for d in (0x41, 0x7f, 0x80, 0xbf, 0xc0): out.append(b'"' + bytes([a, b, c, d]) + b'"')
    # escapes
    cs = [0, 0x1f, 0x22, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xfffd, 0xffff]
    for a in cs:
        for f in ("%04x", "%04X"):
            e = ("\\u" + f % a).encode()
            out += [b'"' + e + b'"', b'"x' + e + b'y"', b'{"' + e + b'":0}'] + [b'"' + e[:k] + b'"' for k in range(1, 6)] + [b'"' + e[:k] for k in range(1, 7)]
            for b in cs:
                out.append(b'"' + e + ("\\u" + f % b).encode() + b'"')
            out += [b'"' + e + x + b'"' for x in (b"\\n", b"x", b"\\", b"\\u", b"\\ude", b"\\xde00", b"uDE00", b"\\uDE0", b"\\uDE0g")]
    # random texts, every truncation of some, mutations
    valid = [g.text() for _ in range(q(3000, 60000))]
    out += valid
    for t in valid[:q(150, 2000)]:
        if len(t) < 80: out += [t[:k] for k in range(len(t))]
    out += [g.mutate(rng.choice(valid)) for _ in range(q(8000, 150000))]
    out += [t + g.ws() + rng.choice((b"x", b"1", b",", b"]", b"}", b"null", b'"', b"\x00", b":")) for t in valid[:q(300, 3000)]]
    for b in BADWS: out += [b + b"1", b"1" + b, b"[" + b + b"1]", b"[1" + b + b",2]", b'{"a"' + b + b":1}"]
    # random bytes
    out += [bytes(rng.randrange(256) for _ in range(rng.randrange(1, 7))) for _ in range(q(1000, 20000))]
    # long ones: strings, names, numbers, runs of white space, many elements
    for n in (15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025):
        for _ in range(q(3, 20)):
            t = g.string(n)
            out += [t, t[:-1], b"[" + t + b"," + t + b"]", b"{" + t + b":1}", g.mutate(t), b'"' + b"a" * n + g.char() + b"b" * rng.randrange(4) + b'"', b'{"' + b"k" * n + g.char() + b'":' + g.num() + b"}"]
        w = b"".join(rng.choice(WS[3:]) for _ in range(n))
        out += [w + b"1", b"1" + w, b"[" + w + b"]", b"[1" + w + b",2]", b'{"a":' + w + b"1}", w, b"1" + w + b"x", b"[" + w]
        out += [b"1" * n, b"-" + b"1" * n, b"1." + b"1" * n, b"0." + b"0" * n + b"1", b"1" + b"0" * n + b".5", b"1" + b"0" * n + b"e-" + str(n).encode(), b"0" * n, b"1e" + b"0" * n + b"5"]
        if n < 300:
            out += [b"[" + b",".join(g.value(0) for _ in range(n)) + b"]", b"{" + b",".join(g.string(1) + b":" + g.value(0) for _ in range(n)) + b"}"]
        out += [b"[" * n, b"[" * n + b"]" * n, b"[" * n + b"]" * (n - 1), b"[" * n + b"]" * (n + 1), b'{"a":' * n + b"1" + b"}" * n, b'[{"a":' * (n // 2) + b"0" + b"}]" * (n // 2), b'[{"a":' * (n // 2) + b"0" + b"}}" * (n // 2)]
    # a single byte that counts at every distance from the start and the end of
    # an unremarkable string, number or gap
    near = [0x20, 0x21, 0x23, 0x2f, 0x30, 0x5b, 0x5d, 0x61, 0x7e, 0x7f]
    fill = lambda n: bytes(rng.choice(near) for _ in range(n)) if rng.random() < .5 else b"a" * n
    for c in q((0, 1, 9, 10, 0x1e, 0x1f, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0x9f, 0xa2, 0xc3, 0xdc, 0xff), range(256)):
        for at in range(q(34, 70)):
            out.append(b'"' + fill(at) + bytes([c]) + fill(rng.choice((0, 3, 7, 8, 9, 15, 16, 31, 33))) + b'"')
    for c in range(256):
        for n in (8, 16, 32): out.append(b'"' + fill(rng.randrange(n)) + bytes([c]) + fill(n + rng.randrange(n)) + b'"')
    for e in (b"\\n", b'\\"', b"\\\\", b"\\u001f", b"\\ud83d\\ude00", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode()):
        for at in range(q(18, 70)): out.append(b'{"' + fill(at) + e + fill(rng.randrange(18)) + b'":"' + fill(rng.randrange(18)) + e + fill(at) + b'"}')
    for c in (b"/", b":", b".", b"e", b"-", b" ", b"\x00", b"a", b",", b"\xb0", b"p"):
        for at in range(0, 21):
            d = "".join(rng.choice("0123456789") for _ in range(20)).encode()
            out += [b"[1" + d[:at] + c + d[at:at + 8] + b"]", b"[0." + d[:at] + c + d[at:at + 8] + b"]"]
    for c in (b"\x0b", b"\x0c", b"\x00", b"\xa0", b"\x08", b"\x0e", b"\x1f", b"\x21", b"\n", b"\t", b"1"):
        for at in range(0, 18): out.append(b" " * at + c + b" " * rng.randrange(18) + b"1")
    seen, res = set(), []
    for x in out:
        if x not in seen and len(x) < 7000:
            seen.add(x)
            res.append(x)
    return res


def dec(f):
    """a positive fraction with a power of two as denominator, in decimal"""
    k = 0
    d = f.denominator
    n = f.numerator
    while d > 1:
        d //= 2
        n *= 5
        k += 1
    s = str(n)
    if k == 0: return s
    s = s.rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:]


def sci(s, rng):
    ip, _, fp = s.partition(".")
    e = rng.choice((-40, -3, 1, 7, 30))
    digits = (ip + fp).lstrip("0") or "0"
    # digits * 10^-len(fp) == digits e
    return digits + "e" + str(-len(fp))


def as_text(g, evs):
    """a text for an event stream in some notation (inputs only; parts JSON does
    not have are written as something close)"""
    import struct
    rng = g.rng
    out, stack = [], []      # stack: [closing, elements so far, in map]

    def string(cs):
        s = b""
        for c in cs:
            if 0xd800 <= c < 0xe000: c = 0xe9
            short = {8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 34: b'\\"', 92: b"\\\\", 47: b"\\/"}
            x = rng.random()
            if c in short and (x < .5 or c in (34, 92)): s += short[c]
            elif c < 32 or x < .1:
                for u in struct.unpack(">%dH" % (len(chr(c).encode("utf-16-be")) // 2), chr(c).encode("utf-16-be")):
                    s += (rng.choice(("\\u%04x", "\\u%04X")) % u).encode()
            else: s += utf8(c)
        return b'"' + s + b'"'

    def number(s):
        x = rng.random()
        if x < .9: return s
        if x < .94: return s + ".0"
        if x < .97: return s + "e0"
        return s + "0e-1"

    def atom(e):
        k = e[0]
        if k == "null": return b"null"
        if k == "bool": return b"true" if e[1] else b"false"
        if k == "str": return string(e[1])
        if k == "char": return string([e[1]])
        if k == "bytes": return b"[" + b",".join(str(x).encode() for x in e[1]) + b"]"
        if k == "u": return number("".join(map(str, e[1]))).encode()
        if k == "i": return number(("-" if e[1] else "") + "".join(map(str, e[2]))).encode()
        if e[5] == "nan": return b"null"
        f = struct.unpack(">d", struct.pack(">Q", int(e[5], 16)))[0]
        if f != f or f in (float("inf"), float("-inf")): return b"null"
        return repr(f).encode()

    for e in evs:
        k = e[0]
        if k in ("m", "s"):
            if not stack: break
            out.append(g.ws() + stack.pop()[0])
        else:
            sep = b""
            key = False
            if stack:
                c, n, m = stack[-1]
                key = m and n % 2 == 0
                sep = b":" if m and n % 2 else b"," if n else b""
                stack[-1][1] += 1
            out.append(g.ws() + sep + g.ws())
            if k in ("M", "S"):
                out.append(b"{" if k == "M" else b"[")
                stack.append([b"}" if k == "M" else b"]", 0, k == "M"])
            else:
                a = atom(e)
                out.append(b'"' + a + b'"' if key and a[:1] != b'"' and rng.random() < .8 else a)
    return b"".join(out) + g.ws()
