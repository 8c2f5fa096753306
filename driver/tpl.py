"""Input templates: strings, with integers standing for that many unconstrained bytes."""

# so many bytes of a kind (see tpl() in harness/src/msg.rs)
KINDS = {1: "?", 2: "\\w", 3: "\\v", 4: "\\p", 5: "\\d", 6: "\\l", 7: "\\a", 8: "\\h", 11: "\\q", 12: "\\x", 14: "\\k", 15: "\\n"}

def kind(k):
    return lambda n: bytes([k]) * n

W = kind(2)     # letters and digits
V = kind(3)     # printed
P = kind(4)     # printed or space
Dg = kind(5)    # digits
L = kind(6)     # all but CR and LF
A = kind(7)     # what atoms are made of
H = kind(8)     # letters, digits, '-'
Q = kind(11)    # standing for themselves in quotes
X16 = kind(12)  # hexadecimal digits
K = kind(14)    # printed but '=' and brackets
N = kind(15)    # all but CR, LF and '.'

def T(*parts):
    b = b""
    for p in parts:
        if isinstance(p, int):
            b += b"\x01" * p
        elif isinstance(p, str):
            b += p.encode("latin-1")
        else:
            b += p
    return b

def words(b):
    out = [len(b)]
    for i in range(0, len(b), 8):
        out.append(int.from_bytes(b[i:i + 8], "little"))
    return out

def show(b):
    """for people: ? is an unconstrained byte"""
    s = ""
    i = 0
    while i < len(b):
        c = b[i]
        j = i
        while j < len(b) and b[j] == c:
            j += 1
        n = j - i
        t = KINDS[c] if c in KINDS else "\\r" if c == 13 else "\\n" if c == 10 else "\\t" if c == 9 else chr(c) if 32 <= c < 127 else "\\x%02x" % c
        s += t * n if n <= 6 else "%s{%d}" % (t, n)
        i = j
    return s
