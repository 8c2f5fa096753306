"""Which jobs decide which property.

A job is one harness entry point with fixed parameters; everything a job leaves
open (bytes, cuts, delays, decisions) is decided by the engine for all values.
`quick` jobs have to be finished for a verdict; `deep` ones are added by the
thorough tier.
"""
from tpl import A, Dg, H, K, L, N as LN, P, Q as QT, T, V, W, X16, words

MAX = 2 ** 64 - 1
CR = "\r\n"
LENS = [15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 320, 500, 506, 510, 511, 512, 513, 600, 998, 999, 1000, 1001, 1024, 1300]
# lengths of runs that are free throughout
FREE = list(range(1, 25)) + [29, 30, 31, 32, 33, 36, 40, 48, 50, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300, 320, 400, 480, 500, 504, 505, 506, 507,
                             510, 511, 512, 513, 600, 700, 800, 998, 999, 1000, 1001, 1024, 1300]
FREES = [n for n in FREE if n <= 320]
XL = [2000, 2048, 2049, 4096, 4097, 8192, 8193, 10000]
XXL = [16384, 32768, 65535, 65536, 65537]


class Job:
    def __init__(self, name, entry, params, tier):
        self.name, self.entry, self.params, self.tier = name, entry, params, tier


class Spec:
    def __init__(self):
        self.jobs = []
        self.need = {}

    def add(self, name, entry, *params, tier="quick"):
        self.jobs.append(Job(name, entry, [int(p) for p in params], tier))

    def one(self, entry, pre, tpl, tier="quick"):
        """a job about a single template, named after it"""
        import tpl as t
        n = t.show(tpl)
        if len(n) > 60:
            n = n[:40] + "..." + n[-17:]
        if pre:
            n = ",".join(map(str, pre)) + " " + n
        self.add(n, entry, *pre, *words(tpl), tier=tier)


def q(n, deep, k):
    """k is within the quick bound n, or only within the deep one"""
    return "quick" if k <= n else "deep"


# ------------------------------------------------------------ C01 - C10

V4 = [T("[", 3, ".2.3.4]"), T("[1.", 3, ".3.4]"), T("[1.2.3.", 3, "]"), T("[", 2, ".", 2, ".1.1]"), T("[1.2.", 2, ".", 2, "]"),
      T("[1", 1, "2", 1, "3", 1, "4]"), T("[255.255.255.25", 2), T("[", 7, "]")]
V6 = [T("[IPv6:", 4, "]"), T("[IPv6:", 2, "::", 1, "]"), T("[IPv6:1:2:3:4:5:6:7:", 2, "]"), T("[IPv6:1:2:3:4:5:6:7", 3, "]"),
      T("[IPv6:", 3, ":2:3:4:5:6:7:8]"), T("[IPv6:::ffff:1.2.3.", 2, "]"), T("[IPv6:1:2:3:4:5:6:", 2, ".2.3.4]"), T("[", 5, "::1]"),
      T("[IPv6:::", 3, "]"), T("[IPv6:abcd:", 3, "::]"), T("[IPv6:", 3, "::]"), T("[IPv6:1::2", 1, "3", 1, "4]"), T("[IPv6:fe80::1", 2, "]"),
      T("[IPv6:", 1, "111:2222:3333:4444:5555:6666:7777:888", 1, "]")]
# an IPv6 parser splits on every byte it is given: more of them only in depth
V6D = [T("[IPv6:", 5, "]"), T("[IPv6:", 2, "::", 2, "]"), T("[IPv6:::", 4, "]"), T("[IPv6:abcd:", 4, "::]"), T("[IPv6:1:2:3:4:5:6", 4, "8]"),
       T("[IPv6:::ffff:", 3, ".2.3.4]"), T("[IPv6:1", 2, "2", 2, "3]")]
HOST = [T("a", 1, "b", 1, "c"), T("a.", 2, ".b"), T("a-", 2, "-b"), T("a", 3), T(1, "a", 1, "1", 1), T("a..", 1), T("1", 2, "."),
        T("a.b.c.d.e", 1, "f.g.h", 1, "i")]


def ladder(f):
    return [f(n) for n in LENS]


def mailboxes():
    out = []
    for k in (1, 2, 3, 4):
        out.append(T(k))
    out += [T("a", 2, "@b", 2), T("a", 1, "b", 1, "c@d", 1, "e"), T('"', 3, '"@b'), T('"a', 2, '"', 1), T('"\\', 1, '\\', 1, '"@b'), T("a.b", 2, "c@d"),
            T('"a@b', 1, '"@c', 1), T(1, 'a"@"b', 1), T("a@b", 1, "@c"), T(".", 2, "@a"), T("a", 1, ".@b"), T('""', 2), T('"\\\\', 2, '@a'),
            T("a@", 3)]
    out += [T("a@") + v for v in V4 + V6]
    out += [T("a@") + v for v in HOST]
    return out


def long_mailboxes():
    out = []
    for n in LENS:
        out.append(T("a" * n, 1, "@b", 1))
        out.append(T("a@", "b" * n, 2))
        out.append(T('"', "x" * n, 2, '"@b'))
    for n in (2, 3, 10, 31, 63, 64, 100, 126, 127, 128, 130):
        out.append(T("a@", "b." * n, 2))
        out.append(T("a." * n, 2, "@b"))
        out.append(T('"', "\\a" * n, 2, '"@b'))
    for n in FREES:
        # nothing about the words is given
        out.append(T(A(n), "@", W(1), H(n * 7 % 23)))
        out.append(T(A(n * 5 % 19 + 1), "@", W(1), H(n)))
        out.append(T(A(n)))
        out.append(T('"', QT(n), '"@', W(1), H(4)))
        out.append(T(A(n), ".", A(n * 3 % 11 + 1), "@", W(1), H(n % 9), ".", W(1), H(n)))
        if n < 40:
            out.append(T('"', QT(n), "\\", V(1), QT(n % 7), '"@', W(5)))
            out.append(T(W(n), "@[", Dg(1), ".", Dg(1 + n % 3), ".1.2]"))
    return out


VERBS = ["DATA", "EHLO", "EXPN", "HELO", "HELP", "MAIL", "NOOP", "QUIT", "RCPT", "RSET", "VRFY"]
LINES = {"DATA": T("DATA" + CR), "EHLO": T("EHLO a" + CR), "EXPN": T("EXPN a" + CR), "HELO": T("HELO a" + CR), "HELP": T("HELP" + CR),
         "MAIL": T("MAIL FROM:<a@b>" + CR), "NOOP": T("NOOP" + CR), "QUIT": T("QUIT" + CR), "RCPT": T("RCPT TO:<a@b>" + CR),
         "RSET": T("RSET" + CR), "VRFY": T("VRFY a" + CR)}


def cmd_general():
    """(template, tier): nothing about the command is given"""
    out = [(T(k), q(6, 8, k)) for k in range(0, 9)]
    out += [(T(k, CR), q(5, 7, k)) for k in range(0, 8)]
    return out


def cmd_verbs():
    out = []
    for tail in ("", " ", " a", " a ", " FROM:<a@b>", " TO:<a@b>", " FROM:<>", ":<a>", "\ta", " [1.2.3.4]", "  "):
        out.append((T(4, tail, CR), "quick"))
    for v in VERBS:
        l = LINES[v]
        for k in (1, 2, 3):
            out.append((l + T(k), q(2, 3, k)))
        out.append((l + T(1, "NOOP" + CR), "quick"))
        out.append((T(1) + l, "quick"))
        out.append((T(l[:3], 2, l[4:]), "quick"))
        out.append((T(l[:-2], 2), "quick"))
        out.append((T(l[:-2], 1, CR), "quick"))
        out.append((T(l[:-2], 3, CR), "quick"))
        out.append((T(l[:4], 3, CR), "quick"))
        out.append((T(l[:4], 4, CR), "deep"))
        # anything in place of each pair of bytes
        for i in range(4, len(l) - 1):
            out.append((l[:i] + T(2) + l[i + 2:], "quick"))
            out.append((l[:i] + T(1) + l[i:], "quick"))
    for v in ("DATA", "QUIT", "RSET", "HELP", "NOOP"):
        for n in LENS:
            out.append((T(v, " " * n, 2, CR), "quick"))
    for n in FREE:
        out.append((T(A(n), CR), "quick" if n < 60 else "deep"))
        out.append((T(L(n), CR) if n > 40 else T(W(1), P(n), CR), "deep"))
    for v in VERBS:
        # longer words than the verb
        for n in (1, 2, 3, 4, 5, 6, 10):
            out.append((T(v, A(n), CR), "quick"))
            out.append((T(v, " ", A(n), CR), "quick"))
            out.append((T(v, " ", A(n), " ", A(n), CR), "quick"))
            out.append((T(A(n), LINES[v]), "quick"))
    for n in (1, 3, 9, 20):
        out.append((T(W(4), " ", A(n), CR), "quick"))
        out.append((T(A(4), ":", A(n), CR), "quick"))
    out += [(T("mail ", 5, "<a@b>", CR), "quick"), (T("Mail FROM", 2, "<a@b>", CR), "quick"), (T("rcpt ", 3, "<a@b>", CR), "quick")]
    return out


def cmd_text():
    out = []
    for v in ("EXPN", "VRFY", "HELP", "NOOP"):
        for k in (1, 2, 3, 4, 5, 6):
            out.append((T(v, " ", k, CR), q(4, 6, k)))
        for k in (1, 2, 3):
            out.append((T(v, k, CR), "quick"))
        out.append((T(v, " a", 2, "b", 2, "c", CR), "quick"))
        out.append((T(v.lower(), " \r", 1, "\n", 1, CR), "quick"))
        for n in LENS:
            out.append((T(v, " ", 1, "a" * n, 1, CR), "quick"))
            out.append((T(v, " ", "a" * n, 1, "b" * n, 1, CR), "deep"))
        for n in FREE + [1600, 1900]:
            out.append((T(v, " ", L(n), CR), "quick"))
            out.append((T(v, " ", W(n), " ", W(n % 50), CR), "quick"))
            if n < 200:
                out.append((T(v.lower(), "\t", P(n), " \r ", P(n), CR), "quick"))
    return out


def paths():
    """what may follow MAIL FROM: or RCPT TO:"""
    out = []
    for k in (1, 2, 3, 4, 5):
        out.append((T(k), q(4, 5, k)))
        out.append((T("<", k, ">"), q(4, 5, k)))
    for m in mailboxes():
        out.append((T("<") + m + T(">"), "quick"))
        out.append((T("<") + m + T(">", 1), "deep"))
        out.append((m, "quick"))
    out += [(x, "quick") for x in (
        T("<@a", 1, ":b", 1, "c@d", 1, "e>"), T("<@a", 2, "@b:c@d>"), T("<@a,@b", 2, "c@d>"), T("@a", 1, "b@c", 1), T("<@", 2, ":a@b>"), T("<@a:", 3, ">"),
        T("<@a,", 2, "b:c@d>"), T("<", 1, "@a:b@c>"), T("<@[1.2.3.4]", 1, "a@b>"), T("<@a:@b", 1, "c@d>"), T("<@a,@b,@c", 1, "d@e", 1),
        T(2, "<a@b>"), T(" ", 1, "<a@b>"), T("\t", 1, "a@b"), T("<a@b", 2), T("a@b", 2), T("<<a@b>", 1), T("<a@b>>", 1), T("<a@b>", 2), T("<a@b> ", 2),
        T("<>", 2), T("<", 1, ">"), T("<", 2), T(" <>", 1), T("<> ", 1), T('<"', 2, '>"@b>'), T('<"a>', 1, '"@b>'), T("<a b", 1), T("<a@b c>", 1),
        T("<@a:>", 1), T("<@a", 1, ">"), T("<a:b@c>", 1), T("<postmaster>", 1), T("<@a:\"b:c", 1, "\"@d>"))]
    for m in long_mailboxes():
        out.append((T("<") + m + T(">"), "quick" if len(m) < 600 else "deep"))
    for n in (2, 3, 5, 10, 50, 100):
        out.append((T("<" + ",".join("@a%d" % i for i in range(n)), 1, "b@c>"), "quick"))
    for n in FREES:
        out.append((T("<@", W(1), H(n), ":", A(n), "@", W(n), ">"), "quick"))
        if n < 70:
            out.append((T("<@a,@", W(n), ",@[", Dg(1), ".2.3.4]:", A(n), "@d>"), "quick"))
            out.append((T("@", W(n), ":", W(n), "@", W(n)), "quick"))
    for n in (1, 2, 3, 8, 20, 40):
        out.append((T("<", b",".join(T("@", W(2), "-", H(4)) for i in range(n)), ":", A(3), "@", W(3), ">"), "quick"))
    return out


def cmd_paths():
    return [(T(p) + x + T(CR), t) for x, t in paths() for p in ("MAIL FROM:", "RCPT TO:")]


def params():
    """what may follow the path"""
    out = []
    for k in (1, 2, 3, 4, 5, 6):
        out.append((T(" ", k), q(4, 6, k)))
    out += [(x, "quick") for x in (
        T(" a", 1, "b", 1, "c"), T(" a=", 3), T(" a=b", 1, "a=c"), T(" a=b", 1, "a", 1, "c"), T(" A=b a=", 1), T(" a=", 1, " b=", 1), T(" a=", 1, " b", 1, "c"),
        T(" a=b", 2, "c=d"), T(" SIZE=", 2, " BODY", 1, "8BITMIME"), T("  ", 2, "  a"), T(" a=b", 1, 1), T(" a ", 1, " ", 1), T("\t", 1, "\t", 1), T(" a= ", 2),
        T(" ", 1, "-", 1, "=", 1), T(" a b c", 2), T(" a=1 b=2 ", 1, "=3"), T(" ", 1, " ", 1, " ", 1), T(" ", 1, "=b ", 1, "=c ", 1, "=d"), T(" a=<", 1, ">"),
        T(" a=\"", 1, "\""), T(" ab=c a", 1, "=d"), T(" a=b=", 1), T(" =", 2), T(" a", 2, "=b"))]
    for n in LENS:
        out.append((T(" a=", "v" * n, 1), "quick" if n < 600 else "deep"))
        out.append((T(" ", "k" * n, 1, "=v"), "quick" if n < 600 else "deep"))
        out.append((T(" a", " " * n, 2), "quick" if n < 600 else "deep"))
    for n in FREES:
        if n < 130:
            out.append((T(" ", K(n), "=", K(n)), "quick"))
            out.append((T(" ", K(n)), "quick"))
        out.append((T(" ", K(3), "=", K(n)), "quick"))
        out.append((T(" ", W(n), "=", W(4)), "quick"))
        if n < 70:
            out.append((T(" ", W(5), "=", W(n), " ", W(6), "=", W(n)), "quick"))
            out.append((T(" ", W(n), "  ", W(n + 1), " "), "quick"))
    for n in (2, 3, 4, 5):
        # names of one length may be the same
        out.append((T(" ", W(n), "=1 ", W(n), "=2"), "quick"))
        out.append((T(" ", W(n), "=", W(2), " ", W(n), "=", W(2), " ", W(n)), q(3, 5, n)))
    for n in (2, 4, 8, 12):
        out.append((T(b"".join(T(" ", W(1 + i), "=", W(3)) for i in range(n))), "quick"))
    for n in (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 29, 33):
        out.append((T(" " + " ".join("k%d=v%d" % (i, i) for i in range(n)), 1, "k0", 1), "quick"))
    return out


def cmd_params():
    return [(T(p) + x + T(CR), t) for x, t in params() for p in ("MAIL FROM:<>", "RCPT TO:<a@b>", "MAIL FROM:a@b")]


def domains():
    out = []
    for k in range(0, 8):
        out.append((T(k), q(5, 7, k)))
        out.append((T("[", k, "]"), q(4, 7, k)))
    out += [(x, "quick") for x in V4 + V6 + HOST] + [(x, "deep") for x in V6D]
    out += [(T(1, "a.b", 1), "quick"), (T(2, "a", 2), "quick"), (T("a.b ", 2), "quick"), (T("[1.2.3.4]", 2), "quick"), (T(" [IPv6:::1]", 1), "quick"),
            (T("[1.2.3.4", 2), "quick"), (T("[IPv6:::1", 2), "quick")]
    for n in LENS:
        out.append((T("a" * n, 2), "quick" if n < 600 else "deep"))
        out.append((T("b.", "a" * n, 1), "deep"))
        out.append((T(" " * n, 1, "a"), "deep"))
    for n in (2, 3, 10, 63, 64, 100, 126, 127, 128, 130):
        out.append((T("b." * n, 2), "quick"))
    for n in FREES:
        out.append((T(W(1), H(n)), "quick"))
        if n < 130:
            out.append((T(W(1), H(n), ".", W(1), H(n)), "quick"))
            out.append((T(W(n), "-", W(n), ".", W(n % 7 + 1)), "quick"))
    for n in (3, 5, 8, 12, 20, 40):
        out.append((T(b".".join(T(W(1), H(i % 5 + 1)) for i in range(n))), "quick"))
    for i in range(4):
        for j in range(i):
            for n in range(9):
                a = [T("%d" % (7 * x + 1)) for x in range(4)]
                a[i], a[j] = Dg(1 + n % 3), Dg(1 + n // 3)
                out.append((T("[", b".".join(a), "]"), "quick" if n < 3 or n % 3 == 0 else "deep"))
    out.append((T("[", b".".join([Dg(1)] * 4), "]"), "quick"))
    for i in range(8):
        g = [T("%x" % (0x1111 * (j + 1))) for j in range(8)]
        for n in (1, 2, 3):
            g[i] = X16(n)
            out.append((T("[IPv6:", b":".join(g), "]"), q(2, 3, n)))
            out.append((T("[IPv6:", b":".join(g[:i]), "::" if i else "1::", b":".join(g[i + 2:]) if i < 6 else X16(n), "]"), q(2, 3, n)))
    for n in (1, 2, 3):
        out.append((T("[IPv6:", X16(n), "::]"), q(2, 3, n)))
        out.append((T("[IPv6:::", X16(n), "]"), q(2, 3, n)))
    out.append((T("[IPv6:", X16(1), "::", X16(1), "]"), "quick"))
    for n in (1, 2, 3):
        out.append((T("[IPv6:::ffff:", Dg(n), ".", Dg(1), ".2.", Dg(1), "]"), "quick"))
    for i in range(0, 256, 5):
        out.append((T("[%d.%d.%d.%d]" % (i, 255 - i, (i * 7) % 256, (i * 13) % 256)), "quick"))
    for i in range(0, 9):
        a = ["%x" % (0x1111 * (j + 1) & 0xffff) for j in range(8)]
        for j in range(i, 9):
            out.append((T("[IPv6:" + ":".join(a[:i]) + "::" + ":".join(a[j:]), "]"), "quick"))
    return out


def cmd_domains():
    out = []
    for x, t in domains():
        out.append((T("EHLO ") + x + T(CR), t))
        if len(x) < 40 or t == "deep":
            out.append((T("HELO ") + x + T(CR), t if x.count(1) < 5 else "deep"))
    return out


def cmd_spec(prop, pool, need):
    s = Spec()
    for t, tier in pool:
        s.one("h_command", [prop], t, tier)
    s.need = {"h_command": need}
    return s


def p01():
    s = Spec()
    seen = set()
    def cmd(t, tier):
        if t not in seen:
            seen.add(t)
            s.one("h_total_command", [], t, tier)
    for t, tier in cmd_general() + cmd_verbs() + cmd_text():
        cmd(t, tier)
    for t, tier in cmd_paths() + cmd_params() + cmd_domains():
        # the shapes; their lengths with C04 - C06
        cmd(t, tier if len(t) < 60 else "deep")
    # nothing ends the line
    for v in VERBS:
        cmd(T(v, " ", 4), "quick")
        cmd(T(v, " ", 6), "deep")
    for p in ("MAIL FROM:", "RCPT TO:<", "MAIL FROM:<> ", "EHLO [", "HELO "):
        cmd(T(p, 5), "quick")
        cmd(T(p, 7), "deep")
    for k in range(0, 10):
        s.one("h_total_reply", [], T(k), q(8, 9, k))
        s.one("h_total_reply", [], T("250", k, CR), q(6, 9, k))
    for n in LENS:
        s.one("h_total_reply", [], T("250 ", "a" * n, 4))
        s.one("h_total_command", [], T("NOOP ", "a" * n, 4))
        s.one("h_total_command", [], T("a" * n, 4))
        s.one("h_total_email", [], T("a" * n, 4))
    for k in range(0, 9):
        s.one("h_total_email", [], T(k), q(6, 8, k))
        s.one("h_total_email", [], T('"', k), q(5, 7, k))
        s.one("h_total_email", [], T("a@[", k), q(5, 7, k))
        s.one("h_total_email", [], T("a@", k), q(5, 7, k))
        s.one("h_total_email", [], T("a@[IPv6:", k, "]"), q(5, 7, k))
    for m in mailboxes() + long_mailboxes():
        s.one("h_total_email", [], m)
    s.need = {"h_total_command": [0, 1, 2], "h_total_reply": [3, 4], "h_total_email": [5, 6]}
    return s


def p02():
    return cmd_spec(2, cmd_general() + cmd_verbs(), [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14])


def p03():
    return cmd_spec(3, cmd_text() + [(T(4, k, CR), "quick") for k in (0, 1, 2, 3)], [2, 4, 6, 10, 14, 15])


def p04():
    return cmd_spec(4, cmd_paths(), [5, 8, 13, 14, 19, 20, 21, 22, 23])


def p05():
    return cmd_spec(5, cmd_params(), [5, 8, 13, 14, 24, 25, 26, 27])


def p06():
    s = cmd_spec(6, cmd_domains(), [1, 3, 13, 14, 16, 17, 18])
    for d in V4 + V6 + HOST:
        s.one("h_email", [], T("a@") + d)
    for k in range(1, 7):
        s.one("h_email", [], T("a@", k), q(5, 6, k))
        s.one("h_email", [], T("a@[", k, "]"), q(4, 6, k))
    s.need["h_email"] = [0, 2, 4, 5, 6]
    return s


def p07():
    s = Spec()
    for k in range(0, 8):
        s.one("h_email", [], T(k), q(6, 7, k))
        s.one("h_email", [], T('"', k), q(5, 7, k))
        s.one("h_email", [], T("a", k, "b"), q(5, 7, k))
        s.one("h_email", [], T('"', k, '"@a'), q(5, 7, k))
        s.one("h_email", [], T(k, "@a.b"), q(5, 7, k))
    for m in mailboxes() + long_mailboxes():
        s.one("h_email", [], m)
    s.need = {"h_email": [0, 1, 2, 3, 4, 5, 6]}
    return s


def p08():
    s = Spec()
    for k in range(0, 8):
        s.one("h_canonical", [], T(k), q(6, 7, k))
        s.one("h_canonical", [], T('"', k), q(6, 7, k))
        s.one("h_canonical", [], T('"', k, '"@a'), q(6, 7, k))
        s.one("h_canonical", [], T('"\\', k, '\\"b"'), q(5, 7, k))
    for m in mailboxes() + long_mailboxes():
        s.one("h_canonical", [], m)
    for n in (1, 2, 3, 10, 31, 32, 33, 64, 100, 200):
        s.one("h_canonical", [], T('"', "\\\\" * n, 3, '"'))
        s.one("h_canonical", [], T('"', '\\"' * n, 3, '"@a'))
        s.one("h_canonical", [], T('"', "a" * n, "\\", 1, "b" * n, "\\", 1, '"'))
    s.need = {"h_canonical": [0, 1, 2, 3]}
    return s


def p09():
    s = Spec()
    seen = set()
    for pool in (cmd_general(), cmd_verbs(), cmd_text(), cmd_paths(), cmd_params(), cmd_domains()):
        for t, tier in pool:
            if t not in seen and t.count(1) <= 5:
                seen.add(t)
                s.one("h_round_trip", [], t, tier if len(t) < 200 else "deep")
    s.need = {"h_round_trip": list(range(13))}
    return s


def p10():
    s = Spec()
    for w in (0, 1, 2, 3):
        ms = mailboxes() + [m for m in long_mailboxes() if len(m) < 600]
        for m in ms:
            if w >= 2 and not (b"@" in m):
                continue
            s.one("h_build_command", [w], m, "quick" if w in (0, 2) or len(m) < 60 else "deep")
        for k in (4, 5, 6):
            s.one("h_build_command", [w], T("a@" if w > 1 else "", k), q(5, 6, k))
    for w in (4, 5, 6, 7):
        for k in range(0, 7):
            s.one("h_build_command", [w], T(k), q(4, 6, k))
        s.one("h_build_command", [w], T(" ", 3))
        for n in LENS:
            s.one("h_build_command", [w], T(1, "a" * n, 1))
        for n in FREE:
            s.one("h_build_command", [w], T(L(n)))
    s.one("h_build_command", [8], b"")
    for w in (9, 10):
        for x, t in params():
            s.one("h_build_command", [w], x, t if x.count(1) < 5 else "deep")
    s.need = {"h_build_command": list(range(10))}
    return s


# ------------------------------------------------------------ C11 - C13

def p11():
    s = Spec()
    for k in range(0, 7):
        s.one("h_reply_build", [], T(k), q(5, 6, k))
    for n in LENS + [501, 502, 503, 504, 505, 507, 508, 509]:
        s.one("h_reply_build", [], T(1, "a" * (n - 2), 1))
        s.one("h_reply_build", [], T("a" * (n // 2), 2, "a" * (n - n // 2 - 2)))
    for n in FREE + [501, 502, 503, 508, 509]:
        s.one("h_reply_build", [], P(n))
        s.one("h_reply_build", [], T(P(n), 1, P(n % 17)))
    s.add("all codes", "h_reply_code")
    s.need = {"h_reply_build": [0, 1], "h_reply_code": [2, 3]}
    return s


def p12():
    s = Spec()
    for k in range(0, 10):
        s.one("h_reply_parse", [], T(k), q(8, 9, k))
        s.one("h_reply_parse", [], T(k, CR), q(7, 9, k))
        s.one("h_reply_parse", [], T("250", k, CR), q(6, 9, k))
        s.one("h_reply_parse", [], T("250 a", CR, k), q(5, 9, k))
    s.one("h_reply_parse", [], T(3, " a\r", 1, "\n", 1, CR))
    s.one("h_reply_parse", [], T(4, "abc", CR))
    for n in LENS + [501, 502, 503, 504, 505, 507, 508, 509]:
        s.one("h_reply_parse", [], T(4, "a" * (n - 2), 2, CR))
        s.one("h_reply_parse", [], T("250 ", "a" * n, 1, CR, 1))
    for n in FREE + [501, 502, 503, 508, 509]:
        s.one("h_reply_parse", [], T(Dg(3), 1, P(n), CR))
        s.one("h_reply_parse", [], T("250-", L(n), CR, 1))
        s.one("h_reply_parse", [], T(Dg(3), " ", P(n), "\r", P(n % 9 + 1), "\n", P(n % 7), CR, 1))
    for n in LENS:
        s.one("h_reply_build", [], T(1, "a" * (n - 2), 1))
    s.need = {"h_reply_parse": [0, 1, 2]}
    return s


def p13():
    s = Spec()
    for k in (1, 2, 3, 4, 5, 6, 7, 2 ** 31, 2 ** 32, 2 ** 63, MAX - 4, MAX - 1, MAX):
        for n in range(0, 8):
            s.one("h_chunks", [k], T(n))
    for k in (1, 7, 8, 16, 30, 31, 32, 33, 63, 64, 100, 255, 256, 505, 506, 507, 512, 1000):
        for n in (k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k + 2):
            if n >= 2:
                s.one("h_chunks", [k], T(1, "a" * (n - 2), 1))
    for n in (1000, 2000):
        s.one("h_chunks", [1], T(1, "ab" * (n // 2), 1))
    for n in range(0, 6):
        for i in range(0, n + 1):
            s.one("h_join", [i], T(n))
    for n in LENS + XL + XXL + [28, 29, 30]:
        for i in sorted({0, 1, n // 2, n - 1, n, min(n, 31), min(n, 32)}):
            s.one("h_join", [i], T(1, "a" * (n - 2), 1))
    for n in XL + XXL:
        for k in (1, n - 1, n, n + 1, n // 2, n // 2 + 1, 1000, 65535):
            if k > 1 or n < 3000:
                s.one("h_chunks", [k], T(1, "a" * (n - 2), 1))
    for n in FREE + [1600, 2000]:
        for k in sorted({1, 2, 7, 31, 32, 100, 506, n - 1, n, n + 1}):
            if k >= 1 and n / k < 400:
                s.one("h_chunks", [k], P(n))
        for i in sorted({0, 1, n // 2, n - 1, n}):
            s.one("h_join", [i], P(n))
    s.need = {"h_chunks": [0, 1], "h_join": [0, 1]}
    return s


# ------------------------------------------------------------ C14 - C18

ALLCUT = 1 << 30
BIG = [30, 31, 32, 33, 64, 128, 256, 506, 512, 998, 1000, 1024, 2048, 4096, 5000, 8192, 8193, 10000, 16384, 20000]


def p14():
    s = Spec()
    def k(t, cuts, lo=0, hi=ALLCUT, dl=0, tier="quick", shape=0):
        s.one("h_sink", [cuts + 10000 * shape, lo, hi, dl], t, tier)
    for n in range(0, 7):
        k(T(n), 2, tier=q(6, 6, n))
        k(T(n), n + 1, tier=q(4, 5, n))
        k(T(n, CR), 2, tier=q(4, 6, n))
        k(T("a\r\n.", n), 2, tier=q(4, 5, n))
        k(T(n), 1001)
    for n in range(0, 4):
        k(T(n), 1, dl=2)
        k(T(n), 2, dl=3, tier=q(2, 3, n))
    k(T("a" * 36, 4, "b" * 4), 2, 35, 42)
    k(T("\r\n" * 3, 3, "\r\n" * 2), 2)
    k(T("\r\n.\r\n.\r\n", 2), 3)
    for n in BIG:
        if n < 8000:
            k(T("a" * n, 4), 2, n - 1, n + 5)
        else:
            k(T("a" * n, 3), 1, n - 1, n + 4)
        k(T("a" * n, CR, 2, "." + CR), 1, n - 1, n + 7)
    for n in FREE + [1600]:
        # lines of which nothing is known
        k(T(LN(n)), 1, tier="quick" if n < 260 else "deep")
        k(T(LN(n), CR, LN(n % 13)), 1, max(0, n - 3), n + 9)
        k(T(LN(n), CR, "..", LN(n % 13), "\r", LN(2), "\n.", LN(3)), 1, n, n + 9)
        k(T(LN(n), CR, 1, LN(n % 11), CR, 1), 0)
        k(T(LN(n), CR, 1, LN(n % 11), CR, 1), 1000 + n // 3 + 1)
    for n in (1, 2, 5, 20, 60):
        k(T(LN(9), 1, LN(5), CR) * n, 0 if n > 8 else 1, tier=q(5, 20, n))
        k(T(LN(15), CR) * n, 0 if n > 25 else 1)
    for n in range(0, 5):
        k(T(n), 2, shape=6, tier=q(3, 4, n))
    for sh in range(0, 6):
        k(T("a\r\n.b\r\n" * 40, 3), 1007, shape=0 if sh == 5 else sh)
        k(T("a\r\n.b\r\n" * 40, 3), 1003, shape=0 if sh == 5 else sh)
        for n in range(0, 5):
            k(T(n), 1 if sh == 5 else 2, tier=q(3, 4, n), shape=sh)
        k(T("a" * 36, 3, "b" * 4), 1, 35, 42, shape=sh)
    s.need = {"h_sink": [0, 1, 2, 3]}
    return s


def stream_jobs(prop):
    s = Spec()
    def k(t, cuts, lo=0, hi=ALLCUT, dl=0, tier="quick", shape=0):
        s.one("h_stream", [prop, cuts + 10000 * shape, lo, hi, dl], t, tier)
    for n in range(0, 8):
        k(T(n), 2, tier=q(6, 7, n))
        k(T(n), n + 1, tier=q(4, 5, n))
        k(T(n), 1001)
        k(T(n, "." + CR), 2, tier=q(4, 6, n))
        k(T(n, CR + "." + CR), 2, tier=q(4, 6, n))
        k(T("." + CR, n), 2, tier=q(4, 6, n))
    k(T(4, "." + CR, 2), 2)
    k(T(5, "." + CR, 2), 2, tier="deep")
    k(T(2, "\r\n", 2, "\r\n.\r\n"), 3)
    k(T(1, "\r\n.", 1, "\r\n.\r\n", 1), 3)
    k(T("..", 2, "\r\n.\r\n", 1), 3)
    for n in range(0, 5):
        k(T(n), 1, dl=2, tier=q(3, 4, n))
        k(T(n), 2, dl=3, tier=q(3, 4, n))
        k(T("." + CR, n), 2, dl=2, tier=q(2, 4, n))
    k(T("a" * 36, 4, CR + "." + CR), 2, 35, 50)
    for n in BIG:
        if n < 8000:
            k(T("a" * n, 3, CR + "." + CR, 1), 2, n - 1, n + 9)
        else:
            k(T("a" * n, 2, CR + "." + CR, 1), 1, n - 1, n + 8)
        k(T("a" * n, CR, 2, CR + "." + CR, "b" * 40), 1, n - 1, n + 12)
        k(T("." + CR, "b" * n, 1), 1, 0, 6)
    k(T("a" * 6, 1, "b" * 7, 1, "c" * 7, 1, "d" * 6, CR + "." + CR, "NO"), 2)
    k(T("." + CR, "a" * 6, 1, "b" * 7, 1, "c" * 7, 1, "d" * 6), 2)
    for z in (1, 2, 3, 4, 5, 7, 16):
        k(T("a\r\n..b\r\n" * 30, 3, CR + "." + CR, "NOOP" + CR), 1000 + z)
    for n in FREE + [1600]:
        k(T(LN(n), CR + "." + CR, LN(n % 13)), 1, tier="quick" if n < 260 else "deep")
        k(T(LN(n), CR, "." + CR, LN(n % 13)), 2, n, n + 6)
        k(T(LN(n), CR, "..", LN(n % 13), "\r", LN(2), "\n.", LN(3), CR, "." + CR), 1, n, n + 9)
        k(T(LN(n), CR, 1, LN(n % 11), CR, 1, CR), 0)
        k(T(LN(n), CR, 1, LN(n % 11), CR, 1, CR), 1000 + n // 3 + 1)
        k(T(LN(n)), 1000 + n // 2 + 1)
        k(T("." + CR, LN(n)), 1, 0, 8)
    for n in (1, 2, 5, 20, 60):
        k(T(T(LN(15), CR) * n, "." + CR, LN(3)), 0 if n > 25 else 1)
        k(T(T(".", LN(15), CR) * n, "." + CR, LN(3)), 0 if n > 25 else 1)
        k(T(T(LN(15), 1, CR) * n, "." + CR, LN(3)), 0, tier=q(5, 20, n))
    for n in range(0, 6):
        k(T(n), 2, shape=6, tier=q(3, 4, n))
        k(T(n, CR + "." + CR, 1), 1, shape=6)
        k(T(n, CR + "." + CR, 1), 1001, shape=6)
    k(T("a" * 36, 2, CR + "." + CR, "b" * 40), 2, 35, 50, shape=6)
    for sh in range(1, 6):
        for n in range(0, 6):
            k(T(n), 1 if sh == 5 else 2, shape=sh, tier=q(3, 5, n))
            k(T(n), n + 1, shape=sh, tier=q(2, 3, n))
            if sh < 5:
                k(T(n), 1001, shape=sh)
            k(T(n, CR + "." + CR), 1, shape=sh, tier=q(3, 5, n))
            k(T("." + CR, n), 1, shape=sh, tier=q(3, 5, n))
        k(T("a\r\n.\r\nNO"), 3, shape=sh)
        k(T("a" * 36, 2, CR + "." + CR), 1, 35, 50, shape=sh)
        k(T("a" * 6, 1, "b" * 7, 1, "c" * 7, 1, "d" * 6, CR + "." + CR, "NO"), 1, shape=sh)
        if sh < 5:
            for z in (1, 2, 3, 5, 16, 40):
                k(T("a\r\n..b\r\n" * 30, 3, CR + "." + CR, "NOOP" + CR), 1000 + z, shape=sh)
    s.need = {"h_stream": [0, 1, 2, 3] if prop == 15 else [0, 1, 3]}
    return s


def p15():
    return stream_jobs(15)


def p16():
    return stream_jobs(16)


def p17():
    s = Spec()
    def k(t, trail, m1, m2, dl=0, tier="quick", shape=0):
        s.one("h_wire", [m1 + 10000 * shape, m2 + 10000 * shape, dl, trail], t, tier)
    for n in range(0, 6):
        k(T(n), 0, 1, 1, tier=q(4, 5, n))
        k(T(n, 1), 1, 1, 1, tier=q(4, 5, n))
        k(T(n, 2), 2, 0, 2, tier=q(3, 4, n))
        k(T(n, "NOOP" + CR), 6, 1, 1)
        k(T(n, "." + CR), 3, 1, 1)
        k(T(n, 1), 1, 1001, 1001)
        k(T(n, 1), 1, 1002, 1003)
    for n in range(0, 4):
        k(T(n, 1), 1, 1, 1, dl=1, tier=q(2, 3, n))
    k(T("\r\n.", 2, "\r\n.\r\n", 1), 1, 1, 2)
    k(T("a\r\n.\r\n.", 2, "b", 1), 1, 1, 2)
    for n in BIG:
        k(T("a" * n, 3, "b" * 20, 1), 1, 0, 0)
        k(T("a" * (n // 2), "\r\n.", 1, "a" * (n // 2), 2), 1, 1000 + 64, 1000 + 100)
    for n in FREE + [1600]:
        k(T(LN(n), LN(3)), 3, 0, 1, tier="quick" if n < 260 else "deep")
        k(T(LN(n), CR, 1, LN(n % 13), "NOOP" + CR), 6, 0, 0)
        k(T(LN(n), CR, "..", LN(n % 13), "\r", LN(2), "\n.", LN(3), 2), 2, 1000 + n // 4 + 1, 1000 + n // 3 + 1)
    for n in (1, 2, 5, 20, 60):
        k(T(T(LN(15), CR) * n, "QUIT" + CR), 6, 1000 + 13, 1000 + 31)
        k(T(T(".", LN(15), CR) * n, "QUIT" + CR), 6, 0, 1000 + 31)
    for n in range(0, 4):
        k(T(n, 1), 1, 1, 1, shape=6, tier=q(2, 3, n))
    for z in (1, 2, 3, 5, 7):
        k(T("a\r\n.b\r\n" * 30, 3, "NOOP" + CR), 6, 1000 + 8 - z, 1000 + z)
    for sh in range(1, 5):
        for n in range(0, 5):
            k(T(n, 1), 1, 1, 1, shape=sh, tier=q(3, 4, n))
            k(T(n, 1), 1, 1001, 1001, shape=sh)
        for z in (1, 2, 3, 5, 7):
            k(T("a\r\n.b\r\n" * 30, 3, "NOOP" + CR), 6, 1000 + 8 - z, 1000 + z, shape=sh)
    s.need = {"h_wire": [0, 1]}
    return s


def p18():
    s = Spec()
    for items in range(0, 5):
        for ops in (6, 8, 10, 12):
            for dl in (0, 1, 2):
                s.add("items %d ops %d delays %d" % (items, ops, dl), "h_prependable", items, ops, dl, tier="quick" if ops + dl <= 10 else "deep")
    s.need = {"h_prependable": [0, 1, 2, 3]}
    return s


# ------------------------------------------------------------ sessions

M, N, M2 = T("MAIL FROM:<a@b>" + CR), T("MAIL FROM:<>" + CR), T("MAIL FROM:<m@n>" + CR)
R, R2 = T("RCPT TO:<c@d>" + CR), T("RCPT TO:<e>" + CR)
D, E, X = T("DATA" + CR), T("." + CR), T("x" + CR)
NO, G, Q, RS = T("NOOP" + CR), T("zz" + CR), T("QUIT" + CR), T("RSET" + CR)
MSG = T("RCPT TO:<q>" + CR + "..y" + CR + "." + CR)
MSG2 = T("MAIL FROM:<w>" + CR + "DATA" + CR + "." + CR)
OTHERS = [T(v + CR) for v in ("", " ", "EHLO a", "HELO a", "EXPN a", "VRFY a", "HELP", "HELP a", "NOOP a", "QUIT", "RSET")]
TX = M + R + D + MSG


# lines of which no more than the kind is given
def mw(n, m=4):
    return T("MAIL FROM:<", A(n), "@", W(1), H(m), ">" + CR)


def rw(n, m=4):
    return T("RCPT TO:<", A(n), "@", W(1), H(m), ">" + CR)


def uw(n):
    return T("_", A(n), CR)


def nw(n):
    return T("NOOP ", L(n), CR)


MP = T("MAIL FROM:<", A(4), "@", W(5), "> ", W(4), "=", W(5), CR)
RP = T("RCPT TO:<", A(9), "@", W(7), "> ", W(6), CR)
OW = [T("EHLO ", W(1), H(9), CR), T("HELO ", W(1), H(9), CR), T("EXPN ", L(8), CR), T("VRFY ", L(8), CR), T("HELP ", L(8), CR), nw(8), uw(8)]
WLEN = (1, 2, 3, 5, 8, 9, 10, 12, 13, 16, 20, 31, 32, 33, 64, 65, 100, 128, 200, 255, 256)


def wordy(s):
    """sessions of lines of any content"""
    s.s([mw(5), rw(5), rw(5), D, T(LN(9), CR), E, mw(5), rw(5)], decisions=0)
    s.s([mw(5), rw(5), D, T("_", LN(9), CR), E, mw(5)])
    s.s([MP, RP, R, D, T(LN(20), CR, ".", LN(3), CR), E, nw(6)], decisions=0)
    s.s([M, R, uw(7), nw(7), D, T(".", LN(6), CR), E, uw(3)])
    for l in OW:
        s.s([l, mw(6), l, rw(6), l, D, T(LN(6), CR), E, l, R], decisions=0)
    for n in WLEN:
        s.s([mw(n, n % 9), rw(n + 1, n % 7), nw(n), uw(n), D, T(LN(n), CR), E, M2, rw(1, n), D], decisions=0)
        s.s([M, R, D, T(LN(n), CR, LN(n), CR, LN(2 * n), CR), E, NO], decisions=0)
    s.s([mw(9), rw(9), D, T(LN(11), CR), E, nw(4)], cuts=1, decisions=0)
    s.s([mw(9), rw(9), D, T(LN(11), CR), E, nw(4)], delays=1, decisions=0)
    s.s([mw(3), rw(3), D, T("_", LN(3), CR), E, M2], picks=3)
    # empty lines at every place, empty packets at any
    B = T(CR)
    s.s([B, M, B, R, B, B, D, B, X, E, B, NO, B, M2, B])
    s.s([M, R, D, X + E, B, NO], picks=3)
    s.s([M, R, D, X + E, B, M2], picks=4, decisions=0)
    s.s([M, R, D, MSG, B, NO], cuts=1, decisions=0, shape=6)
    s.s([T("NOOP", 2), T(CR), NO], cuts=1, decisions=0, shape=6)
# what `bytes` keeps in place, with free bytes where it keeps pointers otherwise
INLINE = T("a" * 6, 1, "b" * 7, 1, "c" * 7, 1, "d" * 6)


class Sess(Spec):
    def __init__(self, prop, entry="h_session"):
        Spec.__init__(self)
        self.prop, self.entry = prop, entry

    def s(self, lines, name=None, cuts=0, lo=0, hi=ALLCUT, delays=0, texts=0, decisions=1, tlen=3, changes=0, fail=0, trunc=0, picks=0, shape=0, tier="quick"):
        cuts += 10000 * shape
        p = [self.prop, cuts, lo, hi, delays, texts, decisions, tlen, changes, fail, trunc, picks, len(lines)]
        for t in lines:
            p += words(t)
        import tpl as t
        if name is None:
            name = " ".join(t.show(l) for l in lines)
            if len(name) > 70:
                name = name[:50] + "..." + name[-17:]
        d = dict(cuts=cuts, delays=delays, texts=texts, decisions=decisions, tlen=tlen, changes=changes, fail=fail, trunc=trunc, picks=picks)
        x = " ".join("%s=%d" % kv for kv in d.items() if kv[1] and kv != ("decisions", 1) and kv != ("tlen", 3))
        self.add((x + " " if x else "") + name, self.entry, *p, tier=tier)


def common(s, extra=()):
    """every kind of session, whatever the property"""
    s.s([M, R, R2, D, MSG, NO, N], picks=3)
    s.s([M, R, R2, D, MSG, N, R2, D, MSG2, R])
    s.s([M, R, D, MSG, G, NO, RS], texts=1)
    s.s([M, R, D, MSG, G, NO, M, M, R, D], texts=2)
    s.s([M, R, R2, D, MSG, M2, R2, D, X + E], changes=1, decisions=0)
    wordy(s)


def p20():
    s = Sess(20)
    common(s)
    s.s([M, N, R, R2, D, MSG, NO, G, RS], picks=3, texts=1)
    s.s([M, R, D, MSG, NO, G], picks=5, tier="deep")
    s.s([M, R, D, E, X], picks=4, texts=2)
    for l in OTHERS:
        s.s([l, M, l, R, l, D, X + E, l])
    s.s([OTHERS[0], T(4, CR), M])
    s.s([T(3), T(CR), T(2, CR)])
    s.s([T(4), T(CR)])
    s.s([M, T(2, CR), R, D, T(1, CR), E, NO])
    s.s([M, T(2, CR), R, D, T(2, CR), E, NO], tier="deep")
    s.s([M, R, D, T(1, CR, 1, CR), E, T(1, CR), NO], cuts=1, decisions=0)
    s.s([M, R, D, MSG, NO], cuts=2, decisions=0)
    s.s([M + R, TX, D, E, NO], picks=3, cuts=1, decisions=0)
    s.s([M, R, D, MSG, NO, G], decisions=2, tlen=2)
    s.s([M, R, D, MSG, NO], delays=2, decisions=0)
    for n in (10, 20, 50, 100, 128, 129, 256, 257, 300):
        s.s([NO] * n + [G] * 3 + [M, R], name="%d NOOPs" % n, decisions=0)
        s.s([G] * n + [M, R, D, X + E, NO], name="%d unknown lines" % n, decisions=0)
        if n <= 129:
            s.s([TX] * (n // 10) + [NO], name="%d messages" % (n // 10), decisions=0)
            s.s([M] + [R] * n + [D, X + E, NO], name="%d recipients" % n, decisions=0)
            s.s([R, D] * n + [M, R], name="%d out-of-sequence pairs" % n, decisions=0)
    for n in LENS:
        s.s([T("NOOP ", "a" * n, 1, CR), M, T("a" * n, 1, CR), R], decisions=0)
    for l in (0, 1, 505, 506, 507, 1012, 1013):
        s.s([M, R, D, X + E], decisions=2, tlen=l, tier="quick" if l < 508 else "deep")
    s.need = {"h_session": [2, 3, 4, 5, 6, 7, 10]}
    return s


def p21():
    s = Sess(21)
    common(s)
    s.s([M, R, D, MSG, M2, R2], picks=4)
    s.s([M, R, D, MSG, M2, R2], picks=5, tier="deep")
    s.s([M, R, R2, D, MSG, N, RS], picks=4, tier="deep")
    s.s([M, R, R2, D, MSG], changes=1)
    s.s([M, R, D, MSG, M2, R2, D, X + E], changes=1, decisions=0)
    s.s([M + R, M2 + R2, D + X + E, TX, RS, M2], picks=3)
    s.s([M, R, R2, R, R2, D, MSG, M2, D, MSG, R, D, E])
    s.s([M, T("RCPT TO:<", 2, "@d>" + CR), R, D, MSG2], decisions=0)
    s.s([T("MAIL FROM:<", 2, ">" + CR), R, D, MSG2, M, R, D, X + E], decisions=0)
    s.s([M, R, T(4, " TO:<e>" + CR), D, MSG, M2, R2, D, X + E], decisions=0)
    s.s([M, R, T(2, CR), D, T(3), E, R, D, MSG], decisions=0)
    s.s([T("MAIL FROM:<a@b> A=", 1, CR), T("RCPT TO:<@x:c@d> B", 1, CR), D, MSG], decisions=0)
    s.s([M, R, D, T(2), CR.encode() + E, M2, R2, D, X + E], cuts=1, decisions=0)
    s.s([TX, M2, R2, D, MSG2], cuts=1, decisions=0)
    s.s([TX, M2, R2, D, MSG2], trunc=200)
    s.s([M, R, D, MSG, M2, R2, D, E], delays=1, decisions=0)
    for n in (3, 5, 8, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256):
        s.s([M] + [T("RCPT TO:<u%d@d>" % i + CR) for i in range(n)] + [D, X + E, M2, R2, D, X + E], name="%d recipients" % n, decisions=0)
        if n <= 65:
            s.s([TX] * n + [M2, R2, R, D, X + E], name="%d messages" % n, decisions=0)
    s.s([M] + [R, R2] * 3 + [D, X + E])
    for l in OTHERS + [G]:
        s.s([M, l, R, l, D, X + E, l, M2, R2, D, X + E], decisions=0)
    s.need = {"h_session": [2, 5, 6, 7]}
    return s


def p22():
    s = Sess(22)
    common(s)
    s.s([M, N, R, D, MSG, M2], picks=4)
    s.s([M, N, R, D, MSG], picks=5, tier="deep")
    for t in (1, 2):
        s.s([M, N, R, D, MSG], picks=3, texts=t)
    # out of sequence at every place of two transactions
    for bad in (M2, N, R, D):
        for i in range(0, 5):
            a = [M, R, D, MSG]
            s.s(a[:min(i, 3)] + [bad] * 2 + a[min(i, 3):] + ([bad] if i == 4 else []) + [M2, R2, D, X + E])
    s.s([T("RCPT TO:<", 2, ">" + CR), M, T("MAIL FROM:<", 2, ">" + CR), R, D, X + E], decisions=0)
    s.s([M, T("MAIL FROM:<", 1, "@", 1, "> A=", 1, CR), R, D, X + E], decisions=0)
    s.s([T("DATA", 1, CR), M, T("data", 1, CR), R, T(4, CR), X + E, NO], decisions=0)
    s.s([D, M, D, R, M2, D, X + E, R, D], cuts=1, decisions=0)
    s.s([D, M, D, R, M2, D, X + E, R, D], delays=1, decisions=0)
    s.s([M, R, M2, R2, D, MSG, M2], changes=1, decisions=0)
    for n in (2, 3, 5, 10, 20, 50, 100, 128, 256):
        s.s([D, R] * n + [M, R, D, X + E], name="%d out of sequence, then a message" % (2 * n), decisions=0)
        s.s([M] + [M2] * n + [D] * n + [R] + [N] * n + [D, X + E, R, D], name="%d within a message" % (3 * n), decisions=0)
    s.need = {"h_session": [2, 5, 7]}
    return s


def p23():
    s = Sess(23)
    wordy(s)
    pre = M + R + D
    for c in (M2, N, R2, D, NO, RS, Q, G, T("EHLO a" + CR), X, T(CR), T(".." + CR)):
        s.s([pre, c, c, E, c, M2, R2], name="message of two %r" % c, decisions=0)
        s.s([pre, c, E, c, M2, R2, D, c, c, E, NO], name="messages of %r" % c)
        s.s([pre, c, T(2), T(CR), E, c, NO], decisions=0, name="message with %r and two free bytes" % c)
    for k in (0, 1, 2, 3, 4):
        s.s([pre, T(k), E, NO, M2], decisions=0)
        s.s([pre, T(k, CR), E, NO, M2], decisions=0)
        s.s([pre, T(k, CR + ".", k, CR), E, NO, M2], decisions=0, tier=q(3, 4, k))
        s.s([pre, T(k), T(CR) + E + NO + M2], cuts=1, decisions=0, tier=q(3, 4, k))
    s.s([pre, T("." , 2, CR), E + NO + M2 + R2 + D + X + E], cuts=1, decisions=0)
    s.s([TX, M2, R2, D, MSG2, NO], cuts=2, decisions=0, lo=30, hi=80)
    s.s([TX, M2, R2, D, MSG2, NO], cuts=2, decisions=0, tier="deep")
    s.s([TX, M2, R2, D, MSG2, NO], cuts=1, delays=1, decisions=0)
    for z in (1, 2, 3, 5, 7, 11, 16, 29):
        s.s([TX, M2, R2, D, T(2), T(CR) + MSG2, NO], cuts=1000 + z, decisions=0)
    for sh in (1, 2, 3, 4, 5):
        s.s([TX, M2, R2, D, MSG2, NO], cuts=1, decisions=0, shape=sh)
        s.s([pre, T(2), T(CR) + E + NO + M2], cuts=1, decisions=0, shape=sh)
    s.s([TX, M2, R2, D, MSG2, NO])
    s.s([M, R, D, D, MSG, X, E, NO, E], picks=0)
    s.s([M, R, D, MSG, X, E], picks=4, decisions=0)
    for n in BIG:
        s.s([pre, T("a" * n, 2, CR), E, NO, M2], decisions=0)
        s.s([pre, T("b" * 60 + CR) * (n // 62), T(2, CR), E, NO, M2], name="message of %d bytes in lines" % n, decisions=0)
        s.s([pre, T("x" + CR), E, T("NOOP ", "a" * n, 1, CR), M2], decisions=0)
    s.need = {"h_session": [5, 6]}
    return s


def p24():
    s = Sess(24)
    common(s)
    s.s([M, R, D, MSG], picks=5)
    s.s([M, R, R2, D, MSG, M2], picks=4, tier="deep")
    s.s([M, R, D, MSG, NO, M2], decisions=2, tlen=3)
    s.s([M, R, R2, D, D, MSG, M2, R2], decisions=1)
    s.s([M, R, R2, D, MSG, M2, R2], changes=1, decisions=1, tier="deep")
    s.s([M, M2, R, R, D, D, MSG, M, R])
    for t in (1, 2):
        s.s([M, R, D, MSG, NO, M2], texts=t)
        s.s([M, R, D, X + E, NO, M2], texts=t, decisions=2, tlen=1)
    for l in (0, 1, 2, 505, 506, 507, 1012, 1013):
        s.s([M, R, D, X + E], decisions=2, tlen=l, tier="quick" if l < 508 else "deep")
    s.s([M, R, D, MSG, M2], cuts=1)
    s.s([M, R, D, MSG], delays=1)
    s.s([M, R, D, T(2, CR), E, M2, R2, D], decisions=1)
    s.s([M, R, D, MSG], trunc=80)
    s.s([M] + [R, R2] * 4 + [D, X + E])
    s.s([M, R, D, D, D, D, X + E, M2, R2, D, X + E])
    s.need = {"h_session": [5, 7]}
    return s


def p25():
    s = Sess(25)
    common(s)
    for l in OTHERS + [G]:
        for t in (0, 1, 2):
            s.s([l, M, l, R, l, D, X + E, l, R], texts=t, decisions=0)
        s.s([M, l, R, l, D, MSG, l, M2, R2])
        s.s([M, R, D, MSG, l], picks=4, decisions=0)
        s.s([M, R, D, MSG, l], picks=4, tier="deep")
        s.s([M, R, l, l, D, X + E, l, M2], cuts=1, decisions=0)
        s.s([M, R, l, l, D, X + E, l, M2], delays=1, decisions=0)
    for k in (0, 1, 2, 3, 4):
        s.s([M, R, T(k, CR), D, MSG, R, D], decisions=0)
    s.s([M, R, T(4, " a" + CR), D, MSG, R, D], decisions=0)
    s.s([M, R, T(4, 1, CR), D, MSG, R, D], decisions=0, tier="deep")
    s.s([M, T(4, " TO:<a>" + CR), R, D, MSG, R, D], decisions=0)
    s.s([M, T("RCPT TO", 2, "a>" + CR), R, D, MSG, R, D], decisions=0)
    s.s([T("MAIL FROM:<a", 2, "> ", 1, CR), R, D, MSG, R, D], decisions=0)
    s.s([M, R, T("DATA ", 2, CR), MSG, E, R, D], decisions=0)
    for n in LENS:
        s.s([M, T("NOOP ", "a" * n, 1, CR), R, T("a" * n, 1, CR), D, X + E], decisions=0)
        s.s([M, T("RCPT TO:<", "a" * n, 1, CR), R, T(" " * n, 1, CR), D, X + E], decisions=0)
    for n in (2, 3, 5, 10, 11, 20, 50, 100, 101, 128, 256, 257):
        for l in (G, NO, RS, T(CR)):
            s.s([M] + [l] * n + [R] + [l] * n + [D, X + E] + [l] * 2 + [M, R], name="%d times %r" % (n, l), decisions=0, tier="quick" if n < 130 or l is G else "deep")
    s.need = {"h_session": [3, 4, 5, 7]}
    return s


def p26():
    s = Sess(26)
    for l in (0, 1, 2, 6, 7, 100, 254, 255, 256, 257, 500, 504, 505, 506, 507, 508, 511, 512, 513, 1000, 1011, 1012, 1013, 1518, 1519, 2024, 2025, 5060, 5061):
        s.s([M, R, D, MSG, NO, G], tlen=l, decisions=0, name="texts of length %d" % l, tier="quick" if l < 1020 else "deep")
        s.s([M], tlen=l, decisions=2, name="refusals of length %d" % l, tier="quick" if l < 1020 else "deep")
        s.s([M], tlen=l, decisions=0, name="greeting of length %d" % l)
    for l in (0, 3, 505, 506, 507):
        s.s([M, R], tlen=l, decisions=0, delays=1, name="texts of length %d" % l)
    s.need = {"h_session": [3, 4, 5, 10]}
    return s


def p27():
    s = Sess(27)
    wordy(s)
    s.s([M, R, D, MSG, NO], trunc=200)
    s.s([M, R, R2, D, MSG, G, M2, R2, D, MSG2, NO], trunc=300)
    s.s([M, R, D, MSG, NO], trunc=80, cuts=1, decisions=0)
    s.s([M, R, D, MSG, NO], trunc=80, cuts=1, tier="deep")
    s.s([M, R, D, MSG, NO], trunc=80, delays=1, decisions=0)
    s.s([M, R, D, T(3)])
    s.s([M, R, D, T(4)], decisions=0)
    s.s([M, R, D, T(4)], cuts=1, decisions=0)
    s.s([M, R, D, T(5)], cuts=1, decisions=0, tier="deep")
    s.s([M, R, D, T(2), CR.encode(), T(2)], trunc=3)
    s.s([T(4)], cuts=1)
    s.s([T(5)])
    s.s([M, T(4)], decisions=0)
    s.s([M, T("RCPT TO:<a>", 2)], trunc=3)
    s.s([M, R, D, MSG, T(3)])
    s.s([TX, T("QUIT", 2)], trunc=6)
    for z in (1, 2, 3, 7):
        s.s([M, R, D, MSG, NO], trunc=80, cuts=1000 + z, decisions=0)
    for n in BIG:
        s.s([M, R, D, T("a" * n, 3)], decisions=0, trunc=5)
        s.s([M, T("NOOP ", "a" * n, 2)], decisions=0, trunc=5)
    for sh in (1, 2, 3, 4, 5):
        s.s([M, R, D, MSG, NO], trunc=80, cuts=1, decisions=0, shape=sh)
    s.s([], name="nothing at all")
    s.s([], name="nothing at all", delays=2)
    s.need = {"h_session": [5, 8, 9]}
    return s


def p28():
    s = Sess(28)
    wordy(s)
    s.s([M, R, D, MSG, NO], delays=1, cuts=1)
    s.s([M, R, D, MSG, NO, G], delays=2, decisions=0)
    s.s([M, R, D, MSG, NO, G], delays=1)
    s.s([M, R, D, MSG, NO], delays=2, cuts=1, tier="deep", decisions=0)
    s.s([TX, M2, R2, D, MSG2, G, RS], delays=1, cuts=1, decisions=0)
    s.s([T(2, CR), M, T(1, CR)], delays=1, decisions=0)
    s.s([T(3, CR), M, T(2, CR)], delays=1, decisions=0, tier="deep")
    s.s([M, R, D, T(2), CR.encode() + E, NO], delays=1, decisions=0)
    s.s([M, R, D, MSG, NO], fail=60)
    s.s([M, R, D, MSG, NO, G], fail=90, decisions=0)
    s.s([TX, M2, R2, D, MSG2, G, RS, M, R], fail=200, decisions=0)
    s.s([M, R, D, MSG, NO], fail=60, cuts=1, decisions=0)
    s.s([M, R, D, MSG, NO], fail=60, delays=1, decisions=0)
    s.s([M, R, D, MSG, NO], fail=60, trunc=80, decisions=0)
    s.s([M, R, D, MSG], fail=90, decisions=2, tlen=507)
    s.s([M, R, D, MSG, NO, G], picks=3, fail=30, decisions=0)
    for z in (1, 3, 8):
        s.s([M, R, D, MSG, NO], delays=1, cuts=1000 + z, decisions=0)
    s.need = {"h_session": [1, 5, 11]}
    return s


def p29():
    s = Sess(29)
    wordy(s)
    for k in range(0, 8):
        s.s([T(k)], cuts=2, shape=6, tier=q(3, 4, k))
        s.s([T(k, CR)], cuts=1001, shape=6, tier=q(5, 6, k))
        s.s([M, R, D, T(k), E], cuts=1, shape=6, decisions=0, tier=q(3, 4, k))
        s.s([T(k)], tier=q(6, 7, k))
        s.s([T(k)], cuts=1, tier=q(5, 6, k))
        s.s([T(k)], cuts=2, tier=q(4, 5, k))
        s.s([T(k)], cuts=1001)
        s.s([T(k, CR)], cuts=1, tier=q(4, 5, k))
        s.s([M, R, D, T(k)], tier=q(4, 5, k))
        s.s([M, R, D, T(k), E], tier=q(4, 5, k), decisions=0)
        s.s([M, R, D, T(k)], cuts=1, decisions=0, tier=q(4, 5, k))
        s.s([M, R, D, T(k)], cuts=1001, decisions=0, tier=q(4, 5, k))
        s.s([M, T("RCPT TO:", k, CR)], decisions=0, tier=q(4, 5, k))
        s.s([T("MAIL FROM:<", k, CR)], decisions=0, tier=q(4, 5, k))
        s.s([T("EHLO [", k, CR)], decisions=0, tier=q(4, 5, k))
        s.s([M, R, D, E, T(k), CR.encode()], decisions=0, tier=q(4, 5, k))
        s.s([T(k)], delays=2, cuts=1, tier=q(3, 4, k))
    s.s([M, R, D, MSG, NO, G], picks=4, trunc=3, tier="deep")
    for sh in (1, 2, 3, 4, 5):
        for k in range(0, 5):
            s.s([T(k)], cuts=1 if sh == 5 else 2, shape=sh, tier=q(3, 4, k))
            s.s([M, R, D, T(k)], cuts=1, decisions=0, shape=sh, tier=q(3, 4, k))
        s.s([INLINE, T(1), CR.encode()], cuts=1, shape=sh)
        s.s([M, R, D, INLINE, CR.encode() + E + NO], cuts=1, lo=30, decisions=0, shape=sh)
    s.s([INLINE, T(1), CR.encode()], cuts=1)
    s.s([INLINE, T(1)], cuts=2)
    s.s([M, R, D, INLINE, CR.encode() + E + NO], cuts=2, lo=30, decisions=0)
    s.s([M, R, D, MSG, E, X], picks=4)
    s.s([M, R, D, MSG, E, NO], picks=3, cuts=1, decisions=0)
    s.s([M, R, D, MSG, E, NO], picks=3, trunc=4)
    for n in BIG:
        s.s([T("a" * n, 3)], cuts=1, lo=n - 1)
        s.s([T("MAIL FROM:<", "a" * n, 3, CR)])
        s.s([M, R, D, T("a" * n, 3)], decisions=0)
        s.s([T("a" * n, 2)], cuts=1064 if n < 6000 else 1500)
    s.need = {"h_session": [0]}
    return s


def p19():
    s = Sess(19, "h_twice")
    s.s([M, R, D, MSG, NO], cuts=2, decisions=0)
    s.s([M, R, D, MSG, NO], cuts=2, tier="deep")
    s.s([M, R, D, MSG, NO], cuts=2, shape=6, decisions=0)
    s.s([M, R, D, T(2), CR.encode() + E + NO], cuts=1, shape=6, decisions=0)
    s.s([T(1, CR, 1, CR)], cuts=1, shape=6)
    s.s([T(1, CR, 1, CR)], cuts=2, shape=6, tier="deep")
    for z in (1, 2, 3, 7):
        s.s([M, R, D, MSG, NO, G, M2, R2, D, T(2), CR.encode() + MSG2, RS], cuts=1000 + z, decisions=0, shape=6)
    for n in WLEN:
        s.s([mw(n, n % 9), rw(n + 1, n % 7), nw(n), uw(n), D, T(LN(n), CR), E, M2], cuts=1000 + n % 23 + 1, decisions=0)
    s.s([mw(9), rw(9), D, T(LN(11), CR), E, nw(4)], cuts=1, decisions=0)
    s.s([mw(9), rw(9), D, T(LN(11), CR), E, nw(4)], delays=1, decisions=0)
    s.s([M, R, D, MSG, NO], cuts=1)
    s.s([M, R, D, MSG, NO], delays=2)
    s.s([M, R, D, MSG, NO], delays=3, decisions=0)
    s.s([M, R, D, MSG, NO], cuts=1, delays=1, decisions=0)
    s.s([M, R, D, T(3), CR.encode() + E + NO], cuts=1, decisions=0)
    s.s([M, R, D, T(2), CR.encode() + E + NO], cuts=2, lo=30, hi=50, decisions=0)
    s.s([M, R, D, T(1, CR, 1), CR.encode() + E + NO], cuts=2, lo=36, hi=50, decisions=0)
    s.s([M, R, D, T(1, CR, 1), CR.encode() + E, T(1, CR)], cuts=2, lo=30, hi=60, decisions=0, tier="deep")
    s.s([T(4)], cuts=2)
    s.s([T(1, CR, 1, CR)], cuts=2)
    s.s([T(2, CR, 2, CR)], cuts=2, tier="deep")
    s.s([INLINE, CR.encode()], cuts=1)
    s.s([INLINE], cuts=2, lo=20)
    s.s([M + R + D, INLINE, CR.encode() + E + NO], cuts=1, lo=36)
    s.s([M + R + D, INLINE, CR.encode() + E + NO], cuts=2, lo=36, tier="deep")
    s.s([T(5)], cuts=1, delays=1)
    s.s([M, T(1, CR), R, D, X + E, T(1, CR)], cuts=1, decisions=0)
    s.s([M, T(2, CR), R, D, X + E, T(2, CR)], cuts=1, decisions=0, tier="deep")
    s.s([M, T(3, CR)], cuts=2, lo=15, hi=30, decisions=0)
    s.s([M, T(4, CR)], cuts=2, lo=15, hi=30, decisions=0, tier="deep")
    for z in range(1, 20):
        s.s([M, R, D, MSG, NO, G, M2, R2, D, T(2), CR.encode() + MSG2, RS], cuts=1000 + z, decisions=0)
        s.s([M, R, D, MSG, NO, G, M2], cuts=1000 + z)
    s.s([M, R, D, MSG], cuts=1001, delays=1, decisions=0)
    for sh in (1, 2, 3, 4, 5):
        s.s([M, R, D, MSG, NO], cuts=1, decisions=0, shape=sh)
        s.s([M, R, D, MSG, NO], cuts=2, decisions=0, shape=sh, tier="quick" if sh in (1, 2) else "deep")
        s.s([M, R, D, T(2), CR.encode() + E + NO], cuts=1, decisions=0, shape=sh)
        s.s([T(1, CR, 1, CR)], cuts=1 if sh == 5 else 2, shape=sh)
        s.s([INLINE], cuts=1, shape=sh)
        for z in (1, 2, 3, 7, 30):
            if sh < 5:
                s.s([M, R, D, MSG, NO, G, M2, R2, D, T(2), CR.encode() + MSG2, RS], cuts=1000 + z, decisions=0, shape=sh)
    s.s([M, R, D, MSG, NO], trunc=80, cuts=1, decisions=0)
    s.s([M, R, D, MSG, NO, G], picks=3, cuts=1, decisions=0)
    for n in BIG:
        s.s([M, R, D, T("a" * n, 2, CR) + E, NO], cuts=1, lo=n, hi=n + 60, decisions=0)
        s.s([T("NOOP ", "a" * n, 2, CR), NO, M], cuts=1, lo=n, hi=n + 30, decisions=0)
        s.s([M, R, D, T("a" * n, 2, CR) + E, NO], cuts=1100, decisions=0)
    s.need = {"h_twice": [0, 1]}
    return s


# ------------------------------------------------------------ the queue

def queue_jobs(prop):
    s = Spec()
    s.harness = "harness-queue"
    seen = set()
    def k(nq, nf, delays=0, refusals=0, failures=0, any=0, clock=0, data=1, tier="quick"):
        p = (nq, nf, delays, refusals, failures, any, clock, data)
        if p not in seen:
            seen.add(p)
            s.add("queued=%d found=%d delays=%d refusals=%d failures=%d order=%d clock=%d data=%d" % p, "h_queue", prop, *p, tier=tier)
    for nq in range(0, 4):
        for nf in range(0, 3):
            k(nq, nf)
            if nq + nf <= 3:
                k(nq, nf, refusals=2, any=1)
                k(nq, nf, delays=2)
                k(nq, nf, failures=2)
                k(nq, nf, failures=102)
                k(nq, nf, clock=2)
                k(nq, nf, delays=100, refusals=1)
                k(nq, nf, delays=200)
            if nq + nf <= 2:
                k(nq, nf, delays=101, any=1, refusals=1)
                k(nq, nf, delays=100, any=1, failures=1, clock=1)
                k(nq, nf, delays=1, any=1, refusals=1)
                k(nq, nf, delays=1, any=1, failures=1)
                k(nq, nf, delays=1, any=1, failures=101)
                k(nq, nf, delays=1, any=1, clock=1)
                k(nq, nf, refusals=1, failures=1, clock=1)
            if nq + nf <= 1:
                k(nq, nf, delays=2, refusals=2, any=1)
                k(nq, nf, delays=3, refusals=1, any=1)
                k(nq, nf, delays=3, refusals=2, any=1)
                k(nq, nf, delays=4, refusals=2, any=1, clock=1, tier="deep")
                k(nq, nf, delays=2, refusals=1, failures=1, clock=1)
                k(nq, nf, clock=6, delays=1)
                k(nq, nf, refusals=5, failures=2)
    for n in (0, 2, 3, 4):
        k(1, 0, data=n, refusals=1)
        k(0, 1, data=n)
    for n in (8, 16, 24):
        k(n, 0)
        k(0, n)
        k(n // 2, n // 2, refusals=1)
        k(n, 1, clock=1)
    k(2, 1, any=1)
    k(1, 2, any=1)
    k(2, 2, any=1)
    k(3, 0, any=1, delays=1)
    k(0, 3, any=1, delays=1, tier="deep")
    k(2, 1, any=1, delays=1)
    k(1, 1, delays=2, refusals=1, any=1)
    k(2, 0, delays=2, refusals=2, any=1)
    k(2, 0, delays=1, failures=1, any=1, refusals=1)
    k(0, 2, delays=1, failures=1, any=1, clock=1)
    k(2, 2, any=1, refusals=1, failures=1, tier="deep")
    k(2, 1, any=1, delays=2, tier="deep")
    k(2, 2, any=1, delays=1, tier="deep")
    k(1, 1, delays=2, refusals=2, failures=1, any=1, clock=1, tier="deep")
    for n in (40, 60):
        k(n, 0, tier="deep")
        k(1, n, tier="deep")
    k(1, 0, refusals=20)
    k(0, 1, refusals=12)
    k(2, 0, refusals=6)
    s.need = {"h_queue": list(range(8))}
    return s


def p30():
    return queue_jobs(30)


def p31():
    return queue_jobs(31)


def p32():
    return queue_jobs(32)


# ------------------------------------------------------------ further parts

def p33():
    s = Sess(33)
    wordy(s)
    s.s([M, R, R2, D, MSG, NO, N], picks=3)
    s.s([M, R, D, MSG, M2, R2], picks=4)
    s.s([M, R, R2, D, MSG, M2, R2, NO], picks=5, tier="deep")
    s.s([M, R, R2, D, MSG, N, R2, D, MSG2, R])
    s.s([M, R, D, MSG, M2, R2, D, X + E], changes=1)
    s.s([M, M2, R, G, D, D, MSG, NO, M, R, RS, R2], decisions=1)
    s.s([R, D, M, D, R, D, E, G, R, M2, R, D, X + E], decisions=0)
    for t in (1, 2):
        s.s([M, R, D, MSG, M2, R2, D, MSG2], texts=t)
    s.s([M, R, D, MSG, M2, R2, D, E], cuts=1, decisions=0)
    s.s([TX, M2, R2, D, MSG2], trunc=200)
    s.s([M, R, D, MSG, M2, R2], delays=1)
    s.s([T("MAIL FROM:<", 1, "> A=", 1, CR), T("RCPT TO:<", 1, "@b>" + CR), D, T(2), CR.encode() + E, M2, R], decisions=0)
    for l in OTHERS:
        s.s([M, l, R, l, D, X + E, l, M2, R2])
    for n in (3, 4, 8):
        s.s([M] + [R, R2] * n + [D, X + E, M2, R2, D, X + E], name="%d recipients" % (2 * n), decisions=0)
        s.s([TX] * n + [M2], name="%d messages" % n, decisions=0)
        s.s([M] * n + [R], name="%d senders" % n, decisions=0)
    s.need = {"h_session": [2, 4, 5, 6, 7, 8, 12]}
    return s


def p34():
    return stream_jobs(34)


def p35():
    s = Sess(35)
    wordy(s)
    for t in (0, 1, 2, 3, 4, 5):
        s.s([M, R, D, MSG, G, NO, M, M2, R, D], texts=t, decisions=0)
        s.s([D, R, M, D, M, R, D, E, G, NO], texts=t, decisions=0)
        s.s([M, R, D, MSG, G, NO], picks=2, texts=t)
        s.s([M, R, D, MSG, G, NO], picks=3, texts=t, decisions=0, tier="quick" if t != 4 else "deep")
        s.s([M, R, D, X + E, G, D], texts=t)
        for l in OTHERS:
            s.s([l, T(3, CR)], texts=t, decisions=0)
    for l in (0, 1, 2, 3, 4, 6, 7, 8, 15, 16, 29, 30, 31, 32, 33, 62, 63, 64, 127, 253, 254, 255, 256, 491, 492, 493, 494, 502, 503, 504, 505, 506, 507, 1000, 1012):
        for t in (1, 2, 3):
            s.s([M, NO], texts=t, tlen=l, decisions=0)
    s.s([M, R, R2, D, X + E, M2, R, D, E, D], texts=5)
    s.s([M, R, D, MSG, M2], texts=5, picks=4)
    s.need = {"h_session": [2, 3, 4, 5, 10]}
    return s


def p36():
    s = Spec()
    def k(what, odd, t, tier="quick"):
        s.one("h_writers", [what, odd], t, tier)
    lines = ["MAIL FROM:<a@b>", "MAIL FROM:<>", "MAIL FROM:<@x:a> K=v", "MAIL FROM:<a> L", "RCPT TO:<a@[1.2.3.4]>", "RCPT TO:<\"a b\"@[IPv6:1::2]> K", "EHLO a.b", "EHLO [1.2.3.4]",
             "EHLO [IPv6:::1]", "HELO h", "HELO [127.0.0.1]", "DATA", "QUIT", "RSET", "NOOP", "NOOP a b", "HELP", "HELP x", "EXPN l", "VRFY u"]
    for l in lines:
        k(0, 1, T(l + CR))
        k(0, 2, T(l + CR))
        k(0, 3, T(l + CR))
        k(0, 4, T(l + CR))
        k(0, 5, T(l + CR), tier="deep")
    for l in ("MAIL FROM:<", "RCPT TO:<"):
        k(0, 1, T(l, 4, ">" + CR))
        k(0, 2, T(l, 3, ">" + CR))
        k(0, 3, T(l, 2, ">" + CR))
        k(0, 1, T(l, "a@", 2, "> ", 2, CR))
    for v in ("EHLO ", "HELO ", "EXPN ", "VRFY ", "HELP ", "NOOP "):
        k(0, 1, T(v, 3, CR))
        k(0, 2, T(v, 2, CR))
    for n in (0, 1, 2, 3):
        k(1, 2, T("25", 1, " ", n, CR))
        k(1, 2, T("250-", n, CR))
        k(2, 1, T(n, "@", 1))
        k(2, 2, T("a", n))
        k(3, 2, T(n))
        k(3, 3, T(n))
    for n in FREES:
        k(3, 2, T(n))
        k(0, 1, T("NOOP ", L(n), CR))
        k(0, 1, T("MAIL FROM:<", A(n), "@", W(n), "> ", W(n % 9 + 1), "=", W(n), CR))
        k(0, 1, T("RCPT TO:<\"", QT(n), "\"@", W(n), "> ", W(n % 9 + 1), CR))
        k(1, 2, T(Dg(3), " ", P(n), CR))
        k(0, 1, T("EHLO ", W(1), H(n), CR))
    for n in LENS + XL:
        k(3, 2, T("a" * (n - 1), 1))
        k(0, 1, T("NOOP ", "a" * (n - 1), 1, CR))
        k(0, 1, T("MAIL FROM:<", "a" * (n - 1), 1, "@b>" + CR))
        if n < 1000:
            k(1, 2, T("250 ", "a" * (n - 1), 1, CR))
            k(0, 1, T("EHLO ", "a" * (n - 1), 1, CR))
    s.need = {"h_writers": [0, 1, 2] + list(range(3, 14))}
    return s


def p37():
    s = Spec()
    def k(what, t, tier="quick"):
        s.one("h_parse_errors", [what], t, tier)
    for n in range(0, 8):
        k(0, T(n), q(5, 6, n))
        k(0, T("DATA" + CR, n))
        k(0, T("DATA", n, CR), q(4, 5, n))
        k(1, T(n), q(7, 8, n))
        k(1, T("250 a" + CR, n))
        k(1, T("250", n, CR), q(5, 6, n))
        k(2, T(n), q(5, 6, n))
        k(2, T("a@b", n), q(4, 5, n))
        k(2, T("\"", n), q(4, 5, n))
    for v in ("EHLO a", "HELO [1.2.3.4]", "EXPN x", "VRFY x", "HELP", "HELP x", "NOOP", "NOOP x", "QUIT", "RSET", "MAIL FROM:<a@b>", "MAIL FROM:<> K=v", "RCPT TO:<a@b>", "RCPT TO:<a> K"):
        for n in range(0, 5):
            k(0, T(v + CR, n), q(3, 4, n))
            k(0, T(v, n, CR, 1), q(2, 3, n))
        k(0, T(v, CR, v, CR, 1))
        k(0, T(v, 1, v, CR))
    for l in mailboxes() + long_mailboxes():
        k(2, l)
    for n in LENS + XL:
        k(0, T("NOOP" + CR, "a" * n, 1))
        k(1, T("250 x" + CR, "a" * n, 1))
        k(2, T("a@b", 1, "a" * n, 1))
        k(2, T("a" * n, 2))
    for n in FREES:
        k(0, T("NOOP" + CR, n))
        k(0, T("NOOP ", L(n), CR, n))
        k(0, T("MAIL FROM:<", A(n), "@", W(n), ">", CR, n))
        k(1, T("250 ", P(n), CR, n))
        k(2, T(A(n), "@", W(n), ">", n))
        s.one("h_build_errors", [], T(P(n), 1, n))
        s.one("h_build_errors", [], P(n))
    for n in range(0, 6):
        s.one("h_build_errors", [], T(n), q(4, 5, n))
    for n in LENS + XL + [501, 502, 503, 504, 505, 507, 508, 509]:
        s.one("h_build_errors", [], T(1, "a" * (n - 2), 1))
        s.one("h_build_errors", [], T("a" * (n // 2), 2, "a" * (n - n // 2 - 2)))
    s.need = {"h_parse_errors": [0, 1, 2], "h_build_errors": [3, 4, 5]}
    return s


PROPS = {"C%02d" % i: globals()["p%02d" % i] for i in range(1, 38)}
