"""Random C headers (deterministic in their seed)."""

import random

BASE = ["int", "char", "short", "long", "unsigned int", "float", "double", "unsigned char",
        "long long", "unsigned long long", "signed char", "uint8_t", "int32_t", "size_t",
        "unsigned short", "void *", "long int", "unsigned"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("header:%s" % seed)
        self.p = "g%d" % seed if isinstance(seed, int) else "g"
        self.n = 0
        self.common = self.r.choice([0, 0, 0, 0.8])  # how much of it other headers name too
        self.vals, self.fns, self.types, self.tags, self.enums = [], [], [], [], []

    def name(self, k=""):
        self.n += 1
        return "%s%s_%s%d" % (self.r.choice(["", "", "", "_"]), self.p, k, self.n)

    def expr(self, d=0):
        r = self.r
        x = r.random()
        if d > 2 or x < 0.35:
            return r.choice(["%d" % r.randrange(100), "0x%X" % r.randrange(4096),
                             "%dL" % r.randrange(9), "%dUL" % r.randrange(99)])
        if x < 0.6 and self.vals:
            return r.choice(self.vals)
        if x < 0.7 and self.fns:
            f, n = r.choice(self.fns)
            return "%s(%s)" % (f, ", ".join(self.expr(d + 1) for _ in range(n)))
        if x < 0.78:
            return "(-%d)" % r.randrange(9)
        return "(%s %s %s)" % (self.expr(d + 1), r.choice(["+", "-", "*", "|", "&", "^", "<<"]),
                               r.randrange(1, 9))

    def typ(self):
        r = self.r
        x = r.random()
        if x < 0.25 and self.types:
            t = r.choice(self.types)
        elif x < 0.4 and self.tags:
            t = r.choice(self.tags)
        else:
            t = r.choice(BASE)
        return r.choice(["", "", "", "const ", "volatile ", "const volatile "]) + t

    def decl(self, name, d=0):
        r = self.r
        s = "*" * r.choice([0, 0, 0, 1, 1, 2])
        x = r.random()
        if x < 0.65 or d:
            out = s + r.choice(["", "", "", "const "]) * bool(s) + name
            if r.random() < 0.3:
                out += "[%s]" % r.choice([self.expr(1), "2", "4"])
                if r.random() < 0.3:
                    out += "[3]"
            return out
        if x < 0.85:
            return "%s(*%s)(%s)" % (s, name, self.args())
        return "(*%s[%d])(%s)" % (name, r.randrange(1, 5), self.args())

    def args(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4])
        if not n:
            return r.choice(["", "void"])
        return ", ".join(self.typ() + (" " + self.decl(r.choice("abcdxyz") + str(i), 1)
                                       if r.random() < 0.8 else "") for i in range(n))

    def members(self, d=0):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3, 5])):
            m = self.name("m")
            x = r.random()
            if x < 0.12 and d < 2:
                out.append("%s {\n%s\n} %s;" % (r.choice(["struct", "union"]), self.members(d + 1),
                                                r.choice([m, m, m + "[2]", ""])))
            elif x < 0.2:
                out.append("unsigned int %s : %d;" % (m, r.randrange(1, 9)))
            elif x < 0.28 and self.tags:
                out.append("%s *%s;" % (r.choice(self.tags), m))
            else:
                out.append("%s %s;" % (self.typ(), self.decl(m)))
        return "\n".join("  " + x for x in out)

    def item(self, d=0):
        r = self.r
        x = r.randrange(29) if r.random() > self.common else r.choice([26, 27])
        if x < 4:
            n = self.name("V").upper()
            v = r.choice([self.expr, self.expr, self.expr, lambda: '"te xt %d"' % r.randrange(99),
                          lambda: "%d.%d" % (r.randrange(9), r.randrange(99)),
                          lambda: "'%s'" % r.choice("ab;c"), lambda: "",
                          lambda: "%de%d" % (r.randrange(9), r.randrange(9)),
                          lambda: "h\u00e9"])()
            if r.random() < 0.15:
                v = "\\\n   " + v
            if v and v[0] in "(0123456789":
                self.vals.append(n)
            return "#define %s %s" % (n, v)
        if x < 6:
            n = self.name("F").upper()
            k = r.choice([1, 2, 2, 3])
            a = ["a", "b", "c"][:k]
            body = " + ".join("(%s)" % y for y in r.sample(a, k)) + " * %d" % r.randrange(9)
            self.fns.append((n, k))
            return "#define %s(%s) (%s)" % (n, ", ".join(a), body)
        if x < 8 and d < 3:
            c = r.choice(["#ifdef %s", "#ifndef %s", "#if defined(%s)", "#if %s > 3",
                          "#if !defined(%s) && 1", "#if (%s)", "#if %s == LEVEL"])
            c = c % (r.choice(self.vals) if self.vals and r.random() < 0.7 else
                     r.choice(["NEVER_SET", "FEATURE", "LEVEL"]))
            out = [c, self.items(d + 1)]
            if r.random() < 0.3:
                out += ["#elif defined(%s)" % r.choice(["FEATURE", "LEVEL", "OTHER"]),
                        self.items(d + 1)]
            if r.random() < 0.6:
                out += ["#else", self.items(d + 1)]
            return "\n".join(out + ["#endif"])
        if x < 9 and self.vals:
            return "#undef %s" % r.choice(self.vals)
        if x < 12:
            n = self.name("t")
            if r.random() < 0.25:
                o = "typedef %s %s{\n%s\n} %s, *%s_p;" % (
                    r.choice(["struct", "union"]), r.choice(["", n + "_tag "]), self.members(), n, n)
                self.types.append(n + "_p")
            else:
                o = "typedef %s %s;" % (self.typ(), self.decl(n))
            self.types.append(n)
            return o
        if x < 16:
            n = self.name("s")
            k = r.choice(["struct", "struct", "union"])
            pk = r.random() < 0.2
            o = "%s %s {\n%s\n}%s;" % (k, n, self.members(), r.choice(["", "", "", " " + n + "_v"]))
            self.tags.append("%s %s" % (k, n))
            if pk:
                o = "#pragma pack(push, %d)\n%s\n#pragma pack(pop)" % (r.choice([1, 2, 4]), o)
            return o
        if x < 18:
            n = self.name("e")
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                m = self.name("E").upper()
                ms.append(m + (" = " + self.expr(1) if r.random() < 0.4 else ""))
            self.tags.append("enum " + n)
            return r.choice(["enum %s { %s };", "enum %s {\n  %s\n};"]) % (
                r.choice([n, n, n, ""]), ", ".join(ms))
        if x < 22:
            n = self.name("f")
            o = "%s%s %s%s(%s)" % (r.choice(["", "", "extern ", "static inline "]), self.typ(),
                                   r.choice(["", "", "* "]), n, self.args())
            return o + r.choice([";", ";", ";", " { int q = 1; return q; }",
                                 " __attribute__((pure));"])
        if x < 24:
            n = self.name("v")
            return "%s%s %s%s;" % (r.choice(["", "extern ", "static "]), self.typ(), n,
                                   r.choice(["", " = " + self.expr(1), "[3] = {1, 2, %s}" % self.expr(1),
                                             ", *%s_b" % n]))
        if x == 26:  # names that other headers use too
            c = r.choice("AB")
            return r.choice(["enum { COMMON_%s = %d, REST_%s };" % (c, r.randrange(9), self.name()),
                             "#define COMMON_%s %d" % (c, r.randrange(9)),
                             "typedef %s common_%s;" % (self.typ(), c),
                             "struct common_s%s {\n%s\n};" % (c, self.members()),
                             "#define COMMON_F(x) ((x) * %d)" % r.randrange(9),
                             "enum common_e { COMMON_C, COMMON_D = %s };" % self.expr(1)])
        if x == 27:
            return r.choice(["int %s[COMMON_A + 2];", "struct %s { char d[COMMON_B]; common_A m; };",
                             "#define %s (COMMON_A + COMMON_B)", "enum { %s = COMMON_D + 1 };",
                             "common_B *%s(struct common_sA *p, enum common_e e);",
                             "int %s[COMMON_F(2)];", "long %s = COMMON_A;"]) % self.name("u")
        return r.choice(["/* comment \u00e9\u00e8 \"quoted\" */", "// line; int nothing;",
                         "#include <stdio.h>", "extern \"C\" {", "API_CALL foo bar;",
                         "/* multi\n line */ int %s; // end" % self.name("c"),
                         "TOKEN_A %s(TOKEN_B x);" % self.name("k"), "#pragma once",
                         "#error not here" if d else "#pragma message", ";;"])

    def items(self, d):
        return "\n".join(self.item(d) for _ in range(self.r.choice([1, 1, 2, 3])))


def text(seed, size=None):
    g = Gen(seed)
    n = size or g.r.choice([2, 4, 8, 14])
    return ("/* header %s */\n" % seed + "\n".join(g.item() for _ in range(n)) +
            "\nint %s_last(void);\n" % g.p)
