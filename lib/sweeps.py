"""Scenarios in which one property is varied systematically: every variant,
every combination of contents, every pair, every format, every fault position.
They are histories like those of HistGen and are judged by the same
specification; what they add is the choice of arguments."""
import itertools

import families as fm


class Sweeper:
    """c: hist.Concretizer of a family."""

    def __init__(self, c, rng, deep=False):
        self.c, self.rng, self.deep = c, rng, deep
        self.f, self.decl, self.n = c.f, c.decl, c.n
        self.all = range(self.n)
        if self.n > 48:
            # of a wide family the variants at the boundaries and those with contents
            keep = {0, 1, 2, 3, 15, 16, 127, 128, 254, 255, 256, 257, self.n - 1}
            self.all = sorted(v for v in range(self.n) if v in keep or self.f["variants"][v][1])

    def combos(self, v, limit):
        """token sequences of variant v"""
        ks = self.decl[v]["toks"]
        total = 1
        for k in ks:
            total *= k
        if total <= limit:
            return [list(t) for t in itertools.product(*[range(k) for k in ks])]
        # any two fields of one type differ in one of the first
        k, res = 1, []
        while k < len(ks):
            res.append([(j // k + len(res)) % n for j, n in enumerate(ks)])
            k *= max(2, min(ks))
        res += [[i % k for k in ks] for i in range(max(ks))]
        while len(res) < limit:
            t = [self.rng.randrange(k) for k in ks]
            if t not in res:
                res.append(t)
        return res[:limit]

    def mk(self, s, v, t, how):
        """puts the value into slot s: val, box, cont, or cont from its payload"""
        t = " ".join(map(str, t))
        if how == "pay" and v in self.c.conv and not self.f["raw"]:
            return ["contpay %d %d %s" % (s, v, t)]
        L = ["make %d %d %s" % (s, v, t)]
        if how == "box":
            L.append("tobox %d%s" % (s, " %d" % self.c.tag() if self.f["raw"] else ""))
        elif how in ("cont", "pay"):
            L.append("tocont %d" % s)
        return L

    def single(self, v):
        return fm.single(self.f["variants"][v])

    def hows(self):
        return ("box",) if self.f["raw"] else ("box", "cont", "pay")

    # -- C04, C05, C07, C08: all ways in and out

    PATHS = [
        ["tobox", "frombox"], ["tocont", "continner"], ["tobox", "wrap", "continner"], ["tocont", "unwrap", "frombox"],
        ["tobox", "wrap", "unwrap", "frombox", "tocont", "continner"], ["tocont", "continner", "tobox", "frombox"],
        ["tobox", "view", "frombox"], ["tocont", "view", "continner"],
        ["tobox", "drop"], ["tocont", "drop"], ["drop"],
    ]

    def paths(self, limit=6):
        res = []
        for v in self.all:
            cs = self.combos(v, limit * (4 if self.deep else 1))
            for i, t in enumerate(cs):
                L = []
                for p in self.PATHS if i == 0 or self.deep else [self.PATHS[i % 4], self.rng.choice(self.PATHS)]:
                    if self.f["raw"] and any(x in ("tocont", "wrap", "unwrap") for x in p):
                        continue
                    L.append("make 0 %d %s" % (v, " ".join(map(str, t))))
                    for o in p:
                        L.append("tobox 0 %d" % self.c.tag() if o == "tobox" and self.f["raw"] else o + " 0")
                    if p[-1] != "drop":
                        L.append("drop 0")
                if v in self.c.conv and not self.f["raw"]:
                    L += self.mk(1, v, t, "pay") + ["continner 1", "drop 1"]
                    L += self.mk(1, v, t, "pay") + ["unwrap 1", "frombox 1", "drop 1"]
                if self.single(v) and not self.f["raw"]:
                    L += ["make 0 %d %s" % (v, t[0]), "tobox 0", "payref 0 %d 0" % v, "payinner 0 %d" % v, "tobox 0", "intostd 0 %d" % v, "stdread 0", "drop 0"]
                    L += ["paynew 1 %d %d %d 0" % (v, t[0], self.c.tagof(v)), "wrap 1", "continner 1", "drop 1"]
                    L += ["paynew 1 %d %d %d 1" % (v, t[0], self.c.tagof(v)), "frombox 1", "drop 1"]
                res.append(L)
        return res

    # -- the same again and again, on one value and on many

    TIMES = (64, 257, 600, 1100, 70000)

    def plain(self, v):
        """without memory of its own, which is not recorded when an operation is repeated"""
        return self.c.trips(v) == 0 and not self.c.heapy(v)

    def marathons(self, what, k=4):
        res = []
        if self.f["raw"]:
            return res
        vs = list(self.all)
        self.rng.shuffle(vs)
        for v in vs[:k]:
            n = self.rng.choice(self.TIMES) * (4 if self.deep else 1)
            # what a conversion allocates is not given back
            n = max(64, min(n, (1 << 27) // max(1, self.decl[v]["min"])))
            t = self.rng.choice(self.combos(v, 4))
            how = self.rng.choice(("box", "cont"))
            L = self.mk(0, v, t, how)
            if what == "view":
                L += ["hview 0 %d" % n, "view 0", "viewd 0 0 %d" % min(self.rng.choice([130, 260, 300]), (1 << 26) // max(1, self.decl[v]["min"]))]
            elif what == "conv":
                if self.plain(v):
                    L += ["hconv 0 %d %d %s" % (n, v, " ".join(map(str, t)))]
                else:
                    L += ["drop 0"] + ["make 0 %d %s" % (v, " ".join(map(str, t)))] + ["tobox 0", "frombox 0", "tocont 0", "continner 0"] * 40
            elif what == "clone" and "clone" in self.c.caps:
                if self.plain(v):
                    L += ["hclone 0 %d" % n, "view 0"]
                else:
                    L += ["clone 0 1", "drop 1"] * 30 + ["view 0"]
                # a chain of clones
                L += ["clone %d %d" % (i % 3, (i + 1) % 3) if j == 0 else "drop %d" % (i % 3) for i in range(24) for j in (0, 1)] + ["view 0"]
            elif what == "cmp" and "cmp" in self.c.caps:
                w = self.rng.choice([v, self.rng.choice(vs)])
                L += self.mk(1, w, self.rng.choice(self.combos(w, 4)), how) + ["hcmp 0 %d 1" % n, "hcmp 1 %d 0" % n, "hcmp 0 %d 0" % n]
            elif what == "fmt" and "fmt" in self.c.caps:
                L += ["hfmt 0 %d %d" % (n, self.rng.randrange(self.c.specs if how == "box" else fm.DBG))]
            else:
                continue
            res.append(L + ["drop 0"])
        return res

    # several values alive at the same time
    def crowds(self, k):
        res = []
        for _ in range(k):
            L, how = [], {}
            for s in range(4):
                v = self.rng.choice(list(self.all))
                how[s] = self.rng.choice(self.hows())
                L += self.mk(s, v, self.rng.choice(self.combos(v, 4)), how[s])
            order = [0, 1, 2, 3]
            self.rng.shuffle(order)
            for s in order:
                L.append("%s %d" % ("frombox" if how[s] == "box" else "continner", s))
            self.rng.shuffle(order)
            L += ["drop %d" % s for s in order]
            res.append(L)
        return res

    # very many at the same time, which come and go in any order
    def multitudes(self, k, slots=40):
        res = []
        raw = self.f["raw"]
        for _ in range(k):
            L, how, var = ["slots %d" % slots], {}, {}

            def fill(s):
                v = self.rng.choice(list(self.all))
                var[s], how[s] = v, self.rng.choice(self.hows())
                return self.mk(s, v, self.rng.choice(self.combos(v, 6)), how[s])
            order = list(range(slots))
            self.rng.shuffle(order)
            for s in order:
                L += fill(s)
            for s in order[:slots // 2]:
                L.append("view %d" % s)
            for _ in range(slots):
                s, t = self.rng.sample(range(slots), 2)
                x = self.rng.choice(["view", "again", "wrap", "refill", "clonefrom", "cmp", "fmt", "poke", "view2", "std", "move"])
                if x == "view":
                    L.append("view %d" % s)
                elif x == "again":
                    o = "frombox" if how[s] == "box" else "continner"
                    L += ["%s %d" % (o, s), "tobox %d%s" % (s, " %d" % self.c.tag() if raw else "")]
                    how[s] = "box"
                elif x == "wrap" and not raw:
                    L.append("%s %d" % ("wrap" if how[s] == "box" else "unwrap", s))
                    how[s] = "cont" if how[s] == "box" else "box"
                elif x == "refill":
                    L += ["%s %d" % ("frombox" if how[s] == "box" else "continner", s), "drop %d" % s] + fill(s)
                elif x == "clonefrom" and "clone" in self.c.caps and how[s] == how[t] and (how[s] == "box" or not "copy" in self.c.caps):
                    L.append("clonefrom %d %d" % (s, t))
                    var[t] = var[s]
                elif x == "cmp" and "cmp" in self.c.caps:
                    L.append("cmp %d %d" % (s, t))
                elif x == "fmt" and "fmt" in self.c.caps:
                    L.append("fmt %d %d" % (s, self.rng.randrange(fm.DBG)))
                elif x == "poke" and how[s] == "box" and self.single(var[s]):
                    L.append("poke %d %d %d %d" % (s, var[s], self.rng.randrange(self.decl[var[s]]["toks"][0]), self.rng.randrange(2)))
                elif x == "std" and how[s] == "box" and self.single(var[s]):
                    L += ["intostd %d %d" % (s, var[s]), "stdread %d" % s, "tobox %d%s" % (s, " %d" % self.c.tag() if raw else "")]
                elif x == "view2" and not raw:
                    L.append("view2 %d %d" % (s, t))
            self.rng.shuffle(order)
            for s in order:
                L += ["%s %d" % ("frombox" if how[s] == "box" else "continner", s), "drop %d" % s]
            res.append(L)
        return res

    # -- C05: tags no variant has

    def foreign(self):
        if not self.c.hasbad:
            return []
        n, m = self.n, self.c.maxtag
        tags = set(range(n, min(m, n + 20) + 1)) | {m, m - 1, (n + m) // 2, 255, 256, 257, 511, 512, 4095, 4096, 32768} | set(self.c.edgetags)
        # those that agree with a variant's position in the low bits
        tags |= {(1 << k) + v for k in range(1, 16) for v in (0, 1, n - 1)}
        tags = sorted(tags & set(self.c.foreign))
        if len(tags) > 60:
            tags = sorted(self.rng.sample(tags, 60))
        res = []
        for t in tags:
            L = ["mkbad 0 %d" % t]
            v = self.rng.choice(list(self.all))
            L += self.mk(1, v, self.combos(v, 1)[0], "box")
            ops = ["view 0", "frombox 0", "mkbad 0 %d" % t, "wrap 0", "view 0", "continner 0", "mkbad 0 %d" % t,
                   "view2 0 1", "view2 1 0"]
            if "clone" in self.c.caps:
                ops += ["clone 0 2", "wrap 0", "clone 0 2", "unwrap 0", "mkbad 2 %d" % t, "clonefrom 0 1", "mkbad 3 %d" % t, "wrap 3", "wrap 1", "clonefrom 3 1" if not "copy" in self.c.caps else "view 1", "drop 3", "unwrap 1"]
            if "cmp" in self.c.caps:
                ops += ["cmp 0 1", "cmp 1 0", "cmp 0 0", "mkbad 3 %d" % self.rng.choice(tags), "cmp 0 3", "wrap 0", "wrap 3", "cmp 0 3", "drop 3", "unwrap 0"]
            if "fmt" in self.c.caps:
                ops += ["fmt 0 %d" % self.rng.randrange(self.c.specs), "wrap 0", "fmt 0 0", "unwrap 0"]
            res.append(L + ops + ["drop 0", "drop 1"])
        return res

    # -- C06: one payload in a box

    def payloads(self, limit=4):
        res = []
        for v in self.all:
            if not self.single(v):
                continue
            K = self.decl[v]["toks"][0]
            for i, t in enumerate(self.combos(v, limit * (3 if self.deep else 1))):
                t = t[0]
                tags = [self.c.tagof(v)] if not self.f["raw"] else [0, self.c.maxtag, self.c.tag(), self.c.tag()]
                for tag in tags:
                    u, w = self.rng.randrange(K), (t + 1) % K
                    L = ["paynew 0 %d %d %d %d" % (v, t, tag, i % 2)]
                    L += ["payref 0 %d %d" % (v, h) for h in range(4)]
                    L += ["poke 0 %d %d 0" % (v, w), "view 0", "payref 0 %d 1" % v, "poke 0 %d %d 1" % (v, u), "payref 0 %d 0" % v]
                    away = lambda: self.c.relocate(1, v)
                    L += ["move 0 1", "payref 1 %d 2" % v, "intoraw 1 %d" % v, *away(),
                          "fromraw 1 %d" % self.c.tagof(v), "payref 1 %d 3" % v, "view 1"]
                    L += ["intoraw 1 %d" % v, "fromraw 1 %d" % (self.c.tagof(v) if not self.f["raw"] else self.c.maxtag), "poke 1 %d %d 0" % (v, t)]
                    L += ["intostd 1 %d" % v, "stdraw 1", *away(), "fromraw 1 %d" % tag, "payref 1 %d 0" % v, "intoraw 1 %d" % v, *away(), "rawstd 1", "stdread 1", "drop 1"]
                    L += ["stdnew 1 %d %d" % (v, u), "stdraw 1", *away(), "fromraw 1 %d" % tag, "payref 1 %d 1" % v, "view 1", "poke 1 %d %d 1" % (v, t)]
                    end = self.rng.choice(["payinner", "frombox", "intostd", "stddrop", "drop"])
                    if end == "stddrop":
                        L += ["intostd 1 %d" % v, "drop 1"]
                    elif end == "intostd":
                        L += ["intostd 1 %d" % v, "stdread 1", "tobox 1 %s" % (tag if self.f["raw"] else ""), "payref 1 %d 0" % v]
                    else:
                        L += ["%s 1 %s" % (end, v if end == "payinner" else "")]
                    res.append(L)
        return res

    # two boxes of different payloads next to each other: writing one spares the other
    def neighbours(self, k):
        singles = [v for v in self.all if self.single(v)]
        res = []
        for _ in range(k if singles else 0):
            L = []
            vs = [self.rng.choice(singles) for _ in range(4)]
            for s, v in enumerate(vs):
                L.append("paynew %d %d %d %d %d" % (s, v, self.rng.randrange(self.decl[v]["toks"][0]), self.c.tagof(v), self.rng.randrange(2)))
            for _ in range(8):
                s = self.rng.randrange(4)
                v = vs[s]
                L.append(self.rng.choice(["poke %d %d %d %d" % (s, v, self.rng.randrange(self.decl[v]["toks"][0]), self.rng.randrange(2)),
                                          "payref %d %d %d" % (s, v, self.rng.randrange(4)), "view %d" % s]))
            res.append(L)
        return res

    # -- C09

    def clones(self, limit=4):
        res = []
        if "clone" not in self.c.caps:
            return res
        for v in self.all:
            for t in self.combos(v, limit * (3 if self.deep else 1)):
                for how in ("box", "cont"):
                    out = "frombox" if how == "box" else "continner"
                    copies = "copy" in self.c.caps
                    L = self.mk(0, v, t, how) + ["clone 0 1", "view 0", "view 1"]
                    if "cmp" in self.c.caps:
                        L.append("cmp 0 1")
                    if how == "box" and self.single(v):
                        w = self.rng.randrange(self.decl[v]["toks"][0])
                        L += ["poke 1 %d %d 0" % (v, w), "view 0", "poke 0 %d %d 1" % (v, (w + 1) % self.decl[v]["toks"][0]), "view 1"]
                    a, b = self.rng.choice([(0, 1), (1, 0)])
                    end = self.rng.choice(["drop", out])
                    L += ["%s %d" % (end, a), "view %d" % b, "clone %d 2" % b, "%s %d" % (out, b), "view 2", "%s 2" % out]
                    res.append(L)
                    if how == "box" or self.rng.random() < 0.5:
                        u = self.rng.choice(list(self.all))
                        L = self.mk(0, v, t, how) + self.mk(1, u, self.rng.choice(self.combos(u, 4)), how)
                        L += ["clonefrom 0 1", "view 0", "view 1", "drop 0", "view 1", "clone 1 3", "clonefrom 3 1", out + " 1"]
                        if not (copies and how == "cont"):
                            L.append(out + " 3")
                        res.append(L)
                    if copies:
                        L = self.mk(0, v, t, how) + ["copy 0 1", "copy 1 2", "view 0", "%s 0" % out, "view 1", "%s 1" % out, "view 2", "%s 2" % out]
                        res.append(L)
                        if how == "box" and self.single(v):
                            K = self.decl[v]["toks"][0]
                            res.append(self.mk(0, v, t, how) + ["copy 0 1", "poke 0 %d %d 0" % (v, self.rng.randrange(K)), "view 1",
                                                               "poke 1 %d %d 1" % (v, self.rng.randrange(K)), "payref 0 %d 0" % v, "drop 0", "view 1", "frombox 1"])
        return res

    # -- C10: all pairs of variants, all pairs of contents

    def pairs(self, limit=9):
        res = []
        if "cmp" not in self.c.caps:
            return res
        limit *= 2 if self.deep else 1
        todo = []
        for v in self.all:
            cs = self.combos(v, limit)
            todo += [((v, a), (v, b)) for i, a in enumerate(cs) for b in cs[i:]]
        for v in self.all:
            for w in self.all:
                if v < w:
                    for _ in range(3 if self.deep else 1):
                        todo.append(((v, self.rng.choice(self.combos(v, 6))), (w, self.rng.choice(self.combos(w, 6)))))
        self.rng.shuffle(todo)
        # storage is put in either order, so that addresses do not follow the values
        for i, (x, y) in enumerate(todo):
            forms = [("box", "box"), ("cont", "cont"), ("box", "cont"), ("pay", "cont"), ("box", "box"), ("pay", "pay")][i % 6]
            first = self.mk(0, x[0], x[1], forms[0])
            second = self.mk(1, y[0], y[1], forms[1])
            L = first + second if self.rng.random() < 0.5 else second + first
            L += ["cmp 0 1", "cmp 1 0"]
            if self.rng.random() < 0.25:
                L += ["cmp 0 0", "cmp 1 1"]
            if self.rng.random() < 0.15 and "copy" in self.c.caps:
                L += ["copy 0 2", "cmp 0 2", "cmp 2 1"]
            res.append(L)
        return res

    # -- C11: every variant, all formats, boxes and containers

    def formats(self, limit=2):
        res = []
        if "fmt" not in self.c.caps:
            return res
        for v in self.all:
            for t in self.combos(v, limit * (4 if self.deep else 1)):
                L = self.mk(0, v, t, "box")
                L += ["fmt 0 %d" % s for s in range(self.c.specs)]
                L += ["wrap 0"] + ["fmt 0 %d" % s for s in range(fm.DBG)]
                L += ["unwrap 0", "fmt 0 0", "fmt 0 0"]
                res.append(L)
        return res

    # -- C12: every fault at every position

    def faults(self, limit=2):
        res = []
        caps = self.c.caps
        for v in self.all:
            for t in self.combos(v, limit * (3 if self.deep else 1)):
                for how in self.hows()[:2]:
                    out = "frombox" if how == "box" else "continner"
                    base = self.mk(0, v, t, how)
                    w = self.rng.choice(list(self.all))
                    base += self.mk(1, w, self.rng.choice(self.combos(w, 4)), how)
                    after = ["view 0", "view 1"]
                    if "clone" in caps:
                        after += ["clone 0 2"]
                    if "cmp" in caps:
                        after += ["cmp 0 1"]
                    if "fmt" in caps:
                        after += ["fmt 0 0"]
                    after += ["%s 0" % out, "%s 1" % out]
                    k = self.c.trips(v)
                    L = []
                    if not self.f["raw"]:
                        L += ["fview 0", "view 0", "fview2 0 1", "fview2 1 0", "fview2 0 0"]
                    if "clone" in caps:
                        for i in range(1, k + 1):
                            L += ["fclone 0 2 %d" % i, "view 0", "fclonefrom 0 1 %d" % i, "view 1"]
                        if not self.c.heapy(v) and self.decl[v]["min"] > 0 and not ("copy" in caps and how == "cont"):
                            L += ["falloc 1 clone 0 2", "view 0", "falloc 1 clonefrom 0 1", "view 1"]
                    if "cmp" in caps:
                        for i in range(1, k + 2):
                            for what in range(self.c.cmps):
                                L += ["fcmp 0 0 %d %d" % (i, what)]
                            L += ["fcmp 0 1 %d %d" % (i, self.rng.randrange(self.c.cmps)), "fcmp 1 0 %d %d" % (i, self.rng.randrange(self.c.cmps))]
                        L += ["cmp 0 1"]
                    if "fmt" in caps:
                        for sp in range(self.c.specs) if self.deep else sorted(self.rng.sample(range(self.c.specs), min(self.c.specs, 5))):
                            for m in (0, 1):
                                L += ["ffmt 0 %d %d %d" % (sp, i, m) for i in range(1, k + 2)]
                                L += ["fwrite 0 %d %d %d" % (sp, b, m) for b in (0, 1, 3, 8, 21, 55)]
                        L += ["fmt 0 0"]
                    res.append(base + L + after)
                if not self.c.heapy(v) and self.decl[v]["min"] > 0:
                    mk = "make 0 %d %s" % (v, " ".join(map(str, t)))
                    L = []
                    for o in ("tobox",) if self.f["raw"] else ("tobox", "tocont"):
                        L += [mk, "falloc 1 %s 0%s" % (o, " %d" % self.c.tag() if self.f["raw"] else "")]
                    if self.single(v):
                        L += ["falloc 1 paynew 0 %d %d %d %d" % (v, t[0], self.c.tagof(v), h) for h in (0, 1)]
                    if v in self.c.conv and not self.f["raw"]:
                        L += ["falloc 1 contpay 0 %d %s" % (v, " ".join(map(str, t)))]
                    u = self.rng.choice(list(self.all))
                    res.append(self.mk(1, u, self.combos(u, 1)[0], "box") + L + ["view 1", mk, "tobox 0%s" % (" %d" % self.c.tag() if self.f["raw"] else ""), "view 0", "frombox 0", "frombox 1"])
        return res

    # -- C13: views, nested with every other variant, and through cells

    def views(self, limit=3):
        res = []
        for v in self.all:
            for t in self.combos(v, limit * (3 if self.deep else 1)):
                for how in self.hows():
                    out = "frombox" if how == "box" else "continner"
                    L = self.mk(0, v, t, how) + ["view 0", "view 0", "viewd 0 0 %d" % self.rng.choice([1, 2, 3, 8])]
                    L += ["vin 0 view 0", "vin 0 view2 0 0"] if not self.f["raw"] else ["vin 0 view 0"]
                    # other values come and go in the meantime
                    u = self.rng.choice(list(self.all))
                    L += ["vin 0 " + o for o in self.mk(2, u, self.rng.choice(self.combos(u, 4)), how)]
                    L += ["viewd 0 2 %d" % self.rng.choice([2, 3, 5, 17]), "viewd 2 0 %d" % self.rng.choice([2, 3])]
                    L += ["vin 0 vin 2 view 0", "vin 0 %s 2" % out, "vin 0 drop 2", "view 0"]
                    if "clone" in self.c.caps:
                        L += ["vin 0 clone 0 3", "vin 3 view 0", "vin 0 %s 3" % out, "drop 3"]
                    if "cmp" in self.c.caps:
                        L += ["vin 0 cmp 0 0"]
                    if "fmt" in self.c.caps:
                        L += ["vin 0 fmt 0 0"]
                    if not self.f["raw"]:
                        L += ["view2 0 0"]
                        w = self.rng.choice(list(self.all))
                        L += self.mk(1, w, self.rng.choice(self.combos(w, 4)), self.rng.choice(self.hows()))
                        L += ["view2 0 1", "view2 1 0", "fview 0", "fview2 0 1", "view 1"]
                        for j, ty in enumerate(self.f["variants"][v][1]):
                            if ty in fm.CELLS:
                                L += ["vpoke 0 %d %d %d" % (v, j, (t[j] + 1) % 3), "view 0", "vpoke 0 %d %d %d" % (v, j, t[j]), "view2 0 1"]
                    elif self.f["variants"][v][1][0] in fm.CELLS:
                        L += ["vpoke 0 %d 0 %d" % (v, (t[0] + 1) % 3), "view 0"]
                    L += ["%s 0" % out]
                    res.append(L)
        return res
