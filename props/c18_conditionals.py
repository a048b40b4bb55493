import json
import re
from hypothesis import strategies as st
from mix import mix
import canon
import doc
from gen import case, ix, lst, pre
from grow import big
from pbt import Facet, Property

SWITCHES = ["draft", "draftlong", "@sub", "X", "longversion", "ab"]
BOOLS = ["anon", "anonymous", "print"]
# conditionals whose outcome depends on TeX's state: one branch is kept, whichever
OTHER_FI = ["\\ifx\\foo\\bar", "\\ifx\\foo\\undefined", "\\ifx \\foo \\relax", "\\ifx\\@foo\\@empty", "\\ifnum1<2", "\\ifnum\\value{page}>3", "\\ifnum 3 > 4", "\\ifnum\\pdfoutput>0",
            "\\ifdim\\textwidth>3cm", "\\ifdim\\linewidth=\\textwidth", "\\ifdim 3pt<4pt", "\\ifdefined\\foo", "\\ifcsname foo\\endcsname", "\\ifpdf", "\\ifxetex", "\\ifluatex", "\\ifmmode", "\\ifhmode", "\\ifodd\\value{page}",
            "\\ifodd 3", "\\ifvoid0", "\\ifcase 0", "\\ifcase\\value{page}", "\\if@twocolumn", "\\unless\\ifdefined\\foo", "\\ifx\\@undefined\\foo", "\\ifcat\\foo\\bar"]
OTHER_BR = ["\\ifthenelse{\\equal{x}{y}}", "\\ifthenelse{\\value{page}>3}", "\\ifthenelse{\\isodd{\\value{page}}}", "\\ifthenelse{\\NOT\\equal{\\foo}{} \\AND \\lengthtest{3pt<4pt}}", "\\ifthenelse {\\isundefined{\\foo}} ",
            "\\IfFileExists{nofile.tex}", "\\@ifundefined{foo}", "\\@ifpackageloaded{hyperref}", "\\@ifclassloaded{article}"]
FALSES = {"f": "false", "t": "true"}


class Em(doc.Emitter):
    def __init__(self, choices=None):
        super().__init__()
        self.choices = choices or {}
        self.sw = {}
        self.bools = {}
        self.markers = {}
        self.nc = 0
        self.macros = {}
        self.glued = {}
        self.known_words = set()
        self.taken = set()
        self.depth = 0
        self.kinds = set()

    # ------------------------------------------------ the two branches
    def branches(self, first, x, y, render, wrap=None):
        """-> (source of x, source of y, canonical output of the branch taken)

        first: True, False or None (decided by the output seen: `choices`)"""
        me = self.nc
        self.nc += 1
        if first is None:
            first = not self.choices.get(me, 0)
            undecided = True
        else:
            undecided = False
        self.depth += 1
        out = []
        for i, nodes in enumerate([x, y]):
            if nodes is None:
                out.append(("", []))
                continue
            live = (i == 0) == bool(first)
            keep = (dict(self.sw), dict(self.bools), dict(self.macros))
            m = self.word()
            if undecided:
                self.markers.setdefault(me, {})[i] = m
            l, c = render(nodes, m)
            if not live:
                self.sw, self.bools, self.macros = keep
            out.append((l, c))
        self.depth -= 1
        self.kinds.add("depth%d" % self.depth)
        (lx, cx), (ly, cy) = out
        return lx, ly, (cx if first else cy)

    def cond(self, nd, render, br):
        """br: how a branch is laid out"""
        t = nd["t"]
        x, y = nd["x"], nd.get("y")
        if nd.get("ex"):  # an empty first branch
            x = None
        fi = True
        if t == "const":
            v = nd["i"] % 2 == 0
            head = "\\iftrue" if v else "\\iffalse"
            if nd.get("un"):
                head, v = "\\unless" + head, not v
        elif t == "sw":
            n = SWITCHES[nd["i"] % len(SWITCHES)]
            v = self.sw[n]
            head = "\\if" + n
            if nd.get("un"):
                head, v = "\\unless" + head, not v
        elif t == "bool":
            n = BOOLS[nd["i"] % len(BOOLS)]
            v = self.bools[n]
            f = nd.get("f", 0) % 4
            head = ["\\ifbool{%s}", "\\notbool{%s}", "\\ifthenelse{\\boolean{%s}}", "\\ifthenelse{\\NOT \\boolean{%s}}"][f] % n
            if f % 2:
                v = not v
            fi = False
        elif t == "fi":
            head, v = OTHER_FI[nd["i"] % len(OTHER_FI)], None
        else:
            head, v, fi = OTHER_BR[nd["i"] % len(OTHER_BR)], None, False
        self.kinds.add(t)
        lx, ly, c = self.branches(v, x, y, render)
        if fi:
            els = "\\else%s%s" % (br[0], ly) if y is not None else ""
            return "%s%s%s%s%s\\fi" % (head, br[0], lx + br[1], els, br[1] if y is not None else ""), c
        return "%s{%s}{%s}" % (head, lx, ly), c

    def i_cond(self, nd, styles):
        def render(nodes, m):
            l, c = self.inl(nodes, styles)
            return m + " " + l, self.w(m, styles) + c
        me = self.nc
        l, c = self.cond(nd, render, (" ", " "))
        if nd.get("glue"):
            # the branch continues a word
            g = self.word()
            for m in self.markers.get(me, {}).values():
                self.glued[m] = g + m
            if c:
                c = [["w", g + c[0][1], c[0][2]]] + c[1:]
            else:
                c = self.w(g, styles)
            return g + l, c
        return l, c

    def b_bcond(self, nd):
        def render(nodes, m):
            l, c = self.blks(nodes)
            return m + "\n\n" + l, self.w(m, []) + c
        return self.cond(nd, render, ("\n", "\n"))

    # ------------------------------------------------ settings
    def i_set(self, nd, styles):
        w = self.word()
        c = self.w(w, styles)
        v = nd["v"]
        if nd["t"] == "sw":
            n = SWITCHES[nd["i"] % len(SWITCHES)]
            self.sw[n] = v
            s = "\\%s%s" % (n, "true" if v else "false")
        else:
            n = BOOLS[nd["i"] % len(BOOLS)]
            self.bools[n] = v
            tf = "true" if v else "false"
            s = ["\\setboolean{%s}{%s}" % (n, tf), "\\setbool{%s}{%s}" % (n, tf), "\\bool%s{%s}" % (tf, n)][nd.get("f", 0) % 3]
        return "%s %s" % (s, w), c

    # ------------------------------------------------ macros that test switches
    def i_use(self, nd, styles):
        """a macro whose body tests a switch: the latest setting counts"""
        n = SWITCHES[nd["i"] % len(SWITCHES)]
        name = "\\mac" + "abcdef"[nd["i"] % 6]
        self.kinds.add("macro")
        self.used_macros.add(nd["i"] % 6)
        arg = self.word()
        w = ["macyes", "macno"][0 if self.sw[n] else 1] + "abcdef"[nd["i"] % 6]
        return "%s{%s}" % (name, arg), self.w(w + " " + arg, styles)

    used_macros = set()

    # ------------------------------------------------ traps inside of branches
    def i_trap(self, nd, styles):
        w = self.word()
        s = ["$a \\iff b$", "\\verb|\\fi|", "\\verb+\\else+", "% \\fi \\else\n", "\\verb!\\iftrue!", "$\\infty$", "$x \\iff y \\iff z$"][nd["i"] % 7]
        c = []
        if s[0] == "$":
            c = [self.tok("equation", styles, content=canon.ws(s[1:-1]))]
        elif s[0] == "\\":
            c = [self.tok("code", styles, content=s[6:-1], display="inline")]
        self.kinds.add("trap")
        return w + " " + s, self.w(w, styles) + c

    def b_trapb(self, nd):
        k = self.key()
        body = ["\\fi", "\\else", "\\iftrue x", "if x:\n\\fi\n"][nd["i"] % 4] + " " + k
        env = ["verbatim", "lstlisting"][nd["e"] % 2]
        self.kinds.add("trap")
        return "\\begin{%s}\n%s\n\\end{%s}" % (env, body, env), [{"type": "code", "content": body}]


def prelude(c):
    s = ""
    for i, n in enumerate(SWITCHES):
        s += "\\newif\\if%s\n\\%s%s\n" % (n, n, "true" if c["sw"][i] else "false")
    for i, n in enumerate(BOOLS):
        s += [["\\newboolean{%s}\n", "\\newbool{%s}\n", "\\providebool{%s}\n"][(i + c["f"]) % 3] % n, "\\setboolean{%s}{true}\n" % n if c["b"][i] else ""][0]
        if c["b"][i]:
            s += ["\\setboolean{%s}{true}\n", "\\setbool{%s}{true}\n", "\\booltrue{%s}\n"][(i + c["f"]) % 3] % n
    for i, n in enumerate(SWITCHES):
        d = ["\\newcommand{\\mac%s}[1]{%s}", "\\def\\mac%s#1{%s}"][(i + c["f"]) % 2]
        x = "abcdef"[i]
        body = ["\\if%s macyes%s #1\\else macno%s #1\\fi" % (n, x, x), "\\if%s macyes%s\\else macno%s\\fi{} #1" % (n, x, x), "\\unless\\if%s macno%s #1\\else macyes%s #1\\fi" % (n, x, x)][(i + c["f"]) % 3]
        s += d % (x, body) + "\n"
    return s


def emit(c, choices):
    em = Em(choices)
    em.sw = {n: c["sw"][i] for i, n in enumerate(SWITCHES)}
    em.bools = {n: c["b"][i] for i, n in enumerate(BOOLS)}
    em.used_macros = set()
    l, flat = em.blks(c["doc"])
    return em, prelude(c) + l, flat


def run(c):
    em, src, _ = emit(c, {})
    got = canon.canon(canon.process(src, c["pre"]))
    seen = json.dumps(got, ensure_ascii=False)
    seen = set(re.findall("[a-z]+", seen))

    def shown(m, i):
        return i in m and (m[i] in seen or em.glued.get(m[i]) in seen)
    choices = {k: 1 for k, m in em.markers.items() if shown(m, 1) and not shown(m, 0)}
    em, src2, flat = emit(c, choices)
    assert src2 == src
    canon.require_canon(got, doc.assemble(flat), src)
    k = em.kinds & {"const", "sw", "bool", "fi", "br", "macro"}
    if k:
        return sorted(k | (em.kinds & {"trap", "depth1", "depth2"}))


def kinds(sub, y=True):
    f = dict(x=sub, glue=st.sampled_from([False, False, False, True]), ex=st.integers(0, 7).map(lambda n: n == 5))
    if y:
        f["y"] = mix(st.none(), sub, sub)
    g = dict(f, y=sub)
    return mix(
        doc.fd("cond", t=st.just("const"), i=st.integers(0, 1), un=st.sampled_from([False, False, True]), **f),
        doc.fd("cond", t=st.just("sw"), i=ix(SWITCHES), un=st.sampled_from([False, False, True]), **f),
        doc.fd("cond", t=st.just("sw"), i=ix(SWITCHES), **f),
        doc.fd("cond", t=st.just("bool"), i=ix(BOOLS), f=st.integers(0, 3), **f),
        doc.fd("cond", t=st.just("fi"), i=ix(OTHER_FI), **f),
        doc.fd("cond", t=st.just("br"), i=ix(OTHER_BR), **g))


setting = mix(doc.fd("set", t=st.just("sw"), i=ix(SWITCHES), v=st.booleans()), doc.fd("set", t=st.just("bool"), i=ix(BOOLS), v=st.booleans(), f=st.integers(0, 2)))
use = doc.fd("use", i=ix(SWITCHES))
trap = doc.fd("trap", i=st.integers(0, 6))
leaf = mix(doc.s_text, doc.s_text, doc.s_math, doc.s_cite, doc.s_esc, setting, use)


def inl(d):
    opts = [leaf, leaf]
    if d:
        opts += [st.deferred(lambda: kinds(lst(inl(d - 1), 1, 3)))] * 3
        opts += [doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=st.deferred(lambda: lst(inl0(d - 1), 1, 2)))]
        opts += [trap]
    return mix(*opts)


def inl0(d):
    """without what can not be an argument"""
    opts = [doc.s_text, doc.s_text, doc.s_math, use]
    if d:
        opts += [st.deferred(lambda: kinds(lst(inl0(d - 1), 1, 2)))] * 2
    return mix(*opts)


par = doc.fd("par", x=lst(inl(3), 1, 4))
arg = lst(inl0(2), 1, 3)
trapb = doc.fd("trapb", i=st.integers(0, 3), e=st.integers(0, 1))


def blk(d, top=True):
    opts = [par, par, doc.s_eq, trapb]
    if top:
        opts += [doc.fd("sec", l=st.integers(1, 2), star=st.booleans(), x=arg, lab=st.integers(0, 2))]
    if d:
        same = st.deferred(lambda: lst(blk(d - 1, top), 1, 3))
        # containers never end up empty (empty ones are left out of the output)
        sub = st.deferred(lambda: lst(blk(d - 1, False), 1, 3)).map(lambda b: [{"k": "par", "x": [{"k": "t", "n": 1, "f": 0}]}] + b)
        opts += [st.deferred(lambda: kinds(same).map(lambda n: {**n, "k": "bcond"}))] * 3
        opts += [doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", title=st.none(), x=sub), 1, 3)),
                 doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=doc.opt(arg), lab=st.integers(0, 2), x=st.just([{"k": "img"}])),
                 doc.fd("tab", rows=st.lists(st.lists(lst(inl0(1), 0, 2), min_size=2, max_size=2), min_size=1, max_size=3)),
                 doc.fd("env", e=st.sampled_from(["quote", "center", "myunknownenv"]), x=sub),
                 doc.fd("thm", e=st.sampled_from(["lemma", "proof"]), title=st.none(), lab=st.booleans(), x=sub)]
    return mix(*opts)


PROPERTY = Property("C18", [
    Facet("conditionals", case(doc=lst(blk(2), 1, 5), sw=st.lists(st.booleans(), min_size=6, max_size=6), b=st.lists(st.booleans(), min_size=3, max_size=3), f=st.integers(0, 5), pre=pre), run, quick=1200, thorough=40000, shards=8,
          rule="documents with constant, switch, boolean and state dependent conditionals nested in each other and in blocks, arguments and macros, with switches set anywhere and \\fi, \\else and \\if in verbatim text, comments and math"),
    big(case(doc=lst(blk(2), 1, 4), sw=st.lists(st.booleans(), min_size=6, max_size=6), b=st.lists(st.booleans(), min_size=3, max_size=3), f=st.integers(0, 5), pre=pre), run, quick=200),
], "a case is non-trivial when it holds a conditional",
    assumptions=["a switch that was never set, settings inside a group and environments opened in a branch and closed outside of it are not covered", "for tests that depend on TeX's state either branch is accepted"])
