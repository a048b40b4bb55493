import decimal
from hypothesis import strategies as st
from mix import mix
import doc
from canon import dedupe
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

OVER = ["\\put(10,20){%s}", "\\put (3,4) {\\color{red}%s}", "\\put(1,2){\\includegraphics[width=1cm]{%s.png}}", "\\put(0,0){\\vector(1,0){10}} %s", "\\put(5,5){$\\alpha_{1}$ %s} %% c"]
LOOPS = ["\\foreach \\x in {1,2,3}{%s \\x}", "\\foreach \\x/\\y in {1/a,2/b} {%s {\\x} \\y}", "\\foreach \\x [count=\\xi] in {a,...,c}{%s}", "\\foreach\\x in{1,2}{\\textbf{%s}}",
         "\\foreach \\i in \\mylist {%s \\i}", "\\foreach \\i [count=\\n] in \\mylist{%s}", "\\forloop{ct}{0}{\\value{ct} < 3}{%s \\arabic{ct}}", "\\forloop {ct}{1}{\\value{ct} < 5} {%s {a}}"]
QUIET = ["\\vphantom{%s}", "\\phantom{\\textbf{%s}}", "\\hphantom{%s}", "\\phantom{a{%s}b}"]
GROUPS = [("\\begingroup ", " \\endgroup{}"), ("\\begingroup\n", "\n\\endgroup\n"), ("\\bgroup ", " \\egroup{}"), ("\\bgroup\\relax ", "\\egroup\n")]
STARS = ["", "*"]
ROMAN = [(1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")]


def roman(n):
    s = ""
    for v, r in ROMAN:
        s += r * (n // v)
        n %= v
    return s


class Em(doc.Emitter):
    def __init__(self):
        super().__init__()
        self.kinds = set()

    def mark(self, k):
        self.kinds.add(k)

    # ------------------------------------------------------------ inline
    def i_tops(self, nd, styles):
        self.mark("texorpdfstring")
        a, _ = self.inl(nd["a"])
        b, c = self.inl(nd["b"], styles)
        return "\\texorpdfstring%s{%s}%s{%s}" % (["", " ", ""][nd["f"]], a, ["", " ", "%\n"][nd["f"]], b), c

    def i_frac(self, nd, styles):
        self.mark("fraction")
        a, ca = self.inl(nd["a"])
        b, cb = self.inl(nd["b"])
        src = "\\%s{%s}%s{%s}" % (["nicefrac", "textfrac", "frac"][nd["i"]], a, " " * nd["sp"], b)
        return src, self.w(" ".join(x[1] for x in ca) + " / " + " ".join(x[1] for x in cb), styles)

    def i_num(self, nd, styles):
        self.mark("number")
        n = nd["n"]
        s = "%s%d" % ("-" if nd["neg"] else "", n)
        if nd["frac"]:
            s += "." + nd["frac"]
        o, out = "", s
        if nd["p"] is not None:
            o = ["[round-precision=%d]", "[round-mode=places,round-precision=%d]", "[round-precision=%d, group-digits=false]", "[round-mode = places, round-precision = %d]"][nd["o"]] % nd["p"]
            out = format(decimal.Decimal(s).quantize(decimal.Decimal(1).scaleb(-nd["p"]), rounding=decimal.ROUND_HALF_UP), "f")
        elif nd["o"] % 2:
            o = "[group-digits=false]"
        return "\\num%s{%s}" % (o, s), self.w(out, styles)

    def i_rom(self, nd, styles):
        self.mark("roman numeral")
        n = nd["n"]
        end = ["\\relax{}", "{}", "", "."][nd["e"]]
        return "\\romannumeral%s%d%s" % (["", " ", "  "][nd["sp"]], n, end), self.w(roman(n) + ("." if end == "." else ""), styles)

    def i_citetext(self, nd, styles):
        self.mark("citetext")
        x, c = self.inl(nd["x"], styles)
        return "\\citetext%s{%s}" % (" " * nd["sp"], x), c

    def i_loop(self, nd, styles):
        self.mark("loop")
        src = LOOPS[nd["i"]] % self.word()
        w = self.word()
        return src + ["", " "][nd["sp"]] + w, self.w(w, styles)

    def i_quiet(self, nd, styles):
        self.mark("phantom")
        w = self.word()
        return QUIET[nd["i"]] % self.word() + " " + w, self.w(w, styles)

    def i_gro(self, nd, styles):
        self.mark("group command")
        o, e = GROUPS[nd["i"]]
        s = doc.DECL[nd["c"]] if nd["c"] else None
        x, c = self.inl(nd["x"], styles + ([s] if s else []))
        if s:
            w = self.word()
            x = "\\%s %s %s" % (nd["c"], w, x)
            c = self.w(w, styles + [s]) + c
        return o + x + e, c

    def i_ens(self, nd, styles):
        self.mark("ensuremath")
        m = self.math(nd["a"])
        return "\\ensuremath{%s}" % m, [self.tok("equation", styles, content=" ".join(m.split()))]

    # ------------------------------------------------------------ blocks
    def b_cols(self, nd):
        self.mark("columns")
        if nd["x"] is None:
            w = self.word()
            return ["\\onecolumn ", "\\twocolumn ", "\\onecolumn\n", "\\twocolumn\n"][nd["f"]] + w, self.w(w, [])
        self.in_opt = True
        l, c = self.blks(nd["x"])
        self.in_opt = False
        return "\\twocolumn%s[%s]" % (["", "", " ", "\n"][nd["f"]], ["%s", "{%s}", "\n%s\n", "\n{%s}%%\n"][nd["f"]] % l), c

    def over(self, nd):
        self.mark("overpic")
        p = "img/%s.png" % self.key()
        o = ["", "[width=3cm]", "[scale=.5,tics=10]", "[width=\\textwidth,grid,unit=1mm]"][nd["o"]]
        body = "\n".join(OVER[i] % self.word() for i in nd["i"])
        return "\\begin{overpic}%s{%s}\n%s\n\\end{overpic}" % (o, p, body), [self.tok("includegraphics", [], content=p)]

    def b_over(self, nd):
        return self.over(nd)

    def b_capof(self, nd):
        self.mark("captionof")
        kind = ["figure", "table"][nd["i"]]
        x, c = self.inl(nd["x"])
        t = {"type": "caption", "title": self.w(kind, []), "content": c}
        lab = ""
        if nd["lab"]:
            lab, l = self.lab("co")
            t["labels"] = [l]
            lab = [" ", "\n"][nd["lab"] - 1] + lab
        short = ""
        if nd["short"]:
            short = "[%s]" % self.word()
        src = "\\captionof%s{%s}%s{%s}%s" % (STARS[nd["star"]], kind, short, x, lab)
        p, _ = self.inline({"k": "img", "o": 0}, [])
        return "\\begin{minipage}{4cm}\n%s\n%s\n\\end{minipage}" % (p, src), [_[0], t]

    def b_subs(self, nd):
        """a float of \\subfloat's"""
        env = nd["e"]
        t = {"type": env, "content": [], "_num": True}
        labels, parts = [], []
        for s in nd["x"]:
            self.mark("subfloat")
            opt, cap = "", []
            if s["cap"] is not None:
                if s["short"]:
                    opt = "[%s]" % self.word()
                lab = ""
                self.in_opt = True
                x, c = self.inl(s["cap"])
                self.in_opt = False
                if s["lab"] == 1:
                    lab, l = self.lab("sf")
                    labels.append(l)
                opt += "[%s%s]" % (x, lab)
                cap = [{"type": "caption", "content": c}]
            l, c = self.block(s["x"])
            if s["lab"] == 2:
                lab, lb = self.lab("sf")
                labels.append(lb)
                l += lab
            t["content"] += cap + c
            parts.append("\\subfloat%s{%s}" % (opt, l))
        src = ["\n", "\\hfill\n", "\\quad ", "\\\\\n"][nd["sep"]].join(parts)
        if nd["cap"]:
            x, c = self.inl(nd["cap"])
            src += "\n\\caption{%s}" % x
            ct = {"type": "caption", "content": c}
            if nd["lab"]:
                lab, l = self.lab("fl")
                src += lab
                ct["labels"] = [l]
            t["content"].append(ct)
        if labels:
            t["labels"] = list(dict.fromkeys(labels))  # a label is recorded once per element
        return "\\begin{%s}\n%s%s\n\\end{%s}" % (env, ["", "\\centering\n"][nd["center"]], src, env), [t]


plain = lst(mix(doc.s_text, doc.s_text, doc.s_esc), 1, 2)
base = doc.s_inl(1, 1, 2, wraps=("sty", "col", "decl"), verb=False)
s_num = doc.fd("num", n=mix(st.integers(0, 12), st.integers(0, 10 ** 7)), neg=st.booleans(), frac=mix(st.just(""), st.text("0123456789", min_size=1, max_size=6), st.sampled_from(["5", "25", "125", "995", "45", "499"])),
               p=doc.opt(st.integers(1, 5)), o=st.integers(0, 3))
s_rom = doc.fd("rom", n=mix(st.integers(1, 60), st.integers(1, 3999)), sp=st.integers(0, 2), e=st.integers(0, 3))
s_frac = doc.fd("frac", a=plain, b=plain, i=st.integers(0, 2), sp=st.integers(0, 1))


def inl(d):
    sub = lst(mix(doc.s_text, doc.s_text, doc.s_math, doc.s_cite, *([st.deferred(lambda: inl(d - 1))] * 3 if d else [])), 1, 3)
    return mix(
        s_num, s_rom, s_frac,
        doc.fd("tops", a=mix(base, sub), b=sub, f=st.integers(0, 2)),
        doc.fd("citetext", x=sub, sp=st.integers(0, 1)),
        doc.fd("loop", i=ix(LOOPS), sp=st.booleans()),
        doc.fd("quiet", i=ix(QUIET)),
        doc.fd("gro", i=ix(GROUPS), c=doc.opt(st.sampled_from(doc.DECL_NAMES)), x=sub),
        doc.fd("ens", a=lst(doc.small, 1, 2)))


hard = inl(1)
wrapped = mix(doc.fd("sty", c=st.sampled_from([s for s in doc.STYLE_NAMES if "case" not in s]), x=lst(mix(doc.s_text, hard), 1, 3)),
                    doc.fd("decl", c=st.sampled_from(doc.DECL_NAMES), x=lst(mix(doc.s_text, hard), 1, 3)),
                    doc.fd("fn", x=lst(mix(doc.s_text, hard), 1, 3)))
par = doc.fd("par", x=lst(mix(doc.s_inline(1), hard, hard, wrapped), 1, 4))
title = lst(mix(doc.s_text, doc.fd("tops", a=base, b=lst(mix(doc.s_text, doc.s_math), 1, 2), f=st.integers(0, 2)), s_rom, s_num, s_frac), 1, 3)
s_over = doc.fd("over", o=st.integers(0, 3), i=lst(ix(OVER), 0, 3))
s_capof = doc.fd("capof", i=st.integers(0, 1), x=title, lab=st.integers(0, 2), short=st.booleans(), star=st.integers(0, 1))
s_sub = doc.fd("_", cap=doc.opt(lst(mix(doc.s_text, doc.s_math, doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=lst(doc.s_text, 1, 1))), 1, 3)), short=st.booleans(), lab=st.integers(0, 2),
               x=mix(doc.s_img, s_over, doc.s_tab(), par))
s_subs = doc.fd("subs", e=st.sampled_from(["figure", "table"]), x=lst(s_sub, 1, 3), sep=st.integers(0, 3), cap=doc.opt(title), lab=st.booleans(), center=st.integers(0, 1))
s_cols = doc.fd("cols", x=doc.opt(lst(mix(doc.fd("par", x=lst(mix(doc.s_text, doc.s_math, hard), 1, 3)), s_over, doc.s_img), 1, 3)), f=st.integers(0, 3))
ctx = mix(
    doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=title, lab=st.integers(0, 2)),
    doc.fd("parag", l=st.integers(1, 2), x=title),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", title=st.none(), x=lst(mix(par, s_over, s_capof), 1, 2)), 1, 3)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=doc.opt(title), lab=st.integers(0, 2), center=st.booleans(), capfirst=st.booleans(), x=lst(mix(s_over, doc.s_img, par), 1, 2)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof"]), title=st.none(), lab=st.booleans(), x=lst(mix(par, s_over), 1, 2)),
    doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "myunknownenv"]), x=lst(mix(par, s_over, s_capof), 1, 2)),
    doc.fd("tab", rows=st.lists(st.lists(lst(mix(doc.s_text, inl(0)), 1, 2), min_size=2, max_size=2), min_size=1, max_size=3)))
blk = mix(par, par, par, s_over, s_capof, s_subs, s_subs, s_cols, ctx, ctx, doc.s_eq)


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    return sorted(em.kinds)


PROPERTY = Property("C28", [
    Facet("content", case(doc=lst(blk, 1, 6), pre=pre), run, quick=1600, thorough=40000, shards=8,
          rule="documents with commands that stand for content at any place: \\texorpdfstring, fractions, numbers, roman numerals, \\citetext, loops, phantoms, group commands, overpic, \\captionof, \\subfloat, columns"),
    big(case(doc=lst(blk, 1, 4), pre=pre), run),
], "a case is non-trivial when it holds one of the commands",
    assumptions=["the arguments of a fraction in text are plain text; \\foreach has a braced body"])
