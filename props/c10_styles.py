import canon
import doc
from gen import case, ix, lst, pre
from hypothesis import strategies as st
from mix import mix
from grow import big
from pbt import Facet, Property, require, require_eq
from props.c27_boxes import restyle

FONT = dict({k: v for k, v in doc.DECL.items() if k not in ("tiny", "scriptsize", "footnotesize", "small", "large", "Large", "LARGE", "huge", "Huge")},
            bold="bold", textup="normal", textnormal="normal", boldmath="bold", unboldmath="normal")
for k in ("textup", "textnormal", "bold"):
    del FONT[k]
SIZE = dict({k: v for k, v in doc.DECL.items() if k not in FONT}, normalsize="normal", smaller="small", larger="large")
FN, SN = sorted(FONT), sorted(SIZE)
STY = dict(doc.STYLE, overline="overline", textup="normal", textnormal="normal")
STN = sorted(STY)
CNAMES = ["mycolor", "linkc", "red", "my.color-2", "MyColor", "Red", "Gold3"]
TRAPS = ["{\\bf z}", "\\it x", "\\em a", "}", "{", "\\normalcolor", "\\tt{", "}}", "\\large", "\\color{red}", "\\begin{center}", "\\end{center}"]
CDEFS = [("HTML", "1A2B3C"), ("rgb", "0.1,0.2,0.3"), ("RGB", "10, 20, 30"), ("gray", "0.5"), ("cmyk", "0,.5,1,0"), ("named", "Blue"), ("rgb", "1, 0, 0")]


class Em(doc.Emitter):
    nst = 0
    decls = 0

    def __init__(self):
        super().__init__()
        self.colors = {}

    def sty(self, nd):
        if nd["c"] < len(STN):
            return "\\%s{%%s}" % STN[nd["c"]], STY[STN[nd["c"]]]
        opt, name, s = doc.COLORS[(nd["c"] - len(STN)) % len(doc.COLORS)]
        return "\\textcolor%s{%s}{%%s}" % (opt, name), s

    def i_s(self, nd, styles):
        self.nst += 1
        cmd, s = self.sty(nd)
        l, c = self.inl(nd["x"], styles + [s])
        return cmd % l, c

    def i_csp(self, nd, styles):
        """a control space ends the content"""
        self.nst += 1
        w = self.word()
        cmd, s = [("{\\%s %%s}" % FN[nd["c"] % len(FN)], FONT[FN[nd["c"] % len(FN)]]) if FN[nd["c"] % len(FN)] not in ("boldmath", "unboldmath") else self.sty(nd),
                  self.sty(nd), ("{%s}", None), ("{\\it %s}", "italic")][nd["f"]]
        return cmd % (w + "\\ "), self.w(w, styles + [s] * bool(s))

    def i_trap(self, nd, styles):
        """verbatim text that looks like the end of a group or a declaration"""
        s = TRAPS[nd["i"]] + self.key()
        d = "|!+"[nd["i"] % 3]
        return "\\verb%s%s%s" % (d, s, d), [self.tok("code", styles, content=s.strip(), display="inline")]

    def i_one(self, nd, styles):
        """an argument without braces is one character"""
        self.nst += 1
        n = STN[nd["c"] % len(STN)]
        n = {"textup": "textrm", "textnormal": "textrm"}.get(n, n)
        return "\\%s z" % n, self.w("z", styles + [STY[n]])

    def i_glued(self, nd, styles):
        """styled parts inside of one word"""
        l, c = self.word(), []
        c += self.w(l, styles)
        for p in nd["x"]:
            cmd, s = self.sty(p)
            a, b = self.word(), self.word()
            l += cmd % a
            c += self.w(a, styles + [s])
            if p["sep"]:
                l += b
                c += self.w(b, styles)
        return l, c

    def seq(self, nd, styles):
        """declarations and content in one group"""
        active = []  # (kind, style, command) in the order set
        parts, can = [], []
        after = False
        for it in nd["x"]:
            if it["k"] == "d":
                kind = it["kind"]
                have = [a for a in active if a[0] == kind]
                if have and active[-1][0] != kind:
                    continue  # see DESIGN.md: known limit, pinned as a finding
                if kind == "font":
                    cmd = FN[it["c"] % len(FN)]
                    new, src = (kind, FONT[cmd], cmd), "\\" + cmd
                elif kind == "size":
                    cmd = SN[it["c"] % len(SN)]
                    new, src = (kind, SIZE[cmd], cmd), "\\" + cmd
                else:
                    opt, name, s = doc.COLORS[it["c"] % len(doc.COLORS)]
                    new, src = (kind, s, name), "\\color%s{%s}" % (opt, name)
                    if it["c"] > 30:
                        if not have:
                            continue
                        new, src = None, "\\normalcolor"
                active = [a for a in active if a[0] != kind]
                if have and new and new[2] == "em" and have[0][2] == "em":
                    new = None
                if new:
                    active.append(new)
                self.decls += 1
                parts.append(src)
                after = True
            else:
                l, c = self.inline(it, styles + [a[1] for a in active])
                if after and l.lstrip()[:1] in "{[":  # \bf {x} is taken as \bf{x}
                    w = self.word()
                    l = w + " " + l
                    c = self.w(w, styles + [a[1] for a in active]) + c
                after = False
                parts.append(l)
                can += c
        return " ".join(parts), can

    def i_seq(self, nd, styles):
        l, c = self.seq(nd, styles)
        return "{%s%s}" % (l, ["", " ", "\\par", "\n"][nd["e"]]), c

    def i_useq(self, nd, styles):
        """the group is an argument of its own"""
        l, c = self.seq(nd, [])
        k = nd["e"]
        if k == 0:
            return "\\footnote{%s}" % l, [self.tok("footnote", styles, content=c)]
        if k == 1:
            l, c = self.seq(nd, styles)
            return "\\mbox{%s}" % l, c
        if k == 2:
            u = "https://ex.org/" + self.key()
            return "\\href{%s}{%s}" % (u, l), [self.tok("url", styles, content=u, title=c)]
        self.nst += 1
        l, c = self.seq(nd, styles + ["italic"])
        return "\\emph{%s}" % l, c

    def b_head(self, nd):
        self.in_opt = True
        l, c = self.seq(nd, [])
        self.in_opt = False
        k = nd["e"]
        if k == 0:
            return "\\section*{%s}" % l, [{"type": "section", "level": 1, "title": c, "content": [], "_num": False}]
        if k == 1:
            return "\\begin{figure}\n\\caption{%s}\n\\end{figure}" % l, [{"type": "figure", "content": [{"type": "caption", "content": c}], "_num": True}]
        if k == 2:
            w = self.word()
            return "\\begin{itemize}\\item[%s] %s \\end{itemize}" % (l, w), [{"type": "list", "name": "itemize", "content": [{"type": "item", "title": c, "content": self.w(w, [])}]}]
        w = self.word()
        return "\\begin{tabular}{ll} %s & %s \\end{tabular}" % (w, l), [{"type": "tabular", "content": [[self.w(w, []), c]]}]

    def b_gb(self, nd):
        """blocks in a group or environment that starts with declarations"""
        styles, src = [], []
        for it in nd["d"]:
            if it["kind"] == "font":
                cmd = FN[it["c"] % len(FN)]
                st_, s = FONT[cmd], "\\" + cmd
            elif it["kind"] == "size":
                cmd = SN[it["c"] % len(SN)]
                st_, s = SIZE[cmd], "\\" + cmd
            else:
                opt, name, st_ = doc.COLORS[it["c"] % len(doc.COLORS)]
                s = "\\color%s{%s}" % (opt, name)
            styles.append(st_)
            src.append(s)
        self.decls += 1
        l, c = self.blks(nd["x"])
        if l.lstrip()[:1] in ("{", "[", "") or not c:
            w = self.word()
            l, c = w + " " + l, self.w(w, []) + c
        c = restyle(c, styles)
        body = " ".join(src) + "\n" + l
        e = nd["e"]
        if e == 0:
            return "{%s}" % body, c
        if e == 1:
            return "{\n%s\n\\par}" % body, c
        env = ["center", "minipage", "quote", "myunknownenv"][e - 2]
        src = "\\begin{%s}%s%s\n\\end{%s}" % (env, "{3cm}" if env == "minipage" else "", body, env)
        return src, c if e < 4 else [{"type": "quote", "content": c}] if e == 4 else [{"type": "environment", "name": env, "content": c}]

    def b_defc(self, nd):
        f, v = CDEFS[nd["d"]]
        self.colors[CNAMES[nd["n"]]] = {"format": f, "value": v}
        return "\\definecolor%s{%s}{%s}{%s}" % ([" ", "", "", ""][nd["s"]], CNAMES[nd["n"]], f, v), []


d = doc.fd("d", kind=st.sampled_from(["font", "font", "size", "color"]), c=st.integers(0, 40))
leaf = mix(doc.s_text, doc.s_text, doc.s_text, doc.s_math, doc.s_cite, doc.s_ref, doc.s_cref, doc.s_url, doc.s_esc, doc.s_verb, doc.fd("trap", i=ix(TRAPS)))
NS = len(STN) + len(doc.COLORS) - 1
argleaf = mix(doc.s_text, doc.s_text, doc.s_math, doc.s_cite, doc.s_ref, doc.s_url, doc.s_esc, doc.fd("csp", c=st.integers(0, NS), f=st.integers(0, 3)))


def node(dp, lf=leaf):
    if dp == 0:
        return lf
    sub = st.deferred(lambda: node(dp - 1, argleaf))
    s = doc.fd("s", c=st.integers(0, NS), x=lst(sub, 1, 3))
    return mix(lf, lf, s, s, doc.fd("one", c=st.integers(0, NS)), doc.fd("glued", x=lst(doc.fd("_", c=st.integers(0, NS), sep=st.booleans()), 1, 3)),
                     doc.fd("seq", e=st.integers(0, 3), x=seqx(dp - 1, lf)), doc.fd("seq", e=st.integers(0, 3), x=seqx(dp - 1, lf)), doc.fd("useq", e=st.integers(0, 3), x=seqx(dp - 1)),
                     doc.fd("fn", x=lst(sub, 1, 2)), doc.fd("href", x=lst(sub, 1, 2)))


def seqx(dp, lf=argleaf):
    return st.deferred(lambda: lst(mix(d, node(dp, lf)), 1, 6))


par = doc.fd("par", x=lst(node(3), 1, 4))
b0 = mix(par, par, doc.s_eq, doc.s_list(1), doc.s_tab(), doc.s_img, doc.s_code)


@st.composite
def gb(draw):
    kinds = draw(st.lists(st.sampled_from(["font", "size", "color"]), min_size=1, max_size=3, unique=True))
    return {"k": "gb", "e": draw(st.integers(0, 5)), "d": [{"k": "d", "kind": k, "c": draw(st.integers(0, 30))} for k in kinds], "x": draw(lst(b0, 1, 3))}


hd = mix(doc.s_text, doc.s_math, doc.fd("s", c=st.integers(0, NS), x=lst(doc.s_text, 1, 2)), doc.fd("seq", e=st.just(0), x=lst(mix(d, doc.s_text), 1, 3)), d)
blk = mix(par, par, par, gb(), doc.fd("head", e=st.integers(0, 3), x=st.tuples(doc.s_text, lst(hd, 1, 4)).map(lambda x: [x[0]] + x[1])),
                doc.fd("defc", n=ix(CNAMES), d=ix(CDEFS), s=st.integers(0, 3)), doc.s_eq)


def norepeat(x, src):
    if isinstance(x, list):
        for y in x:
            norepeat(y, src)
    elif isinstance(x, dict):
        s = x.get("styles")
        require(not s or len(set(s)) == len(s), "a style is repeated: %s" % s, src)
        for y in x.values():
            if isinstance(y, (list, dict)):
                norepeat(y, src)


def run(c):
    em = Em()
    src, flat = em.blks(c["doc"])
    want = doc.assemble(flat)
    p = canon.new_parser()
    out = canon.build(canon.parse(src, c["pre"], p))
    canon.require_canon(canon.canon(out), want, src)
    norepeat(out, src)
    got = {k: v for k, v in p.get_colors().items()}
    require_eq(got, em.colors, "colour map differs", src)
    if em.nst + em.decls > 1 or em.colors:
        return sorted(em.seen & {"s", "one", "glued", "seq", "useq", "head", "gb", "defc"})


PROPERTY = Property("C10", [
    Facet("styles", case(doc=lst(blk, 1, 4), pre=pre), run, quick=5000, thorough=100000, shards=8,
          rule="nested style commands, declarations of three kinds in groups, arguments and environments, colours and colour definitions around all inline content and blocks"),
    big(case(doc=lst(blk, 1, 3), pre=pre), run),
], "a case is non-trivial when it applies two styles or defines a colour",
    assumptions=["a declaration reaches to the end of its group or to the next one of its kind"])
