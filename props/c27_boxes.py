import copy
from hypothesis import strategies as st
from mix import mix
import doc
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

BOXES = ["\\mbox{%s}", "\\fbox{%s}", "\\hbox{%s}", "\\vbox{%s}", "\\makebox{%s}", "\\makebox[2cm]{%s}", "\\makebox[0.5\\textwidth][c]{%s}", "\\framebox{%s}", "\\framebox[3em]{%s}", "\\framebox[3em][l]{%s}",
         "\\parbox{2cm}{%s}", "\\parbox[t]{.3\\linewidth}{%s}", "\\parbox[c][3cm]{2cm}{%s}", "\\parbox[t][3cm][s]{5cm}{%s}", "\\parbox{\\dimexpr\\linewidth-2\\fboxsep}{%s}",
         "\\raisebox{2pt}{%s}", "\\raisebox{-.5\\height}{%s}", "\\raisebox{1ex}[1pt]{%s}", "\\raisebox{-0.5ex}[0pt][0pt]{%s}",
         "\\colorbox{yellow}{%s}", "\\colorbox[HTML]{A0B1C2}{%s}", "\\colorbox{red!20}{%s}", "\\fcolorbox{red}{blue!5}{%s}", "\\fcolorbox[rgb]{1,0,0}{0,1,0}{%s}", "\\fcolorbox[gray]{0.5}[rgb]{0,0,1}{%s}",
         "\\scalebox{0.8}{%s}", "\\scalebox{-1}[1]{%s}", "\\resizebox{1cm}{!}{%s}", "\\resizebox*{!}{\\height}{%s}", "\\rotatebox{90}{%s}", "\\rotatebox[origin=c]{-45}{%s}",
         "\\hbox to 2cm{%s}", "\\hbox to \\hsize{%s}", "\\pbox{3cm}{%s}", "\\pbox[t]{\\textwidth}{%s}", "\\adjustbox{max width=\\textwidth}{%s}", "\\mbox {%s}", "\\parbox [t] {2cm} {%s}", "\\fcolorbox {red} {blue} {%s}"]
ENVB = ["\\begin{minipage}{3cm}\n%s\n\\end{minipage}", "\\begin{minipage}[t]{.5\\textwidth}\n%s\n\\end{minipage}", "\\begin{minipage}[t][3cm][c]{.5\\textwidth}%s\\end{minipage}", "\\begin{adjustbox}{width=\\textwidth}\n%s\n\\end{adjustbox}",
        "\\begin{center}\n%s\n\\end{center}"]
NAMES = ["\\mybox", "\\boxa", "\\BoxB", "0", "12"]


def restyle(c, styles):
    out = []
    for x in copy.deepcopy(c):
        if isinstance(x, list):
            out.append(["w", x[1], doc.dedupe(list(styles) + x[2])])
        else:
            s = doc.dedupe(list(styles) + x.get("styles", []))
            if s:
                x["styles"] = s
            out.append(x)
    return out


class Em(doc.Emitter):
    nbox = 0
    uses = 0

    def __init__(self):
        super().__init__()
        self.saved = {}
        self.known = set()
        self.dirty = set()  # boxes set in a cell

    def i_box(self, nd, styles):
        self.nbox += 1
        l, c = self.inl(nd["x"], styles)
        return BOXES[nd["i"]] % l, c

    def i_glue(self, nd, styles):
        """a box inside of a word"""
        self.nbox += 1
        a, b, c = self.word(), self.word(), self.word()
        w = a + b + c
        return "%s%s%s" % (a, BOXES[nd["i"]] % b, c), self.w(w, styles)

    def i_use(self, nd, styles):
        n = NAMES[nd["n"]]
        num = n.isdigit()
        w = self.word()
        if n in self.dirty or (n not in self.saved and (num or nd["f"] > 2)):
            return w, self.w(w, styles)
        if num:
            f = ["\\copy%s", "\\box%s", "\\copy %s", "\\unhcopy%s", "\\unhbox%s", "\\box %s"][nd["f"]] + " "
        else:
            f = ["\\usebox{%s}", "\\usebox%s{}", "\\usebox {%s}", "\\copy%s", "\\box%s", "\\unhcopy%s"][nd["f"]] + ("" if nd["f"] < 3 else ["{}", "\\relax "][nd["n"] % 2])
        form = f % n
        c = self.saved.get(n)
        if form.startswith("\\box") or form.startswith("\\unhbox"):
            self.seen.add("box emptied")
            self.saved[n] = None
        if c is None:
            return form + " " + w, self.w(w, styles)
        self.uses += 1
        self.seen.add("numbered box" if num else "saved box")
        return form, restyle(c, styles)

    def i_setuse(self, nd, styles):
        """a box set and shown at once, as in a cell of a table"""
        n = NAMES[nd["n"]]
        a, b = self.word(), self.word()
        l = ["%s", "\\textbf{%s}"][nd["f"] % 2] % a
        if n.isdigit():
            src = ["\\setbox%s=\\hbox{%s}\\box%s ", "\\setbox%s\\hbox{%s}\\copy%s "][nd["f"] // 2 % 2] % (n, l, n)
        else:
            self.known.add(n)
            src = "\\newsavebox{%s}" % n + ["\\sbox{%s}{%s}\\usebox{%s}", "\\savebox{%s}[1cm]{%s}\\usebox{%s}"][nd["f"] // 2 % 2] % (n, l, n)
        self.dirty.add(n)
        self.uses += 1
        return src + " " + b, self.w(a, doc.dedupe(list(styles) + ["bold"] * (nd["f"] % 2))) + self.w(b, styles)

    def b_save(self, nd):
        n = NAMES[nd["n"]]
        head = ""
        l, c = self.inl(nd["x"])
        self.dirty.discard(n)
        self.saved[n] = c
        if n.isdigit():
            return ["\\setbox%s=\\hbox{%s}", "\\setbox%s\\hbox{%s}", "\\setbox %s = \\vbox{%s}", "\\setbox%s=\\hbox to 3cm{%s}"][nd["f"] % 4] % (n, l), []
        if n not in self.known:
            head = ["\\newsavebox{%s}", "\\newsavebox%s", "\\newbox%s"][nd["f"] % 3] % n + "\n"
            self.known.add(n)
        cmd = ["\\sbox{%s}{%s}", "\\savebox{%s}{%s}", "\\savebox{%s}[2cm]{%s}", "\\savebox{%s}[0.5\\textwidth][l]{%s}", "\\sbox%s{%s}", "\\savebox%s{%s}", "\\setbox%s=\\hbox{%s}", "\\setbox%s\\hbox{%s}",
               "\\begin{lrbox}{%s}%s\\end{lrbox}", "\\begin{lrbox}{%s}\n%s\n\\end{lrbox}"][nd["f"]]
        return head + cmd % (n, l), []

    def b_bbox(self, nd):
        self.nbox += 1
        l, c = self.blks(nd["x"])
        o = BOXES + ENVB
        return o[nd["i"]] % l, c


wr = ("sty", "col", "decl", "grp", "fn", "href")
inner = doc.s_inl(1, 1, 3, wraps=wr, verb=False)


def box(d):
    sub = st.lists(mix(doc.s_text, doc.s_text, doc.s_math, doc.s_esc, doc.s_cite, doc.s_ref, *([st.deferred(lambda: box(d - 1))] * 2 if d else []),
                             doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=lst(mix(doc.s_text, doc.s_math, *([st.deferred(lambda: box(d - 1))] if d else [])), 1, 2))), min_size=1, max_size=3)
    return doc.fd("box", i=ix(BOXES), x=mix(sub, inner))


use = doc.fd("use", n=st.integers(0, 4), f=st.integers(0, 5))
setuse = doc.fd("setuse", n=st.integers(0, 4), f=st.integers(0, 3))
glue = doc.fd("glue", i=st.sampled_from([0, 1, 15, 21, 25]))
wrapped = mix(doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=lst(mix(doc.s_text, box(1), use), 1, 3)),
                    doc.fd("decl", c=st.sampled_from(doc.DECL_NAMES), x=lst(mix(doc.s_text, box(1), use), 1, 3)),
                    doc.fd("fn", x=lst(mix(doc.s_text, box(1), use), 1, 3)))
par = doc.fd("par", x=lst(mix(doc.s_inline(1), box(2), box(2), use, use, wrapped, glue), 1, 4))
save = doc.fd("save", n=st.integers(0, 4), f=st.integers(0, 9), x=doc.s_inl(1, 1, 2, wraps=("sty", "col", "decl"), verb=False))
FULL = [i for i, b in enumerate(BOXES) if "parbox" in b or "pbox" in b]
WIDE = [i for i, b in enumerate(BOXES) if any(x in b for x in ("resizebox", "scalebox", "fbox", "colorbox", "makebox", "raisebox", "adjustbox", "rotatebox"))]
block = mix(par, doc.s_eq, doc.s_list(1), doc.s_tab(), doc.s_img)
nb = len(BOXES)


def bbox(d):
    inn = mix(block, block, *([st.deferred(lambda: bbox(d - 1))] * 2 if d else []))
    mini = doc.fd("bbox", i=st.integers(nb, nb + 3), x=lst(inn, 1, 2))
    return mix(doc.fd("bbox", i=mix(st.sampled_from(FULL), st.integers(nb, nb + len(ENVB) - 1)), x=lst(inn, 1, 3)),
                     doc.fd("bbox", i=st.sampled_from(WIDE), x=lst(mix(mini, doc.s_tab(), doc.s_img), 1, 1)))


ctx = mix(
    doc.fd("list", e=st.sampled_from(["itemize", "description"]), items=lst(doc.fd("_", title=doc.opt(lst(mix(doc.s_word, doc.fd("box", i=st.sampled_from([0, 1, 21]), x=lst(doc.s_word, 1, 1))), 1, 2)), x=lst(mix(par, bbox(0), save), 1, 2)), 1, 3)),
    doc.fd("thm", e=st.sampled_from(["lemma", "proof"]), title=st.none(), lab=st.booleans(), x=st.tuples(par, mix(par, bbox(0))).map(list)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=doc.opt(lst(mix(doc.s_text, box(1)), 1, 3)), lab=st.integers(0, 2), x=lst(bbox(1), 1, 2)),
    doc.fd("tab", rows=st.lists(st.lists(lst(mix(doc.s_text, box(1), use, setuse), 0, 2), min_size=2, max_size=2), min_size=1, max_size=3)),
    doc.fd("sec", l=st.integers(1, 2), star=st.booleans(), x=lst(mix(doc.s_text, box(0)), 1, 3), lab=st.just(0)))
blk = mix(par, par, save, save, bbox(1), ctx)


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    if em.nbox or em.uses:
        return sorted(em.seen & {"box", "glue", "bbox", "save", "use", "setuse", "numbered box", "saved box", "box emptied"}) + (["boxes"] if em.nbox else []) + (["saved box shown"] if em.uses else [])


PROPERTY = Property("C27", [
    Facet("boxes", case(doc=lst(blk, 1, 6), pre=pre), run, quick=1600, thorough=40000, shards=8,
          rule="documents with boxes of all kinds and options around text, formulas and blocks, and saved boxes set and shown in any order"),
    big(case(doc=lst(blk, 1, 4), pre=pre), run),
], "a case is non-trivial when it holds a box, or shows a saved box",
    assumptions=["a saved box not set yet shows nothing, nor does one that \\box has shown", "what a box holds after a cell of a table has set it is not judged"])
