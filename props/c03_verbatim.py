from hypothesis import strategies as st
from mix import mix
import canon
import doc
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

MACROS = "\\newcommand{\\foo}{LEAK}\n\\def\\bar#1{LEAK #1}\n\\newenvironment{myenv}{LEAK}{LEAK}\n\\newcommand{\\verbx}{LEAK}\n\\newif\\ifzz\n\n"
PIECES = [
    "x", "foo bar", "a  b", "\\foo", "\\bar{x}", "\\begin{myenv}", "\\end{myenv}", "%", "% text", "\\%", "{", "}", "}{", "{}", "\\{", "[", "]", "[a]{b}", "$", "$$", "$x$",
    "\\[", "\\]", "\\(", "&", "\\\\", "\\", "\\\\\\", "#1", "##", "~", "^", "_", "``", "''", "`", "'", "\"", "\\'e", "\\\"{o}", "---", "--", "\\ss", "\\item", "\\item[x]", "\\section{s}",
    "\\cite{k}", "\\label{l}", "\\ref{r}", "\\footnote{f}", "\\textbf{b}", "{\\bf b}", "\\begin{itemize}", "\\end{itemize}", "\\begin{figure}", "\\end{figure}", "\\end{theorem}",
    "\\begin{equation}", "\\end{equation}", "\\begin{document}", "\\end{document}", "\\end{quote}", "\\end{center}", "\\iffalse", "\\fi", "\\else", "\\iftrue", "\\ifzz", "\\zztrue", "\\newcommand{\\q}{r}",
    "\\def\\foo{no}", "\\input{nofile}", "\\vspace{1cm}", "\\hline", "\\noindent", "\\url{x%y}", "\\appendix", "\\bibliography{b}", "\\let\\a=\\b", "\\left(", "\\begin{tabular}{c}", "\\caption{c}",
    "<b>", "&amp;", "\t", "é", "中文", "𝔸", "int main() { return 0; }", "for i in range(3): # c", "\"s\\n\"", "a = b / c * 2", "x_1^2", "\\verbx", "\\verb", "\\begin", "\\end", "\\begin{comment}", "\\end{comment}",
    "\\maketitle", "\\title{t}", "\\author{a}", "\\thanks", "\\par", "\\endinput", "\\hspace*{2em}", "\\setlength{\\parindent}{0pt}", "\\color{red}", "\\tag{1}", "\\begin{tikzpicture}", "\\color", "\\frac{1}{2}", "\\ldots", "\\LaTeX",
    "\\documentclass{article}", "\\documentclass[a4paper]{x}", "\\usepackage[a]{b}", "\\makeatletter", "\\newtheorem{q}{r}", "\\begin{verbatim*}", "\\end{verbatim*}", "\\end{lstlisting*}",
]
LINE_ONLY = [p for p in PIECES if p != "\t"]
CHARS = st.text(st.characters(min_codepoint=33, max_codepoint=0x2FF, exclude_characters="\x7f\x85\xa0\xad", exclude_categories=("Cc", "Cs", "Zs", "Zl", "Zp")), min_size=1, max_size=6)
piece = mix(st.integers(0, len(PIECES) - 1), st.integers(0, len(PIECES) - 1), CHARS)
SEPS = ["", " ", "\n", "\n\n", "   ", "\n  ", " "]
text = lst(st.tuples(piece, st.integers(0, len(SEPS) - 1)).map(list), 1, 6)
OPTS = ["", "[language=Python]", "[caption=A caption, label=lst:a]", "[basicstyle=\\ttfamily, frame=single]", "[caption={Sort a[i] {x}}, label=lst:b]", " [language=C]", "[moredelim={**[is][{\\btHL[fill=green]}]{`}{`}}]", "[escapechar=\\!, literate={a}{b}1 {[}{x}1]", "[\n language=C,\n title={x]}\n]"]
DELIMS = "|!+/=@\"?:;"


def build(t, oneline=False):
    s = ""
    for p, sep in t:
        s += PIECES[p] if isinstance(p, int) else p
        x = SEPS[sep]
        s += " " if oneline and x else x
    return s


def lines(s):
    return "\n".join(x.rstrip() for x in s.split("\n")).strip()


class Em(doc.Emitter):
    def b_vcode(self, nd):
        k1, k2 = self.key(), self.key()
        s = build(nd["t"])
        for e in ("verbatim", "lstlisting", "verbatim*"):
            s = s.replace("\\end{%s}" % e, "")
        s = k1 + "\n" + s + ("\n" if nd.get("nl") else " ") + k2
        self.texts.append(s)
        sp = " " if nd.get("sp") else ""
        if nd["e"] != "lstlisting":
            return "\\begin%s{%s}\n%s\n\\end%s{%s}" % (sp, nd["e"], s, sp, nd["e"]), [{"type": "code", "content": lines(s)}]
        o = OPTS[nd.get("o", 0) % len(OPTS)]
        t = {"type": "code", "content": lines(s)}
        if o:
            t["title"] = o.strip()[1:-1].strip()
        return "\\begin%s{lstlisting}%s\n%s\n\\end%s{lstlisting}" % (sp, o, s, sp), [t]

    def i_vverb(self, nd, styles):
        k = self.key()
        d = DELIMS[nd["d"] % len(DELIMS)]
        s = build(nd["t"], True).replace(d, "").replace("\t", "")
        s = s + k if nd.get("first") else k + s
        if nd.get("empty"):
            s = ""
        self.texts.append(s)
        return "\\verb%s%s%s%s" % ("*" if nd.get("star") else "", d, s, d), [self.tok("code", styles, content=s.strip(), display="inline")]

    def __init__(self):
        super().__init__()
        self.texts = []

    def i_t(self, nd, styles):
        return super().i_t(nd, styles)


vcode = doc.fd("vcode", e=st.sampled_from(["verbatim", "lstlisting", "verbatim", "lstlisting", "verbatim*"]), t=text, o=ix(OPTS), nl=st.booleans(), sp=st.sampled_from([False, False, False, True]))
vverb = doc.fd("vverb", t=text, d=st.integers(0, len(DELIMS) - 1), star=st.booleans(), first=st.booleans(), empty=st.integers(0, 15).map(lambda n: n == 7))
inl = st.lists(mix(doc.s_text, doc.s_math, doc.s_cite, doc.s_esc, vverb, vverb, doc.fd("decl", c=st.sampled_from(doc.DECL_NAMES), x=lst(mix(doc.s_text, vverb), 1, 3))), min_size=1, max_size=4)
par = doc.fd("par", x=inl)
leaf = mix(par, vcode, vcode)
lead = {"k": "par", "x": [{"k": "t"}]}
cell = st.lists(mix(doc.s_text, vverb), min_size=0, max_size=2)


def ctx(inner):
    body = lst(inner, 1, 3)
    return mix(
        doc.fd("list", e=st.sampled_from(["itemize", "enumerate", "description"]), items=lst(doc.fd("_", x=body), 1, 3)),
        doc.fd("thm", e=st.sampled_from(["theorem", "proof", "example"]), title=st.none(), x=body),
        doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "myunknownenv", "small"]), x=body),
        doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=doc.opt(lst(doc.s_text, 1, 2)), lab=st.integers(0, 2), x=body),
        doc.fd("tab", rows=st.lists(st.lists(cell, min_size=2, max_size=2), min_size=1, max_size=3)),
    )


blk = mix(leaf, leaf, ctx(leaf), ctx(mix(leaf, ctx(leaf))), doc.s_eq, doc.fd("sec", l=st.integers(1, 2), star=st.booleans(), x=lst(doc.s_text, 1, 1), lab=st.integers(0, 1)))


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"], MACROS if c["macros"] else "")
    if em.texts:
        out = sorted(em.seen) + ["pre" if c["pre"] else "nopre"]
        if any(ch in t for t in em.texts for ch in "\\{}%$"):
            out.append("latexlike")
        return out


# ------------------------------------------------------------------ drawings
DP = ["\\draw (0,0) -- (1,1);", "\\node[draw] (a) at (1,1) {text};", "\\node {$x_1$};", "\\foreach \\x in {1,2} { \\fill (\\x,0) circle (2pt); }", "\\begin{scope}[xshift=3cm]\n\\draw (0,0);\n\\end{scope}",
      "\\put(0,0){\\line(1,0){10}}", "\\path[->] (a) edge (b);", "\\begin{axis}[xlabel={$t$}]\n\\addplot {x^2};\n\\end{axis}", "\\node at (0,0) {\\%};", "\\draw[thick, color=red!50] (0,0) rectangle (1,1);", "\\useasboundingbox (0,0);", "\\pgfpathmoveto{\\pgfpoint{0cm}{0cm}}"]


class Dm(doc.Emitter):
    def b_draw(self, nd):
        s = "\n".join(DP[i] for i in nd["i"]) + "\n" + self.key()
        o = ["", "[scale=0.5]", "[x=1cm, y=2cm]"][nd["o"]] if nd["e"] == "tikzpicture" else "(100,50)(0,0)" if nd["e"] == "picture" and nd["o"] else ""
        return "\\begin{%s}%s\n%s\n\\end{%s}" % (nd["e"], o, s, nd["e"]), [{"type": "diagram", "name": nd["e"], "content": (o + "\n" + s).strip()}]


def run_draw(c):
    em = Dm()
    model(em, c["doc"], c["pre"])
    if "draw" in em.seen:
        return sorted(em.seen)


draw = doc.fd("draw", e=st.sampled_from(["tikzpicture", "picture", "pgfpicture"]), i=lst(st.integers(0, len(DP) - 1), 1, 4), o=st.integers(0, 2))
dblk = mix(draw, draw, doc.s_par, doc.fd("float", e=st.sampled_from(["figure", "wrapfigure"]), cap=doc.opt(doc.s_caption), lab=st.integers(0, 2), x=lst(mix(draw, doc.s_img), 1, 3)),
                 doc.fd("env", e=st.sampled_from(["center", "minipage"]), x=lst(draw, 1, 2)),
                 doc.fd("list", e=st.just("itemize"), items=lst(doc.fd("_", x=lst(mix(draw, doc.s_par), 1, 2)), 1, 2)))

PROPERTY = Property("C03", [
    Facet("texts", case(doc=lst(blk, 1, 4), pre=pre, macros=st.booleans()), run, quick=3600, thorough=80000, shards=8,
          rule="documents with generated verbatim texts in paragraphs, groups, items, theorems, floats, cells; non-trivial: holds verbatim text"),
    Facet("drawings", case(doc=lst(dblk, 1, 4), pre=pre), run_draw, quick=2000, thorough=20000, shards=4,
          rule="documents with drawing environments of generated source"),
    big(case(doc=lst(blk, 1, 3), pre=pre, macros=st.booleans()), run, quick=200),
    big(case(doc=lst(dblk, 1, 3), pre=pre), run_draw, quick=150, name="bigdrawings"),
], "a case is a document holding verbatim texts assembled from LaTeX-like pieces and random characters; non-trivial: at least one such text",
    assumptions=["white space at line ends and around a verbatim text is not judged",
                 "drawings hold no comments, no user macros and no text formatting commands (the preprocessing pass handles these inside of drawings)"])
