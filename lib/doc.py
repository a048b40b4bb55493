"""A model of LaTeX documents: JSON-able syntax trees that are rendered to LaTeX and,
independently, to the output the library promises for them (in the canonical form of
canon.py).

A tree never holds the words of the document: they are drawn from a counter while it is
rendered, so every word is unique and an output that loses, repeats, reorders or
mis-places one cannot match.  `Emitter` walks the tree once and produces both sides.
"""
import re

from hypothesis import strategies as st
from mix import mix

from canon import words, ws, dedupe, trim_rows

# ------------------------------------------------------------------ vocabulary
STYLE = {  # command -> style it stands for (README: text formatting is preserved)
    "textbf": "bold", "textit": "italic", "textsl": "italic", "emph": "italic", "textsc": "small-caps",
    "textsf": "sans-serif", "texttt": "monospace", "textrm": "normal",
    "texttiny": "xx-small", "textscriptsize": "x-small", "textfootnotesize": "small", "textsmall": "small",
    "textlarge": "large", "texthuge": "xx-large", "textsuperscript": "superscript",
    "textsubscript": "subscript", "underline": "underline", "textoverline": "overline",
    "textstrikeout": "line-through", "sout": "line-through", "uppercase": "uppercase", "lowercase": "lowercase",
}
DECL = {
    "bf": "bold", "bfseries": "bold", "it": "italic", "itshape": "italic", "sl": "italic", "slshape": "italic",
    "em": "italic", "tt": "monospace", "ttfamily": "monospace", "sc": "small-caps", "scshape": "small-caps",
    "sf": "sans-serif", "sffamily": "sans-serif", "rm": "normal", "rmfamily": "normal", "upshape": "normal",
    "mdseries": "normal", "normalfont": "normal", "tiny": "xx-small", "scriptsize": "x-small",
    "footnotesize": "small", "small": "small", "large": "large", "Large": "large",
    "LARGE": "large", "huge": "xx-large", "Huge": "xx-large",
}
COLORS = [("", "red", "color=red"), ("", "blue!30", "color=blue!30"), ("[HTML]", "1A2B3C", "color={HTML:1A2B3C}"),
          ("[rgb]", "0.1,0.2,0.9", "color={rgb:0.1,0.2,0.9}"), ("", "mycolor", "color=mycolor"), ("", "MyRed", "color=MyRed"), ("", "red!50!Black", "color=red!50!Black"),
          ("", "dark-Green", "color=dark-Green"), ("[HTML]", "FFaa00", "color={HTML:FFaa00}"), ("", "Gold3", "color=Gold3")]

CITES = ["cite", "citep", "citet", "citealt", "citealp", "citeauthor", "citeyear"]
REFS = ["ref", "eqref", "autoref", "pageref"]
EQ_NUM = ["equation", "align", "gather", "multline", "eqnarray", "flalign", "alignat", "dmath"]
THEOREMS = ["theorem", "lemma", "proposition", "corollary", "definition", "conjecture", "axiom", "example",
            "exercise", "remark", "observation"]
UNNUM = ["proof", "notation", "solution", "note", "claim"]
ESCAPED = [("\\%", "%"), ("\\&", "&"), ("\\#", "#"), ("\\_", "_"), ("\\$", "$"), ("\\{", "{"), ("\\}", "}")]
ODD_WORDS = ["naïve", "Größe", "Łódź", "中文", "данные", "3.14", "2024", "can't", "well-known", "A.B", "x/y", "e.g."]
PUNCT = ["", "/", "-", ",", ".", ";", "!", "?", ":"]

ATOMS = [
    "x", "y_{1}", "\\alpha", "\\beta_{i,j}", "\\frac{a}{b}", "\\sqrt{z}", "\\sum_{i=1}^{n} a_i", "\\int_0^1 f(t) dt",
    "\\mathbf{v}", "\\mathcal{L}", "\\mathbb{R}^{d}", "\\left( u \\right)", "\\left[ 0, 1 \\right)", "\\{ s \\}",
    "a < b", "c > d", "p \\le q", "\\nabla f", "\\hat{\\theta}", "\\text{if } k", "\\mathrm{rank}(A)", "\\|w\\|_2^2",
    "\\begin{pmatrix} 1 & 2 \\\\ 3 & 4 \\end{pmatrix}", "\\begin{cases} 0 & r \\\\ 1 & s \\end{cases}",
    "\\underbrace{g + h}_{m}", "2^{2^{n}}", "\\lim_{t \\to 0} t", "f'(x)", "\\mathbb{E}[X \\mid Y]", "\\langle a, b \\rangle",
    "10\\%", "\\overline{z}", "x \\in \\{0, 1\\}", "\\log \\exp(w)", "\\tilde{O}(n)", "a \\neq b", "\\{1\\}",
    "n!", "\\prod_{k} p_k", "\\phi", "A^{\\top}", "\\partial_t u",
]


def _letters(n):
    s = ""
    while True:
        s = chr(97 + n % 26) + s
        n = n // 26
        if n == 0:
            return s


class Emitter:
    def __init__(self):
        self.n = 0
        self.nl = self.labs = 0
        self.in_opt = False
        self.seen = set()  # node kinds, for the non-triviality rules
        self.words = []

    # -------------------------------------------------------------- leaves
    def word(self):
        w = "w" + _letters(self.n) + "q"
        self.n += 1
        self.words.append(w)
        return w

    def label(self, prefix="lb"):
        self.nl += 1
        self.labs += 1
        # a label defined twice stays with each element that has it
        n = self.nl if self.labs % 4 else self.last_lab
        self.last_lab = n
        return "%s:%s%d" % (prefix, _letters(n % 26), n)

    def key(self):
        self.nl += 1
        return "key%d%s" % (self.nl, _letters(self.nl))

    def text(self, n, f=0):
        """n words plus decoration chosen by f -> LaTeX text holding no markup"""
        if f in (36, 37, 38) and n < 3:
            return "x7A"[f - 36]
        ws_ = [self.word() for _ in range(max(1, n))]
        if f % 3 == 1 and f // 3 < len(ODD_WORDS):
            ws_.insert(f % len(ws_), ODD_WORDS[f // 3])
        return " ".join(ws_) + PUNCT[f % len(PUNCT)]

    # -------------------------------------------------------------- inline
    def opt(self, nodes):
        """content of an optional argument"""
        self.in_opt, old = True, self.in_opt
        x, c = self.inl(nodes)
        self.in_opt = old
        if len(x) % 5 == 2:
            # brackets are hidden by braces
            a = self.word() + "]"
            return "[{%s [%s}]" % (x, a), c + self.w("[" + a, [])
        return "[%s]" % x, c

    def inl(self, nodes, styles=()):
        parts, can = [], []
        for nd in nodes:
            l, c = self.inline(nd, list(styles))
            parts.append(l)
            can += c
        return " ".join(parts), can

    def inline(self, nd, styles):
        k = nd["k"]
        self.seen.add(k)
        return getattr(self, "i_" + k)(nd, styles)

    def tok(self, ty, styles, **kw):
        d = {"type": ty}
        if styles:
            d["styles"] = dedupe(styles)
        d.update({a: b for a, b in kw.items() if b is not None})
        return d

    def w(self, s, styles):
        return [["w", x, dedupe(styles)] for x in words(s)]

    def i_t(self, nd, styles):
        f = nd.get("f", 0)
        s = self.text(nd.get("n", 1), f)
        if f in (19, 23, 26, 29):
            # braces within a word
            self.seen.add("braces in a word")
            a = self.word()
            b = ["%s{%s}%s" % (a[0], a[1], a[2:]), "{%s}%s" % (a[0], a[1:]), "({%s})" % a, "5{,}%s" % a][f % 4]
            return s + " " + b, self.w(s + " " + re.sub("[{}]", "", b), styles)
        return s, self.w(s, styles)

    def i_esc(self, nd, styles):
        l, c = ESCAPED[nd["i"] % len(ESCAPED)]
        a = self.word()
        return a + " " + l, self.w(a + " " + c, styles)

    def i_sty(self, nd, styles):
        l, c = self.inl(nd["x"], styles + [STYLE[nd["c"]]])
        return "\\%s{%s}" % (nd["c"], l), c

    def i_decl(self, nd, styles):
        l, c = self.inl(nd["x"], styles + [DECL[nd["c"]]])
        if re.sub(r"(?<!\\)%.*\n", "", l).lstrip().startswith("{"):  # \\bf {x} is taken as \\bf{x}
            w = self.word()
            l, c = w + " " + l, self.w(w, styles + [DECL[nd["c"]]]) + c
        return "{\\%s %s}" % (nd["c"], l), c

    def i_col(self, nd, styles):
        opt, name, s = COLORS[nd["i"] % len(COLORS)]
        l, c = self.inl(nd["x"], styles + [s])
        if nd.get("decl"):
            return "{\\color%s{%s} %s}" % (opt, name, l), c
        return "\\textcolor%s{%s}{%s}" % (opt, name, l), c

    def i_grp(self, nd, styles):
        l, c = self.inl(nd["x"], styles)
        return "{%s}" % l, c

    def math(self, atoms, seps=" "):
        out = []
        for a in atoms:
            a = ATOMS[a % len(ATOMS)]
            # a closing bracket would end an optional argument
            out.append("z" if self.in_opt and ("[" in a or "]" in a) else a)
        return " + ".join(out)

    def i_math(self, nd, styles):
        m = self.math(nd["a"])
        l = "\\(%s\\)" % m if nd.get("paren") else "$%s$" % m
        return l, [self.tok("equation", styles, content=ws(m))]

    def i_cite(self, nd, styles):
        keys = [self.key() for _ in range(max(1, nd.get("n", 1)))]
        opt, title = "", None
        if nd.get("o") == 1:
            t = self.text(1)
            opt, title = "[%s]" % t, t
        elif nd.get("o") == 2:
            a, b = self.text(1), self.text(1)
            opt, title = "[%s][%s]" % (a, b), a + ", " + b
        t = self.tok("citation", styles, content=keys)
        if title:
            t["title"] = self.w(title, [])
        return "\\%s%s{%s}" % (nd["c"], opt, (", " if nd.get("sp") else ",").join(keys)), [t]

    def i_ref(self, nd, styles):
        l = self.label()
        return "\\%s{%s}" % (nd["c"], l), [self.tok("ref", styles, content=[l])]

    def i_cref(self, nd, styles):
        ls = [self.label() for _ in range(max(1, nd.get("n", 1)))]
        return "\\%s{%s}" % (nd.get("c", "cref"), ", ".join(ls)), [self.tok("ref", styles, content=ls)]

    def i_hyperref(self, nd, styles):
        l = self.label()
        x, c = self.inl(nd["x"])
        return "\\hyperref[%s]{%s}" % (l, x), [self.tok("ref", styles, content=[l], title=c)]

    def i_url(self, nd, styles):
        u = "https://ex.org/%s%s" % (self.key(), ["", "?a=b", "/p_q", "/~u", "/a%20b", "#s", "?a=1&b=2"][nd.get("f", 0) % 7])
        return "\\url{%s}" % u, [self.tok("url", styles, content=u)]

    def i_href(self, nd, styles):
        u = "https://ex.org/%s" % self.key()
        x, c = self.inl(nd["x"])
        return "\\href{%s}{%s}" % (u, x), [self.tok("url", styles, content=u, title=c)]

    def i_fn(self, nd, styles):
        x, c = self.inl(nd["x"])
        return "\\footnote{%s}" % x, [self.tok("footnote", styles, content=c)]

    def i_verb(self, nd, styles):
        s = ["a_b", "\\foo{x}", "$x$", "100%", "a  b", "x & y", "{", "}", "\\begin{x}", "#1", "^~"][nd["i"] % 11] + self.key()
        d = "|!+@"[nd.get("d", 0) % 4]
        return "\\verb%s%s%s" % (d, s, d), [self.tok("code", styles, content=s.strip(), display="inline")]

    def i_img(self, nd, styles):
        p = "img/%s.png" % self.key()
        o = ["", "[width=\\textwidth]", "[width=0.5\\linewidth,page=3]", "[scale=.5, angle=90]"][nd.get("o", 0) % 4]
        return "\\includegraphics%s{%s}" % (o, p), [self.tok("includegraphics", styles, content=p, page=3 if "page" in o else None)]

    # -------------------------------------------------------------- blocks
    def blks(self, nodes):
        parts, can = [], []
        for nd in nodes:
            l, c = self.block(nd)
            parts.append(l)
            can += c
        return "\n\n".join(parts), can

    def block(self, nd):
        k = nd["k"]
        self.seen.add(k)
        return getattr(self, "b_" + k)(nd)

    def b_par(self, nd):
        return self.inl(nd["x"])

    def b_sec(self, nd):
        """marker item: nested and numbered by assemble()"""
        name = {0: "part", 1: "section", 2: "subsection", 3: "subsubsection", 4: "subsubsubsection"}[nd["l"]]
        if nd.get("chapter") and nd["l"] == 1:
            name = "chapter"
        x, c = self.inl(nd["x"])
        t = {"type": "section", "level": nd["l"], "title": c, "content": [], "_num": not nd.get("star")}
        lab = ""
        if nd.get("lab"):
            l = self.label("sec")
            t["labels"] = [l]
            lab = ("\n" if nd["lab"] == 2 else " ") + "\\label{%s}" % l
        return "\\%s%s{%s}%s" % (name, "*" if nd.get("star") else "", x, lab), [t]

    def b_parag(self, nd):
        x, c = self.inl(nd["x"])
        return "\\%sparagraph{%s}" % ("sub" if nd["l"] == 2 else "", x), [
            {"type": "paragraph", "level": nd["l"], "title": c, "content": []}]

    def b_eq(self, nd):
        env = nd["e"]
        rows, labels = [], []
        for r in nd["rows"]:
            m = self.math(r["a"])
            if env in ("align", "flalign", "alignat", "aligned"):
                m = m + " & = " + self.math(r["a"][:1])
            elif env == "eqnarray":
                m = m + " & = & " + self.math(r["a"][:1])
            lab = ""
            if r.get("lab"):
                lb = self.label("eq")
                labels.append(lb)
                lab = "\\label{%s}" % lb
            rows.append((m, lab))
        src = " \\\\\n".join(m + (" " + lab if lab else "") for m, lab in rows)
        want = ws(" \\\\ ".join(m for m, lab in rows))
        t = {"type": "equation", "content": want, "display": "block"}
        if labels:
            t["labels"] = labels
        if env == "$$":
            return "$$ %s $$" % src, [t]
        if env == "\\[":
            return "\\[ %s \\]" % src, [t]
        star = "*" if nd.get("star") else ""
        if "align" in env or env == "eqnarray":
            t["align"] = True
        if not star:
            t["_num"] = True
        arg = "{2}" if env == "alignat" else ""
        return "\\begin{%s%s}%s\n%s\n\\end{%s%s}" % (env, star, arg, src, env, star), [t]

    def b_list(self, nd):
        items, can = [], []
        for it in nd["items"]:
            t = {"type": "item"}
            opt = ""
            if it.get("title"):
                opt, t["title"] = self.opt(it["title"])
            l, c = self.blks(it["x"])
            t["content"] = c
            items.append("\\item%s %s" % (opt, l))
            can.append(t)
        return "\\begin{%s}\n%s\n\\end{%s}" % (nd["e"], "\n".join(items), nd["e"]), [
            {"type": "list", "name": nd["e"], "content": can}]

    def lab(self, prefix):
        l = self.label(prefix)
        return "\\label{%s}" % l, l

    def b_float(self, nd):
        """figure / table / wrapfigure / subfigure ..."""
        env, star = nd["e"], "*" if nd.get("star") else ""
        ty = {"figure": "figure", "table": "table", "wrapfigure": "figure", "subfigure": "subfigure"}[env]
        t = {"type": ty, "content": []}
        parts = []
        if nd.get("center"):
            parts.append("\\centering")
        cap = []
        if nd.get("cap"):
            x, c = self.inl(nd["cap"])
            ct = {"type": "caption", "content": c}
            src = "\\caption{%s}" % x
            if nd.get("lab"):
                ls, l = self.lab("fl")
                src += ("\n" if nd["lab"] == 2 else "") + ls
                ct["labels"] = [l]
            cap = [(src, ct)]
        body = []
        for b in nd["x"]:
            l, c = self.block(b)
            body.append((l, c))
        seq = (cap + body) if nd.get("capfirst") else (body + cap)
        for l, c in seq:
            parts.append(l)
            t["content"] += c if isinstance(c, list) else [c]
        if ty in ("figure", "table"):
            t["_num"] = True
        arg = {"figure": ["", "[h]", "[!htbp]"], "table": ["", "[t]", "[h!]"], "wrapfigure": ["{r}{5cm}", "[3]{l}{.4\\textwidth}", "[12]{R}[34pt]{3cm}", "{o}[2em] {3cm}"],
               "subfigure": ["{.5\\textwidth}", "[b]{0.4\\linewidth}", "[t][3cm]{2cm}", "[t][3cm][s]{2cm}"]}[env]
        arg = arg[nd.get("o", 0) % len(arg)]
        if not t["content"]:
            t["content"] = []
        return "\\begin{%s%s}%s\n%s\n\\end{%s%s}" % (env, star, arg, "\n".join(parts), env, star), [t]

    def b_img(self, nd):
        return self.i_img(nd, [])

    def b_tab(self, nd):
        """plain grid: rows of lists of inline nodes (empty list: empty cell)"""
        rows, can = [], []
        if not any(map(any, nd["rows"])):
            nd["rows"][0][0] = [{"k": "t"}]
        for r in nd["rows"]:
            ls, cs = [], []
            for cell in r:
                l, c = self.inl(cell)
                ls.append(l)
                cs.append(c)
            rows.append(" & ".join(ls))
            can.append(cs)
        ncol = max(len(r) for r in nd["rows"])
        can = trim_rows([r for r in can if ncol > 1 or r[0]])  # a row of nothing at all is no row
        spec = ["l", "c|", "r", "p{2cm}", "@{}l", "|c|"][nd.get("f", 0) % 6] + "c" * (ncol - 1)
        hl = ["", "\\hline\n", "\\midrule\n", "\\cline{1-2}\n"][nd.get("h", 0) % 4]
        src = (" \\\\\n" + hl).join(rows)
        if nd.get("end"):
            src = hl + src + " \\\\\n" + hl
        env = nd.get("e", "tabular")
        arg = "{\\textwidth}" if env in ("tabular*", "tabularx") else ""
        return "\\begin{%s}%s{%s}\n%s\n\\end{%s}" % (env, arg, spec, src, env), [{"type": "tabular", "content": can}]

    def b_thm(self, nd):
        env, star = nd["e"], "*" if nd.get("star") else ""
        t = {"type": "math_env", "name": env}
        opt = ""
        if nd.get("title"):
            opt, t["title"] = self.opt(nd["title"])
        lab = ""
        if nd.get("lab"):
            lab, l = self.lab("th")
            t["labels"] = [l]
        if env in THEOREMS and not star:
            t["_num"] = True
        l, c = self.blks(nd["x"])
        t["content"] = c
        return "\\begin{%s%s}%s%s\n%s\n\\end{%s%s}" % (env, star, opt, lab, l, env, star), [t]

    def b_env(self, nd):
        """quote / abstract / layout groups / unknown environments"""
        env = nd["e"]
        l, c = self.blks(nd["x"])
        arg = {"minipage": "{.5\\textwidth}", "multicols": "{2}", "adjustbox": "{width=1cm}", "adjustwidth": "{1cm}{-2em}", "spacing": "{1.2}", "CJK": "{UTF8}{gbsn}"}.get(env.rstrip("*"), "")
        src = "\\begin{%s}%s\n%s\n\\end{%s}" % (env, arg, l, env)
        env = env.rstrip("*")
        if env in ("spacing", "center", "flushleft", "flushright", "minipage", "adjustbox", "small", "subequations"):
            return src, c
        if env in ("quote", "abstract"):
            return src, [{"type": env, "content": c}]
        return src, [{"type": "environment", "name": env, "content": c}]

    CODE = ["def f(x):\n    return x % 2  # odd", "\\section{no}\n$x$ & y", "a   b\n\n   c", "% not a comment\nint main() {}",
            "\\begin{itemize}\n\\item a\n\\end{itemize}", "\\newcommand{\\a}{b} \\a", "for (i=0; i<n; i++) { a[i]++; }", "``q'' `r' --- ~",
            "x{\n  y\n}", "\\verb|z| \\\\ \\& $$", "}{", "{\\bf a}", "\\cite{a} \\label{b}", "\ttab\tsep", "<b>&amp;</b>"]

    def b_code(self, nd):
        s = self.key() + " " + "\n".join(self.CODE[i % len(self.CODE)] for i in nd["i"]) + " " + self.key()
        if nd["e"] == "lstlisting":
            o = ["", "[language=Python]", "[caption=foo, numbers=left]"][nd.get("o", 0) % 3]
            t = {"type": "code", "content": s.strip()}
            if o:
                t["title"] = o[1:-1]
            return "\\begin{lstlisting}%s\n%s\n\\end{lstlisting}" % (o, s), [t]
        return "\\begin{verbatim}\n%s\n\\end{verbatim}" % s, [{"type": "code", "content": s.strip()}]

    def b_diag(self, nd):
        s = "\n\\draw (0,0) -- (%d,1);\n\\node[draw] (a) at (1,1) {%s};\n" % (nd.get("n", 1), self.key())
        return "\\begin{%s}%s\\end{%s}" % (nd["e"], s, nd["e"]), [{"type": "diagram", "name": nd["e"], "content": s.strip()}]

    def b_alg(self, nd):
        ls = ["\\%s %s" % (["STATE", "State", "REQUIRE", "For", "IF"][i % 5], self.word()) for i in nd["i"]]
        s = "\n" + "\n".join(ls) + "\n"
        t = {"type": "algorithm", "name": "algorithm", "content": [], "_num": True}
        cap = ""
        if nd.get("cap"):
            x, c = self.inl(nd["cap"])
            ct = {"type": "caption", "content": c}
            cap = "\\caption{%s}" % x
            if nd.get("lab"):
                ls_, l = self.lab("al")
                cap += ls_
                ct["labels"] = [l]
            cap += "\n"
            t["content"].append(ct)
        t["content"].append({"type": "algorithmic", "content": s.strip()})
        return "\\begin{algorithm}\n%s\\begin{algorithmic}%s\\end{algorithmic}\n\\end{algorithm}" % (cap, s), [t]

    def b_app(self, nd):
        return "\\appendix", [{"type": "appendix", "content": []}]


# ---------------------------------------------------------------- assembling
def children(t):
    c = t.get("content")
    if t["type"] == "tabular":
        return [x for row in c for cell in row for x in (cell["content"] if isinstance(cell, dict) else cell)]
    return c if isinstance(c, list) else []


def assemble(flat):
    """Nest a flat list with section markers and number everything, as documented:
    sections by their level, appendix sections by letters, one running counter each for
    equations, figures, tables and algorithms, theorem-like blocks per section."""
    cnt = {"equation": 0, "figure": 0, "table": 0, "algorithm": 0}
    sec = [0] * 12
    thm = [0]
    state = {"app": False}

    def number(t):
        if not isinstance(t, dict):
            return
        if t.pop("_num", False):
            ty = t["type"]
            if ty in cnt:
                cnt[ty] += 1
                t["numbering"] = str(cnt[ty])
            elif ty == "math_env":
                thm[0] += 1
                t["numbering"] = "%d.%d" % (sec[1], thm[0])
        for x in children(t):
            number(x)

    def depth(t, d):
        if isinstance(t, dict):
            if t["type"] == "list":
                d += 1
                t["depth"] = d
            for x in children(t):
                depth(x, d)

    out = []
    root = out
    stack = []  # open sections: (level, content)
    para = []

    def target():
        return (para or stack)[-1][1] if (para or stack) else root

    for t in flat:
        if isinstance(t, list):
            target().append(t)
            continue
        ty = t["type"]
        if ty == "appendix":
            out.append(t)
            root = t["content"]
            stack, para = [], []
            sec[1:] = [0] * 11
            state["app"] = True
        elif ty == "section":
            para = []
            l = t["level"]
            if t.pop("_num"):
                if l == 0:
                    sec[0] += 1
                    t["numbering"] = str(sec[0])
                else:
                    sec[l] += 1
                    sec[l + 1:] = [0] * (11 - l)
                    first = chr(64 + sec[1]) if state["app"] else str(sec[1])
                    t["numbering"] = ".".join([first] + [str(sec[i]) for i in range(2, l + 1)])
            if l == 1:
                thm[0] = 0
            while stack and stack[-1][0] >= l:
                stack.pop()
            target().append(t)
            stack.append((l, t["content"]))
        elif ty == "paragraph":
            while para and para[-1][0] >= t["level"]:
                para.pop()
            target().append(t)
            para.append((t["level"], t["content"]))
        else:
            number(t)
            depth(t, 0)
            target().append(t)
    return out


# ---------------------------------------------------------------- strategies
def fd(k, **kw):
    return st.fixed_dictionaries({"k": st.just(k), **kw})


def opt(s):
    return mix(st.none(), s)


small = st.integers(0, 40)
s_text = fd("t", n=st.integers(1, 4), f=small)
s_word = fd("t", n=st.just(1), f=st.just(0))
s_math = fd("math", a=st.lists(small, min_size=1, max_size=3), paren=st.booleans())
s_cite = fd("cite", c=st.sampled_from(CITES), n=st.integers(1, 3), o=st.integers(0, 2), sp=st.booleans())
s_ref = fd("ref", c=st.sampled_from(REFS))
s_cref = fd("cref", n=st.integers(1, 3), c=st.sampled_from(["cref", "Cref"]))
s_url = fd("url", f=st.integers(0, 6))
s_esc = fd("esc", i=st.integers(0, 6))
s_verb = fd("verb", i=st.integers(0, 10), d=st.integers(0, 3))
s_img = fd("img", o=st.integers(0, 3))

STYLE_NAMES = sorted(STYLE)
DECL_NAMES = sorted(DECL)


def s_inline(depth=2, leaves=None, wraps=("sty", "decl", "col", "grp", "fn", "href", "hyperref"), verb=True):
    """one inline node"""
    lv = leaves or [s_text, s_text, s_text, s_math, s_cite, s_ref, s_cref, s_url, s_esc] + ([s_verb] if verb else [])
    leaf = mix(*lv)
    if depth == 0:
        return leaf

    def sub(d=depth - 1, w=wraps, v=False):
        return st.lists(s_inline(d, leaves, w, v), min_size=1, max_size=3)
    nofn = tuple(x for x in wraps if x not in ("fn", "href", "hyperref"))
    out = [leaf, leaf, leaf]
    if "sty" in wraps:
        out.append(fd("sty", c=st.sampled_from(STYLE_NAMES), x=sub()))
    if "decl" in wraps:
        out.append(fd("decl", c=st.sampled_from(DECL_NAMES), x=sub()))
    if "col" in wraps:
        out.append(fd("col", i=st.integers(0, 4), decl=st.booleans(), x=sub()))
    if "grp" in wraps:
        out.append(fd("grp", x=sub()))
    if "fn" in wraps:
        out.append(fd("fn", x=sub(w=nofn, v=False)))
    if "href" in wraps:
        out.append(fd("href", x=sub(w=nofn, v=False)))
    if "hyperref" in wraps:
        out.append(fd("hyperref", x=sub(w=nofn, v=False)))
    return mix(*out)


def s_inl(depth=1, mn=1, mx=4, **kw):
    return st.lists(s_inline(depth, **kw), min_size=mn, max_size=mx)


# inline content of titles, captions, items' labels
s_title = st.lists(mix(s_text, s_text, s_math, fd("sty", c=st.sampled_from(STYLE_NAMES), x=st.lists(mix(s_text, s_math), min_size=1, max_size=2)), s_cite, s_ref),
                   min_size=1, max_size=3)
s_itemtitle = st.lists(mix(s_word, fd("t", n=st.just(1), f=st.sampled_from([36, 37, 38])), s_math, fd("sty", c=st.sampled_from(["textbf", "emph"]), x=st.lists(s_word, min_size=1, max_size=1))), min_size=1, max_size=2)
s_caption = st.lists(mix(s_text, s_text, s_math, s_cite, s_ref, fd("sty", c=st.sampled_from(STYLE_NAMES), x=st.lists(mix(s_text, s_math), min_size=1, max_size=2))),
                     min_size=1, max_size=4)

s_par = fd("par", x=s_inl(2))
s_row = fd("_", a=st.lists(small, min_size=1, max_size=3), lab=st.booleans())
s_eq = mix(
    fd("eq", e=st.sampled_from(["equation", "dmath", "multline"]), star=st.booleans(), rows=st.lists(s_row, min_size=1, max_size=1)),
    fd("eq", e=st.sampled_from(["align", "gather", "eqnarray", "flalign", "alignat"]), star=st.booleans(), rows=st.lists(s_row, min_size=1, max_size=3)),
    fd("eq", e=st.sampled_from(["$$", "\\["]), rows=st.lists(s_row, min_size=1, max_size=1)),
)
s_cell = mix(st.just([]), st.lists(mix(s_text, s_text, s_math, s_cite, fd("sty", c=st.sampled_from(["textbf", "emph"]), x=st.lists(s_text, min_size=1, max_size=1))), min_size=1, max_size=2))


@st.composite
def s_tab(draw, envs=("tabular", "tabular*", "tabularx"), cell=s_cell):
    n = draw(st.integers(1, 4))
    rows = draw(st.lists(st.lists(cell, min_size=n, max_size=n), min_size=1, max_size=4))
    return {"k": "tab", "rows": rows, "f": draw(st.integers(0, 5)), "h": draw(st.integers(0, 3)),
            "end": draw(st.booleans()), "e": draw(st.sampled_from(envs))}


s_diag = fd("diag", e=st.sampled_from(["tikzpicture", "picture", "pgfpicture"]), n=st.integers(1, 9))
s_bimg = s_img
s_float = fd("float", e=st.sampled_from(["figure", "table", "wrapfigure"]), star=st.booleans(), center=st.booleans(),
             cap=opt(s_caption), lab=st.integers(0, 2), capfirst=st.booleans(), o=st.integers(0, 11),
             x=st.lists(mix(s_bimg, s_tab(), s_diag, fd("par", x=st.lists(s_text, min_size=1, max_size=2))), min_size=1, max_size=2))
s_code = fd("code", e=st.sampled_from(["verbatim", "lstlisting"]), i=st.lists(st.integers(0, 14), min_size=1, max_size=3), o=st.integers(0, 11))
s_alg = fd("alg", i=st.lists(st.integers(0, 4), min_size=1, max_size=4), cap=opt(s_caption), lab=st.booleans())


def s_blocks(depth, mn=1, mx=3):
    return st.lists(s_block(depth), min_size=mn, max_size=mx)


def s_list(depth):
    item = fd("_", title=opt(s_itemtitle), x=mix(st.lists(s_par, min_size=1, max_size=1), s_blocks(max(0, depth - 1), 1, 2)))
    return fd("list", e=st.sampled_from(["itemize", "enumerate", "description"]), items=st.lists(item, min_size=1, max_size=3))


def s_thm(depth):
    return mix(
        fd("thm", e=st.sampled_from(THEOREMS), star=st.booleans(), title=opt(s_title), lab=st.booleans(), x=s_blocks(max(0, depth - 1), 1, 2)),
        fd("thm", e=st.sampled_from(UNNUM), title=opt(s_title), lab=st.booleans(), x=s_blocks(max(0, depth - 1), 1, 2)))


ENVS = ["quote", "center", "flushleft", "minipage", "small", "subequations", "myunknownenv", "widetext", "multicols", "adjustbox", "adjustwidth", "adjustwidth*", "spacing", "CJK*", "abstract"]


def s_block(depth):
    lv = [s_par, s_par, s_par, s_eq, s_code, s_float, s_tab(), s_diag, s_alg, s_bimg]
    if depth == 0:
        return mix(s_par, s_par, s_par, s_eq, s_code)
    return mix(*lv, st.deferred(lambda: s_list(depth)), st.deferred(lambda: s_thm(depth)),
                     fd("env", e=st.sampled_from(ENVS), x=st.deferred(lambda: s_blocks(depth - 1, 1, 2))))


s_sec = fd("sec", l=st.sampled_from([0, 1, 1, 1, 2, 2, 2, 3, 3, 4]), star=st.sampled_from([False, False, True]), chapter=st.sampled_from([False, False, False, True]),
           x=s_title, lab=st.integers(0, 2))
s_parag = fd("parag", l=st.integers(1, 2), x=s_title)


def s_doc(depth=2, mx=8, extra=()):
    return st.lists(mix(s_block(depth), s_block(depth), s_block(depth), s_sec, s_sec, s_parag, *extra), min_size=1, max_size=mx)


def render(nodes):
    """-> (latex, expected canonical output, emitter)"""
    em = Emitter()
    l, flat = em.blks(nodes)
    return l, assemble(flat), em
