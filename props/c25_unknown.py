"""C25: unknown commands and environments are preserved in place and affect nothing else.

documents: model documents with unknown commands (with and without arguments, names close to known
           ones) in every inline position and between blocks, and unknown environments at any depth.
"""
import canon
import doc
from gen import case, ix, lst, model, pre
from hypothesis import strategies as st
from mix import mix
from grow import big
from pbt import Facet, Property, require_eq

KNOWN = ("section subsection paragraph part chapter title author and date email address affil abstract maketitle appendix cite citep ref eqref cref pageref hyperref href url label footnote footnotemark caption captionof "
         "includegraphics input include bibliography bibitem newcommand renewcommand def edef gdef let newenvironment newtheorem newcounter setcounter newlength setlength "
         "usepackage documentclass makeatletter expandafter csname endcsname ensuremath protect relax begingroup endgroup textbf textit emph underline texttt textsc text mbox hbox fbox parbox raisebox textcolor color "
         "bf it em rm tt bfseries itshape tiny small large Large item multicolumn multirow makecell hline cline midrule newline linebreak centering noindent par vspace hspace vskip hskip quad hfill "
         "pagestyle newpage tableofcontents begin end verb lstinline tikz draw frac sqrt left right alpha beta ldots dots ss o ae S today keywords thanks true false ensuremath iffalse fi else or unless the "
         "foo bar my zz X institute orcid corref sep name addr inst").split()
TAIL = ["x", "xq", "foo", "X", "zz", "q"]
HEAD = ["my", "x"]
# commands of such a name exist, or stand for something that the name begins with
NOT = {"parx", "xspace", "mymaketitle", "xmaketitle", "xleft", "xright", "iffalsex", "unlessx"}
NAMES = [n + TAIL[i % len(TAIL)] for i, n in enumerate(KNOWN)] + [HEAD[i % 2] + n for i, n in enumerate(KNOWN)]
NAMES = [n for n in NAMES if n not in NOT and not n.startswith("if")]
ARGS = ["a", "a b", "{\\bf a}", "$x_1$", "\\cite{k}", "\\textbf{a}", "a, b=c", "\\foo{b}", "", "1.5cm", "\\label{u}", "a/b_c", "{a}{b}", "\\begin{itemize}\\item a\\end{itemize}", "a & b", "x@y.z", "[a]", "(a)", "a-b--c", "@@{b}", "a @@ b", "@@", "\\textbf{@@[o]{c}} @@"]  # @@: the command itself
OPTS = ["o", "a=b, c", "", "1", "\\textbf{x}", "{a]b}", "$x$"]
ENVN = ["itemizex", "myfigure", "tablex", "tabularfoo", "verbatimx", "commentx", "theoremx", "mylemma", "equationx", "xalign", "quotex", "centerx", "documentx", "foo", "widetext", "my-env", "env2", "foo:bar", "figurefoo", "minipagex", "abstractx", "xabstract", "algorithmx", "listx", "appendixx", "splitx", "smallx", "proofx", "Foo", "foo*", "keyword", "titlepage", "frontmatter", "IEEEbiography", "highlights", "acknowledgments", "mytcolorbox", "landscape", "sidewaysfigure", "CCSXML", "teaserfigure"]


class Em(doc.Emitter):
    def __init__(self, on=True):
        super().__init__()
        self.kinds = set()
        self.on = on  # False: leave the unknown commands out

    def ucmd(self, nd):
        """-> source, token"""
        n = NAMES[nd["n"] % len(NAMES)]
        star = "*" if nd["star"] and nd["form"] else ""
        t = {"type": "command", "command": "\\" + n + star, "content": None}
        form = nd["form"] % 5
        arg = ARGS[nd["a"] % len(ARGS)]
        if self.in_opt:
            arg = "a b"
        elif nd["w"]:
            arg = (arg + " " + self.word()).strip()
        src = t["command"]
        arg = arg.replace("@@", src)
        if form == 1 or form == 3 and self.in_opt:
            src += "{%s}" % arg
            t["content"] = "{%s}" % arg
        elif form == 2:
            src += [" ", "\n", " "][nd["a"] % 3] + "{%s}" % arg
            t["content"] = "{%s}" % arg
        elif form == 3:
            o = "".join("[%s]" % OPTS[(nd["o"] + k) % len(OPTS)] for k in range(1 + nd["o"] % 2))
            src += o + "{%s}" % arg
            t["content"] = o + "{%s}" % arg
        elif form == 4:
            src += "{}"
            t["content"] = "{}"
        self.kinds.add(["plain", "argument", "argument after a space", "options", "empty argument"][form])
        return src, t, not t.get("content")

    def i_ucmd(self, nd, styles):
        a, b = self.word(), self.word()
        s, t, bare = self.ucmd(nd)
        g1 = [" ", "", ", ", " ", "\n", "-"][nd["g"] % 6]
        g2 = [" ", ". ", ", ", "\n", "; ", ""][nd["g"] // 6 % 6]
        if bare and not g2:
            g2 = " "
        if styles:
            t["styles"] = doc.dedupe(styles)
        return a + g1 + s + g2 + b, self.w(a + g1, styles) + [t] + self.w(g2 + b, styles)

    def b_ucmd(self, nd):
        s, t, bare = self.ucmd(nd)
        self.kinds.add("between blocks")
        # a brace that follows would be an argument
        w = self.word() if bare else ""
        return s + " " + w, [t] + self.w(w, [])

    def b_uenv(self, nd):
        n = ENVN[nd["n"] % len(ENVN)]
        self.kinds.add("environment")
        l, c = self.blks(nd["x"])
        arg, lab = "", None
        if nd["o"] == 1:
            arg = "[%s]" % ["h!", "x=1, y", "Title"][nd["n"] % 3]
        elif nd["o"] == 2:
            w = self.word()
            arg, c = "{%s}" % w, self.w(w, []) + c
        t = {"type": "environment", "name": n.rstrip("*"), "content": c}
        if nd["lab"]:
            ls, lb = self.lab("ue")
            t["labels"] = [lb]
            arg += ls
        return "\\begin{%s}%s\n%s\n\\end{%s}" % (n, arg, ("" if arg else self.guard(l)) + l, n), [t]

    @staticmethod
    def guard(l):
        return "" if not l.lstrip().startswith(("[", "{")) else "\\relax "


def run_docs(c):
    em = Em()
    model(em, c["doc"][:c["at"]] + [c["must"]] + c["doc"][c["at"]:], c["pre"])
    if em.kinds:
        return sorted(em.kinds)


def s_ucmd(star):
    return doc.fd("ucmd", n=ix(NAMES), form=st.integers(0, 4), a=ix(ARGS), o=ix(OPTS), w=st.booleans(), star=star, g=st.integers(0, 35))


uin = doc.s_inline(2, leaves=[doc.s_text, doc.s_math, doc.s_cite, doc.s_ref, s_ucmd(st.sampled_from([False, False, False, True])), s_ucmd(st.just(False))], verb=False)
flat = mix(doc.s_text, s_ucmd(st.just(False)))
par = doc.fd("par", x=lst(uin, 1, 4))
cap = lst(mix(flat, doc.fd("sty", c=st.sampled_from(["emph", "textbf"]), x=lst(flat, 1, 2))), 1, 3)
sec = doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=cap, lab=st.integers(0, 2))
flt = doc.fd("float", e=st.sampled_from(["figure", "table"]), star=st.booleans(), center=st.booleans(), cap=cap, lab=st.integers(0, 2), capfirst=st.booleans(), o=st.integers(0, 2), x=lst(mix(doc.s_bimg, par), 1, 2))
tab = doc.s_tab(cell=mix(st.just([]), lst(flat, 1, 2)))


def s_any(depth):
    leaf = [par, par, s_ucmd(st.just(False)), doc.s_block(1)]
    if not depth:
        return mix(*leaf)
    sub = lst(st.deferred(lambda: s_any(depth - 1)), 1, 3)
    item = doc.fd("_", title=doc.opt(cap), x=lst(mix(par, s_any(0)), 1, 2))
    return mix(*leaf, flt, tab, doc.fd("uenv", n=ix(ENVN), o=st.integers(0, 2), lab=st.booleans(), x=sub), doc.fd("uenv", n=ix(ENVN), o=st.integers(0, 2), lab=st.booleans(), x=sub),
                     doc.fd("list", e=st.sampled_from(["itemize", "enumerate", "description"]), items=lst(item, 1, 3)),
                     doc.fd("thm", e=st.sampled_from(doc.THEOREMS), star=st.booleans(), title=doc.opt(cap), lab=st.booleans(), x=sub),
                     doc.fd("env", e=st.sampled_from(doc.ENVS), x=sub))


one = s_ucmd(st.just(False))
must = mix(doc.fd("par", x=st.tuples(one, uin).map(list)), one, doc.fd("uenv", n=ix(ENVN), o=st.integers(0, 2), lab=st.booleans(), x=lst(s_any(1), 1, 2)))

PROPERTY = Property("C25", [
    Facet("documents", case(pre=pre, at=st.integers(0, 4), must=must, doc=lst(mix(s_any(2), s_any(2), sec), 0, 4)), run_docs, quick=1600, thorough=60000, shards=8,
          rule="documents with unknown commands in every position and unknown environments at any depth, that hold at least one of them"),
    big(case(pre=pre, at=st.integers(0, 4), must=must, doc=lst(mix(s_any(2), s_any(2), sec), 1, 4)), run_docs, quick=200),
], "a case is non-trivial when it holds an unknown command or environment",
    assumptions=["the first braced argument and bracketed ones directly before it belong to an unknown command, what follows is content", "names are lower case variants of known names and made-up ones (known names match in any case)", "an environment without any content is dropped"])
