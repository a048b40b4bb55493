"""C24: front matter (title, authors, affiliations, addresses, e-mails, notes, abstract, keywords)
is extracted completely, in place, and changes nothing of the body.

frontmatter: documents with generated front matter in the preamble and the body, against the model.
"""
import canon
import doc
from gen import case, ix, lst, pre
from hypothesis import strategies as st
from mix import mix
from grow import grown
from pbt import Facet, Property

KEYSEP = [", ", "; ", ",\n", " -- ", " / "]
BR = ["\\\\ ", " \\\\\n", "\\\\[2pt] ", "\\\\*\n", " \\newline ", "\\\\\\\\"]
SILENT = ["\\maketitle", "\\date{\\today}", "\\date{May {\\it 2020}\\\\ x}", "\\date{}", "\\thispagestyle{empty}", "\\pagestyle{plain}", "\\subjclass[2010]{11A}", "\\pacs{12.3}", "% comment \\title{no}", "\\pagenumbering{roman}", "\\setcounter{footnote}{0}",
          "\\vspace{1cm}", "\\newpage", "\\clearpage", "\\makeatletter", "\\makeatother", "\\tableofcontents", "\\hypersetup{pdftitle={A title}, pdfauthor={B}}", "\\setlength{\\parindent}{0pt}", "\\date{\n Foo %\n}"]
PREAMBLE = ["\\usepackage{authblk}", "\\usepackage[utf8]{inputenc}", "\\newcommand{\\mm}{zz}", "\\newtheorem{thma}{Theorem}", "\\definecolor{cc}{rgb}{1,0,0}", "\\bibliographystyle{plain}", "\\usepackage{a,b}", "\\DeclareMathOperator{\\xx}{xx}", "\\renewcommand\\Affilfont{\\small}", "\\graphicspath{{img/}}"]
GAP = ["", "", " ", "\n", "%\n", " % comment\n "]


class Em(doc.Emitter):
    def __init__(self):
        super().__init__()
        self.kinds = set()

    def i_br(self, nd, styles):
        return BR[nd["i"] % len(BR)] + self.word(), self.w(self.words[-1], styles)

    def i_thanks(self, nd, styles):
        x, c = self.inl(nd["x"])
        self.kinds.add("notes")
        return "\\thanks{%s}" % x, [self.tok("footnote", styles, content=c)]

    def i_meta(self, nd, styles):
        l, c = self.b_meta(nd)
        self.kinds.add("in the author block")
        return l, c

    def i_tab(self, nd, styles):
        a, b = self.inl(nd["x"])
        w = self.word()
        return "\\begin{tabular}{%s}%s \\\\ %s\\end{tabular}" % ("ct"[nd["i"] % 2].replace("t", "@{}c@{}"), a, w), [self.tok("tabular", [], content=[[b], [self.w(w, [])]])]

    def i_mark(self, nd, styles):
        n = str(nd["n"])
        return "\\footnotemark[%s]" % n, [self.tok("footnote", styles, content=self.w(n, []))]

    def i_sup(self, nd, styles):
        m = ["^1", "^{1,2}", "^\\dagger", "{}^{*}"][nd["i"] % 4]
        return "$%s$" % m, [self.tok("equation", styles, content=m)]

    def short(self, nd):
        return ["", "[%s]", " [%s]"][nd["o"] % 3] % (self.word() if nd["o"] % 2 else "1,2") if nd["o"] % 3 else ""

    def braced(self, nd, x):
        return GAP[nd["g"] % 3].replace("\n", " ") + "{" + GAP[nd["h"] % 6] + x + GAP[nd["g"] % 6] + "}"

    def b_title(self, nd):
        self.kinds.add("title")
        x, c = self.inl(nd["x"])
        return "\\title%s%s" % (self.short(nd), self.braced(nd, x)), [{"type": "title", "content": c}]

    def b_author(self, nd):
        rows, src = [], []
        for x in nd["as"]:
            l, c = self.inl(x)
            src.append(l)
            rows.append(c)
        if nd["dup"] == 1:  # another one of the same name
            src.append(src[0])
            rows.append(rows[0])
        self.kinds.add("%s authors" % (len(rows) if len(rows) < 3 else "more"))
        x = ["\n\\and\n", " \\and ", "\\and ", "\n \\And %\n", " \\AND "][nd["and"] % 5].join(src)
        return "\\author%s%s" % (self.short(nd), self.braced(nd, x)), [{"type": "author", "content": rows}]

    def b_meta(self, nd):
        cmd, ty = [("affil", "affiliation"), ("affiliation", "affiliation"), ("address", "address"), ("email", "email"), ("curraddr", "address")][nd["c"] % 5]
        self.kinds.add(ty)
        x, c = self.inl(nd["x"])
        if cmd == "email" and nd["o"] % 2:
            x = self.key() + "@ex.org"
            c = self.w(x, [])
        return "\\%s%s%s" % (cmd, self.short(nd), self.braced(nd, x)), [{"type": ty, "content": c}]

    def b_note(self, nd):
        self.kinds.add("note")
        x, c = self.inl(nd["x"])
        return "\\thanks" + self.braced(nd, x), [{"type": "footnote", "content": c}]

    def b_kw(self, nd):
        self.kinds.add("keywords")
        x = KEYSEP[nd["i"] % len(KEYSEP)].join(self.text(1 + n % 2) for n in nd["n"])
        return "\\keywords" + ["", " ", ""][nd["i"] % 3] + "{%s}" % x, [{"type": "keywords", "content": self.w(x, [])}]

    def b_abs(self, nd):
        self.kinds.add("abstract")
        if nd["env"]:
            l, c = self.blks(nd["b"])
            return "\\begin{abstract}%s%s\n\\end{abstract}" % (["", "\n", " ", "%\n"][nd["i"] % 4], l), [{"type": "abstract", "content": c}]
        x, c = self.inl(nd["x"])
        return "\\abstract" + ["{%s}", " {%s}", "{\n%s\n}", "{%%\n%s}"][nd["i"] % 4] % x, [{"type": "abstract", "content": c}]

    def b_silent(self, nd):
        return SILENT[nd["i"] % len(SILENT)], []

    def b_pre(self, nd):
        x = PREAMBLE[nd["i"] % len(PREAMBLE)]
        return "" if "usepackage" in x and not self.pre else x, []  # packages are left to the preprocessing pass


def join(em, nodes, seps):
    parts, flat = [], []
    for i, nd in enumerate(nodes):
        l, c = em.block(nd)
        s = ["\n", "\n\n", "\n", "\n%\n"][seps[i % len(seps)] % 4]
        parts.append(l + s)
        flat += c
    return "".join(parts), flat


def run_front(c):
    em = Em()
    em.pre = c["pre"]
    head, hc = join(em, c["head"], c["seps"])
    front, fc = join(em, c["front"], c["seps"])
    body, bc = em.blks(c["body"])
    if c["form"] == 0:
        src = head + front + "\n\n" + body
        want = doc.assemble(hc + fc + bc)
    else:
        src = head + "\\begin{document}\n" + front + "\n" + body + "\n\\end{document}\n"
        if c["form"] == 2 and c["pre"]:
            src = "\\documentclass[twocolumn]{article}\n" + src
        want = doc.assemble(hc)
        inner = doc.assemble(fc + bc)
        want = want + [{"type": "document", "content": inner}]
    canon.require_canon(canon.canon(canon.process(src, c["pre"])), want, src)
    if em.kinds:
        return sorted(em.kinds)


inl = doc.s_inline(1, verb=False)
name = mix(doc.s_text, doc.s_word)
g = dict(g=st.integers(0, 5), h=st.integers(0, 5))
person = mix(doc.fd("meta", c=st.integers(0, 4), x=lst(inl, 1, 2), o=st.integers(0, 3), **g), doc.fd("tab", i=st.integers(0, 1), x=lst(name, 1, 1)), doc.s_text, doc.fd("sup", i=st.integers(0, 3)), doc.fd("br", i=ix(BR)), doc.fd("thanks", x=st.lists(inl, min_size=1, max_size=2)), doc.fd("mark", n=st.integers(1, 9)),
                   inl, doc.s_inline(2, verb=False))
people = st.tuples(name, st.lists(person, min_size=0, max_size=3)).map(lambda t: [t[0], *t[1]])
bit = mix(doc.s_text, doc.fd("sup", i=st.integers(0, 3)), doc.fd("br", i=ix(BR)), doc.fd("thanks", x=st.lists(inl, min_size=1, max_size=2)), doc.fd("mark", n=st.integers(1, 9)), inl)
text = st.tuples(name, st.lists(bit, min_size=0, max_size=2)).map(lambda t: [t[0], *t[1]])
s_title = doc.fd("title", x=text, o=st.integers(0, 2), **g)
s_author = doc.fd("author", **{"as": st.lists(people, min_size=1, max_size=4), "and": st.integers(0, 4), "dup": st.integers(0, 4), "o": st.integers(0, 2)}, **g)
s_meta = doc.fd("meta", c=st.integers(0, 4), x=text, o=st.integers(0, 3), **g)
s_note = doc.fd("note", x=text, **g)
s_kw = doc.fd("kw", i=st.integers(0, 9), n=lst(st.integers(0, 3), 1, 4))
s_abs = doc.fd("abs", env=st.booleans(), i=st.integers(0, 3), b=doc.s_blocks(1, 1, 3), x=lst(inl, 1, 3))
s_silent = doc.fd("silent", i=ix(SILENT))
meta = mix(s_title, s_author, s_author, s_meta, s_meta, s_note, s_kw, s_silent)

PROPERTY = Property("C24", [
    Facet("frontmatter", case(pre=pre, form=st.integers(0, 2), seps=lst(st.integers(0, 3), 1, 3), head=st.lists(mix(meta, meta, doc.fd("pre", i=ix(PREAMBLE))), max_size=4),
                              front=lst(mix(meta, s_abs), 1, 5), body=doc.s_blocks(1, 1, 3)), run_front, quick=1500, thorough=60000, shards=8,
          rule="documents with front matter commands in any number and order in the preamble and the body, that hold at least one of them"),
], "a case is non-trivial when it holds a title, author, affiliation, address, e-mail, note, keywords or abstract",
    assumptions=["keywords are plain text (they are kept as written)", "\\and stands outside of braces"])
grown(PROPERTY, 150)
