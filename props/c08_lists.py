from hypothesis import strategies as st
from mix import mix
import doc
from gen import case, lst, model, pre
from grow import big
from pbt import Facet, Property

OPTS = ["", "", "[noitemsep]", "[label=(\\alph*), leftmargin=1cm]", "[(i)]", "[label=\\textbf{\\arabic*}]", "[1.]"]
SETUP = ["", "", "\\setlength{\\itemsep}{0pt}\n", "\\setlength\\parskip{1pt} \\itemsep0em\n", "% comment \\item no\n", "\\addtolength{\\itemsep}{-0.5\\baselineskip}\n", "\\vspace{2mm}\n"]
SEP = ["\n", " ", "\n\n", "\n  % note \\item x\n", " \\vspace{1pt}\n"]


class Em(doc.Emitter):
    nit = 0
    deep = 0
    level = 0

    def b_ls(self, nd):
        self.level += 1
        self.deep = max(self.deep, self.level)
        env = nd["e"]
        out, can = [], []
        for it in nd["items"]:
            self.nit += 1
            t = {"type": "item"}
            opt = ""
            if it.get("title"):
                opt, t["title"] = self.opt(it["title"])
                if it["tw"] == 1 and "[{" not in opt:
                    opt, t["title"] = "[{[%s]}]" % opt[1:-1], self.w("[", []) + t["title"] + self.w("]", [])
            elif it["tw"] == 2:
                opt = "[]"
            l, c = self.blks(it["x"])
            if opt and (it["tw"] == 3 or len(l) % 3 == 0):  # brackets after the title are text
                self.seen.add("brackets after a title")
                w = "[%s]" % self.text(1 + len(l) % 2)
                l, c = w + " " + l, self.w(w, []) + c
            if it["lab"]:
                lb = self.label("it")
                t["labels"] = [lb]
                l = "\\label{%s} %s" % (lb, l)
            t["content"] = c
            glue = [" ", "\n", ""][it["sp"]]
            if glue == "" and not opt and (l[:1].isalpha() or l[:1] in "*["):
                glue = " "
            if not opt and l.lstrip().startswith("["):
                opt = "[]"
            out.append("\\item%s%s%s" % (opt, glue, l))
            can.append(t)
        self.level -= 1
        sep = SEP[nd["sep"]]
        star = "*" if nd.get("star") and env != "list" else ""
        name = env
        if env == "list":
            head = "\\begin{list}{--}{\\leftmargin=1em}\n"
        else:
            head = "\\begin{%s%s}%s\n%s" % (env, star, OPTS[nd["o"]], SETUP[nd["s"]])
        return head + sep.join(out) + "\n\\end{%s%s}" % (env, star), [{"type": "list", "name": name, "content": can}]

    def i_fnl(self, nd, styles):
        x, c = self.blks(nd["x"])
        return "\\footnote{%s}" % x, [self.tok("footnote", styles, content=c)]

    def b_img(self, nd):
        return self.i_img(nd, [])


def ls(d):
    par = doc.fd("par", x=doc.s_inl(1, 1, 3))
    leafb = mix(par, par, doc.s_eq, doc.s_code, doc.s_tab(), doc.s_img, doc.fd("verb1", i=st.integers(0, 3)))
    blk = leafb if d == 0 else mix(
        leafb, leafb, st.deferred(lambda: ls(d - 1)), st.deferred(lambda: ls(d - 1)), st.deferred(lambda: ls(d - 1)),
        doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "myunknownenv"]), x=st.deferred(lambda: lst(mix(par, ls(d - 1)), 1, 2))),
        doc.fd("thm", e=st.sampled_from(["theorem", "proof"]), x=st.deferred(lambda: lst(mix(par, ls(d - 1)), 1, 1)).map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)),
        doc.fd("par", x=st.deferred(lambda: st.tuples(doc.s_text, doc.fd("fnl", x=lst(ls(d - 1), 1, 1))).map(list))))
    if d:
        cell = mix(st.just([]), lst(doc.s_word, 1, 1), st.deferred(lambda: lst(doc.fd("cellb", x=ls(d - 1)), 1, 1)))
        blk = mix(blk, blk, blk, blk, doc.s_tab(cell=cell))
    item = doc.fd("_", title=doc.opt(doc.s_itemtitle), tw=st.integers(0, 3), lab=st.sampled_from([False, False, False, True]), sp=st.integers(0, 2), x=lst(blk, 1, 3))
    return doc.fd("ls", e=st.sampled_from(["itemize", "enumerate", "description", "itemize", "enumerate", "list"]), star=st.sampled_from([False, False, False, True]),
                  o=st.integers(0, len(OPTS) - 1), s=st.integers(0, len(SETUP) - 1), sep=st.integers(0, len(SEP) - 1), items=lst(item, 1, 4))


def i_cellb(self, nd, styles):
    return self.block(nd["x"])


def b_verb1(self, nd):
    s = ["\\item", "\\item[x] y", "\\end{itemize}", "\\begin{enumerate}"][nd["i"]]
    w = self.word()
    return "\\verb|%s| %s" % (s, w), [self.tok("code", [], content=s, display="inline")] + self.w(w, [])


Em.b_verb1 = b_verb1
Em.i_cellb = i_cellb
outer = mix(ls(2), ls(2), ls(1), ls(1), doc.fd("par", x=lst(doc.s_text, 1, 1)), doc.fd("sec", l=st.integers(1, 2), star=st.booleans(), x=lst(doc.s_word, 1, 1), lab=st.just(0)),
                  doc.fd("env", e=st.sampled_from(["quote", "center", "minipage"]), x=lst(ls(1), 1, 1)))


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    if em.nit > 1:
        return sorted(em.seen) + ["depth %d" % em.deep]


PROPERTY = Property("C08", [
    Facet("lists", case(doc=lst(outer, 1, 3), pre=pre), run, quick=600, thorough=20000, shards=8,
          rule="lists nested up to 4 deep, also through other environments and footnotes, with options, labels, all kinds of content"),
    big(case(doc=lst(outer, 1, 3), pre=pre), run, quick=250),
], rule="a case is non-trivial when it has two items")
