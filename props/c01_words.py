from hypothesis import strategies as st
import canon
import doc
from mix import mix
from grow import big
from pbt import Facet, Property, require, Violation

RULE = "a case is a generated document; non-trivial: at least two kinds of construct and three prose words"


def kinds(em):
    return sorted(em.seen)


def run_doc(case):
    """whole-document model: structure, order and every word"""
    l, want, em = doc.render(case["doc"])
    got = canon.canon(canon.process(l, case["pre"]))
    gw, ww = canon.all_words(got), canon.all_words(want)
    if gw != ww:
        i = next((i for i, (a, b) in enumerate(zip(gw, ww)) if a != b), min(len(gw), len(ww)))
        raise Violation("words differ from word %d: got ...%s, want ...%s\n--- source\n%s" % (i, gw[max(0, i - 3):i + 5], ww[max(0, i - 3):i + 5], l))
    canon.require_canon(got, want, l)
    if len(em.seen) >= 2 and len(em.words) >= 3:
        return ["pre" if case["pre"] else "nopre"] + kinds(em)


def run_modes(case):
    """the preprocessing pass does not change the output"""
    l, _, em = doc.render(case["doc"])
    a = canon.canon(canon.process(l, False))
    b = canon.canon(canon.process(l, True))
    canon.require_canon(b, a, l, "output with preprocessing differs from output without")
    if len(em.seen) >= 2:
        return kinds(em)


def run_wrapped(case):
    """preamble and \\begin{document} around the body: same body inside a document token"""
    l, want, em = doc.render(case["doc"])
    src = "\\documentclass[11pt]{article}\n\\usepackage{amsmath, graphicx}\n\\usepackage[utf8]{inputenc}\n\\begin{document}\n%s\n\\end{document}\n" % l
    got = canon.canon(canon.process(src, True))
    require(len(got) == 1 and isinstance(got[0], dict) and got[0]["type"] == "document", "no single document token", got, src)
    canon.require_canon(got[0]["content"], want, src)
    if len(em.seen) >= 2:
        return ["document"]


# what would be a command (also one the document defines) with the second backslash of \\\\
TRAPS = ("item it bf em tt small large Large rm sc if ifx else fi or def let begin end section part cite ref label par hline midrule newline footnote input include verb url and title o ss i l L S P c d alpha text "
         "vfill quad noindent caption left right newcommand centering textbf emph color today maketitle appendix foo R foob xx for loop iffoo -x ,x ;x :x !x /x - a1 item. def, it's in").split()


class LbEm(doc.Emitter):
    traps = 0

    def i_lb(self, nd, styles):
        self.traps += 1
        t = TRAPS[nd["i"] % len(TRAPS)]
        w = self.word()
        l = w + ["", " ", "\\\\ "][nd["f"] % 3] + "\\\\" + t
        can = w + " " + t
        if nd["r"]:
            w = self.word()
            l, can = l + " " + w, can + " " + w
        return l, self.w(can, styles)

    def b_lbeq(self, nd):
        self.traps += 1
        rows = ["%s = %s" % ("y" if nd["a"] % 2 else "x_{%d}" % i, TRAPS[a % len(TRAPS)].replace("$", "")) for i, a in enumerate(nd["x"])]
        rows = [r if i == 0 else TRAPS[(nd["a"] + i * 7) % len(TRAPS)] + " " + r for i, r in enumerate(rows)]
        src = "\\\\".join(rows)
        return "\\begin{%s}\n%s\n\\end{%s}" % (nd["e"], src, nd["e"]), [self.tok("equation", [], content=canon.ws(src), display="block", align=True if nd["e"] == "align*" else None)]


PRE = ["", "\\newcommand{\\foo}{wfoo}\\newcommand{\\R}{\\mathbb{R}}\n", "\\def\\foo#1{wfoo #1}\n\\def\\R{wr}\\newif\\iffoo\n", "\\newcommand{\\xx}[2]{wfoo}\\DeclareMathOperator{\\R}{R}\\let\\foob\\textbf\n"]


def run_breaks(case):
    """line breaks right before words"""
    em = LbEm()
    l, flat = em.blks(case["doc"])
    l = PRE[case["m"] % len(PRE)] + l
    canon.require_canon(canon.canon(canon.process(l, case["pre"])), doc.assemble(flat), l)
    if em.traps:
        return ["%d breaks" % min(em.traps, 3)] + kinds(em)


s_lb = doc.fd("lb", i=st.integers(0, len(TRAPS) - 1), f=st.integers(0, 2), r=st.booleans())
lbin = doc.s_inline(2, leaves=[s_lb, s_lb, doc.s_text, doc.s_math], verb=False)
lbt = st.lists(mix(s_lb, doc.s_text, doc.fd("sty", c=st.sampled_from(["textbf", "emph"]), x=st.lists(s_lb, min_size=1, max_size=1))), min_size=1, max_size=2)
lbpar = doc.fd("par", x=st.lists(lbin, min_size=1, max_size=3))
lbblk = mix(lbpar, lbpar, doc.fd("sec", l=st.sampled_from([1, 2]), star=st.booleans(), x=lbt, lab=st.integers(0, 2)),
            doc.fd("list", e=st.sampled_from(["itemize", "enumerate", "description"]), items=st.lists(doc.fd("_", title=doc.opt(doc.s_itemtitle), x=st.lists(lbpar, min_size=1, max_size=2)), min_size=1, max_size=3)),
            doc.fd("thm", e=st.sampled_from(doc.THEOREMS), star=st.booleans(), title=doc.opt(lbt), lab=st.booleans(), x=st.lists(lbpar, min_size=1, max_size=2)),
            doc.fd("env", e=st.sampled_from(doc.ENVS), x=st.lists(lbpar, min_size=1, max_size=2)),
            doc.fd("float", e=st.sampled_from(["figure", "table"]), star=st.booleans(), center=st.booleans(), cap=doc.opt(lbt), lab=st.integers(0, 2), capfirst=st.booleans(), o=st.integers(0, 2), x=st.lists(mix(doc.s_bimg, lbpar), min_size=1, max_size=2)),
            doc.fd("lbeq", e=st.sampled_from(["equation*", "align*"]), a=st.integers(0, 20), x=st.lists(st.integers(0, len(TRAPS) - 1), min_size=1, max_size=3)))


def mk(s):
    return st.fixed_dictionaries({"doc": s, "pre": st.booleans()})


PROPERTY = Property("C01", [
    Facet("doc", mk(doc.s_doc(2, 6)), run_doc, quick=4000, thorough=60000, shards=8,
          rule="document of up to 6 blocks, 2 nested levels; non-trivial: >=2 kinds of construct, >=3 words"),
    Facet("deep", mk(doc.s_doc(3, 3)), run_doc, quick=1600, thorough=30000, shards=8,
          rule="document of up to 3 blocks, 3 nested levels"),
    Facet("inline", mk(doc.s_inl(3, 2, 5).map(lambda x: [{"k": "par", "x": x}])), run_doc, quick=3000, thorough=40000, shards=4,
          rule="one paragraph of nested inline markup"),
    Facet("modes", st.fixed_dictionaries({"doc": doc.s_doc(2, 5)}), run_modes, quick=1500, thorough=20000, shards=4,
          rule="metamorphic: preprocessing on against off"),
    Facet("wrapped", mk(doc.s_doc(1, 4)), run_wrapped, quick=1500, thorough=20000, shards=4,
          rule="the document inside a preamble and document environment"),
    Facet("breaks", st.fixed_dictionaries({"doc": st.lists(lbblk, min_size=1, max_size=3), "pre": st.booleans(), "m": st.integers(0, 3)}), run_breaks, quick=1500, thorough=20000, shards=4,
          rule="documents with line breaks right before words that are names of commands; non-trivial: at least one"),
    big(mk(doc.s_doc(2, 5)), run_doc),
    big(mk(doc.s_inl(2, 2, 5).map(lambda x: [{"k": "par", "x": x}])), run_doc, name="biginline"),
], RULE, assumptions=["words of prose are separated from markup by white space or punctuation",
                      "white space itself and the split of text into adjacent text tokens are not judged (README: layout is not preserved)"])
