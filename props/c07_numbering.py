from hypothesis import strategies as st
from mix import mix
import doc
from gen import case, lst, model, pre
from grow import big
from pbt import Facet, Property

FL = {"figure": ("figure", ["", "[h]", "[!htbp]"]), "table": ("table", ["", "[t]"]), "wrapfigure": ("figure", ["{r}{5cm}", "[3]{l}{.4\\textwidth}", "[12]{R}[34pt]{3cm}", "{o}[2em] {3cm}"]),
      "subfigure": ("subfigure", ["{.5\\textwidth}", "[b]{0.4\\linewidth}", "[t][3cm]{2cm}", "[t][3cm][s]{2cm}"]), "subtable": ("table", ["{.5\\textwidth}", "[b]{0.4\\linewidth}", "[t][3cm]{2cm}", "[t][3cm][s]{2cm}"])}
KIND = {"figure": "figure", "wrapfigure": "figure", "table": "table"}


class Em(doc.Emitter):
    """floats holding any blocks, sub-floats, captions in boxes"""
    nnum = 0

    def b_fl(self, nd):
        env = nd["e"]
        ty, args = FL[env]
        star = "*" if nd.get("star") and env in ("figure", "table") else ""
        t = {"type": ty, "content": []}
        cap, ct = "", None
        if nd["cap"]:
            x = self.text(1)
            cap = "\\caption%s{%s}" % (["", "[short]", " ", " [short $x$] "][len(x) % 4], x)
            ct = {"type": "caption", "content": self.w(x, [])}
            if nd.get("lab"):
                ls, lb = self.lab("fl")
                cap += ls
                ct["labels"] = [lb]
        l, c = self.blks(nd["x"])
        if ct is None:
            t["content"] = c
        elif nd.get("top"):
            l, t["content"] = cap + "\n" + l, [ct] + c
        else:
            l, t["content"] = l + "\n" + cap, c + [ct]
        if env in KIND:
            t["_num"] = True
        return "\\begin{%s%s}%s\n%s\n\\end{%s%s}" % (env, star, args[nd["o"] % len(args)], l, env, star), [t]


    def i_cellb(self, nd, styles):
        return self.block(nd["x"])


kids = st.deferred(lambda: lst(blk(1), 1, 2))
t1 = doc.fd("par", x=lst(doc.s_text, 1, 1))


def blk(d):
    eq = doc.s_eq
    fl = doc.fd("fl", e=st.sampled_from(["figure", "table", "figure", "table", "wrapfigure", "subfigure", "subtable"]), star=st.booleans(), cap=st.booleans(), lab=st.booleans(), top=st.booleans(), o=st.integers(0, 11),
                x=lst(blk(d - 1), 1, 2) if d else lst(doc.s_img, 1, 1))
    sub = st.just([{"k": "par", "x": [{"k": "t"}]}]) if d == 0 else lst(blk(d - 1), 1, 2)
    withtext = sub.map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)
    return mix(
        eq, eq, fl, fl, t1, doc.s_alg,
        doc.fd("thm", e=st.sampled_from(doc.THEOREMS), star=st.sampled_from([False, False, True]), title=doc.opt(lst(doc.s_text, 1, 1)), lab=st.booleans(), x=withtext),
        doc.fd("thm", e=st.sampled_from(doc.UNNUM), title=st.none(), lab=st.booleans(), x=withtext),
        doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", x=withtext), 1, 2)),
        doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "subequations", "abstract"]), x=sub),
    )


sec = doc.fd("sec", l=st.sampled_from([0, 1, 1, 1, 2, 3]), star=st.booleans(), x=lst(doc.s_word, 1, 1), lab=st.integers(0, 1))




def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    kinds = em.seen & {"eq", "fl", "alg", "thm"}
    if kinds and len(em.seen) > 1:
        return sorted(em.seen)


s_numcell = mix(st.just([]), lst(doc.s_word, 1, 1), lst(doc.fd("cellb", x=blk(0)), 1, 1))
PROPERTY = Property("C07", [
    Facet("counters", case(doc=lst(mix(blk(2), blk(2), blk(1), sec), 2, 9), pre=pre), run, quick=2500, thorough=40000, shards=8,
          rule="numbered and unnumbered kinds nested in each other, between sections"),
    Facet("flat", case(doc=lst(mix(blk(0), blk(0), blk(0), sec), 4, 16), pre=pre), run, quick=1200, thorough=20000, shards=8, rule="long flat documents of numbered kinds"),
    big(case(doc=lst(mix(blk(2), blk(1), sec), 2, 6), pre=pre), run),
    big(case(doc=lst(mix(doc.s_tab(cell=s_numcell), doc.s_tab(cell=s_numcell), blk(0), sec), 2, 6), pre=pre), run, quick=250, name="cells"),
], rule="a case is non-trivial when it has a numbered kind and another construct")
