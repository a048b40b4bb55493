from hypothesis import strategies as st
from mix import mix
import canon
import doc
from canon import ws
from gen import case, lst, model, pre
from grow import big
from mathgen import formula
from pbt import Facet, Property

ROWS_SEP = [" \\\\\n", "\\\\", " \\\\[2pt]\n", "\\\\*\n"]


def okin(f, d):
    """formulas that LaTeX itself would end early in these delimiters"""
    if d == "$$":
        return f.replace("$$", "$ $")
    return f


class Em(doc.Emitter):
    nf = 0

    def i_f(self, nd, styles):
        self.nf += 1
        f = nd["s"]
        o, c = ("\\(", "\\)") if nd.get("paren") else ("$", "$")
        sp = ["", " ", "\n"][nd.get("sp", 0)]
        return o + sp + f + (" " if f.endswith("\\") else "") + sp + c, [self.tok("equation", styles, content=ws(f))]

    def content_token(self, nd):
        l, c = self.inline(nd, [])
        return l, c

    def b_fe(self, nd):
        """display math with labels and content commands in its rows"""
        self.nf += 1
        env = nd["e"]
        src, labels, ph, want = [], [], {}, []
        for r in nd["rows"]:
            s = w = r.get("w", "") + r["s"]
            if env in ("align", "flalign", "alignat"):
                s, w = s + " & = 1", w + " & = 1"
            for pos, x in r["cmds"]:
                l, c = self.content_token(x)
                k = "___PLACEHOLDER_%d___" % len(ph)
                ph[k] = c
                s, w = s + " + " + l, w + " + " + k
            if r.get("lab"):
                lb = self.label("eq")
                labels.append(lb)
                if r["lab"] == 1:
                    s = s + "\\label{%s}" % lb
                else:
                    s, w = "\\label{%s} " % lb + s, " " + w
            src.append(s)
            want.append(w)
        sep = ROWS_SEP[nd.get("sep", 0)]
        body, wbody = sep.join(src), sep.join(want)
        t = {"type": "equation", "content": ws(wbody), "display": "block"}
        if labels:
            t["labels"] = labels
        if ph:
            t["placeholders"] = ph
        if env == "$$":
            return "$$ %s $$" % body, [t]
        if env == "\\[":
            return "\\[\n%s\n\\]" % body, [t]
        star = "*" if nd.get("star") else ""
        if "align" in env or env == "eqnarray":
            t["align"] = True
        if not star:
            t["_num"] = True
        arg = "{2}" if env == "alignat" else ""
        sp = " " if nd.get("sp") else ""
        nl = "" if nd.get("glue") and body[:1] not in "{[*" or env == "alignat" and nd.get("glue") else "\n"
        return "\\begin%s{%s%s}%s%s%s\n\\end%s{%s%s}" % (sp, env, star, arg, nl, body, sp, env, star), [t]


F = formula(2, 4).map(lambda f: f.strip() or "x")
inf = doc.fd("f", s=F, paren=st.booleans(), sp=st.integers(0, 2))
cmd = mix(doc.s_cite, doc.s_ref, doc.s_cref, doc.s_url, doc.s_img, doc.fd("fn", x=lst(doc.s_text, 1, 2)), doc.fd("href", x=lst(doc.s_text, 1, 1)))
# letters that would be a command if the line break before them were read as one backslash
GLUED = ["", "", "", "", "hfill ", "par ", "centering ", "noindent "]
row = st.fixed_dictionaries({"s": F, "w": st.sampled_from(GLUED), "lab": st.integers(0, 3), "cmds": mix(st.just([]), st.just([]), lst(st.tuples(st.integers(0, 3), cmd).map(list), 1, 2))})
ENVS1 = ["equation", "dmath", "multline", "$$", "\\["]
ENVSN = ["align", "gather", "eqnarray", "flalign", "alignat"]
fe = mix(doc.fd("fe", e=st.sampled_from(ENVS1), star=st.booleans(), rows=lst(row, 1, 1), sp=st.booleans(), glue=st.booleans()),
               doc.fd("fe", e=st.sampled_from(ENVSN), star=st.booleans(), rows=lst(row, 1, 3), sep=st.integers(0, 3), sp=st.sampled_from([False, False, True]), glue=st.booleans()))


def inl(d):
    leaf = mix(doc.s_text, inf, inf)
    if d == 0:
        return leaf
    sub = lst(inl(d - 1), 1, 3)
    return mix(leaf, leaf, doc.fd("sty", c=st.sampled_from(doc.STYLE_NAMES), x=sub), doc.fd("decl", c=st.sampled_from(doc.DECL_NAMES), x=sub),
                     doc.fd("col", i=st.integers(0, 4), decl=st.booleans(), x=sub), doc.fd("fn", x=sub), doc.fd("href", x=sub))


par = doc.fd("par", x=lst(inl(2), 1, 4))
title = lst(mix(doc.s_text, inf), 1, 2)
cell = mix(st.just([]), lst(mix(doc.s_text, inf), 1, 2))
leafb = mix(par, fe)
blk = mix(
    par, par, fe, fe,
    doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=title, lab=st.integers(0, 1)),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", x=lst(leafb, 1, 2)), 1, 2)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof", "lemma"]), star=st.booleans(), lab=st.booleans(), x=lst(leafb, 1, 2).map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), cap=title, lab=st.integers(0, 1), x=lst(mix(doc.s_img, doc.s_tab(cell=cell)), 1, 2)),
    doc.s_tab(cell=cell),
    doc.fd("env", e=st.sampled_from(["quote", "center", "minipage", "subequations"]), x=lst(leafb, 1, 2)),
)


def run(c):
    em = Em()
    src = model(em, c["doc"], c["pre"])
    if em.nf:
        return sorted(em.seen) + [x for x in ("\\frac", "\\left", "matrix", "\\text", "placeholder") if x in src]


PROPERTY = Property("C04", [
    Facet("formulas", case(doc=lst(par, 1, 2), pre=pre), run, quick=3500, thorough=60000, shards=8, rule="paragraphs of inline formulas over the math grammar, nested in styles, footnotes, links"),
    Facet("displays", case(doc=lst(fe, 1, 3), pre=pre), run, quick=3000, thorough=50000, shards=8, rule="display math of all kinds with labels, content commands and rows"),
    Facet("contexts", case(doc=lst(blk, 1, 4), pre=pre), run, quick=3000, thorough=50000, shards=8, rule="formulas and displays in headings, captions, items, cells, theorems, groups"),
    big(case(doc=lst(mix(fe, fe, par), 1, 3), pre=pre), run, quick=200),
    big(case(doc=lst(blk, 1, 3), pre=pre), run, quick=200, name="bigcontexts"),
], "a case is a document of generated formulas; non-trivial: holds at least one formula",
    assumptions=["commands that the library documents as layout (\\hfill, \\phantom, boxes, rules) are not generated inside of formulas, they are dropped or unwrapped there by design",
                 "white space inside a formula is compared after collapsing runs to one space"])
