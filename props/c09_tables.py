from hypothesis import strategies as st
from mix import mix
import doc
from gen import case, ix, lst, model, pre
from grow import big
from pbt import Facet, Property

SPECS = ["l", "c|", "r", "p{2cm}", "@{}l@{}", "|c|", "||r", ">{\\raggedright\\arraybackslash}p{3cm}", "m{1.5em}", "@{\\extracolsep{\\fill}}c", "!{\\vrule width 1pt}c",
         "S[table-format=2.1]", "*{2}{c}", ">{$}c<{$}", "D{.}{.}{-1}", "@{ }r@{:}", "X", "b{0.2\\textwidth}", "@{\\hspace{2pt}}l"]
BREAKS = ["\\\\\n", "\\\\", " \\\\ \n", "\\\\[2pt]\n", "\\\\*\n", "\\tabularnewline\n", "\\\\ [-1ex]\n", "\\\\*[1mm] "]
RULES = ["", "", "\\hline\n", "\\midrule\n", "\\cline{1-2}\n", "\\hline\\hline ", "\\cmidrule(lr){1-2}\\cmidrule(l){3-3}\n", "\\addlinespace[2pt]\n", "\\specialrule{1pt}{0pt}{2pt}\n", "\\hdashline\n",
         "\\toprule ", "\\cmidrule{2-3}", "\\rowcolor{gray!20} ", "\\rowcolor[HTML]{EFEFEF}\n", "\\noalign{\\smallskip}\n", "\\cdashline{1-2}", "\\addlinespace\n", "\\rowcolor{red}[0pt][1pt] ", "\\bottomrule\n", "\\morecmidrules\n"]
RULES.remove("\\noalign{\\smallskip}\n")
DECO = ["", "", "", "", "\\cellcolor{red!10}", "\\cellcolor[rgb]{0.1,0.2,0.3} ", "\\hfill ", "\\centering ", "\\vline ", "\\raggedright "]
ENVS = ["tabular", "tabular", "tabular", "tabular*", "tabularx", "tabulary", "longtable", "longtable*", "\\tabular"]
MC = ["c", "l|", "|c|", "p{2cm}", "@{}c@{}", ">{\\centering}p{1cm}"]
MR = ["{*}", "{2cm}", "{=}", "*", "{*}[-2pt]", "{0.1\\textwidth}"]
MRN = ["{%d}", "{%d}[3]", "[t]{%d}", " {%d}", "{-%d}", "[c]{%d}[2]"]
BOX = ["\\rotatebox{90}{%s}", "\\rotatebox[origin=c]{90}{%s}", "\\parbox{2cm}{%s}", "\\parbox[t]{2cm}{%s}", "\\raisebox{2pt}{%s}", "\\scalebox{0.5}{%s}", "\\fbox{%s}", "\\resizebox{1cm}{!}{%s}", "\\colorbox{red}{%s}"]


TRAPS = "item it bf em tt small if else fi or def let begin end cite ref label par hline midrule toprule cline newline footnote and o ss i l S c d alpha multicolumn multirow makecell rowcolor cellcolor -x ,x :x /x - item.".split()


class Em(doc.Emitter):
    cells = 0
    rows = 0

    def cell(self, cl):
        """-> latex, canonical cell"""
        self.cells += 1
        k = cl["k"]
        self.seen.add("cell-" + k)
        if k == "e":
            return "", []
        if k == "in":
            return self.inl(cl["x"])
        if k == "trap":  # the line break before it ends in a backslash
            w = TRAPS[cl["i"]] + " " + self.word()
            return w, self.w(w, [])
        if k == "brk":  # line-broken cell
            ps = [self.inl(x) for x in cl["x"]]
            cmd = ["\\makecell", "\\shortstack", "\\makecell[l]", "\\makecell[tc]", "\\shortstack[r]"][cl["i"] % 5]
            return "%s{%s}" % (cmd, [" \\\\ ", "\\\\", "\\\\\n"][cl["i"] % 3].join(p for p, _ in ps)), [w for _, c in ps for w in c]
        if k == "nest":
            l, c = self.b_grid(cl["x"])
            return l, c
        if k == "box":
            l, c = self.inl(cl["x"])
            return BOX[cl["i"]] % l, c
        if k == "blk":
            return self.block(cl["x"])
        if k == "lst":
            l, c = self.b_list(cl)
            return l, c
        # spans
        l, c = self.cell(cl["x"])
        for how, a, b, c2 in cl["how"]:
            if how == "c":
                l = "\\multicolumn{%d}{%s}{%s}" % (cl["cs"], MC[a % len(MC)], l)
            else:
                l = "\\multirow%s%s{%s}" % (MRN[a % len(MRN)] % cl["rs"], MR[b % len(MR)], l)
        cs = cl["cs"] if any(h[0] == "c" for h in cl["how"]) else 1
        rs = cl["rs"] if any(h[0] == "r" for h in cl["how"]) else 1
        sty = cl.get("sty")
        if sty and not isinstance(c, dict):
            name = ["textbf", "emph", "texttt"][sty % 3]
            l, c = "\\%s{%s}" % (name, l), restyle(c, doc.STYLE[name])
        if cs > 1 or rs > 1:
            return l, {"rowspan": rs, "colspan": cs, "content": c}
        return l, c

    def b_grid(self, nd):
        rows, can = [], []
        self.seen.add(nd["e"])
        if all(cl["k"] == "e" or cl["k"] == "span" and cl["x"]["k"] == "e" for r in nd["rows"] for cl in r["cells"]):
            nd["rows"][0]["cells"][0] = {"k": "in", "x": [{"k": "t"}]}
        ncol = max(len(r["cells"]) for r in nd["rows"])
        for r in nd["rows"]:
            self.rows += 1
            ls, cs = [], []
            for i, cl in enumerate(r["cells"]):
                l, c = self.cell(cl)
                blank = not l
                if isinstance(c, list) and not nd.get("plain"):
                    l = DECO[r["d"][i]] + l if i < len(r["d"]) else l
                ls.append(l)
                cs.append(c)
            rows.append([" & ", "&", "\n & "][r["amp"]].join(ls))
            if ncol > 1 and len(cs) > 1 or not blank:
                can.append(cs)
        src = RULES[nd["h"][0]]
        for i, r in enumerate(rows):
            last = i == len(rows) - 1
            src += r
            if not last or nd["end"]:
                if not last and nd["rows"][i + 1]["cells"][0]["k"] == "trap":
                    src += "\\\\"
                else:
                    src += BREAKS[nd["rows"][i]["b"]] + RULES[nd["rows"][i]["h"]]
        can = doc.trim_rows(can)
        spec = "".join(SPECS[i] for i in nd["spec"])
        env = nd["e"]
        pos = ["", "", "[t]", "[c]"][nd["pos"]] if env in ("tabular", "longtable", "\\tabular") else ""
        width = {"tabular*": "{\\textwidth}", "tabularx": "{0.9\\linewidth}", "tabulary": "{10cm}"}.get(env, "")
        if width and nd["pos"] == 2:
            width += "[t]"
        t = {"type": "tabular", "content": can}
        if env == "\\tabular":
            return "\\tabular%s{%s} %s \\endtabular" % (pos, spec, src), [t]
        return "\\begin{%s}%s%s{%s}\n%s\n\\end{%s}" % (env, pos, width, spec, src, env), [t]

    def i_grid(self, nd, styles):
        l, c = self.b_grid(nd)
        for t in c:
            if styles:
                t["styles"] = doc.dedupe(styles)
        return l, c

    def b_wrap(self, nd):
        l, c = self.blks(nd["x"])
        return ["{%s}", "\\resizebox{\\textwidth}{!}{%s}", "\\scalebox{0.8}{%s}", "\\centerline{%s}", "\\begin{adjustbox}{width=\\textwidth}\n%s\n\\end{adjustbox}", "\\begin{center}%s\\end{center}"][nd["i"]] % l, c

    def b_float2(self, nd):
        setup = ["", "\\renewcommand{\\arraystretch}{1.2}\n", "\\setlength{\\tabcolsep}{4pt}\n", "\\centering\n", "\\vspace{-1em}"][nd["s"]]
        l, can = self.b_float(nd)
        i = l.find("\n")
        return l[:i + 1] + setup + l[i + 1:], can


def restyle(c, s):
    """add a style outside of the ones there"""
    out = []
    for x in c:
        if isinstance(x, list):
            out.append(["w", x[1], doc.dedupe([s] + x[2])])
        else:
            d = dict(x)
            d["styles"] = doc.dedupe([s] + d.get("styles", []))
            out.append(d)
    return out


wraps = ("sty", "col", "grp", "fn", "href", "decl")
inl = mix(doc.s_inl(1, 1, 2, wraps=wraps), doc.s_inl(2, 1, 2, wraps=wraps), lst(doc.s_text, 1, 1), st.just([{"k": "math", "a": [26, 27], "paren": False}]), lst(doc.s_url, 1, 1), lst(mix(doc.s_verb, doc.s_img, doc.s_esc), 1, 2))
plain = doc.fd("in", x=inl)
brk = doc.fd("brk", i=st.integers(0, 5), x=lst(lst(mix(doc.s_text, doc.s_math), 1, 2), 1, 3))
box = doc.fd("box", i=ix(BOX), x=lst(mix(doc.s_text, doc.s_math, doc.fd("sty", c=st.just("textbf"), x=lst(doc.s_text, 1, 1))), 1, 2))


def cell(d):
    empty = st.just({"k": "e"})
    base = [plain, plain, plain, plain, empty, brk, box, doc.fd("trap", i=ix(TRAPS))]
    if d:
        base.append(doc.fd("nest", x=st.deferred(lambda: grid(d - 1))))
        base.append(doc.fd("lst", e=st.sampled_from(["itemize", "enumerate"]), items=lst(doc.fd("_", x=lst(doc.fd("par", x=lst(mix(doc.s_text, doc.s_math, doc.s_esc), 1, 2)), 1, 1)), 1, 2)))
        base.append(doc.fd("blk", x=mix(doc.s_eq, doc.fd("float", e=st.just("figure"), cap=doc.opt(doc.s_caption), lab=st.integers(0, 2), x=lst(doc.s_img, 1, 2)), doc.fd("thm", e=st.sampled_from(["lemma", "proof"]), x=lst(doc.fd("par", x=lst(doc.s_text, 1, 1)), 1, 1)))))
    b = mix(*base)
    a = st.integers(0, 20)
    h = st.tuples(st.just("r"), a, a, a)
    hc = st.tuples(st.just("c"), a, a, a)
    how = mix(st.tuples(h), st.tuples(hc), st.tuples(h, hc))
    span = doc.fd("span", x=mix(plain, plain, brk, box, empty, *([base[8], base[10]] if d else [])), rs=mix(st.integers(1, 4), st.integers(1, 12)), cs=mix(st.integers(1, 4), st.integers(1, 12)), how=how, sty=st.sampled_from([0, 0, 0, 1, 2, 3]))
    return mix(b, b, b, b, span)


def grid(d):
    c = cell(d)

    def rows(n):
        cells = mix(st.lists(c, min_size=n, max_size=n), st.lists(c, min_size=n, max_size=n), st.lists(c, min_size=1, max_size=n))
        return lst(st.fixed_dictionaries({"cells": cells, "d": st.lists(ix(DECO), max_size=n), "amp": st.integers(0, 2), "b": ix(BREAKS), "h": ix(RULES)}), 1, 4)
    return doc.fd("grid", e=st.sampled_from(ENVS), rows=st.integers(1, 4).flatmap(rows), spec=lst(ix(SPECS), 1, 4), h=st.tuples(ix(RULES)), end=st.booleans(), pos=st.integers(0, 3))


g = mix(grid(1), grid(1), grid(0))
par = doc.fd("par", x=mix(doc.s_inl(1, 1, 3), st.tuples(doc.s_text, g, doc.s_text).map(list), st.tuples(doc.fd("decl", c=st.sampled_from(["small", "footnotesize", "bf", "tt"]), x=st.tuples(doc.s_word, g).map(list))).map(list)))
fl = st.builds(lambda x, s: {**x, "k": "float2", "s": s},
               doc.fd("float", e=st.sampled_from(["table", "figure", "table"]), star=st.booleans(), center=st.booleans(), cap=doc.opt(doc.s_caption), lab=st.integers(0, 2), capfirst=st.booleans(), o=st.integers(0, 2), x=lst(g, 1, 2)),
               st.integers(0, 4))
blk = mix(g, g, par, doc.fd("wrap", i=st.integers(0, 5), x=lst(g, 1, 1)), fl, fl,
                doc.fd("env", e=st.sampled_from(["center", "minipage", "quote", "small"]), x=lst(g, 1, 1)),
                doc.fd("list", e=st.just("itemize"), items=lst(doc.fd("_", x=lst(g, 1, 1)), 1, 2)))


def run(c):
    em = Em()
    model(em, c["doc"], c["pre"])
    if em.cells > 2 and em.rows > 1:
        return sorted(x for x in em.seen if x.startswith("cell") or "tab" in x) + (["nested"] if "cell-nest" in em.seen else [])


PROPERTY = Property("C09", [
    Facet("grids", case(doc=lst(blk, 1, 2), pre=pre), run, quick=800, thorough=30000, shards=8,
          rule="documents with tables of generated column specifications, rules, line breaks, spans and cell contents incl. nested tables"),
    big(case(doc=lst(blk, 1, 2), pre=pre), run),
], "a case is non-trivial when it has tables with more than two cells and two rows",
    assumptions=["only commands this library documents as table markup are used as rules and decorations", "a row of one column without any content, and empty rows at the start and end of a table, are not counted as rows",
                 "\\verb in a cell holds no & outside of its delimiters"])
