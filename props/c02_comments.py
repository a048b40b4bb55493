from hypothesis import strategies as st
from mix import mix
import re
import canon
import doc
import tree
from grow import big
from pbt import Facet, Property, require

TEXTS = ["", " plain remark", " \\begin{figure}", " }", " {", " $", "$$ x", " \\end{document}", " \\verb|", " \\begin{verbatim}", "% %% ",
         " \\newcommand{\\zz}{", " \\item", " & \\\\", " \\[", " ``", " '", " \\iffalse", " \\fi", " \\else", " \\section{no}", " \\label{no}",
         " déjà 中文", " \\url{a%b}", " \\end{itemize}", " 100\\% sure", " #1", " ]", " [", " \\begin{comment}", " \\end{comment}", "\\", " \\\\",
         " \\input{nofile}", " \\def\\a#1{", " \\appendix", " \\begin{lstlisting}", " \\lstinline!", " \\verb+x", " TODO: fix $x$ \\cite{key}", " \\renewcommand{\\section}{}"]
ENVTEXTS = [t for t in TEXTS if "comment" not in t]
PROTECT = ("verbatim", "lstlisting", "tikzpicture", "picture", "pgfpicture", "algorithmic")

cmt = doc.fd("cmt", i=st.integers(0, len(TEXTS) - 1))
bcmt = doc.fd("bcmt", i=st.lists(st.integers(0, len(TEXTS) - 1), min_size=1, max_size=3))
ecmt = doc.fd("ecmt", i=st.lists(st.integers(0, len(ENVTEXTS) - 1), min_size=1, max_size=3))


class Em(doc.Emitter):
    def i_cmt(self, nd, styles):
        return "%" + TEXTS[nd["i"]] + "\n", []

    def b_bcmt(self, nd):
        return "\n".join("%" + TEXTS[i] for i in nd["i"]), []

    def b_ecmt(self, nd):
        return "\\begin{comment}\n%s\n\\end{comment}" % "\n".join(ENVTEXTS[i] for i in nd["i"]), []


def check(nodes, pre):
    em = Em()
    l, flat = em.blks(nodes)
    canon.require_canon(canon.canon(canon.process(l, pre)), doc.assemble(flat), l)
    return em


def run_nodes(case):
    """comments between any two words, in headings, captions, cells, items; model oracle"""
    em = check(case["doc"], case["pre"])
    hit = em.seen & {"cmt", "bcmt", "ecmt"}
    if hit and em.words:
        return sorted(em.seen)


leaves = [doc.s_text, doc.s_text, doc.s_math, doc.s_cite, doc.s_esc, doc.s_url, cmt, cmt]
inl = doc.s_inl(2, 2, 6, leaves=leaves)
title = st.lists(mix(doc.s_text, doc.s_math, cmt), min_size=1, max_size=3).map(lambda x: [{"k": "t", "n": 1, "f": 0}] + x)
par = doc.fd("par", x=inl)
cell = mix(st.just([]), st.lists(mix(doc.s_text, doc.s_math, doc.s_esc, cmt), min_size=1, max_size=3))
blk = mix(
    par, par, bcmt, bcmt, ecmt,
    doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=title, lab=st.integers(0, 2)),
    doc.fd("list", e=st.sampled_from(["itemize", "enumerate"]),
           items=st.lists(doc.fd("_", x=st.lists(mix(par, bcmt, ecmt), min_size=1, max_size=3).map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)), min_size=1, max_size=3)),
    doc.fd("float", e=st.sampled_from(["figure", "table"]), center=st.booleans(), cap=title, lab=st.integers(0, 2),
           x=st.lists(mix(doc.s_bimg, bcmt, doc.s_tab(cell=cell)), min_size=1, max_size=3)),
    doc.fd("thm", e=st.sampled_from(["theorem", "proof"]), x=st.lists(mix(par, bcmt, ecmt), min_size=1, max_size=3).map(lambda x: [{"k": "par", "x": [{"k": "t"}]}] + x)),
    doc.s_eq, doc.s_code,
)


def add_comments(src, marks):
    """marks: list of [position, kind, text] -> source with comments; lines inside of
    verbatim or drawing environments are left alone"""
    lines = src.split("\n")
    inside, ok = None, []
    for i, ln in enumerate(lines):
        if inside is None:
            m = re.match(r"\\begin\{(%s)\}" % "|".join(PROTECT), ln)
            m = m or re.search(r"\\begin\{(%s)\}" % "|".join(PROTECT), ln)
            if m:
                inside = m.group(1)
                if "\\end{%s}" % inside in ln:
                    inside = None
            else:
                ok.append(i)
        elif "\\end{%s}" % inside in ln:
            inside = None
            ok.append(i)
    if not ok:
        return src, 0
    end, before = {}, {}
    for pos, kind, t in marks:
        i = ok[pos % len(ok)]
        if kind == 0:
            end[i] = t
        elif "\\end{" not in lines[i] or not any("\\end{%s}" % p in lines[i] for p in PROTECT):
            before.setdefault(i, []).append(t)
    out = []
    for i, ln in enumerate(lines):
        for t in before.get(i, []):
            out.append("  %" + TEXTS[t])
        if i in end:
            glue = "" if re.search(r"[}\]]$|(?<!\\)\\\\$", ln) else " "
            ln = ln + glue + "%" + TEXTS[end[i]]
        out.append(ln)
    return "\n".join(out), len(end) + len(before)


def run_lines(case):
    """metamorphic: comments added at line ends and on their own lines of any document"""
    l, _, em = doc.render(case["doc"])
    src, n = add_comments(l, case["marks"])
    a = canon.canon(canon.process(l, case["pre"]))
    b = canon.canon(canon.process(src, case["pre"]))
    canon.require_canon(b, a, src, "comments change the output")
    if n and em.words:
        return sorted(em.seen)


def run_percent(case):
    """escaped percent signs, escaped backslash pairs before a comment"""
    em = Em()
    src, want = [], []
    for kind, t in case["parts"]:
        w = em.word()
        if kind == 0:
            src.append(w + " 50\\% ")
            want += [w, "50", "%"]
        elif kind == 1:
            src.append(w + " \\\\%" + TEXTS[t] + "\n")
            want += [w]
        elif kind == 2:
            src.append(w + " %" + TEXTS[t] + "\n")
            want += [w]
        elif kind == 3:
            src.append("\\verb|%" + w + "| ")
            want += [{"c": "%" + w}]
        elif kind == 4:
            src.append(w + "\\% %" + TEXTS[t] + "\n")
            want += [w, "%"]
        elif kind == 5:
            src.append("\\url{http://x.y/%%20%s} " % w)
            want += [{"u": "http://x.y/%20" + w}]
        else:
            src.append("$%s \\%%$ %%%s\n" % (w, TEXTS[t]))
            want += [{"m": w + " \\%"}]
    l = "".join(src)
    wc = []
    for x in want:
        if isinstance(x, str):
            wc.append(["w", x, []])
        elif "c" in x:
            wc.append({"type": "code", "content": x["c"], "display": "inline"})
        elif "u" in x:
            wc.append({"type": "url", "content": x["u"]})
        else:
            wc.append({"type": "equation", "content": x["m"]})
    canon.require_canon(canon.canon(canon.process(l, case["pre"])), wc, l)
    return ["kind%d" % k for k, _ in case["parts"]] if len(case["parts"]) > 1 else None


BBLS = ["\\bibitem%s{key%d}\n%s Author.\n\\newblock {\\em %s title}.\n\\newblock 12(3), 4--5\n", "\\bibitem%s{key%d} %s one %s two\n"]
DEFS = ["\\newcommand{\\mac%s}[1]{\n  %s\n  #1\n}\n", "\\def\\mac%s#1{%s #1}\n", "\\newtheorem{mac%s}{%s}\n\\newcommand{\\mac%sx}{y}\n", "\\definecolor{mac%s}{rgb}{0,0,0}\n%%%% %s\n", "\\newif\\ifmac%s\n\\mac%strue\n", "\\newenvironment{mac%s}{\n%s\n}{\n\\par\n}\n"]
USES = ["\\mac%s{%s}", "\\mac%s{%s}", "\\begin{mac%s}\n%s\n\\end{mac%s}", "\\textcolor{mac%s}{%s}", "\\ifmac%s %s\\else no\\fi", "\\begin{mac%s}\n%s\n\\end{mac%s}"]


def run_files(case):
    """metamorphic: comments added to any file of a document in several files: main file, parts, package, bibliography"""
    em = doc.Emitter()
    f, uses = {"part.tex": "", "loc.sty": "", "refs.bbl": ""}, []
    for i, d in enumerate(case["defs"]):
        n, k = "abcdef"[i], d["k"] % len(DEFS)
        x = DEFS[k]
        w = n if k == 4 else em.word()
        f["loc.sty" if d["sty"] and k != 5 else "main.tex"] = f.get("loc.sty" if d["sty"] and k != 5 else "main.tex", "") + x % ((n, w, n)[:x.replace("%%", "").count("%s")])
        u = USES[k]
        uses.append(u % ((n, em.word(), n)[:u.count("%s")]))
    body, _ = em.blks(case["doc"])
    part, _ = em.blks(case["part"])
    f["part.tex"] = part + "\n\n" + "\n\n".join(uses[1:])
    f["refs.bbl"] = "\\begin{thebibliography}{9}\n%s\\end{thebibliography}\n" % "\n".join(
        BBLS[b % len(BBLS)] % (["", "[A%d]" % i][b // 2 % 2], i, em.word(), em.word()) for i, b in enumerate(case["bib"]))
    f["main.tex"] = "\\documentclass{article}\n\\usepackage{loc}\n%s\n\\begin{document}\n%s\n\n%s\n\n\\input{part}\n\n%s\n\\bibliography{refs}\n\\end{document}\n" % (
        f.get("main.tex", ""), body, uses[0], em.word())
    names, got, hit = sorted(f), [], set()
    g = dict(f)
    for name in names:
        marks = [m[1:] for m in case["marks"] if names[m[0] % len(names)] == name]
        if marks:
            g[name], n = add_comments(f[name], marks)
            if n:
                hit.add("in " + name)
    for x in (f, g):
        with tree.scratch(x) as d:
            got.append(tree.read(d + "/main.tex"))
    src = "\n".join("=== %s\n%s" % x for x in sorted(g.items()))
    canon.require_canon(canon.canon(got[1]["tokens"]), canon.canon(got[0]["tokens"]), src, "comments change the output")
    require(got[0]["color_map"] == got[1]["color_map"], "comments change the colours", src)
    # every word is in the output once, except for bodies of package macros
    text = canon.jdump(got[0]["tokens"])
    miss = [w for b in case["bib"][:1] for w in re.findall(r"\\bibitem\S* ?\n?(\w+)", f["refs.bbl"]) if w not in text]
    require(not miss, "words of the bibliography are missing: %s" % miss, src)
    if hit:
        return sorted(hit)


ti = st.integers(0, len(TEXTS) - 1)
PROPERTY = Property("C02", [
    Facet("nodes", st.fixed_dictionaries({"doc": st.lists(blk, min_size=1, max_size=5), "pre": st.booleans()}), run_nodes, quick=5000, thorough=60000, shards=8,
          rule="document with comments as nodes between words, blocks, in headings, captions, items, cells; non-trivial: holds a comment and prose"),
    Facet("lines", st.fixed_dictionaries({"doc": doc.s_doc(2, 5), "marks": st.lists(st.tuples(st.integers(0, 200), st.integers(0, 1), ti).map(list), min_size=1, max_size=6), "pre": st.booleans()}),
          run_lines, quick=3000, thorough=40000, shards=8, rule="any document with comments added at line ends or as lines"),
    Facet("percent", st.fixed_dictionaries({"parts": st.lists(st.tuples(st.integers(0, 6), ti).map(list), min_size=1, max_size=6), "pre": st.booleans()}), run_percent,
          quick=3000, thorough=20000, shards=2, rule="mixtures of escaped percent signs, line breaks, verbatim and urls before comments"),
    Facet("files", st.fixed_dictionaries({
        "doc": doc.s_doc(1, 2), "part": doc.s_doc(1, 2), "bib": st.lists(st.integers(0, 3), min_size=1, max_size=3),
        "defs": st.lists(st.fixed_dictionaries({"k": st.integers(0, 5), "sty": st.booleans()}), min_size=1, max_size=4),
        "marks": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 40), st.integers(0, 1), ti).map(list), min_size=1, max_size=8)}),
          run_files, quick=1000, thorough=15000, shards=8, rule="documents of several files (main file, part, package, bibliography) with comments added to any of them"),
    big(st.fixed_dictionaries({"doc": st.lists(blk, min_size=1, max_size=4), "pre": st.booleans()}), run_nodes),
], "a case is a document and comments to add; non-trivial: at least one comment lands in a document with prose",
    assumptions=["a comment glued to the last word of a line (LaTeX would join it to the next line's word) is not generated"])
