import os
import re
import tempfile

import canon
import doc
from canon import ws
from gen import case, ix, lst
from hypothesis import strategies as st
from mix import mix
from grow import grown
from pbt import Facet, Property, Violation, sut

NAMES = ["ma", "mb", "mab", "Mc", "zz"]
ENVS = ["ea", "eb", "boxx"]
BODIES = ["plain body", "\\textbf{bold} and {grouped}", "50\\% of \\{x\\}", "\\emph{a \\textbf{b}} \\cite{kk}", "$x_{1}$ and $\\{a\\}$", "line one\n  line two", "\\begin{document}", "\\usepackage{inner}", "\\newcommand{\\inner}{x}", "\\def\\inner{y}", "",
          "\\ensuremath{\\alpha}", "[b]", "\\\\ x", "\\newif\\ifin", "\\begin{center}c\\end{center}", "\\makeatletter", "\\newenvironment{innerenv}{a}{b}"]
# bodies that change nothing for the text that follows the use of the macro
USABLE = [0, 1, 2, 3, 4, 5, 10, 11, 15]
PK = ["amsmath", "amsmath,amssymb", "xcolor, tikz", "graphicx", "my-style", "a_b"]
OPTS = ["", "[utf8]", "[a=b,c={d e}]", "[hidelinks,\n  colorlinks=true]", "[x,y]", " [z] "]


def macro(i):
    n = NAMES[i["n"] % len(NAMES)]
    b = BODIES[(USABLE[i["b"] % len(USABLE)] if i.get("use") else i["b"]) % len(BODIES)]
    a = i["a"] % 3
    arg = "".join(" #%d" % (j + 1) for j in range(a))
    f = i["f"] % 12
    br = "" if not a else "[%d]" % a + ("[dflt]" if i["o"] else "")
    d = "".join("#%d" % (j + 1) for j in range(a))
    s = ["\\newcommand{\\%s}%s{%s}" % (n, br, b + arg), "\\newcommand*{\\%s}%s{%s}" % (n, br, b + arg), "\\renewcommand\\%s%s{%s}" % (n, br, b + arg), "\\providecommand{\\%s}%s{%s}" % (n, br, b + arg), "\\DeclareRobustCommand{\\%s}%s{%s}" % (n, br, b + arg),
         "\\newcommand {\\%s} %s {%s}" % (n, br, b + arg), "\\def\\%s%s{%s}" % (n, d, b + arg), "\\gdef\\%s%s{%s}" % (n, d, b + arg), "\\long\\def\\%s%s{%s}" % (n, d, b + arg), "\\edef\\%s{e%s}" % (n, n), "\\newcommand{\\%s}%s{%%\n  %s%%\n}" % (n, br, b + arg), "\\xdef\\%s{x%s}" % (n, n)][f]
    opt = i["o"] and a and f in (0, 1, 2, 3, 4, 5, 10)
    if f in (9, 11):
        a = 0
    u = "\\%s" % n + ("[o]" if opt and i["n"] % 2 else "") + "".join("{arg%d}" % j for j in range(a - (1 if opt else 0))) + "{}"
    return s, u


def env(i):
    n = ENVS[i["n"] % len(ENVS)]
    a = i["a"] % 3
    b = BODIES[(USABLE[i["b"] % len(USABLE)] if i.get("use") else i["b"]) % len(BODIES)]
    br = "[%d]" % a if a else ""
    s = ["\\newenvironment{%s}%s{%s}{%s}", "\\renewenvironment{%s}%s{%s}{%s}", "\\newenvironment*{%s}%s{%s}{%s}", "\\newenvironment{%s}%s\n  {%s}\n  {%s}"][i["f"] % 4]
    return s % (n, br, b + "".join(" #%d" % (j + 1) for j in range(a)), "end \\textit{x}"), "\\begin{%s}%s inside \\end{%s}" % (n, "".join("{arg%d}" % j for j in range(a)), n)


FIXED = [
    ("\\newtheorem{th1}{Theorem}", "\\begin{th1} text \\end{th1}"), ("\\newtheorem{th2}{Lemma}[section]", "\\begin{th2}[n] text \\end{th2}"), ("\\newtheorem{th3}[th1]{Claim}", "\\begin{th3} text \\end{th3}"), ("\\newtheorem*{th4}{Remark}", "a \\begin{th4} text \\end{th4}"),
    ("\\DeclareMathOperator{\\opa}{opa}", "$\\opa x$"), ("\\DeclareMathOperator*{\\opb}{arg\\,max}", "$\\opb_x$"), ("\\DeclarePairedDelimiter{\\absx}{\\lvert}{\\rvert}", "$\\absx{y}$"), ("\\newif\\ifswa", ""), ("\\newif \\ifswb", ""),
    ("\\definecolor{cola}{rgb}{1,0,0}", "\\textcolor{cola}{red}"), ("\\definecolor{colb}{HTML}{FF00FF}", "\\textcolor{colb}{pink}"), ("\\setlength{\\parindent}{0pt}", ""), ("\\newlength{\\lena}", ""), ("\\newcounter{cnta}", ""), ("\\newcounter{cntb}[section]", ""),
    ("\\setcounter{page}{2}", ""), ("\\newcolumntype{C}[1]{>{\\centering}p{#1}}", "\\begin{tabular}{ll} a & b \\end{tabular}"), ("\\crefname{figure}{Fig.}{Figs.}", "\\cref{x}"), ("\\let\\leta\\textbf", "\\leta{bold}"), ("\\let\\letb=\\emph", "\\letb{it}"),
    ("\\makeatletter\n\\def\\@ata{x}\n\\newcommand{\\@atb}[1]{y #1}\n\\makeatother", ""), ("\\makeatletter \\newcommand{\\atc}{\\textbf{q}} \\makeatother", "\\atc{}"), ("\\makeatletter\n\\@ifundefined{x}{\\def\\y{1}}{}\n\\renewcommand\\section{\\@startsection{section}{1}}\n\\makeatother", ""),
    ("\\usetikzlibrary{arrows,shapes}", ""), ("\\usepgfplotslibrary{groupplots}", ""), ("\\usetheme{Madrid}", ""), ("\\usecolortheme[named=red]{structure}", ""), ("\\useoutertheme {infolines}", ""), ("\\setlength\\parskip{3pt}", ""), ("\\newcounter {cntc}", ""), ("\\newdimen\\dima", ""), ("\\newtheorem{th5}{My Theorem}", ""), ("\\newsavebox{\\sba}", None), ("\\newtoks\\toka", ""),
]
FIXED = [x for x in FIXED if x[1] is not None]
SILENT = ["", "\n", "% a comment", "%\\newcommand{\\no}{x}", "% \\usepackage{no} \\begin{document}", "  % \\makeatletter", "\\pagestyle{empty}", "\\geometry{margin=1in}", "\\hypersetup{pdftitle={x}, colorlinks}", "\\theoremstyle{definition}", "\\sloppy",
          "\\hyphenation{da-ta}", "\\allowdisplaybreaks", "\\graphicspath{{figs/}}", "\\bibliographystyle{plain}"]
LOUD = ["\\raggedbottom", "\\setstretch{1.2}", "\\title{A \\textbf{title} 5\\%}", "\\author{A \\and B}", "\\date{\\today}", "\\title[short]{long}", "\\author{X\\thanks{y}}", "\\address{Somewhere}", "\\begin{filecontents}{a.sty}\n\\newcommand{\\no}{x}\n\\usepackage{no}\n\\end{filecontents}", "\\begin{filecontents*}{b.bib}\n@book{a}\n\\end{filecontents*}",
        "\\mythinghere{x}{y}", "plain text", "\\parindent=0pt", "\\tolerance=1000", "\\numberwithin{equation}{section}"]
CLASSES = ["\\documentclass{article}", "\\documentclass[11pt,a4paper]{article}", "\\documentclass[\n  twocolumn,\n  10pt\n]{article}", "\\documentclass {article} % \\usepackage{no}", "\\documentclass[a=b]{my-class}"]
BODY = ["words \\textbf{here}.", "\\section{One}\\label{a} text", "\\newcommand{\\bodymac}{z} \\bodymac{}", "\\begin{itemize}\\item a\\end{itemize}", "\\begin{equation}\\label{e} x \\end{equation}", "\\usepackage{body}", "% \\newcommand{\\c}{d}\n more", "\\def\\bodydef{q}\\bodydef", "\\begin{verbatim}\n\\newcommand{\\x}{y}\n\\end{verbatim}"]


def pieces(items):
    """-> [(source, kept?)], uses"""
    out, uses, kinds = [], [], set()
    for i in items:
        k = i["k"]
        u = ""
        if k == "mac":
            s, u = macro(i)
        elif k == "env":
            s, u = env(i)
        elif k == "fix":
            s, u = FIXED[i["i"] % len(FIXED)]
        elif k == "pk":
            s = "\\%s%s{%s}" % (["usepackage", "usepackage", "RequirePackage"][i["f"] % 3], OPTS[i["o"] % len(OPTS)], PK[i["i"] % len(PK)])
        elif k == "hook":
            s, u = macro(i)
            out += [("\\AtBeginDocument{", False), (s, True), ("}", False)]
            uses.append(u)
            kinds.add(k)
            continue
        else:
            s = (SILENT if k == "silent" else LOUD)[i["i"] % len(SILENT if k == "silent" else LOUD)]
            out.append((s, False))
            continue
        kinds.add(k)
        out.append((s, True))
        if u:
            uses.append(u)
    return out, uses, kinds


def source(c):
    before, u1, k1 = pieces(c["before"])
    after, u2, k2 = pieces(c["after"])
    seps = ["\n", "\n", "\n\n", " % note \\newcommand{\\no}{x}\n", "\n  ", "%\n"]

    def lay(ps):
        return "".join(s + seps[(c["sep"] + j) % len(seps)] for j, (s, _) in enumerate(ps))
    cls = CLASSES[c["cls"] % len(CLASSES)] + "\n" if c["cls"] >= 0 else ""
    head = lay(before) + cls + lay(after)
    kept = [s for s, k in before + after if k]
    uses = u1 + u2
    body = ["\\begin{document}", "\\begin {document}", "\\begin{document} % c"][c["bd"] % 3] + "\n" + "\n\n".join([BODY[b] for b in c["body"]] + (uses if c["use"] else [])) + "\n\\end{document}\n"
    return head, kept, body, k1 | k2


def bare(s):
    s = re.sub(r"(?<!\\)%[^\n]*", "", s)
    return "".join(s.split())


_PROC = []


def run_listing(c):
    from latex2json import LatexPreamble
    head, kept, body, kinds = source(c)
    src = head + body
    p = LatexPreamble()
    if c["again"]:
        sut("get_preamble", p.get_preamble, "\\documentclass{x}\\newcommand{\\old}{o}\\newenvironment{olde}{a}{b}\\begin{document}x\\end{document}")
    if c["file"]:
        with tempfile.TemporaryDirectory() as d:
            with open(os.path.join(d, "m.tex"), "w", encoding="utf-8") as fh:
                fh.write(src)
            out = sut("get_preamble_from_file", p.get_preamble_from_file, os.path.join(d, "m.tex" if c["file"] == 1 else "m"))
    else:
        out = sut("get_preamble", p.get_preamble, src)
    exact = not any("%" in re.sub(r"\\%", "", k) for k in kept)
    want = "\n".join(kept)
    if (ws(out) != ws(want)) if exact else (bare(out) != bare(want)):
        raise Violation("preamble of\n%s\n is\n%s\n and not\n%s" % (src, out, want))
    if kinds:
        return sorted(kinds)


def run_same(c):
    from latex2json import LatexPreamble
    head, kept, body, kinds = source(c)
    out = sut("get_preamble", LatexPreamble().get_preamble, head + body)
    a = canon.canon(canon.process(head + body, True, spaces=False))
    b = canon.canon(canon.process(out + "\n" + body, True, spaces=False))
    canon.require_canon(b, a, "full document:\n%s\n with its extracted preamble:\n%s" % (head + body, out))
    if kinds & {"mac", "env", "fix", "hook"}:
        return sorted(kinds)


def item(use):
    u = st.just(use)
    nb = st.integers(0, len(BODIES) - 1)
    m = dict(n=st.integers(0, 4), b=nb, a=st.integers(0, 2), o=st.booleans(), f=st.integers(0, 11), use=u)
    opts = [doc.fd("mac", **m), doc.fd("mac", **m), doc.fd("env", **m), doc.fd("fix", i=ix(FIXED)), doc.fd("fix", i=ix(FIXED)), doc.fd("pk", i=ix(PK), o=ix(OPTS), f=st.integers(0, 2)), doc.fd("silent", i=ix(SILENT))]
    if not use:
        opts += [doc.fd("loud", i=ix(LOUD)), doc.fd("hook", **m)]
    return mix(*opts)


def strategy(use, **kw):
    return case(before=mix(st.just([]), lst(item(use), 0, 2)), after=lst(item(use), 0, 7), cls=st.integers(-1, len(CLASSES) - 1) if not use else ix(CLASSES), sep=st.integers(0, 5), bd=st.integers(0, 2), body=lst(ix(BODY), 0, 3), use=st.just(use), **kw)


PROPERTY = Property("C20", [
    Facet("listing", strategy(False, again=st.booleans(), file=st.integers(0, 2)), run_listing, quick=3000, thorough=80000, shards=8,
          rule="preambles of macro, environment, theorem, length, counter and colour definitions, package loads and makeatletter blocks in every form, before and after the class, among comments, front matter, settings and file contents, followed by bodies that hold definitions as well"),
    Facet("same", strategy(True), run_same, quick=1600, thorough=40000, shards=8,
          rule="documents whose body uses what the preamble defines and redefines, with the full and with the extracted preamble"),
], "a case is non-trivial when the preamble holds a definition or package load (a definition in the facet 'same')",
    assumptions=["the comments inside of a definition are left out", "settings of switches in the preamble are no definitions", "local package files are covered by C21"])
grown(PROPERTY, 150)
