import json
import os
import sys
import threading

import tree
import zygote
from hypothesis import strategies as st
from gen import case, ix, lst
from grow import grown
from pbt import Facet, Property, Violation, require, require_eq, sut

# what a document defines (V: a word of its own) ...
DEFS = ["\\newcommand{\\qma}{V}", "\\renewcommand{\\qma}[1][V]{V #1}", "\\def\\qmb#1{V #1}", "\\newcommand{\\qmb}[2]{V #2 #1}", "\\newenvironment{qenv}{V }{ V}", "\\newenvironment{qenv}[1]{\\textbf{V #1}}{}", "\\newtheorem{qthm}{Theorem}", "\\newtheorem{qthm}{V}", "\\newtheorem{lemma}{V}",
        "\\definecolor{qcol}{RGB}{1,2,3}", "\\definecolor{qcol}{HTML}{AABBCC}", "\\newif\\ifqsw \\qswtrue", "\\newif\\ifqsw \\qswfalse", "\\newsavebox{\\qbox}\\savebox{\\qbox}{V}", "\\newsavebox{\\qbox}\\sbox{\\qbox}{\\emph{V}}", "\\setbox\\qbox=\\hbox{V}", "\\defcitealias{qkey}{V}", "\\newcounter{qcnt}\\setcounter{qcnt}{7}",
        "\\let\\qlet\\textbf", "\\let\\qlet=\\emph", "\\DeclareMathOperator{\\qop}{V}", "\\DeclarePairedDelimiter{\\qpd}{(}{)}", "\\newfloat{qfloat}{t}{lop}\\floatname{qfloat}{V}", "\\floatname{figure}{V}", "\\usepackage{mypkg}", "\\makeatletter\\define@key{qfam}{qk}{V #1}\\makeatother", "\\newlength{\\qlen}\\setlength{\\qlen}{3pt}",
        "\\graphicspath{{V/}}", "\\newcommand{\\qsec}[1]{\\section{V #1}}", "\\def\\qbe{\\begin{equation}}\\def\\qee{\\end{equation}}", "\\renewcommand{\\emph}[1]{V #1}", "\\providecommand{\\qmc}{V}", "\\expandafter\\def\\csname qmd\\endcsname{V}", "\\newtoks\\qtok", "\\renewcommand{\\thesection}{V}", "\\newcommand{\\today}{V}", "\\author{V} \\title{V}",
        "\\newcolumntype{Q}{c}", "\\let\\oldsec\\section", "\\NewDocumentCommand{\\qnd}{m}{V #1}", "\\newcommand*{\\itemlabel}{V}", "\\declaretheorem[name=V]{qdecl}", "\\newtheorem{exercise}{V}[section]", "\\pgfkeys{V}", "\\usetikzlibrary{V}", "\\input{part}"]
# ... and what it uses
USES = ["\\qma{} V", "\\qmb{V}{x}", "\\begin{qenv}{V}V\\end{qenv}", "\\begin{qthm}[V]V\\end{qthm}", "\\begin{lemma}V\\end{lemma}", "\\textcolor{qcol}{V}", "\\ifqsw V\\else x V\\fi", "\\usebox{\\qbox} V", "\\citetalias{qkey} V", "\\theqcnt V", "\\qlet{V}", "$\\qop x + \\qpd{V}$", "\\begin{qfloat}\\caption{V}\\end{qfloat}",
        "\\qpk{V} \\begin{qpenv}V\\end{qpenv}", "\\setkeys{qfam}{qk=V}", "\\hspace{\\qlen}V", "\\includegraphics{V}", "\\qsec{V}", "\\qbe V \\qee", "\\emph{V}", "\\qmc V", "\\qmd V", "\\qtok V", "\\section{V}\\label{qs}", "\\begin{equation}V\\label{qe}\\end{equation}", "\\begin{figure}\\caption{V}\\label{qf}\\end{figure}", "\\begin{table}\\caption{V}\\begin{tabular}{Q}a&V\\end{tabular}\\end{table}",
        "\\appendix\\section{V}", "\\part{V}", "\\begin{enumerate}\\item V\\begin{enumerate}\\item x\\end{enumerate}\\end{enumerate}", "\\begin{algorithm}V\\end{algorithm}", "\\begin{exercise}V\\end{exercise}", "\\bibliography{refs}", "\\cite{V}\\ref{qs}", "\\footnote{V}", "\\subsection{V}", "\\subsubsection*{V}", "\\maketitle", "\\begin{subequations}\\begin{align}V\\label{qe}\\end{align}\\end{subequations}", "\\begin{thebibliography}{9}\\bibitem{V} V\\end{thebibliography}",
        "\\begin{proof}V\\end{proof}", "\\oldsec{V}", "\\qnd{V}", "\\begin{qdecl}V\\end{qdecl}", "\\today", "\\input{part}", "\\begin{corollary}V\\end{corollary}", "\\begin{itemize}\\item[V] x\\end{itemize}", "\\begin{tikzpicture}\\draw V;\\end{tikzpicture}", "\\verb|V|"]
# ... and how it is damaged
BAD = ["{\\bf V", "\\begin{itemize}\\item V", "\\begin{figure}V", "\\begin{verbatim}V", "$ V", "\\iftrue V", "\\newcommand{\\qma}", "\\textbf{V", "\\begin{equation} V", "\\section{V", "\\footnote{V", "\\begin{tabular}{cc}V &", "\\end{document}", "}", "\\fi", "\\end{itemize}", "\\appendix", "\\begin{abstract}V", "\\bf\\Large\\color{qcol} V", "\\qswfalse\\qswtrue", "\\verb|V", "\\ifqsw V \\else", "\\caption{V}",
       "\\label{qs}", "\\item V", "\\usebox", "\\begin{appendices}V", "\\[ V", "\\begin{thebibliography}{9}\\bibitem{V} V", "\\makeatletter"]

# topics: definitions and uses of the same thing
TOPICS = [
    (["\\usepackage{mypkg}", "\\usepackage{mypkg,other}", "\\RequirePackage{other}", "\\documentclass{mycls}"], ["\\qpk{V}", "\\begin{qpenv}V\\end{qpenv}", "\\qma V", "\\ifqsw V\\else x\\fi", "\\qcls{V}"]),
    (["\\makeatletter\\define@key{qfam}{qk}{V #1}\\makeatother", "\\define@key{qfam}{qk}[V]{[#1]}", "\\define@key{qfam}{qj}{\\def\\qma{V}}"], ["\\setkeys{qfam}{qk=V}", "\\setkeys{qfam}{qk}", "\\setkeys{qfam}{qj=1} \\qma"]),
    (["\\newbool{qb}\\booltrue{qb}", "\\newbool{qb}\\boolfalse{qb}", "\\newtoggle{qt}\\toggletrue{qt}", "\\newtoggle{qt}\\togglefalse{qt}", "\\setbool{qb}{true}", "\\providebool{qb}"], ["\\ifbool{qb}{V}{x}", "\\iftoggle{qt}{V}{x}", "\\notbool{qb}{V}{x}", "\\nottoggle{qt}{V}{x}", "\\ifthenelse{\\boolean{qb}}{V}{x}"]),
    (["\\setbox1=\\hbox{V}", "\\setbox0\\hbox{V}", "\\newbox\\qb \\setbox\\qb=\\vbox{V}", "\\savebox{\\qbox}{V}", "\\sbox{\\qbox}{\\textbf{V}}"], ["\\box1", "\\copy0", "\\unhbox1", "\\usebox{\\qbox}", "\\box\\qb", "$x \\usebox{\\qbox} \\copy\\qb$", "\\usebox\\qbox"]),
    (["\\defcitealias{qkey}{V}", "\\defcitealias{qk2}{V}"], ["\\citetalias{qkey}", "\\citepalias{qkey}", "\\citepalias{qk2}", "$\\text{\\citetalias{qkey}}$", "\\citetalias[V]{qk2}"]),
    (["\\floatname{figure}{V}", "\\floatname{qfloat}{V}", "\\newfloat{qfloat}{t}{x}", "\\floatname{table}{V}", "\\floatname{algorithm}{V}"], ["\\begin{figure}\\caption{V}\\end{figure}", "\\begin{qfloat}\\caption{V}\\end{qfloat}", "\\begin{algorithm}V\\end{algorithm}", "\\begin{table}V\\end{table}"]),
    (["\\author{V\\thanks{V}}", "\\author{V \\and V}", "\\thanks{V}", "\\title{V\\thanks{V}}", "\\author[1]{V}", "\\affil[1]{V}"], ["\\thanks{V}", "\\affil{V}", "\\email{V}", "\\address{V}", "\\maketitle", "\\footnotemark[1]", "\\author{V}", "\\thanksref{V}"]),
    (["\\newtheorem{qthm}{Theorem}", "\\newtheorem{qthm}{V}", "\\newtheorem{lemma}{V}", "\\newtheorem*{qthm}{Lemma}", "\\newtheorem{qthm}[lemma]{Claim}"], ["\\begin{qthm}[V]V\\end{qthm}", "\\begin{lemma}V\\end{lemma}", "\\begin{qthm}V\\end{qthm}", "\\begin{theorem}V\\end{theorem}"]),
    (["\\newif\\ifqsw \\qswtrue", "\\newif\\ifqsw \\qswfalse", "\\newif\\ifqsw", "\\qswfalse", "\\let\\ifqsw\\iffalse"], ["\\ifqsw V\\else x\\fi", "\\qswtrue\\ifqsw V\\else x\\fi", "\\ifqsw V", "\\ifthenelse{\\boolean{qsw}}{V}{x}"]),
    (["\\definecolor{qcol}{RGB}{1,2,3}", "\\definecolor{qcol}{HTML}{AABBCC}", "\\colorlet{qcol}{red}"], ["\\textcolor{qcol}{V}", "{\\color{qcol} V}", "\\colorbox{qcol}{V}"]),
    (["\\newcommand{\\qma}{V}", "\\def\\qma#1{V #1}", "\\newcommand{\\qma}[2][V]{#1 #2}", "\\let\\qma\\emph", "\\let\\qma=\\textbf", "\\DeclareMathOperator{\\qma}{V}", "\\expandafter\\def\\csname qma\\endcsname{V}", "\\newcommand{\\emph}[1]{V #1}", "\\providecommand{\\qma}{V}", "\\edef\\qma{V}"], ["\\qma{V}", "$\\qma x$", "\\emph{V}", "\\section{\\qma V}", "\\textbf{\\qma{V}}", "\\begin{tabular}{c}\\qma V\\end{tabular}", "\\csname qma\\endcsname", "\\footnote{\\qma V}"]),
    (["\\newenvironment{qenv}{V }{ V}", "\\newenvironment{qenv}[1]{\\textbf{V #1}}{}", "\\renewenvironment{quote}{V}{V}", "\\newenvironment{equation}{V}{}", "\\newenvironment{qenv}[1][V]{#1}{}", "\\renewenvironment{figure}{V}{V}"], ["\\begin{qenv}{V}V\\end{qenv}", "\\begin{quote}V\\end{quote}", "\\begin{equation}V\\end{equation}", "\\begin{qenv}V\\end{qenv}", "\\begin{figure}V\\end{figure}"]),
    (["\\appendix", "\\part{V}", "\\setcounter{section}{4}", "\\renewcommand{\\thesection}{V}", "\\begin{appendices}V", "\\section*{V}", "\\numberwithin{equation}{section}"], ["\\section{V}", "\\subsection{V}\\label{q}", "\\begin{equation}V\\label{q}\\end{equation}", "\\begin{theorem}V\\end{theorem}", "\\begin{figure}\\caption{V}\\end{figure}", "\\begin{algorithm}V\\end{algorithm}", "\\part{V}"]),
    (["\\begin{enumerate}\\item V", "{\\bf V", "\\em V", "\\begin{itemize}", "\\color{red}", "\\textbf{V", "\\begin{quote}", "\\item V"], ["\\begin{enumerate}\\item V\\end{enumerate}", "V", "\\textit{V}", "\\em V \\em V", "\\label{V}", "\\item[V] V"]),
    (["\\bibliography{refs}", "\\begin{thebibliography}{9}\\bibitem{V}V", "\\graphicspath{{V/}}", "\\input{part}", "\\addbibresource{refs.bib}"], ["\\bibliography{refs}", "\\includegraphics{V}", "\\input{part}", "\\printbibliography", "\\cite{V}", "\\qma"]),
]


def text(d, k, topics=()):
    out = []
    for n, (kind, i) in enumerate(d["p"]):
        pool = (DEFS, USES, BAD)[kind]
        if kind < 2 and topics and i % 8:
            pool = TOPICS[topics[i % len(topics)]][kind]
            i //= 8
        out.append(pool[i % len(pool)].replace("V", "w%d%s" % (k, "abcdefghijklmnopqrst"[n])))
    s = "\n\n".join(out)
    if d["doc"]:
        s = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n" % s
    return s


def sides(d, k):
    w = "s%d" % k
    return {"mypkg.sty": "\\newcommand{\\qpk}[1]{%s #1}\n\\newenvironment{qpenv}{%s}{}\n\\newif\\ifqsw\n\\RequirePackage{other}\n" % (w, w), "mycls.cls": "\\newcommand{\\qcls}[1]{%s #1}\n" % w, "other.sty": "\\newcommand{\\qma}{%sother}\n" % w,
            "refs.bib": "@misc{%s, title={%s}}\n" % (w, w), "part.tex": "%spart \\renewcommand{\\qma}{%spart} \\qpk{x}\n" % (w, w)} if d["side"] else {}


def as_file(path):
    return lambda r: r.process(path)


def use(how, obj, path, src):
    """process a document with a reader, or a parser and a builder -> JSON data"""
    if how == "reader":
        res = sut("process", obj.process, path)
        return json.loads(sut("to_json", obj.to_json, res)), res
    parser, builder = obj
    parser.clear()
    builder.clear()
    toks = sut("parse", parser.parse, src, preprocess=how == "parser+")
    return dump(sut("build", builder.build, toks), parser.get_colors()), None


def dump(toks, colors):
    return json.loads(json.dumps({"tokens": [t.model_dump(mode="json", exclude_none=True) for t in toks], "color_map": colors}))


def make(how):
    from latex2json import LatexParser, TokenBuilder
    from latex2json.tex_reader import TexReader
    return TexReader() if how == "reader" else (LatexParser(), TokenBuilder())


def fresh(req):
    return use(req["how"], make(req["how"]), req["path"], req["src"])[0]


def setup():
    import latex2json.tex_reader
    latex2json.tex_reader.TexReader()
    return zygote.get("c16", fresh)


def baseline(z, how, path, src):
    r = z.ask({"how": how, "path": path, "src": src})
    if "error" in r:
        return {"error": r["error"].split(":")[0]}
    return r["ok"]


def run(c):
    z = setup()
    files, srcs = {}, []
    for k, d in enumerate(c["docs"]):
        srcs.append(text(d, k, c["t"]))
        files["d%d/main.tex" % k] = srcs[-1]
        for n, s in sides(d, k).items():
            files["d%d/%s" % (k, n)] = s
    kinds = ["reader", "parser", "parser+", "reader", "parser"]
    inst, log, base, results, count = {}, [], {}, [], {}
    with tree.scratch(files) as top:
        for o in c["ops"]:
            i, k = o["i"], o["d"] % len(srcs)
            how, path = kinds[i], "%s/d%d/main.tex" % (top, k)
            if i not in inst:
                inst[i] = make(how)
            if o["fail"] and how == "reader":
                log.append("instance %d fails" % i)
                r = inst[i]
                if o["fail"] == 1:
                    r.token_builder.build = lambda *a, **k: 1 / 0
                    path2 = path
                else:
                    path2 = top + "/none.tex"
                try:
                    r.process(path2)
                except Exception:
                    pass
                else:
                    raise Violation("a failing document did not fail")
                finally:
                    if o["fail"] == 1:
                        del r.token_builder.build
            log.append("instance %d (%s): document %d" % (i, how, k))
            key = (how, k)
            if key not in base:
                base[key] = baseline(z, how, path, srcs[k])
            try:
                got, res = use(how, inst[i], path, srcs[k])
            except Violation as e:
                require("error" in base[key], "fails after other documents only: %s" % e, log, *srcs)
                continue
            if got != base[key]:
                require_eq(got, base[key], "output differs from the one of a fresh process", "; ".join(log), *["--- document %d\n%s" % x for x in enumerate(srcs)])
            if res is not None:
                results.append((inst[i], res, got))
            count[i] = count.get(i, []) + [k]
        for r, res, got in results:
            now = json.loads(sut("to_json", r.to_json, res))
            require_eq(now, got, "an earlier result was changed by later documents", log)
    again = [x for x in count.values() if len(x) > 1]
    if again:
        return ["%d uses of an instance" % min(5, max(map(len, again)))] + ["other documents before"] * any(len(set(x)) > 1 for x in again) + ["same document again"] * any(len(set(x)) < len(x) for x in again) + ["several instances"] * (len(count) > 1)


def run_threads(c):
    z = setup()
    jobs = []
    for k, d in enumerate(c["docs"]):
        jobs.append(["parser+" if d["doc"] else "parser", text(d, k, c["t"])])
    base = [baseline(z, how, "", src) for how, src in jobs]
    got = [[None] * c["n"] for _ in jobs]
    objs = [make(how) for how, _ in jobs]
    start = threading.Barrier(len(jobs))

    def work(i):
        how, src = jobs[i]
        start.wait()
        for n in range(c["n"]):
            try:
                p, b = objs[i]
                p.clear()
                b.clear()
                got[i][n] = dump(b.build(p.parse(src, preprocess=how == "parser+")), p.get_colors())
            except Exception as e:
                got[i][n] = {"error": type(e).__name__}
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            require(not t.is_alive(), "a thread does not end", [s for _, s in jobs])
    finally:
        sys.setswitchinterval(old)
    for i, (how, src) in enumerate(jobs):
        for n in range(c["n"]):
            require_eq(got[i][n], base[i], "output of a thread differs from the one of a fresh process", how, src)
    if len(jobs) > 1:
        return ["%d threads" % len(jobs)]


s_doc = st.fixed_dictionaries({"p": st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 1, 1, 1, 2]), st.integers(0, 99)).map(list), min_size=1, max_size=8), "doc": st.booleans(), "side": st.sampled_from([True, True, False])})
s_op = st.fixed_dictionaries({"i": st.sampled_from([0, 0, 1, 2, 3, 4]), "d": st.integers(0, 3), "fail": st.sampled_from([0, 0, 0, 0, 1, 2])})

PROPERTY = Property("C16", [
    Facet("history", case(t=lst(ix(TOPICS), 1, 2), docs=st.lists(s_doc, min_size=2, max_size=4), ops=st.lists(s_op, min_size=2, max_size=8)), run, quick=1500, thorough=40000, shards=8,
          rule="sequences of documents that define and use the same names, by several readers and parsers, with failures in between"),
    Facet("threads", case(t=lst(ix(TOPICS), 1, 2), docs=st.lists(s_doc, min_size=2, max_size=4), n=st.integers(1, 3)), run_threads, quick=300, thorough=6000, shards=8,
          rule="documents parsed at the same time by instances in several threads"),
], "a case is non-trivial when an instance processes more than one document, or several threads run",
    assumptions=["thread schedules are the ones of the interpreter with a switch interval of 10 microseconds"])
grown(PROPERTY, 64, only=("history",))
