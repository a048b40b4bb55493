"""C22: any input gives valid JSON in bounded steps, never an exception.

soup:   sequences of LaTeX pieces: commands of all kinds with any number and kind of arguments,
        environment begins and ends, delimiters, conditionals, definitions, plain characters.
damage: model documents damaged at random places, after well-formed paragraphs that must stay.
text:   arbitrary Unicode strings mixed with special characters.
cycles: definitions of macros and environments that use themselves and each other.
deep:   a piece repeated or nested many times; the steps taken stay below a linear bound
        in what a size of input costs.
"""
import json

import canon
import doc
import tree
from hypothesis import strategies as st
from mix import mix
from gen import case, ix, lst, pre
from pbt import BUDGET, Facet, Property, Violation, require, require_eq, sut

NAMES = ("textbf textit emph underline texttt textsc text mbox hbox fbox framebox makebox parbox raisebox colorbox fcolorbox textcolor color resizebox scalebox rotatebox pbox shortstack sbox savebox usebox setbox newsavebox "
         "section subsection paragraph subparagraph part chapter title author thanks and date affil affiliation address email keywords abstract maketitle appendix correspondingauthor curraddr texorpdfstring "
         "cite citep citet citealt citeauthor citetalias defcitealias citetext ref eqref autoref cref Cref pageref hyperref href url path doi label footnote footnotemark footnotetext caption captionof subcaption captionsetup "
         "includegraphics includepdf graphicspath input include bibliography bibliographystyle addbibresource printbibliography bibitem newblock bookmark pdfbookmark "
         "newcommand renewcommand providecommand def edef gdef let newenvironment renewenvironment newtheorem newif newcounter setcounter addtocounter stepcounter newlength setlength addtolength newtoks newfam newcolumntype newfloat floatname "
         "DeclareMathOperator DeclarePairedDelimiter DeclareRobustCommand DeclareOption DeclareFontFamily DeclareFontShape SetMathAlphabet crefname definecolor hypersetup lstset tcbset setlist titleformat titlespacing titleclass "
         "usepackage RequirePackage documentclass LoadClass makeatletter makeatother expandafter csname endcsname noexpand futurelet ensuremath protect relax global long begingroup endgroup bgroup egroup "
         "iftrue iffalse ifx ifnum ifdim ifcase ifdefined ifmmode if ifcat else or fi ifthenelse equal isodd not ifbool iftoggle newbool booltrue boolfalse setbool providebool newtoggle toggletrue ifstrequal ifblank IfFileExists @ifundefined @ifpackageloaded @ifstar @namedef @for foreach forloop loop repeat "
         "bf it em rm sf tt sc sl bfseries itshape tiny small large Large huge Huge normalfont normalsize fontsize selectfont usefont fontfamily boldmath mathversion "
         "item itemize enumerate multicolumn multirow makecell hline cline midrule rowcolor cellcolor newline linebreak tabularnewline noalign arrayrulewidth centering raggedright noindent par vspace hspace vskip hskip kern raise lower phantom hfill quad "
         "pagestyle pagenumbering thispagestyle newpage clearpage pagebreak enlargethispage addcontentsline tableofcontents today typeout romannumeral roman arabic alph value number the advance multiply divide ifcase "
         "verb verb* lstinline tikz draw pgfplotsset path node frac sqrt left right sum over operatorname mathbf nicefrac unit quote list endlist center endcenter tabular endtabular figure endfigure foo bar baz@x endfoo "
         "' \" ` ^ ~ = . u v H c d b r k t ss o O ae AE l aa i j S P dots ldots LaTeX & % $ # _ { } , ; ! - / @ \\ ( ) [ ]").split(" ")
ENVS = ("itemize enumerate description figure figure* table wrapfigure subfigure tabular tabular* tabularx longtable array equation equation* align align* eqnarray gather multline alignat subequations cases pmatrix aligned split verbatim verbatim* lstlisting comment tikzpicture picture pgfpicture "
        "algorithm algorithmic theorem lemma proof definition remark abstract quote center minipage multicols adjustbox appendices appendix thebibliography bibdiv biblist document foo bar* list spacing CJK small bfseries math displaymath titlepage filecontents sidewaystable tcolorbox").split()
ARGS = ["", "", "", " ", "{x}", "{x}{y}", "[x]", "[x]{y}", "{", "}", "{}", "{}{}", "[", "]", "[]", "{x}[y]{z}", "{\\bf x}", "{$x$}", "{$x", "{\\foo}", "*{x}", "*", "{#1}", "{x}{#1 #2}", "[2]{#1}{x}", "{\\x}{\\y}", "{ab cd}{ef}{gh}{ij}", "=1", "= 3pt", "3pt", " x", "1", "@", "{a,b}", "{a=b,c={d}}", "{\\begin{foo}}", "{%\n}", "%\n{x}",
        "[[x]]", "{{x}}", "[{]}]{y}", "|x|", "(x,y)", "<x>", "+x+", "\n\n{x}", "\\foo", "{\\textbf{x}\\section{y}}", "{x\\\\y & z}", "{x}{3}{y}", "{2}{c}{x}", "{1-2}", "\\x\\y", "\\x=\\y", "#1#2{#2#1}", "{x\n\ny}", "{é☃}", "{../x.png}", "{figure}{x}", "[x=y]{z}", "[h!]", "{0.5\\textwidth}", "{cc|p{1cm}}", "{\\iftrue x\\fi}", "{\\verb|}|}", "{x%}\n}", "{\\ud800}", "{\\uDfff x}", "[\\ud8ff]{y}", "{\\uffffff}", "{part}", "{main}", "{refs}", "{loc}", "{main.tex}", "{.}", "{..}", "{part,loc}", "{loc.sty}", "{ }", "99999999999 ", "[999999999]{x #1}{y}", "{4000}{c}{x}"]
TOK = ["{", "}", "{", "}", "$", "$$", "\\[", "\\]", "\\(", "\\)", "&", "\\\\", "#1", "#", "~", "^", "_", "%", "% x\n", "\n", "\n\n", " ", "[", "]", "x", "word", "é", "中文", "\u00a0", "``", "''", "--", "\\", "\\\n", "\\ ", "|", "1", "2pt", "@article{x, a={b}}", "\\begin{", "\\end{", "\\begin", "\\end", "\\begin{}", "\\end{}", "\\item[", "\\item", "\\verb|", "\\verb", "\\newcommand{\\x}[1]{y #1}", "\\def\\x{y}", "\\def\\x#1{y#1}", "\\x", "\\x{z}", "\\y", "\\let\\y\\x", "\\def\\x{\\x}", "\\newenvironment{foo}{a}{b}", "\\newcommand{\\be}{\\begin{equation}}", "\\be", "\\newcommand{\\ee}{\\end{equation}}", "\\ee", "\\newif\\iffoo", "\\iffoo", "\\footrue", "\\begin{document}", "\\end{document}", "\\documentclass{article}"]
FILL = ["item", "\\item a", "a & b \\\\", "\\caption{x}", "\\label{x}", "x^2", "\\hline", "\\bibitem{k} t", "\\State x", "\\bib{k}{article}{ title={x}, }"]

piece = mix(st.tuples(st.just(0), ix(NAMES), ix(ARGS)), st.tuples(st.just(0), ix(NAMES), ix(ARGS)), st.tuples(st.just(1), ix(ENVS), ix(ARGS)), st.tuples(st.just(2), ix(ENVS), st.just(0)),
                  st.tuples(st.just(3), ix(TOK), st.just(0)), st.tuples(st.just(4), ix(FILL), st.just(0)), st.tuples(st.just(5), ix(ENVS), ix(FILL))).map(list)


def show(p):
    k, i, j = p
    if k == 0:
        n = NAMES[i % len(NAMES)]
        return "\\" + n + ARGS[j % len(ARGS)]
    if k == 1:
        return "\\begin{%s}%s" % (ENVS[i % len(ENVS)], ARGS[j % len(ARGS)])
    if k == 2:
        return "\\end{%s}" % ENVS[i % len(ENVS)]
    if k == 3:
        return TOK[i % len(TOK)]
    if k == 4:
        return FILL[i % len(FILL)]
    return "\\begin{%s}%s\\end{%s}" % (ENVS[i % len(ENVS)], FILL[j % len(FILL)], ENVS[i % len(ENVS)])


def soup(ps):
    return "".join(show(p) + [" ", "", "\n", "", "\n\n"][(p[1] + p[2]) % 5] for p in ps)


def go(src, pre):
    """parse, build and dump; returns the JSON-able tokens and the steps taken"""
    from latex2json import TexReader
    from latex2json.tex_reader import ProcessingResult
    p = canon.new_parser()
    BUDGET.used_max = 0
    toks = canon.parse(src, pre, p)
    out = canon.build(toks)
    steps = BUDGET.used_max
    js = sut("json", lambda: json.dumps(out, ensure_ascii=False).encode("utf-8"))
    require(json.loads(js) == out, "the JSON reads back to something else", src[:500])
    colors = sut("get_colors", p.get_colors)
    text = sut("to_json", lambda: TexReader().to_json(ProcessingResult(tokens=[], color_map=colors)))
    require(json.loads(text)["color_map"] == json.loads(json.dumps(colors)), "colour map is no JSON", src[:500])
    return out, steps


def bound(src, steps):
    n = len(src)
    require(steps <= 100_000 + 2_500 * n + 0.4 * n * n, "took %d steps for %d characters" % (steps, n), src[:1500])


def run_soup(c):
    src = soup(c["p"])
    if c["doc"]:
        src = "\\documentclass{article}\n\\begin{document}\n" + src + "\n\\end{document}\n"
    out, steps = go(src, c["pre"])
    bound(src, steps)
    if out:
        return sorted({t["type"] for t in out} - {"text"})[:6] or ["text"]


def run_text(c):
    src = "".join(c["x"])
    out, steps = go(src, c["pre"])
    bound(src, steps)
    if out:
        return ["output"]


# ------------------------------------------------------------------ damage after good paragraphs
def run_damage(c):
    em = doc.Emitter()
    good, flat = em.blks(c["good"])
    want = canon.canon(canon.process(good, c["pre"], spaces=False))
    body, _ = em.blks(c["doc"])
    src = body
    for op, a, n in c["cut"]:
        a = a % (len(src) + 1)
        if op == 0:
            src = src[:a] + src[a + n:]
        elif op == 1:
            src = src[:a] + src[a:a + n] + src[a:]
        elif op == 2:
            src = src[:a] + show(c["ins"][n % len(c["ins"])]) + src[a:]
        elif op == 3:
            src = src[:a]
        else:
            src = src[:a] + src[a + 1:]
    out, steps = go(src, c["pre"])
    bound(src, steps)
    if "documentclass" in src or "begin{document}" in src or "\\end{document}" in src:  # what is before them is no content
        return ["damaged"] if out else None
    full, steps = go(good + "\n\n" + src, c["pre"])
    bound(good + src, steps)
    got = canon.canon(full)
    require_eq(clip(got[:len(want)]), clip(want), "paragraphs before the damage are not the same", good + "\n\n" + src)
    if out:
        return ["damaged", "kept"]


def clip(c):
    """a label in the damage may belong to the blocks before it"""
    if isinstance(c, list):
        return [clip(x) for x in c]
    if isinstance(c, dict):
        return {k: clip(v) for k, v in c.items() if k != "labels"}
    return c


PREFIXES = mix(doc.s_par, doc.s_par, doc.s_eq, doc.s_list(1), doc.s_tab(), doc.s_thm(1), doc.s_float)
cutop = st.tuples(st.integers(0, 6), st.integers(0, 4000), st.integers(0, 30)).map(list)

# ------------------------------------------------------------------ many and deep
NEST = [("{", "}"), ("\\textbf{", "}"), ("{\\bf ", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\begin{quote}", "\\end{quote}"), ("\\foo{", "}"), ("\\iftrue ", "\\fi "), ("\\iffalse ", "\\else x\\fi "), ("\\footnote{", "}"), ("\\begin{tabular}{c}", "\\end{tabular}"), ("$\\text{", "}$"), ("\\begin{foo}", "\\end{foo}"), ("\\parbox{1cm}{", "}"),
        ("\\begin{theorem}", "\\end{theorem}"), ("\\section{", "}"), ("\\begin{minipage}{1cm}", "\\end{minipage}"), ("\\begingroup ", "\\endgroup "), ("\\textcolor{red}{", "}"), ("\\href{x}{", "}"), ("[", "]"), ("\\begin{equation}", "\\end{equation}"), ("\\caption{", "}"), ("\\begin{figure}", "\\end{figure}"), ("\\makecell{", "}"), ("\\mbox{", "}"), ("\\ifx\\a\\b ", "\\else y\\fi "), ("\\newcommand{\\x}{", "}"), ("\\center ", "\\endcenter "), ("\\newenvironment{e}{\\begin{e}}{\\end{e}}\\begin{e}", "\\end{e}"), ("\\newenvironment{e}{", "}{x}")]
REP = ["x ", "{x}", "\\textbf{x} ", "$x$ ", "\\foo ", "\\item x", "\\iftrue x\\fi ", "x & y \\\\ ", "\\def\\x{\\y}\\def\\y{z}\\x ", "\\cite{a}", "\\\\", "% x\n", "\\section{x} ", "{\\bf x} ", "\\begin{foo}x\\end{foo}", "\\[ x \\]", "\n\n", "~", "\\label{x}", "\\begin{itemize}\\item x\\end{itemize}", "\\newcommand{\\x}[1]{#1}\\x{y}", "\\footnote{x}", "\\verb|x|", "\\begin{tabular}{c}x\\end{tabular}", "``x'' ", "\\'e", "\\&", "\\begin{verbatim}x\\end{verbatim}", "\\x@y ", "\\vspace{1pt}", "\\includegraphics{x}",
       "{", "}", "$", "[", "]", "\\begin{itemize}", "\\end{itemize}", "\\bf ", "\\iftrue ", "\\else ", "\\fi ", "\\textbf{", "\\begin{foo}", "\\begin{tabular}{c}", "#1", "\\", "\\verb|", "\\begin{verbatim}", "\\def\\x", "\\newcommand{", "\\item[", "%", "\\begin{equation}", "\\[", "\\foo{", "\\begin{", "\\endx ", "\\color{red} ", "\\center ", "\\left(", "\\ifx ", "\\author{", "\\url{", "\\begin{figure}"]


def run_deep(c):
    a, b = NEST[c["i"] % len(NEST)] if c["nest"] else (REP[c["i"] % len(REP)], "")
    n = c["n"]
    src = a * n + ("word" if c["mid"] else "") + (b * (n - c["miss"] if c["miss"] < n else 0))
    steps = {}
    out, s = go(src, c["pre"])
    bound(src, s)
    if n > 3:
        return ["nested" if c["nest"] else "repeated"] + (["many"] if n > 30 else [])


# ------------------------------------------------------------------ definitions that refer to each other
BITS = ["\\%s ", "\\%s{%s}", "\\begin{%s}", "\\end{%s}", "\\begin{%s}x\\end{%s}", "{\\%s}", "\\%s\\%s", "#1", "$\\%s$", "\\old%s ", "\\%s[a]{b}", "w ", "\\begin{old%s}", "\\textbf{\\%s}", "\\begin{itemize}\\item \\%s\\end{itemize}", "\\section{\\%s}", "\\newcommand{\\%s}{\\%s}", "\\csname %s\\endcsname ", "a \\csname %s\\endcsname b \\%s ", "\\expandafter\\def\\csname %s\\endcsname{\\%s}", "\\expandafter\\%s\\%s ", "\\expandafter\\%s\\csname %s\\endcsname "]
CNAMES = ["aa", "bb", "cc", "quote", "aa*"]


def cyc(x):
    s = ""
    for b, i, j in x:
        t = BITS[b % len(BITS)]
        s += t % tuple([CNAMES[i % 5], CNAMES[j % 5]][:t.count("%s")])
    return s


def run_cycles(c):
    src = ""
    for d in c["d"]:
        n, m, a, b = CNAMES[d["n"] % 5], CNAMES[d["m"] % 5], cyc(d["a"]), cyc(d["b"])
        src += ["\\newenvironment{%s}{%s}{%s}" % (n, a, b), "\\renewenvironment{%s}[1]{%s}{%s}" % (n, a, b), "\\newcommand{\\%s}{%s}" % (n, a), "\\renewcommand{\\%s}[2][x]{%s}" % (n, a), "\\def\\%s{%s}" % (n, a), "\\def\\%s#1{%s}" % (n, a),
                "\\let\\%s\\%s" % (n, m), "\\let\\old%s\\%s" % (n, n), "\\let\\old%s\\%s\\let\\endold%s\\end%s" % (n, n, n, n), "\\newtheorem{%s}{%s}" % (n, a), "\\DeclareMathOperator{\\%s}{%s}" % (n, a), "\\newif\\if%s" % n, a + b, "\\begin{%s}{x} %s \\end{%s}" % (n, a, n), "$ %s $" % a, "\\expandafter\\def\\csname %s\\endcsname{%s}" % (n, a), "\\expandafter\\let\\csname %s\\endcsname\\%s" % (n, m), "\\edef\\%s{%s}" % (n, a), "\\NewDocumentCommand{\\%s}{O{%s} m}{%s}" % (n, a, b), "\\NewDocumentEnvironment{%s}{m}{%s}{%s}" % (n, a, b),
                "\\newcommand{\\%s}{%s}\n\\newenvironment{%s}{\\%s}{\\%s}" % (n, a, m, n, n), "\\setbox0=\\hbox{%s}\\newsavebox{\\%s}\\sbox{\\%s}{%s}\\usebox{\\%s}\\copy0 " % (a, n, n, b, n), "\\newcounter{%s}[%s]\\stepcounter{%s}\\arabic{%s}" % (n, m, n, m), "\\define@key{f}{%s}{%s}\\setkeys{f}{%s={%s}}" % (n, a, n, b)][d["d"] % 24] + "\n"
    src += cyc(c["use"])
    out, steps = go(src, c["pre"])
    bound(src, steps)
    if out:
        return ["%d definitions" % len(c["d"])]


# ------------------------------------------------------------------ numbers of any size and form
NUMS = [r"one \romannumeral %s two", r"\newcommand{\foo}[%s]{a #1} \foo{a} b", r"\newenvironment{fo}[%s]{a #1}{c} \begin{fo}{x} u\end{fo} b", r"\renewenvironment{quote}[%s][d]{a #1}{c} \begin{quote}{x} u\end{quote} b",
        r"\newcommand{\foo}[1]{a #%s b #1} \foo{x} c", r"\def\foo#1{a #%s b #1} \foo{x} c", r"\begin{tabular}{cc} \multicolumn{%s}{c}{a} & b\\ \multirow{%s}{*}{x} & c\end{tabular}",
        r"\setbox%s=\hbox{a} b \copy%s \box%s", r"\includegraphics[page=%s]{a.pdf}", r"\num[round-precision=%s]{3.14159}", r"\SI[round-precision=%s]{3.14159}{m}", r"\num[round-precision=2]{%s}", r"\setcounter{section}{%s} \ifnum\value{section}>%s a\fi \ifnum %s<%s b\else c\fi",
        r"\U{%s} \char%s \symbol{%s} \unichar{%s}", r"\begin{enumerate}[start=%s]\item a\end{enumerate}", r"\begin{multicols}{%s} a\end{multicols}", r"\ifcase %s a\or b\else c\fi", r"\newtheorem{t}{T}[%s]\begin{t}a\end{t}", r"\advance\x by %s a", r"\hskip%spt a\vspace{%scm} b",
        r"\ifdim %spt>0pt a\else b\fi", r"\the\numexpr %s*2\relax a", r"\linespread{%s} a", r"\fontsize{%s}{%s}\selectfont a", r"\Alph{%s} \roman{%s}", r"\begin{array}{*{%s}{c}} a\end{array}", r"\begin{tabular}{*{%s}{c}} a & b\end{tabular}", r"\forloop{ct}{1}{\value{ct} < %s}{a} b", r"\foreach \x in {1,...,%s} {\x} b", r"\begin{thebibliography}{%s}\bibitem{a} x\end{thebibliography}",
        r"\NewDocumentCommand{\foo}{m}{#%s} \foo{a}", r"\^^%s a", r"\put(%s,%s){a} b", r"\textcolor[rgb]{%s,0,0}{a}", r"\definecolor{a}{rgb}{%s,0,0} \textcolor{a}{b}", r"\color[gray]{%s} a", r"\cline{%s-%s} a", r"\begin{tabular}{cc} a & b \\[%spt] \cmidrule(lr){%s-2} c & d\end{tabular}", r"\begin{alignat}{%s} a\end{alignat}", r"\ref{\u%s} \foo{\u%s x}", r"\footnotemark[%s] \footnotetext[%s]{a}", r"\setcounter{equation}{%s}\begin{equation} a\end{equation}", r"\bibitem{a%s} a", r"\raisebox{%scm}{a} \parbox{%spt}{b}", r"\def\foo#%s{a} \foo{b}"]
FORMS = ["%s", "-%s", "+%s", ".%s", "%s.5", " %s ", "%se9", "0x%s", "{%s}", "1%s", "0%s"]
DIGITS = ["0", "9", "12", "\u00b2", "\u0663", "\uff11", "\u2460", "d8", "DE", "f", "e", "00", "ten", ""]
REPEAT = [1, 1, 1, 2, 3, 8, 30, 100, 2500]


def run_numbers(c):
    import resource
    src = ""
    for t, f, d, r in c["n"]:
        x = FORMS[f % len(FORMS)].replace("%s", DIGITS[d % len(DIGITS)] * REPEAT[r % len(REPEAT)])
        src += NUMS[t % len(NUMS)].replace("%s", x) + "\n"
    old = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, old[1]))  # what needs gigabytes fails
    try:
        out, steps = go(src, c["pre"])
        bound(src, steps)
        require(len(json.dumps(out)) <= 2000 + 12 * len(src), "%d characters of output for %d of input" % (len(json.dumps(out)), len(src)), src[:1500])
    finally:
        resource.setrlimit(resource.RLIMIT_AS, old)
    if out:
        return ["long" if len(src) > 500 else "short"]


# ------------------------------------------------------------------ damaged files around a good document
BIB = ["@article{k%d, title = {x}, author = {A and B}}\n", "@book{k%d,", "@misc{", "@", "@string{a = {b}}\n", "@string{a", "@comment{x}", "@preamble{\"x\"}", "{", "}", "\"", ",", "=", " # ", "title = {x", "year = 2020,", "title = \"x\"", "k%d", "%% x\n", "\n\n", "@ARTICLE(k%d, title={x})", "{x}{y}",
       "\\begin{thebibliography}{9}", "\\bibitem{k%d} a\n", "\\bibitem[", "\\bibitem", "\\bibitem[x]{k%d", "\\newblock y ", "\\end{thebibliography}", "\\bibitem[{\\em a]{b}", "\\begin{bibdiv}\\begin{biblist}", "\\bib{k%d}{article}{ title={x}, author={y} }", "\\bib{k", "\\bib{k%d}{article}{", "\\end{biblist}\\end{bibdiv}",
       "\\entry{k%d}{article}{}\n\\field{title}{x}\n\\endentry\n", "\\entry{k%d}{book}{}", "\\field{year}{2020}\n", "\\name{author}{1}{}{%%\n{{hash=a}{%%\nfamily={B}}}%%\n}\n", "\\endentry", "\\datalist[entry]{x}", "\\enddatalist", "\\refsection{0}", "\\verb{doi}\n\\verb 10.1/x\n\\endverb\n", "\\verb{doi}\n", "\\name{author}{", "\\list{publisher}{1}{%%\n{X}%%\n}\n", "$ \\auto: biblatex $\n", "\\begin{filecontents}{x}"]


LOADS = ["\\input{fig.tikz} ", "\\input{own}", "\\include{part}", "\\bibliography{refs}", "\\usepackage{loc}\n", "\\input{loc.sty}", "\\input{main}", "\\input{refs.bbl}", "\\InputIfFileExists{part}{}{}", "\\RequirePackage{loc}\n", "\\input{}", "\\includegraphics{fig.tikz}",
         "\\addbibresource{refs.bib}", "\\documentclass{loc}\n", "\\LoadClass{loc}\n", "\\input part ", "\\input fig.tikz ", "\\bibitem{k} \\bibliography{refs}", "\\bibitem{k} \\input{main}", "\\begin{document}\\input{own}\\end{document}", "\\printbibliography", "\\input{./part.tex}", "\\input{../nothere}", "\\subfile{own}", "\\import{./}{part}"]
FILENAMES = ("part.tex", "loc.sty", "refs.bib", "refs.bbl", "fig.tikz", "own.tex")


def run_files(c):
    """a good document whose package, part, drawing and bibliography hold anything, themselves and each other too"""
    em = doc.Emitter()
    junk = []
    for i, kind in enumerate(FILENAMES):
        x = soup(c["p"][i % len(c["p"])])
        for at, j in c["loads"]:
            if at % len(FILENAMES) == i:
                x = LOADS[j % len(LOADS)] + x if j % 2 else x + LOADS[j % len(LOADS)]
        if kind == "own.tex":
            x = "\\documentclass{article}\n\\begin{document}\n%s\n\\end{document}\n" % x
        if i in (2, 3):
            x = "".join(BIB[b % len(BIB)].replace("%%", "\0").replace("%d", str(b % 7)).replace("\0", "%") + ["", "\n", " "][b % 3] for b in c["bib"][i - 2]) + (x if c["mix"] or c["loads"] else "")
        junk.append((kind, x))
    files = {k: x for (k, x), on in zip(junk, c["on"]) if on}
    a, b = em.word(), em.word()
    bib = ["\\bibliography{refs}", "\\addbibresource{refs.bib}\\printbibliography", "\\bibliography{refs,nothere}"][c["cmd"]]
    files["main.tex"] = "\\documentclass{article}\n\\usepackage{loc}\n\\begin{document}\nstart %s here\n\n%s\n\nend %s here\n%s\n\\end{document}\n" % (a, "\\input{part}" * c["inp"] + ["", "\\input{fig.tikz}", "\\input{own}"][c["cmd"]], b, bib)
    src = "\n".join("=== %s\n%s" % x for x in sorted(files.items()))
    BUDGET.used_max = 0
    with tree.scratch(files) as d:
        got = tree.read(d + "/main.tex")
    bound(src, BUDGET.used_max)
    text = json.dumps(got["tokens"])
    require(a in text, "the first word is missing", src)
    if not any(c["on"][:2] + c["on"][4:]):  # definitions and unclosed blocks of the others may take what follows
        require(b in text, "the last word is missing", src)
    if len(files) > 1:
        return sorted(files)


bits = lst(st.tuples(ix(BITS), st.integers(0, 4), st.integers(0, 4)).map(list), 0, 3)

PROPERTY = Property("C22", [
    Facet("cycles", case(d=lst(doc.fd("def", n=st.integers(0, 4), m=st.integers(0, 4), d=st.integers(0, 23), a=bits, b=bits), 1, 5), use=lst(st.tuples(ix(BITS), st.integers(0, 4), st.integers(0, 4)).map(list), 1, 3), pre=pre), run_cycles, quick=1500, thorough=60000, shards=8,
          rule="up to five definitions of macros, environments and theorems that refer to themselves and each other, with uses, that give any output"),
    Facet("soup", case(p=lst(piece, 1, 14), doc=st.sampled_from([False, False, True]), pre=pre), run_soup, quick=4000, thorough=150000, shards=8,
          rule="sequences of up to 14 LaTeX pieces with any arguments, balanced or not, that give any output"),
    Facet("damage", case(good=lst(PREFIXES, 1, 2), doc=doc.s_doc(2, 5), pre=pre, cut=lst(cutop, 1, 4), ins=lst(piece, 1, 3)), run_damage, quick=1200, thorough=40000, shards=8,
          rule="model documents damaged at up to four places (deletion, repetition, insertion, truncation) after well-formed blocks"),
    Facet("numbers", case(n=lst(st.tuples(ix(NUMS), ix(FORMS), ix(DIGITS), ix(REPEAT)).map(list), 1, 3), pre=pre), run_numbers, quick=1500, thorough=40000, shards=8,
          rule="commands that take numbers with numbers of any size and form (up to 5000 digits, digits of other scripts, no digits at all), within 6 GB, with output in proportion to the input"),
    Facet("files", case(p=st.lists(lst(piece, 0, 6), min_size=6, max_size=6), bib=st.lists(lst(st.integers(0, 700), 0, 8), min_size=2, max_size=2), on=st.lists(st.sampled_from([True, True, False]), min_size=6, max_size=6), loads=mix(st.just([]), lst(st.tuples(st.integers(0, 5), ix(LOADS)).map(list), 1, 4)), mix=st.sampled_from([False, False, True]), cmd=st.integers(0, 2), inp=st.booleans()), run_files, quick=1200, thorough=40000, shards=8,
          rule="good documents whose parts, packages, drawings and bibliographies hold sequences of LaTeX and BibTeX pieces, balanced or not, and load themselves and each other"),
    Facet("text", case(x=st.lists(mix(st.text(max_size=8), st.text("\\{}[]$&#%_^~ \n\tabz@*=|'\"`-<>(),.;:!?0", max_size=12), st.sampled_from(TOK)), min_size=1, max_size=8), pre=pre), run_text, quick=2500, thorough=80000, shards=8,
          rule="strings of arbitrary Unicode and special characters that give any output"),
    Facet("deep", case(nest=st.booleans(), i=st.integers(0, 80), n=st.integers(1, 80), mid=st.booleans(), miss=st.sampled_from([0, 0, 0, 1, 2, 500]), pre=pre), run_deep, quick=700, thorough=15000, shards=8,
          rule="one construct nested or repeated more than three times (up to 80), closed or not"),
], "a case is non-trivial when the input gives any output; steps are bounded by 100000 + 2500 n + 0.4 n^2 interpreter events for n characters",
    assumptions=["surrogate code points, which no decoded file holds, are left out", "nesting is explored to depth 80"])
