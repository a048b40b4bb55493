"""C26: layout commands leave no trace.

documents: model documents in which commands that only affect the layout (spacing, breaks, lengths,
           counters, page styles, rules, penalties, settings of packages) with all forms of arguments
           stand between words, in titles, captions, items, cells and notes, and between blocks.
math:      layout commands inside of displayed equations.
"""
import json
import re

import canon
import doc
import mathgen
from gen import case, ix, lst, model, pre
from hypothesis import strategies as st
from mix import mix
from grow import big
from pbt import Facet, Property, require_eq

DIM = ["1cm", "2pt", "-0.5em", ".3ex", "-12mm", "0pt", "3 in", "+2bp", "1.5pc", "0.2sp", "2.pt", "10dd",
       ".5\\textwidth", "-\\parindent", "2\\baselineskip", "\\parskip", "0.25\\linewidth", "-1.2\\columnwidth", "1truecm", "2 true in"]
PLAIN = [d for d in DIM if "\\" not in d]
NUMBERED = [d for d in DIM if not d.lstrip("-").startswith("\\")]
STRETCH = ["", "", " plus 1pt", " minus .5em", " plus 1fil", " plus 2pt minus 1pt", " plus .2ex minus -1pt", " plus 1fill minus 1fill", "\n plus 0.1\\baselineskip"]
LENGTHS = "parindent parskip textwidth textheight topmargin oddsidemargin evensidemargin footskip headheight headsep footnotesep marginparsep marginparwidth itemindent hoffset voffset".split()
LENGTHS2 = "leftmargin rightmargin hsize topsep parsep partopsep itemsep tabcolsep fboxsep lineskip baselineskip abovedisplayskip belowdisplayskip abovedisplayshortskip belowcaptionskip abovecaptionskip".split()
COUNTERS = "page section equation figure table secnumdepth tocdepth enumi footnote".split()
WORDS = ("quad qquad bigskip medskip smallskip noindent par newpage clearpage cleardoublepage pagebreak nopagebreak allowbreak goodbreak filbreak samepage break smallbreak medbreak bigbreak "
         "hfill hfil vfill vfil hss centering raggedright raggedleft sloppy flushbottom allowdisplaybreaks linenumbers tableofcontents maketitle makeatletter makeatother relax null "
         "FloatBarrier phantomsection ignorespaces hrule hrulefill unskip today newline linebreak arraybackslash space xspace printbibliography").split()
NOTBACKSLASH = [w for w in WORDS if w != "arraybackslash"]
BRACED = ["\\pagestyle{empty}", "\\thispagestyle{plain}", "\\pagenumbering{roman}", "\\bibliographystyle{plain}", "\\urlstyle{same}", "\\theoremstyle{definition}", "\\linespread{1.3}",
          "\\hypersetup{colorlinks=true, linkcolor={blue}}", "\\captionsetup{font=small}", "\\captionsetup[figure]{labelsep=quad}", "\\geometry{margin=1in, top={2cm}}", "\\lstset{basicstyle=\\ttfamily, language=C}",
          "\\setlist{nosep}", "\\setlist*{nosep}", "\\setlist *[enumerate]{nosep}", "\\captionsetup*{font=small}", "\\captionsetup *[table] {font=small}", "\\enlargethispage *{2cm}", "\\titleformat *{\\section}{\\bf}", "\\setlist[itemize]{leftmargin=*, label={--}}", "\\numberwithin{equation}{section}", "\\counterwithin{figure}{section}", "\\addcontentsline{toc}{section}{Foo}",
          "\\addtocontents{toc}{\\protect\\setcounter{tocdepth}{1}}", "\\titleformat{\\section}{\\large\\bfseries}{\\thesection}{1em}{}", "\\titleformat{\\section}[hang]{\\large}{\\thesection.}{.5em}{\\filcenter}[\\vspace{1pt}]",
          "\\titleformat*{\\subsection}{\\itshape\\small}", "\\titlespacing{\\section}{0pt}{1ex plus .2ex}{2pt}", "\\titlespacing*{\\section}{0pt}{*2}{*1}", "\\pdfbookmark[1]{Foo}{bar}", "\\hyphenation{ab-cd ef-gh}",
          "\\tcbset{colback=red!5, fonttitle={\\bfseries}}", "\\setcitestyle{numbers,square}", "\\typeout{foo}", "\\enlargethispage{2pt}", "\\enlargethispage*{\\baselineskip}", "\\fontsize{10}{12}\\selectfont",
          "\\definecolor{foo}{rgb}{0.1,0.2,0.3}", "\\newcolumntype{Y}{>{\\centering}X}", "\\arrayrulewidth=1pt", "\\renewcommand{\\arraystretch}{1.3}", "\\renewcommand{\\thefootnote}{\\fnsymbol{footnote}}",
          "\\renewcommand\\baselinestretch{1.5}", "\\def\\arraystretch{1.2}", "\\renewcommand{\\labelitemi}{$-$}", "\\pagecolor{white}", "\\vspace{\\dimexpr 1pt+\\parskip}", "\\hspace{\\stretch{2}}", "\\vspace*{\\fill}", "\\hspace*{\\fill}",
          "\\newlength{\\foolen}", "\\newcounter{foo}", "\\newlength{\\foolen}\\foolen=2pt plus 1fil", "\\newdimen\\foodim \\foodim=.5\\textwidth", "\\newcount\\foocnt\n\\foocnt=3", "\\newskip\\fooskip \\fooskip 1pt minus 1pt", "\\newcounter{foo}[section]", "\\refstepcounter{figure}", "\\clubpenalty=10000", "\\widowpenalty 10000", "\\penalty-100", "\\penalty 0", "\\vfuzz=2pt", "\\pdfoutput=1",
          "\\makeatletter\\makeatother", "\\hrule height 1pt", "\\hrule width .5\\textwidth height 0.4pt depth 0pt", "\\advance\\topmargin by -1cm", "\\DeclareGraphicsExtensions{.pdf,.png}", "\\linebreak[2]", "\\pagebreak[4]", "\\nopagebreak[3]", "\\allowdisplaybreaks[1]", "\\protect\\vspace{1pt}", "\\PassOptionsToPackage{a}{b}",
          "\\setcitestyle{square}", "\\rule{1cm}{2pt}", "\\rule[1pt]{.5\\textwidth}{0.4pt}", "\\rule {\\linewidth} {1pt}", "\\vspace {1em}", "\\,", "\\;", "\\:", "\\!", "\\ ", "\\/", "\\-"]
BRACED2 = ["\\pdfinfo{/Title (Foo) /Author (B)}", "\\setdefaultlanguage{english}", "\\setdefaultlanguage[variant=british]{english}", "\\tracinglostchars=1", "\\date{May 2020}", "\\date{\\today}",
           "\\subjclass{35J60}", "\\subjclass[2020]{35J60}", "\\titlecontents{section}[0em]{\\bfseries}{\\thecontentslabel\\enspace}{}{\\hfill\\contentspage}[\\vspace{1pt}]", "\\startcontents",
           "\\startcontents[sections]", "\\printcontents{l}{1}{\\setcounter{tocdepth}{2}}", "\\printcontents[sections]{l}{1}{\\setcounter{tocdepth}{2}}", "\\contentspage", "\\indent", "\\flushleft", "\\flushtop",
           "\\interfootnotelinepenalty=10000", "\\lastskip", "\\renewbibmacro{in:}{}", "\\renewbibmacro*{in:}{\\printtext{x}}", "\\newpagestyle{main}{\\sethead{a}{b}{c}}",
           "\\renewpagestyle{main}{\\sethead{a}{b}{c}}", "\\value{page}", "\\mathtoolsset{showonlyrefs}", "\\tcbuselibrary{skins}", "\\ProcessOptions", "\\ProcessOptions\\relax", "\\PassOptionsToClass{a}{b}",
           "\\ExecuteBibliographyOptions{a=b}", "\\DeclareFontFamily{U}{rsfs}{\\skewchar\\font127 }", "\\DeclareFontShape{U}{rsfs}{m}{n}{<-6> rsfs5 <6-8> rsfs7}{}", "\\DeclareOption{a}{\\def\\x{1}}",
           "\\DeclareOption*{\\PassOptionsToClass{\\CurrentOption}{article}}", "\\SetMathAlphabet{\\mathcal}{bold}{OMS}{cmsy}{b}{n}", "\\DeclareSymbolFont{rsfs}{U}{rsfs}{m}{n}", "\\textfont\\foo=\\bar",
           "\\setmathfont{XITS Math}", "\\setmathfont[Scale=1]{XITS Math}", "\\arabic{page}", "\\roman{section}", "\\fnsymbol{footnote}", "\\labelsep=2pt", "\\labelsep 2pt", "\\colrule", "\\fboxsep=2pt",
           "\\heavyrulewidth=1pt", "\\overfullrule=5pt", "\\paperwidth=21cm", "\\paperheight = 29cm", "\\counterwithout{figure}{chapter}", "\\makeatletter\\@addtoreset{equation}{section}\\makeatother",
           "\\AddEnumerateCounter{\\fnsymbol}{\\@fnsymbol}{9}", "\\stackMath", "\\phantom{foo}", "\\hphantom{$x$}", "\\vphantom{\\frac{a}{b}}", "\\global\\let\\foo\\bar", "\\newmdenv[linewidth=1pt]{framed}",
           "\\newmdenv{framed}", "\\escapechar=-1", "\\newtheoremstyle{foo}{3pt}{3pt}{\\itshape}{}{\\bfseries}{.}{.5em}{}", "\\NeedsTeXFormat{LaTeX2e}", "\\NeedsTeXFormat{LaTeX2e}[2020/01/01]",
           "\\ProvidesPackage{foo}[2020/01/01 v1 bar]", "\\ProvidesClass{foo}[2020/01/01 v1 bar]", "\\titlelabel{\\thetitle.\\quad}", "\\titleline[c]{\\titlerule}", "\\enskip", "\\onecolumn", "\\twocolumn",
           "\\graphicspath{{a/}{b/}}", "\\DeclareMathOperator{\\foo}{foo}", "\\fancyhead[L]{}", "\\pagestyle{fancy}", "\\lhead{}", "\\baselineskip=12pt", "\\usetikzlibrary{arrows, positioning}",
           "\\pgfplotsset{compat=1.8}", "\\crefname{equation}{Eq.}{Eqs.}", "\\Crefname{equation}{Eq.}{Eqs.}", "\\newsavebox{\\foo}", "\\IEEEpeerreviewmaketitle", "\\pdfsuppresswarningpagegroup=1",
           "\\newif\\iffoo", "\\setcounter{page}{1}", "\\addtocounter{page}{1}", "\\labelwidth=1cm", "\\abovecaptionskip=1pt", "\\skip\\footins=1cm", "\\hfuzz=1pt", "\\unvbox0", "\\unvbox\\foo", "\\wd0=1cm",
           "\\labelsep=.5em plus 1pt", "\\labelsep{2pt}", "\\titlespacing{\\section}{0pt}{1ex}{2pt}[3pt]", "\\titlecontents*{section}[1em]{\\small}{\\thecontentslabel}{}{\\titlerule}[x]",
           "\\skip\\footins=1cm plus 2pt", "\\skip0 2pt", "\\wd0=.5\\textwidth", "\\dp\\foobox = 0pt", "\\newtheoremstyle{foo} {3pt}{3pt} {\\itshape}{}{\\bfseries}{.}{.5em}{}", "\\newbool{foo}",
           "\\usefont{T1}{ptm}{b}{n}", "\\newenvironment{fooenv}{\\begin{quote}}{\\end{quote}}", "\\newcommand{\\foocmd}[2][a]{#1 and #2}", "\\providecommand*{\\foocmd}{x}", "\\DeclareRobustCommand{\\foocmd}{x}",
           "\\def\\foocmd#1.{x}", "\\let\\foocmd=\\textbf", "\\newtheorem{foothm}{Foo}[section]", "\\newtheorem*{foothm}{Foo}", "\\DeclarePairedDelimiter{\\foo}{(}{)}",
           "\\DeclareMathAlphabet{\\mathpzc}{OT1}{pzc}{m}{it}", "\\definecolor{foo}{HTML}{FF0000}", "\\let\\foo\\undefined", "\\makeatletter\\def\\@foo{x}\\makeatother",
           "\\expandafter\\def\\csname foo\\endcsname{bar}", "\\ifx\\foo\\undefined\\fi", "\\usetikzlibrary{calc}\\usetikzlibrary{arrows.meta,shapes}", "\\usepgflibrary{arrows}", "\\pgfplotsset{compat=1.17, legend style={draw=none}}",
           "\\crefname{figure}{Fig.}{Figs.}\\Crefname{table}{Table}{Tables}", "\\setlength\\parindent{0pt}\\setlength\\parskip{6pt plus 2pt}", "\\mbox{}", "\\clearpage\\newpage\\null\\newpage",
           "\\addcontentsline{toc}{section}{\\protect\\numberline{}Foo}", "\\addcontentsline{lof}{figure}{\\protect\\numberline{\\thefigure}{\\bf Foo {b}}}", "\\setcitestyle{open={(},close={)}}",
           "\\PassOptionsToPackage{a={b}}{c}", "\\PassOptionsToClass{a={b,{c}}}{d}", "\\crefname{figure}{Fig.{}}{Figs.{}}", "\\Crefname{table}{\\textbf{Tab.}}{{Tabs.}}", "\\subjclass{Primary {35J60}}",
           "\\subjclass[2020]{{35J60}, {\\bf 35}}", "\\pdfbookmark[1]{Foo {x}}{bar}", "\\ExecuteBibliographyOptions{a={b}}", "\\mathtoolsset{showonlyrefs={true}, a={{b}}}",
           "\\enlargethispage{\\dimexpr{2pt}}", "\\LinesNumbered", "\\linesnumbered", "\\linenumbers"]
RULES = ["\\hline", "\\midrule", "\\toprule", "\\bottomrule", "\\cline{1-2}", "\\cmidrule(lr){1-2}", "\\cmidrule{1-1}", "\\cmidrule(l)[2pt]{2-2}", "\\specialrule{1pt}{-1pt}{0pt}", "\\addlinespace", "\\addlinespace[2pt]", "\\hline\\hline", "\\toprule[1pt]", "\\hdashline", "\\cdashline{1-2}", "\\noalign{\\vskip 2pt}", "\\noalign{\\hrule height 1pt}", "\\noalign{\\smallskip}", "\\rowcolor{gray!20}", "\\rowcolor[gray]{.9}", "\\morecmidrules", "\\Xhline{2pt}", "\\endhead", "\\endfirsthead", "\\vspace{1pt}", "\\centering"]
FAMS = ["word", "braced", "braced", "declared", "declared", "space", "skip", "kern", "assign", "assign2", "set", "count"]


def command(nd, row=False):
    """the source of a layout command"""
    f, a, b, c = FAMS[nd["f"] % len(FAMS)], nd["a"], nd["b"], nd["c"]
    d, n, s = DIM[b % len(DIM)], NUMBERED[b % len(NUMBERED)], STRETCH[c % len(STRETCH)]
    if f == "word":
        return f, "\\" + NOTBACKSLASH[a % len(NOTBACKSLASH)]
    if f == "braced":
        return f, BRACED[a % len(BRACED)]
    if f == "declared":
        return f, BRACED2[a % len(BRACED2)]
    if f == "space":
        return f, "\\%sspace%s%s{%s}" % ("vh"[a % 2], ["", "*", " *"][a // 2 % 3], ["", "", " "][a // 4 % 3], d + s)
    if f == "skip":
        return f, "\\%sskip%s%s" % ("vh"[a % 2], " " if d[:1] not in "-\\" or a // 2 % 2 else "", d + s)
    if f == "kern":
        return f, "\\kern%s%s" % (["", " "][a % 2] if d[:1] != "." else "", d)
    if f == "assign":
        eq = ["=", " = ", " ", "= "][a // 20 % 4]
        return f, "\\%s%s%s" % (LENGTHS[a % len(LENGTHS)], eq, (d if "=" in eq else n) + s)
    if f == "assign2":
        eq = ["=", " = ", " ", "= "][a // 20 % 4]
        return f, "\\%s%s%s" % (LENGTHS2[a % len(LENGTHS2)], eq, (d if "=" in eq else n) + s)
    if f == "set":
        name = (LENGTHS + LENGTHS2 + ["foolen"])[a % (len(LENGTHS) + len(LENGTHS2) + 1)]
        return f, "\\%s%s%s{%s}" % (["setlength", "addtolength"][c % 2], ["{\\%s}" % name, "\\%s" % name, " {\\%s} " % name][c // 2 % 3], " " if c % 5 == 4 else "", d + s)
    cn = COUNTERS[a % len(COUNTERS)]
    return f, ["\\setcounter{%s}{%d}" % (cn, b), "\\addtocounter{%s}{-%d}" % (cn, b), "\\stepcounter{%s}" % cn, "\\setcounter{%s}{\\value{%s}}" % (cn, COUNTERS[b % len(COUNTERS)]), "\\setcounter {%s} {%d}" % (cn, b)][c % 5]


class Em(doc.Emitter):
    def __init__(self):
        super().__init__()
        self.kinds = set()

    def cmds(self, nd, end=True):
        out = ""
        for m in nd["m"]:
            f, s = command(m)
            if self.in_opt and "]" in s:
                s = "\\hfill"
            self.kinds.add(f)
            out += s + ("" if s.endswith(("}", "]")) and m["c"] % 3 == 0 else ["\n", " ", " "][m["c"] % 3])
        return out.rstrip() + " " if end else out

    def i_lay(self, nd, styles):
        w = self.word()
        s = self.cmds(nd)
        return w + [" ", "\n", " \n "][nd["m"][0]["c"] % 3] + s + (w2 := self.word()), self.w(w + " " + w2, styles)

    def i_hyph(self, nd, styles):
        a, b = self.word(), self.word()
        self.kinds.add("inside of a word")
        return a + nd["s"] + b, self.w(a + b, styles)

    def b_lay(self, nd):
        self.kinds.add("between blocks")
        if nd["m"][0]["c"] % 4 == 3 and nd["m"][-1]["f"] != 11:  # braces of the text that follows
            a, b = self.word(), self.word()
            self.kinds.add("before braces")
            return self.cmds(nd, False).rstrip() + ["\n", "\n\n"][nd["m"][0]["a"] % 2] + "{\\bf %s} %s" % (a, b), self.w(a, ["bold"]) + self.w(b, [])
        return self.cmds(nd), []

    def b_par(self, nd):
        # (a brace would be taken for an argument)
        l, c = super().b_par(nd)
        return l, c

    def b_tab(self, nd):
        l, c = super().b_tab(dict(nd, h=0))
        if nd.get("rules"):
            self.kinds.add("rules")
            k = [-1]

            def rule(m):
                k[0] += 1
                return m.group(0) + "\n" + RULES[nd["rules"][k[0] % len(nd["rules"])] % len(RULES)] + "\n"
            l = re.sub(r" \\\\$", rule, l, flags=re.M)
        return l, c


def run_docs(c):
    em = Em()
    model(em, c["doc"][:c["at"]] + [c["must"]] + c["doc"][c["at"]:], c["pre"])
    if em.kinds:
        return sorted(em.kinds)


ALL = BRACED + BRACED2 + ["\\" + w for w in NOTBACKSLASH] + ["\\%s=1pt" % w for w in LENGTHS + LENGTHS2] + ["\\setlength{\\%s}{1pt}" % w for w in LENGTHS + LENGTHS2] + ["\\setcounter{%s}{1}" % w for w in COUNTERS]
PLACES = ["%(a)s %(c)s %(b)s", "%(a)s\n\n%(c)s\n\n%(b)s", "%(a)s %(c)s\n%(b)s", "\\section{%(a)s} %(c)s %(b)s", "\\begin{itemize}\\item %(a)s %(c)s \\item %(c)s\n %(b)s\\end{itemize}", "\\begin{quote}%(c)s\n%(a)s\\end{quote}%(c)s\n%(b)s",
          "\\textbf{%(a)s %(c)s %(b)s}", "\\begin{figure}%(c)s\n\\includegraphics{x}\\caption{%(a)s}%(c)s\n\\end{figure} %(b)s", "\\begin{center}%(a)s\n%(c)s\n\\end{center}%(b)s", "%(a)s\\footnote{%(c)s %(b)s}", "\\begin{tabular}{c}%(a)s \\\\ %(b)s\\end{tabular} %(c)s", "%(c)s\n{\\bf %(a)s} %(b)s", "%(c)s\n\n{%(a)s} %(b)s"]


def run_each(c):
    """every command on its own, many of them in one case, each in its own document"""
    seen = set()
    for k in range(c["n"]):
        i = (c["i"] + k * c["step"]) % len(ALL)
        place = PLACES[(c["at"] + k) % len(PLACES)]
        d = {"a": "wordone", "b": "wordtwo"}
        src = place % dict(d, c=ALL[i])
        require_eq(flatten(canon.canon(canon.process(src, c["pre"]))), flatten(canon.canon(canon.process(place % dict(d, c=" "), c["pre"]))), "output with %s" % ALL[i], src)
        seen.add("place %d" % ((c["at"] + k) % len(PLACES)))
    return sorted(seen)


def flatten(x):
    return json.dumps(x, sort_keys=True)


MATH = ["\\nopagebreak", "\\allowdisplaybreaks", "\\pagebreak[2]", "\\vspace{2pt}", "\\noindent", "\\hline", "\\medskip", "\\allowdisplaybreaks[3]", "\\abovedisplayskip=3pt", "\\belowdisplayskip 1pt plus 2pt", "\\parskip=0pt", "\\vskip 1ex minus 1pt", "\\hfill", "\\centering", "\\nopagebreak[4]", "\\vspace*{-.5\\baselineskip}", "\\rule{0pt}{2ex}", "\\rule[-1pt]{0pt}{3ex}", "\\kern 1pt", "\\kern-.5em", "\\relax"]


def run_math(c):
    """the same equations with and without layout commands"""
    rows = ["%s %s b_{%d}" % (doc.ATOMS[a % len(doc.ATOMS)], "& =" if c["e"] in ("align", "align*") else "=", i) for i, a in enumerate(c["rows"])]

    def src(on):
        out = []
        for i, r in enumerate(rows):
            m = c["m"][i % len(c["m"])]
            cmd = MATH[m["i"] % len(MATH)] + " " if on else ""
            at = m["at"] % 3
            out.append((cmd if at == 0 else "") + r + (" " + cmd if at == 1 else "") + (" \\\\ " if i < len(rows) - 1 else "") + (cmd if at == 2 and i < len(rows) - 1 else ""))
        b = "\n".join(out)
        if c["e"] == "$$":
            return "aa $$ %s $$ bb" % b
        if c["e"] == "$":
            return "aa $ %s $ bb" % b
        return "aa\n\\begin{%s}\n%s\n\\end{%s}\nbb" % (c["e"], b, c["e"])

    a, b = src(False), src(True)
    require_eq(canon.canon(canon.process(b, c["pre"])), canon.canon(canon.process(a, c["pre"])), "equation with layout commands", b)
    return [c["e"]]


one = doc.fd("_", f=ix(FAMS), a=st.integers(0, len(BRACED2) - 1), b=st.integers(0, 19), c=st.integers(0, 29))
s_lay = doc.fd("lay", m=lst(one, 1, 2))
s_hyph = doc.fd("hyph", s=st.sampled_from(["\\-", "\\/"]))
lin = doc.s_inline(2, leaves=[doc.s_text, doc.s_math, doc.s_cite, doc.s_ref, doc.s_url, s_lay, s_lay, s_hyph], verb=False)
flat = mix(doc.s_text, s_lay, s_hyph)
par = doc.fd("par", x=lst(lin, 1, 4))
cap = lst(mix(flat, doc.fd("sty", c=st.sampled_from(["emph", "textbf"]), x=lst(flat, 1, 2))), 1, 3)
sec = doc.fd("sec", l=st.integers(1, 3), star=st.booleans(), x=cap, lab=st.integers(0, 2))
flt = doc.fd("float", e=st.sampled_from(["figure", "table"]), star=st.booleans(), center=st.booleans(), cap=cap, lab=st.integers(0, 2), capfirst=st.booleans(), o=st.integers(0, 2), x=lst(mix(doc.s_bimg, par), 1, 2))
tab = st.tuples(doc.s_tab(cell=mix(st.just([]), lst(flat, 1, 2))), lst(ix(RULES), 1, 3)).map(lambda t: dict(t[0], rules=t[1]))


def s_any(depth):
    leaf = [par, par, s_lay, s_lay, doc.s_block(1)]
    if not depth:
        return mix(*leaf)
    # something besides layout commands: what is empty is dropped
    sub = st.tuples(lst(st.deferred(lambda: s_any(depth - 1)), 0, 2), par, lst(s_lay, 0, 1)).map(lambda t: t[0] + [t[1]] + t[2])
    item = doc.fd("_", title=doc.opt(cap), x=st.tuples(lst(s_any(0), 0, 1), par, lst(s_lay, 0, 1)).map(lambda t: t[0] + [t[1]] + t[2]))
    return mix(*leaf, flt, tab, tab, doc.fd("list", e=st.sampled_from(["itemize", "enumerate", "description"]), items=lst(item, 1, 3)),
                     doc.fd("thm", e=st.sampled_from(doc.THEOREMS), star=st.booleans(), title=doc.opt(cap), lab=st.booleans(), x=sub),
                     doc.fd("env", e=st.sampled_from(doc.ENVS), x=sub))


must = mix(s_lay, doc.fd("par", x=st.tuples(s_lay, lin).map(list)), tab)
PROPERTY = Property("C26", [
    Facet("documents", case(pre=pre, at=st.integers(0, 4), must=must, doc=lst(mix(s_any(2), s_any(2), sec), 0, 4)), run_docs, quick=2200, thorough=60000, shards=8,
          rule="documents that hold layout commands"),
    Facet("math", case(pre=pre, e=st.sampled_from(["equation", "align", "align*", "gather", "$$", "$"]), rows=lst(ix(doc.ATOMS), 1, 3), m=lst(case(i=ix(MATH), at=st.integers(0, 2)), 1, 3)), run_math, quick=300, thorough=6000, shards=4,
          rule="every case: an equation with layout commands"),
    Facet("each", case(pre=pre, i=ix(ALL), step=st.sampled_from([1, 7, 31, 101]), n=st.integers(1, 12), at=ix(PLACES)), run_each, quick=500, thorough=8000, shards=8,
          rule="every case: layout commands one by one at a place of a small document, whose output is the one without them"),
    big(case(pre=pre, at=st.integers(0, 4), must=must, doc=lst(mix(s_any(2), s_any(2), sec), 1, 4)), run_docs, quick=200),
], "a case is non-trivial when it holds a layout command",
    assumptions=["layout commands that the library does not know are unknown commands (C25)", "\\maketitle, \\tableofcontents and the like are layout: what they would print is given elsewhere"])
