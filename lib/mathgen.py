"""Grammar of LaTeX formulas (strings)."""
from hypothesis import strategies as st
from mix import mix

SYM = """\\alpha \\beta \\Gamma \\varepsilon \\infty \\partial \\nabla \\ell \\hbar \\Re \\emptyset \\forall \\exists \\top \\bot \\leq \\geq \\neq \\approx \\equiv \\sim \\propto \\ll \\subset \\subseteq \\in \\notin \\perp
\\mid \\vdash \\to \\rightarrow \\Rightarrow \\mapsto \\iff \\implies \\pm \\times \\div \\cdot \\ast \\star \\circ \\bullet \\oplus \\otimes \\wedge \\cup \\setminus \\sum \\prod \\int \\oint \\bigcup \\limsup \\max \\inf
\\det \\ker \\sin \\log \\exp \\ldots \\cdots \\vdots \\dots \\prime \\dagger \\S \\P \\dag \\ddag \\aleph \\wp \\eth \\sharp \\flat \\natural \\surd \\angle \\triangle \\backslash \\colon \\divideontimes \\boxplus \\boxtimes
\\Box \\Diamond \\blacksquare \\nexists \\varnothing \\lessgtr \\bowtie \\between \\bumpeq \\curlywedge \\leadsto \\hookrightarrow \\longrightarrow \\nrightarrow \\bmod \\gcd \\Pr \\lim \\deg \\arg \\ne \\le \\ge \\gets \\land \\lor
\\lnot \\imath \\jmath \\degree \\euro \\displaystyle \\textstyle \\limits \\nonumber \\notag \\unknownsym \\nullity \\skewness \\rank \\Tr \\argmin \\quad \\qquad \\, \\; \\: \\! \\  \\% \\$ \\& \\# \\_ \\{ \\} \\| ~ \\allsame
\\lbrace \\rbrace \\lvert \\rVert \\langle \\rangle \\lfloor \\rceil \\Vert \\uparrow \\big| \\Big( \\Bigr) \\bigl[ \\biggl\\{ \\bigg\\rangle
x y z a b n 0 1 2 3.14 10 A B + - = < > / * ! ( ) | , . : ; ' '' ? X Y f g it sl hfill rm""".split(" ")
SYM = [s for x in SYM for s in x.split("\n") if s and s != "\\"] + ["\\ "]
WRAP = """\\hat \\bar \\vec \\dot \\ddot \\tilde \\widehat \\widetilde \\overline \\underline \\mathring \\check \\breve \\acute \\grave \\mathbf \\mathrm \\mathit \\mathsf \\mathtt \\mathcal \\mathbb \\mathfrak \\mathscr \\boldsymbol \\bm
\\operatorname \\operatorname* \\sqrt \\sqrt[3] \\overbrace \\underbrace \\boxed \\xrightarrow \\xleftarrow \\mathop \\mathrel \\smash \\substack \\textcolor{red} \\overrightarrow \\not \\mathord \\unknownwrap \\left.\\right|_ \\tag \\hspace""".split()
WRAP = [w for w in WRAP if w != "\\hspace"]
TWO = ["\\frac", "\\dfrac", "\\tfrac", "\\cfrac", "\\binom", "\\stackrel", "\\overset", "\\underset", "\\unknowntwo"]
DEL = [("(", ")"), ("[", "]"), ("\\{", "\\}"), ("|", "|"), ("\\|", "\\|"), ("\\langle", "\\rangle"), (".", "|"), ("\\lfloor", "\\rfloor"), ("[", ")"), ("(", "]"), ("\\lbrace", "."), ("<", ">")]
MATR = ["matrix", "pmatrix", "bmatrix", "vmatrix", "Vmatrix", "smallmatrix", "cases", "aligned", "split", "gathered", "array", "subarray", "dcases", "rcases"]
TEXTS = ["if", "for all $k$", "and", "a b  c", "s.t.", "where $x_1$ is", "10\\%", "it's", "``q''", "na\u00efve", "A\\&B"]
TEXTC = ["\\text", "\\textrm", "\\mathrm", "\\textbf", "\\textit", "\\textsc", "\\textnormal"]

sym = st.sampled_from(SYM)


def formula(depth=2, mx=4):
    def join(xs):
        out = ""
        for x, sp in xs:
            # a command name must not run into the letters that follow it
            if out and (out[-1].isalpha() and "\\" in out[-24:] and x[:1].isalpha() or sp or out.endswith("\\") or out[-1:].isdigit() and x[:1].isdigit()):
                out += " "
            out += x
        return out
    return st.lists(st.tuples(term(depth), st.integers(0, 2).map(bool)), min_size=1, max_size=mx).map(join)


def term(depth):
    if depth == 0:
        return sym
    sub = st.deferred(lambda: formula(depth - 1, 3))
    rows = st.lists(st.lists(sub, min_size=1, max_size=2), min_size=1, max_size=2)
    return mix(
        sym, sym, sym,
        st.tuples(sym, sub).map(lambda t: "%s_{%s}" % t),
        st.tuples(sym, sub).map(lambda t: "%s^{%s}" % t),
        st.tuples(sym, sub, sub).map(lambda t: "%s_{%s}^{%s}" % t),
        st.tuples(st.sampled_from("xyzab"), st.sampled_from("12nk")).map(lambda t: "%s_%s" % t),
        st.tuples(st.sampled_from(WRAP), sub).map(lambda t: "%s{%s}" % t),
        st.tuples(st.sampled_from(TWO), sub, sub).map(lambda t: "%s{%s}{%s}" % t),
        st.tuples(st.sampled_from(DEL), sub).map(lambda t: "\\left%s %s \\right%s" % (t[0][0], t[1], t[0][1])),
        st.tuples(st.sampled_from(TEXTC), st.sampled_from(TEXTS)).map(lambda t: "%s{%s}" % t),
        st.tuples(st.sampled_from(MATR), rows, st.booleans()).map(mat),
        sub.map(lambda s: "{%s}" % s),
        st.tuples(st.sampled_from(["\\bf", "\\rm", "\\cal", "\\it", "\\color{blue}"]), sub).map(lambda t: "{%s %s}" % t),
        st.tuples(st.sampled_from(["\\over", "\\choose", "\\atop"]), sub, sub).map(lambda t: "{%s %s %s}" % (t[1], t[0], t[2])),
    )


def mat(t):
    env, rows, nl = t
    arg = {"array": "{cc}", "subarray": "{l}"}.get(env, "")
    return "\\begin{%s}%s%s %s \\end{%s}" % (env, arg, "\n" if nl else "", (" \\\\\n" if nl else " \\\\ ").join(" & ".join(r) for r in rows), env)
