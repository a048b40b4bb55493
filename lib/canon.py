"""Canonical form of the library's output.

Text is compared word by word (with styles): the library documents that it does
not preserve visual layout, so whitespace and how text is split into adjacent
text tokens are not part of any property.  Everything else (types, nesting,
content, keys, numbers, flags) is.
"""
import json
import re

from pbt import Violation, sut

WORD = re.compile(r"\w+|[^\w\s]")
TYPES = {
    "document", "title", "section", "paragraph", "abstract", "appendix", "command", "text", "quote",
    "environment", "math_env", "figure", "subfigure", "table", "tabular", "caption", "includegraphics",
    "includepdf", "diagram", "list", "item", "equation", "code", "algorithm", "algorithmic", "citation",
    "ref", "url", "footnote", "bibliography", "bibitem", "author", "email", "affiliation", "keywords",
    "address", "group",
}


def new_parser():
    from latex2json import LatexParser
    p = LatexParser()
    p.clear()
    return p


def parse(latex, preprocess=False, parser=None):
    p = parser or new_parser()
    return sut("parse", p.parse, latex, preprocess=preprocess)


def build(tokens, builder=None):
    from latex2json import TokenBuilder
    b = builder or TokenBuilder()
    out = sut("build", b.build, tokens)
    return sut("model_dump", lambda: [
        t if isinstance(t, str) else t.model_dump(mode="json", exclude_none=True) for t in out
    ])


def process(latex, preprocess=False, spaces=True):
    """LaTeX text -> list of JSON-able dicts, the way TexReader does it.
    spaces: words in the source are never written next to a macro or accent that
    adds characters to them, so the space between words can be judged"""
    out = build(parse(latex, preprocess))
    if spaces:
        require_spaces(out, latex)
    return out


def words(s):
    return WORD.findall(s.replace("~", " "))


def ws(s):
    return " ".join(s.split())


def dedupe(seq):
    return list(dict.fromkeys(seq))


def canon(tokens, styles=()):
    """Flatten groups, split text into words, keep everything else recursively."""
    out = []
    if tokens is None:
        return out
    if isinstance(tokens, str):
        return [["w", w, list(styles)] for w in words(tokens)]
    if isinstance(tokens, dict):
        tokens = [tokens]
    if not isinstance(tokens, list):
        raise Violation("output holds a %s where tokens are expected: %r" % (type(tokens).__name__, tokens))
    for t in tokens:
        if isinstance(t, str):
            out += canon(t, styles)
            continue
        if isinstance(t, list):
            out.append({"type": "_list", "content": canon(t, styles)})
            continue
        if not isinstance(t, dict) or "type" not in t:
            raise Violation("output holds something that is not a token: %r" % (t,))
        st = dedupe(list(styles) + list(t.get("styles") or []))
        ty = t["type"]
        if ty == "text":
            if not isinstance(t.get("content"), str):
                raise Violation("text token without string content: %r" % (t,))
            out += [["w", w, st] for w in words(t["content"])]
        elif ty == "group":
            inner = canon(t["content"], st)
            if t.get("labels"):
                inner.append({"type": "_grouplabels", "labels": list(t["labels"])})
            out += inner
        else:
            out.append(canon_token(t, st))
    return out


FIELDS = ("name", "level", "numbering", "display", "align", "depth", "page", "pages", "command",
          "cite_key", "format", "label", "fields")


def canon_token(t, st):
    ty = t["type"]
    d = {"type": ty}
    if st:
        d["styles"] = st
    if t.get("labels"):
        d["labels"] = list(t["labels"])
    for f in FIELDS:
        if t.get(f) is not None:
            d[f] = t[f]
    if d.get("display") == "inline" and ty == "equation":
        del d["display"]
    if t.get("title") is not None:
        d["title"] = canon(t["title"]) if ty not in ("code",) else t["title"]
    c = t.get("content")
    if ty == "tabular":
        d["content"] = trim_rows([[canon_cell(c) for c in row] for row in c])
    elif ty in ("citation", "ref"):
        d["content"] = list(c)
    elif ty == "equation":
        d["content"] = ws(c)
        if t.get("placeholders"):
            d["placeholders"] = {k: canon(v) for k, v in t["placeholders"].items()}
    elif ty in ("diagram", "algorithmic"):
        d["content"] = c.strip() if isinstance(c, str) else c
    elif ty == "code" and isinstance(c, str):
        d["content"] = "\n".join(x.rstrip() for x in c.split("\n"))
    elif ty in ("code", "url", "includegraphics", "includepdf", "command"):
        d["content"] = c
    elif ty == "author":
        d["content"] = [canon(a) for a in c]
    else:
        d["content"] = canon(c) if c is not None else []
    return d


GLUED = re.compile(r"[A-Za-z]{2,}[^\w\s]+(?=[A-Za-z]{2})[A-Za-z]*")


def require_spaces(tokens, latex):
    """words that are apart in the source are apart in the text: two words with
    only punctuation between them in the output stand like that in the source"""
    if isinstance(tokens, str):
        for m in GLUED.findall(tokens):
            if m not in latex:
                raise Violation("the space is lost in %r\n--- source\n%s" % (m, latex))
    elif isinstance(tokens, list):
        for t in tokens:
            require_spaces(t, latex)
    elif isinstance(tokens, dict) and tokens.get("type") not in ("equation", "code", "diagram", "url", "algorithmic", "citation", "ref", "command", "includegraphics", "includepdf"):
        for k in ("content", "title"):
            require_spaces(tokens.get(k), latex)


def trim_rows(rows):
    """rows of only empty cells at the start and end are not part of a grid"""
    rows = list(rows)
    while rows and not any(rows[0]):
        rows.pop(0)
    while rows and not any(rows[-1]):
        rows.pop()
    return rows


def canon_cell(cell):
    if isinstance(cell, dict) and "type" not in cell:
        return {"rowspan": cell.get("rowspan"), "colspan": cell.get("colspan"), "content": canon(cell.get("content"))}
    return canon(cell)


def all_words(c):
    """Every word of a canonical tree, in document order."""
    out = []

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "w":
                out.append(x[1])
                return
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if "title" in x:
                walk(x["title"])
            if x.get("type") not in ("equation", "code", "diagram", "url", "citation", "ref", "includegraphics"):
                walk(x.get("content"))
    walk(c)
    return out


def jdump(x):
    return json.dumps(x, ensure_ascii=False, sort_keys=True)


def diff(a, b, path="$"):
    """First difference between two canonical trees, as text."""
    if type(a) is not type(b):
        return "%s: got %s, want %s" % (path, jdump(a)[:400], jdump(b)[:400])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return "%s.%s missing (want %s) in %s" % (path, k, jdump(b[k])[:300], jdump(a)[:300])
            if k not in b:
                return "%s.%s unexpected: %s in %s" % (path, k, jdump(a[k])[:300], jdump(a)[:300])
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) == 3 and a[0] == "w" or len(b) == 3 and b[:1] == ["w"]:
            return None if a == b else "%s: got %s, want %s" % (path, jdump(a)[:400], jdump(b)[:400])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            i = min(len(a), len(b))
            return "%s: got %d items, want %d; first extra %s: %s" % (
                path, len(a), len(b), "got" if len(a) > len(b) else "wanted",
                jdump((a if len(a) > len(b) else b)[i])[:400])
        return None
    return None if a == b else "%s: got %s, want %s" % (path, jdump(a)[:400], jdump(b)[:400])


def tight(x):
    """without the blanks that separate line breaks of formulas from letters and signs: they mean nothing"""
    if isinstance(x, dict):
        eq = x.get("type") == "equation"
        return {k: re.sub(r"(\\\\) (?=[a-zA-Z,;:!/-])", r"\1", v) if eq and k == "content" and isinstance(v, str) else tight(v) for k, v in x.items()}
    return [tight(i) for i in x] if isinstance(x, list) else x


def require_canon(got, want, latex, what="output differs from the model"):
    d = diff(tight(got), tight(want))
    if d:
        raise Violation("%s: %s\n--- source\n%s" % (what, d, latex))
