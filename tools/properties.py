"""Writes properties.jsonl (kept as data here so that the prose is easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=("LatexParser.parse + TokenBuilder.build output",)):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


PARSER, PREP, BUILD = "latex2json/parser/tex_parser.py", "latex2json/parser/tex_preprocessor.py", "latex2json/structure/builder.py"
H = "latex2json/parser/handlers/"
TU = "latex2json/utils/tex_utils.py"

p("C01", "Every word of a document appears in the output once, in order, in its place",
  """For any well-formed document made of the supported constructs, every word of its prose (paragraphs, headings, captions, list items,
  theorem bodies, quotes, footnotes, link texts, table cells) appears in the JSON output exactly once, in source order and inside the token of the construct
  that holds it. No word is lost, repeated, joined to its neighbour or invented, and no markup leaks into the text; this holds with and
  without the preprocessing pass.""",
  ["inputs"], "all nestings and orders of the supported constructs, all lengths, both preprocessing modes",
  "the tests compare about a hundred fixed snippets; words are lost when two constructs meet that no snippet puts side by side",
  [PARSER, PREP, BUILD, H], [("main parse loop", PARSER), ("preprocess pass", PREP), ("text concatenation and organisation", BUILD)])
p("C02", "Comments never change the output",
  """Adding a LaTeX comment (an unescaped % up to the end of its line, or a comment environment) anywhere outside of verbatim text, whatever
  the comment holds, gives the same output as the document without it. An escaped percent sign is text, and a percent sign after an escaped backslash pair
  starts a comment.""",
  ["inputs"], "all documents, all positions at the end of a line or on a line of its own, all comment texts",
  "the tests strip a handful of comments; they never compare a document with its commented variant",
  [TU, PREP, PARSER, H + "environment.py"], [("strip_latex_comments", TU), ("comment environment", H + "environment.py")])
p("C03", "Verbatim text and drawings come through unchanged",
  """The content of verbatim and lstlisting environments and of \\verb commands is output character for character (up to surrounding
  whitespace) as code, however much it looks like LaTeX: commands, user macros, comments, math, quotes and braces inside it are not interpreted, and it
  does not affect what follows. Drawing environments (tikzpicture, picture, pgfpicture) are output as one diagram holding their source, and an lstlisting
  keeps its options as title.""",
  ["inputs"], "all verbatim texts not holding their own end marker, in all contexts that allow them, both preprocessing modes",
  "the tests use five listings; interference needs an unusual text (a percent sign, an unbalanced brace, a macro name)",
  [H + "code_block.py", PREP, TU, "latex2json/parser/packages/tikz_pgf.py"],
  [("code block patterns", H + "code_block.py"), ("verbatim placeholders", PREP), ("picture environments", "latex2json/parser/packages/tikz_pgf.py")])
p("C04", "Math is kept as written, with its display kind, labels and numbering flag",
  """Every formula written with $, \\(, $$, \\[ or a math environment becomes one equation token with its LaTeX source unchanged up to
  whitespace, marked inline or block, and marked aligned for the align and eqnarray families. Its labels are taken out and listed in order, environments
  without a star get a number and all others none, and citations, references, links, footnotes and graphics inside math are replaced by placeholders that map
  to the tokens they produce outside of math.""",
  ["inputs"], "all formulas over a math grammar (scripts, fractions, delimiters, matrices, text, escaped symbols), all math environments, all contexts",
  "the tests check a few dozen formulas; text conversions must not touch any formula wherever it stands",
  [H + "equation.py", "latex2json/structure/tokens/equation.py", BUILD],
  [("equation handler", H + "equation.py"), ("equation token", "latex2json/structure/tokens/equation.py")])
p("C05", "Macros expand to what their current definition says",
  """Using a macro defined with \\newcommand, \\renewcommand, \\providecommand, \\def, \\edef, \\let, \\DeclareMathOperator, \\DeclarePairedDelimiter or \\csname gives the
  same output as writing its expansion by hand: arguments and optional defaults are substituted, uses inside other macros, arguments, math and
  headings are expanded, and ##1 refers to the inner macro. The definition in force is the latest one made before the use, an existing macro is
  not overridden by \\providecommand, and an alias made by \\let keeps its meaning when the original is redefined.""",
  ["inputs", "histories"], "all sequences of definitions, redefinitions and uses, in text and math, both preprocessing modes",
  "the tests use fixed definition sequences; the order of redefinitions and the nesting of uses is unbounded",
  [H + "new_definition.py", H + "command_processor.py", H + "command_manager.py", PREP, TU],
  [("definition handler", H + "new_definition.py"), ("expansion", H + "command_processor.py"), ("argument substitution", TU)])
p("C06", "Sections nest by level and are numbered by their position",
  """Each heading becomes a section token holding everything up to the next heading of the same or a higher level, with paragraphs and subparagraphs nested
  below their section. Numbers count the unstarred headings of each level under their parent, restart when a parent starts, run on letters after
  \\appendix (whose content is held by the appendix token) and on a separate counter for parts; starred headings have no number.""",
  ["inputs"], "all sequences of headings of all levels, starred or not, with labels, parts, appendix, bibliography and content between them",
  "the tests check a few heading sequences; the counters depend on the whole history of headings",
  [BUILD, H + "content_command.py"], [("section stack and counters", BUILD), ("heading levels", H + "content_command.py")])
p("C07", "Equations, figures, tables, algorithms and theorems are numbered in order",
  """Numbered equations, figures, tables and algorithms each carry their position among those of their kind in the document, wherever they are nested, and
  numbered theorem-like blocks carry the number of the current section and their position in it. Starred equations and theorems, unnumbered
  kinds (proof, note, ...), sub-figures and display math without environment have no number and do not advance any counter.""",
  ["inputs"], "all documents mixing numbered and unnumbered constructs at all nesting depths and across sections",
  "the tests number one small document; counters depend on everything before",
  [BUILD, H + "environment.py", H + "equation.py"], [("counters", BUILD), ("numbered flags", H + "environment.py")])
p("C08", "Lists keep every item, its label and its nesting depth",
  """An itemize, enumerate or description list becomes one list token of that name whose items are exactly its \\item entries in order, each holding all of its
  content (paragraphs, nested lists, environments, math) and its optional label as title; an entry with neither content nor label is left out. The depth of a list is one more than that of the list around it.""",
  ["inputs"], "all nestings of lists and other environments, all item labels and contents",
  "the tests nest lists twice; items are split by scanning past arbitrary nested content",
  [H + "item.py", H + "environment.py", BUILD], [("item splitting", H + "item.py"), ("list depth", BUILD)])
p("C09", "Tables keep their grid: rows, cells, spans and cell contents",
  """A tabular (also tabular*, tabularx, tabulary, longtable) becomes one tabular token with one row per source row and one cell per source cell
  in order; empty cells are kept, rules and column specifications leave no trace. A multirow or multicolumn cell
  carries its row and column span, and the content of each cell is what the same content gives outside of a table, including nested
  tables, line-broken cells, escaped ampersands and styled or math content.""",
  ["inputs"], "all grids, spans, rules, column specifications and cell contents including nested tables",
  "the tests use some twenty tables; splitting on & and \\\\ must respect every nesting",
  [H + "tabular.py", "latex2json/structure/tokens/tabular.py"], [("tabular handler", H + "tabular.py"), ("tabular token", "latex2json/structure/tokens/tabular.py")])
p("C10", "Text styles and colours apply to exactly the text they enclose",
  """Text inside a style command (\\textbf, \\emph, ...), a style declaration in its group ({\\bf ...}, {\\large ...}) or a colour command carries that style, outermost first and without
  repeats, and text outside of it does not. Styles reach formulas, citations, links and inline code inside as well, do not
  alter the text itself, and colour definitions are reported in the document's colour map with the latest definition of each name.""",
  ["inputs"], "all nestings of style commands, declarations, sizes and colours around all inline content",
  "the tests check single nestings; leaking or lost styles depend on what follows a group",
  [H + "text_formatting.py", H + "legacy_formatting.py", BUILD, "latex2json/structure/tokens/base.py", PARSER],
  [("style commands", H + "text_formatting.py"), ("declarations", H + "legacy_formatting.py"), ("colour map", PARSER)])
p("C11", "Citations, references, links, footnotes and labels are kept exactly",
  """Every citation lists its keys in order with its notes as title, every reference its labels, every link its unaltered target with its link text, every footnote its full content, and
  every included graphic its path and page. A label is attached to the construct it belongs to: the heading, caption, theorem, float or equation it is written in, and no
  label is lost or attached twice.""",
  ["inputs"], "all keys, notes, targets (with special characters), link texts and label positions in all contexts",
  "the tests cover one example per command; keys, targets and contexts are unbounded",
  [H + "content_command.py", PARSER, "latex2json/structure/tokens/ref_and_cite.py"],
  [("content commands", H + "content_command.py"), ("label attachment", PARSER)])
p("C12", "Bibliographies keep every entry with its key, fields and text",
  """From a thebibliography environment, a .bbl or .bib file, a bibdiv block or biblatex-compiled entries, the output holds one bibitem
  per entry, in order, with its citation key, label, entry type and every field or the full text. A .bib or .bbl file named by
  \\bibliography or \\addbibresource is found relative to the document, several files are concatenated, and of entries with the same key the first is kept.""",
  ["inputs"], "all bibliographies: entry types, fields, value delimiters, nested braces, percent signs, encodings, file layouts",
  "the tests parse a few entries of each format",
  ["latex2json/parser/bib", PARSER, "latex2json/structure/tokens/bibliography.py"],
  [("bib parsers", "latex2json/parser/bib"), ("file lookup and duplicates", PARSER)],
  ("BibParser.parse/parse_file", "TexReader.process_file output"))
p("C13", "Splitting a document over \\input files does not change the output",
  """Moving any run of blocks of a document to other files that are included by \\input or \\include (with or without extension, in sub-folders, nested) gives the
  same output as the single-file document: same content, nesting, numbering, macros and labels. A missing file drops only
  itself.""",
  ["inputs", "configurations"], "all documents, all ways to split them over a tree of files, all reference styles",
  "the tests include one file; equality with the inlined document is never checked",
  [PARSER, TU], [("input_file handling", PARSER), ("read_tex_file_content", TU)], ("TexReader.process_file output",))
p("C14", "The same source gives the same result in every container and encoding",
  """Processing a document as a single file, a folder, a zip, a tar.gz/tgz or a gzipped file gives the same tokens and colour map, whatever the folder layout and the other
  files around it, and the same as parsing its text. A document stored as UTF-8 (with or without BOM), UTF-16 or ASCII is read without loss; natural-language text stored in Latin-1 or a similar 8-bit encoding is read right, and a damaged byte costs nothing but itself. The JSON written is valid and reads back to
  the same tokens.""",
  ["inputs", "configurations"], "all documents, containers, folder layouts and listed encodings",
  "the tests process three fixture papers and check only that something comes out",
  ["latex2json/tex_reader.py", "latex2json/tex_file_extractor.py", "latex2json/utils/encoding.py"],
  [("TexReader.process", "latex2json/tex_reader.py"), ("main file search", "latex2json/tex_file_extractor.py"), ("encoding detection", "latex2json/utils/encoding.py")],
  ("TexReader.process/to_json/save_to_json",))
p("C15", "Archives cannot write outside their temp folder, which is always cleaned up",
  """Extracting any archive, however crafted (parent or absolute paths, links leading outside, special files), creates or changes no
  file outside of its own temporary folder, while all safe members are extracted and processed. The temporary folder is removed
  when clean-up is requested and whenever processing fails, kept until cleanup() otherwise, and calling cleanup() is safe in all cases; broken or unusable archives end in an exception.""",
  ["inputs", "fault_sequences"], "all archives mixing safe and hostile members, damaged archives, all clean-up options",
  "the tests hold no hostile archive and no failing one with clean-up off",
  ["latex2json/tex_file_extractor.py", "latex2json/tex_reader.py"],
  [("member checks", "latex2json/tex_file_extractor.py"), ("clean-up", "latex2json/tex_reader.py")], ("file system around the temp folder", "exceptions"))
p("C16", "Documents do not influence each other",
  """A reader or parser gives for each document the same output as a fresh one, whatever documents (also failing ones) it processed before and whatever other
  instances did in the meantime; nothing defined in one document (macros, environments, colours, theorems, boxes, aliases, conditionals, numbering) is visible in the next.
  Processing the same document again gives the same output.""",
  ["histories"], "all sequences of documents over several instances sharing definitions by name, with clear() between documents as the reader does it",
  "the tests use a fresh parser each time",
  [PARSER, "latex2json/tex_reader.py", H, BUILD], [("clear()", PARSER), ("TexReader.clear", "latex2json/tex_reader.py")],
  ("outputs of interleaved instances",))
p("C17", "Building tokens is pure, and the JSON follows the published token types",
  """Building the output leaves its input unchanged, gives equal output when repeated and keeps every token and text of the input. Every token in the JSON has one of the published
  token types with the published fields and value kinds, adjacent text of equal style is joined, and the JSON is the same as the in-memory tokens.""",
  ["inputs"], "all parsed documents and all token trees over the published token types",
  "the tests build a few token lists and never re-build or validate",
  [BUILD, "latex2json/structure/token_factory.py", "latex2json/structure/tokens"],
  [("TokenBuilder.build", BUILD), ("token classes", "latex2json/structure/tokens")], ("TokenBuilder.build output", "model_dump"))
p("C18", "Conditionals keep exactly one branch",
  """\\iftrue, a \\newif switch or an ifthen/etoolbox boolean (\\newboolean, \\newbool) that is set keep the first branch, \\iffalse and a switch or boolean that is cleared the other one, \\unless and \\notbool the opposite, and other
  conditionals (\\ifx, \\ifnum, \\ifdim, \\ifdefined, \\ifthenelse, \\IfFileExists ...) keep one of their branches, at any nesting, also from within macros; the other branch and the control words leave no trace and the text around is unaffected. Switches follow the latest setting made
  before the test.""",
  ["inputs", "histories"], "all nestings and sequences of conditionals, switches and settings, in prose and around blocks",
  "the tests nest conditionals twice",
  [H + "if_else_statements.py", PARSER, PREP, "latex2json/parser/packages/etoolbox.py"], [("if/else handler", H + "if_else_statements.py"), ("etoolbox", "latex2json/parser/packages/etoolbox.py")])
p("C19", "Accents and symbols become the Unicode characters they stand for",
  """Every accent command on a letter (\\'e, \\"{o}, \\c{c}, \\v s, \\~n, ...) in text gives the letter with that accent, every special letter or symbol command (\\ss, \\o, \\ae, \\S, \\ldots,
  \\textendash, ...) its character, joined correctly to the letters around it, and ``...'' quotes and escaped characters (\\%, \\&, \\_, \\{ ...) their plain form. Math is not touched by any of
  these conversions.""",
  ["inputs"], "all accents times letters times writing forms, all symbol commands, in all contexts, both preprocessing modes",
  "the tests convert some dozens of the several thousand combinations",
  ["latex2json/latex_maps", H + "diacritics.py", H + "command_manager.py"], [("unicode converter", "latex2json/latex_maps/latex_unicode_converter.py"), ("diacritics", H + "diacritics.py")])
p("C20", "The extracted preamble holds exactly the definitions and packages in order",
  """The preamble extracted from a document lists its package loads, macro and environment definitions and makeatletter blocks before \\begin{document}, in source order, each one complete and verbatim, and
  nothing from the body, the comments or the document class. Putting the extracted preamble in front of the body gives the same output as the full document.""",
  ["inputs"], "all preambles of definitions, packages, comments and other settings",
  "the preamble extraction has no test",
  ["latex2json/parser/tex_preamble.py", H + "new_definition.py"], [("get_preamble", "latex2json/parser/tex_preamble.py")], ("LatexPreamble.get_preamble",))
p("C21", "Definitions in local packages and classes count like those in the document",
  """A document that moves definitions (macros, operators, aliases, theorems, colours, \\newif switches and their settings) to local .sty or .cls files that it loads, also indirectly (\\RequirePackage,
  \\usepackage lists, \\LoadClass, \\input in a package, conditionals and \\AtBeginDocument around them), gives the same output as the document holding them itself. By default the macros
  of packages are only recognised, with their arguments, and expand to nothing; with ignore_sty_commands off they expand to their definition. A file is read once, files that do not exist are ignored, later definitions replace earlier ones, and nothing of a package file appears as text.""",
  ["inputs", "configurations"], "all definition sequences, all ways to spread them over package and class files, both settings of ignore_sty_commands",
  "the tests parse two package snippets",
  ["latex2json/parser/sty_parser.py", PREP], [("sty parser", "latex2json/parser/sty_parser.py"), ("package lookup", PREP)], ("TexReader.process output",))
p("C22", "Any input gives valid JSON in bounded steps, never an exception",
  """Parsing and building any text, however malformed (unclosed or crossed braces, environments, math and conditionals, missing arguments, arbitrary characters), ends without exception in a number of steps bounded in its
  size and gives tokens that serialise to JSON. Damage in one place does not affect well-formed paragraphs before it.""",
  ["inputs"], "all strings: token soups, mutated and truncated documents, arbitrary Unicode",
  "the tests only hold well-formed input",
  [PARSER, PREP, H, TU], [("main loop progress", PARSER), ("delimiter matching", TU)])
p("C23", "User-defined environments and theorems behave like what they stand for",
  """An environment made by \\newenvironment or \\renewenvironment gives, inside its own environment token, the output of its begin code, body and end code with the arguments and defaults
  substituted, whatever the environment contains and whatever other environments it is built from; \\renewenvironment replaces the earlier meaning from there on. An environment made by
  \\newtheorem becomes a theorem-like block of the declared title with the title, label and content given at its use, numbered when its title names a numbered kind and it is not made by \\newtheorem*.""",
  ["inputs", "histories"], "all definitions with arguments, defaults, nested and multiple uses and redefinitions",
  "the tests define three environments",
  [H + "environment.py", H + "new_definition.py", PARSER], [("environment processor", H + "environment.py")])
p("C24", "Front matter is extracted completely",
  """Title, authors (split at \\and, with their affiliations, e-mails, addresses, thanks notes and inline formatting), abstract and keywords appear once each as tokens of their type with their full content, in any
  order and in the preamble or the body. \\maketitle, \\date and layout settings leave no trace and the body is unaffected.""",
  ["inputs"], "all front matters: orders, numbers of authors, optional arguments, nested inline content",
  "the tests parse a handful of author blocks",
  [H + "author.py", H + "content_command.py", "latex2json/structure/tokens/metadata.py"], [("author handler", H + "author.py"), ("metadata tokens", "latex2json/structure/tokens/metadata.py")])
p("C25", "Unknown commands and environments are preserved and affect nothing else",
  """An unknown command appears as one command token with its name and its argument (with the options directly before it) as written; any further braced group is content. An unknown environment
  appears as an environment token of its name holding its processed content, labels and numbering included. Both stand in their place with the style around them, and
  the text, formatting, numbering and nesting around them are the same as without them. A name that merely begins or ends like a known one is unknown.""",
  ["inputs"], "all documents times all positions and argument shapes of unknown commands and environments",
  "the tests hold a few unknown commands in isolation",
  [PARSER, H + "environment.py"], [("unknown command tokens", PARSER), ("environment fallback", H + "environment.py")])
p("C26", "Layout commands leave no trace",
  """The layout commands that the library knows (spacing and skips, page and line breaks, lengths and counters, page styles, rules, alignment, font selection, the settings of packages
  like hyperref, geometry, caption, titlesec) can be added between any two words or blocks of a document, between the rows of a table or in an equation, with
  all forms of their arguments (glue, assigned lengths, stars, options, nested braces), without any change to the words, styles, structure or numbering of the output.""",
  ["inputs"], "all documents times all positions times the supported layout commands with generated arguments",
  "the tests check each command in isolation at the start of a snippet",
  [H + "formatting.py", "latex2json/parser/packages", PARSER], [("formatting patterns", H + "formatting.py"), ("titlesec, keyval, boxes", "latex2json/parser/packages")])
p("C27", "Boxes show their content",
  """Text put in a box (\\mbox, \\fbox, \\parbox, \\raisebox, \\framebox, \\makebox, \\colorbox, minipages, ...) gives the output of the text itself, and a saved box (\\savebox, \\sbox) shows its content at every \\usebox,
  using the latest content saved before, without its dimensions and options leaking into the text.""",
  ["inputs", "histories"], "all box commands with generated options and contents, all sequences of saving and using boxes",
  "the tests hold one example per box command",
  ["latex2json/parser/packages/boxes.py"], [("box handler", "latex2json/parser/packages/boxes.py")])
p("C28", "Commands that stand for content give that content where they stand",
  """\\texorpdfstring gives its second argument, \\nicefrac/\\textfrac/\\frac in text "a / b", \\num its number (rounded half up with round-precision), \\romannumeral the roman numeral, \\citetext its content, \\ensuremath an inline
  equation, \\begingroup/\\bgroup groups their content, \\twocolumn[...] its content, overpic its image, \\captionof a caption with the kind as title, \\subfloat its caption and content in the float, whose labels become labels of the float;
  phantoms and loops (\\foreach, \\forloop) show nothing. In every context (titles, captions, cells, styles, footnotes) and next to each other, the words around them stay separate and unchanged.""",
  ["inputs"], "all documents times all places and arguments of these commands",
  "the tests hold one example per command in isolation",
  [H + "text_formatting.py", H + "for_loop_statements.py", H + "content_command.py", "latex2json/parser/packages/overpic.py"], [("text commands", H + "text_formatting.py"), ("loops", H + "for_loop_statements.py"), ("overpic", "latex2json/parser/packages/overpic.py")])
p("C29", "Setting keys runs their code with their values",
  """\\setkeys{family}{key=value,...} gives, for each of its keys in turn, the content of the code that the latest \\define@key of this family and key holds, with the value in place of #1: the value without the braces that protect
  its commas and equal signs, the default where no value is given. Code that defines a macro, sets a switch or sets another key does so for what follows. Keys and families that are not defined show nothing, definitions show nothing,
  and this holds in every context (titles, items, cells, captions, notes, styles), within macros that hand their argument to \\setkeys, and with or without preprocessing.""",
  ["inputs", "histories"], "all sequences of key definitions and settings, with values of any form",
  "the tests set two keys once",
  ["latex2json/parser/packages/keyval.py", H + "command_manager.py", PREP], [("keyval", "latex2json/parser/packages/keyval.py"), ("command manager", H + "command_manager.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
