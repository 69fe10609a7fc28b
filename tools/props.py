#!/usr/bin/env python3
"""The single source of properties.jsonl, MANIFEST.json and contracts/props.json."""
import json, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "ginko/src/dts/"
LX, PA, AN, PJ, AST, DATA, DI = D + "tokens/lexer.rs", D + "parser.rs", D + "analysis.rs", D + "project.rs", D + "ast.rs", D + "data.rs", D + "diagnostics.rs"
RD, TK, IG, VI, EC = D + "reader.rs", D + "tokens/token.rs", D + "import_guard.rs", D + "visitor.rs", D + "error_codes.rs"
CLI, LS = "ginko/src/main.rs", "ginko_ls/src/server.rs"

LEX = "dts::tokens::lexer/*"
def par(*fs): return ["dts::parser/Parser::" + f for f in fs]
P = {}


def prop(id, title, statement, over, text, why, mech, own=(), level=None, bounded="", bins=False, hook=None, observe=None, **kw):
    files = []
    for n, w in mech:
        f = w.split(" ")[0]
        if f not in files:
            files.append(f)
    assert len(title) <= 80, title
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, files=files,
                 own=list(own), level=level or ("proof" if own else "exploration"), bounded=bounded, bins=bins, hook=hook,
                 observe=observe or [], kw=kw)


HOOK = "re-exports of internal types under cfg(ginko_verif)"
I, H, C = "inputs", "histories", "configurations"

prop("C01", "Tokens cover the source text; spans are exact lines and UTF-16 columns",
     "Splitting a source text into tokens accounts for every character: the tokens appear in source order, their spans do not overlap, and whatever lies between them is whitespace. The start of a span is the zero-based line and column (counted in UTF-16 code units) of the first character of the token, its end the position right behind its last character.",
     [I], "all source texts (any sequence of Unicode characters, including tabs, carriage returns, non-ASCII and non-BMP characters, text without a final newline)",
     "The tests check the spans of a few dozen short ASCII snippets; no test covers columns behind multi-byte characters, multi-line tokens followed by others, or arbitrary text.",
     [("byte reader keeps line and column", RD + " ByteReader::consume"), ("lexer", LX + " Lexer::consume"), ("whitespace", LX + " Lexer::skip_whitespace"), ("position arithmetic", DATA + " Position, Span")],
     own=[LEX, "dts::reader/*", "dts::data/Position*", "dts::data/Span*", "dts::data/<Span*", "dts::data/HasSpan*", "dts::tokens::token/*"], hook=HOOK,
     bounded="the token sequence of generated texts against an independent reference lexer")

prop("C02", "Kind and content of every token are those of the devicetree language",
     "The kind of every token and the text it carries (name, label, string after escape handling, number, directive, reference, comment, symbol, unknown character) are determined by the source text according to the lexical rules of devicetree sources, including which context lets a digit start a name instead of a number. A string, comment, directive or path reference that is not terminated is never taken for a terminated one.",
     [I], "all source texts",
     "The tests lex some 40 fixed snippets; escapes, look-ahead for labels and unit addresses, and unterminated tokens at the end of the text combine in unbounded ways.",
     [("lexer", LX + " Lexer::consume"), ("names and labels", LX + " Lexer::ident_or_label"), ("strings", LX + " Lexer::string"), ("references", LX + " Lexer::path_or_reference"), ("comments", LX + " Lexer::multi_line_comment"), ("directives", LX + " Lexer::compiler_directive")],
     own=[LEX], hook=HOOK,
     bounded="the token sequence of generated texts against an independent reference lexer")

prop("C03", "Every text is processed to an end, without a panic",
     "Lexing, parsing, analysing, cursor lookup, printing of issues and printing of the tree come to an end and do not panic, whatever the text is. Arithmetic on positions and indices does not overflow for texts of less than 2^31 bytes, and the depth of nesting is bounded only by the stack.",
     [I], "all source texts, including truncated, mutated and random ones",
     "The tests use well-formed or mildly broken snippets; panics hide in the combinations of malformed input nobody wrote down.",
     [("lexer loops", LX + " Lexer::consume"), ("error recovery", PA + " Parser::file"), ("expressions", PA + " Parser::skip_expression_starting_with_paren"), ("analysis", AN + " Analysis::analyze_file"), ("printing", DI + " DiagnosticPrinter")],
     own=[LEX, "dts::reader/*", "dts::data/*", "dts::tokens::token/*", "dts::parser/*", "dts::ast/*", "dts::diagnostics/*"], hook=HOOK,
     bounded="generated and mutated texts through lexer, parser, analysis, cursor lookup and printers, each within a time limit",
     known=[{"id": "deep-nesting", "what": "parsing nodes nested several thousand levels deep overflows the stack and aborts the process (recursive descent over nodes; input: '/dts-v1/;/{' + 'a{' * 20000)"}])

prop("C04", "Numbers in cells and memory reservations have their exact value or are reported",
     "A number between angle brackets, and each number of a memory reservation, carries exactly the value written: decimal, hexadecimal with 0x, octal with a leading 0, up to 32 bits in cells and up to 64 bits in memory reservations. A number that is malformed or does not fit is reported at its place as an integer error and is never silently wrapped or truncated.",
     [I], "all number tokens in all contexts",
     "The tests contain a handful of numbers; boundary values, leading zeros, wrong digits and overflow are not covered.",
     [("cell values", PA + " Parser::number_u32"), ("radix", PA + " Parser::memreserve_number_u64"), ("number tokens", LX + " Lexer::number")],
     own=par("number_u32", "memreserve_number_u64", "property_value", "primary") + [LEX], hook=HOOK, bounded="texts with a high share of boundary and malformed numbers against a reference parser")

prop("C06", "Byte strings have the bytes written; anything malformed is reported",
     "The value of a byte string is the sequence of bytes given by its hexadecimal digits taken two by two, independent of whitespace between the groups. An odd number of digits and anything that is not a hexadecimal digit is reported at its place.",
     [I], "all byte strings, with any grouping, any characters and comments between",
     "The tests contain three byte strings.",
     [("byte strings", PA + " Parser::byte_string"), ("tokens of a byte string", LX + " Lexer::consume")],
     own=par("byte_string", "property_value") + [LEX], hook=HOOK, bounded="texts with a high share of byte strings, well-formed and malformed, against a reference parser")

prop("C07", "The rules for node names, unit addresses, labels and property names are checked",
     "Node names and property names of more than 31 characters, names with characters that are not allowed in their place, node names that do not start with a letter, and malformed unit addresses are reported: a character that is not allowed at exactly that character, anything else at the name. Names that follow the rules are not reported.",
     [I], "all names in all positions: node definitions, unit addresses, path references, properties, delete directives",
     "The tests check a few names; length limits, character classes per position and the place of the report are unbounded in combination.",
     [("node names", PA + " Parser::check_is_node_name"), ("property names", PA + " Parser::check_is_property_name"), ("unit addresses", PA + " Parser::node_name")],
     own=par("check_ident", "check_is_label", "check_is_node_name", "check_is_property_name", "node_name", "property_name", "reference", "node_payload"), hook=HOOK, bounded="texts with a high share of irregular names against a reference parser")

prop("C08", "The syntax tree mirrors the source",
     "For every accepted text the tree holds exactly the elements that were written, in source order and with nothing added or lost: directives, root and referenced nodes, labels of nodes and properties, node names with unit addresses, properties with all their values, cells, references and deletions. Every element carries the span of the text it was made from.",
     [I], "all texts the grammar accepts",
     "The tests compare trees of small snippets; that nothing is dropped, duplicated or reordered has to hold for every nesting and combination.",
     [("files", PA + " Parser::file"), ("nodes", PA + " Parser::node_payload"), ("properties", PA + " Parser::property_values"), ("tree", AST + " DtsFile")],
     own=["dts::parser/*", "dts::ast/*"], hook=HOOK, bounded="trees of generated texts, element by element and with all spans, against a reference parser")

prop("C09", "Syntax errors are reported, and correct texts are not complained about",
     "A text outside of the grammar yields at least one issue, at the first place where it departs from the grammar; this includes texts that end too early, unbalanced parentheses and stray tokens anywhere. A text inside the supported grammar yields no syntax issue.",
     [I], "all source texts",
     "The tests contain about twenty broken texts; absence of silently skipped input is a statement about all texts.",
     [("parser", PA + " Parser::file"), ("node bodies", PA + " Parser::node_payload"), ("end of input", PA + " Parser::file"), ("expressions", PA + " Parser::skip_expression_starting_with_paren")],
     own=["dts::parser/*"], hook=HOOK, bounded="mutated, truncated and random texts against a reference parser: acceptance, and kind and place of each syntax issue")

prop("C10", "A missing semicolon costs one issue and nothing else",
     "When semicolons that end properties with values, nodes or directives are missing from an otherwise correct text, each missing one is reported exactly once, between the token before and the token behind it, and the tree has the same elements as with the semicolons in place. This is not claimed where the element behind starts with a character that is no token of its own (such as a property name that starts with #) or, behind a value, with a label (which then reads as a label of the value).",
     [I], "all correct texts and all sets of missing semicolons",
     "One test misses one semicolon at the end of a file; recovery must not eat or reinterpret what follows anywhere.",
     [("recovery", PA + " Parser::expect_semicolon"), ("expected token", PA + " Parser::file")],
     own=par("expect_semicolon", "primary", "node_payload", "file") + ["dts::tokens::lexer/PeekingLexer::*", "dts::tokens::lexer/Lexer::insert_pseudo_kind"], hook=HOOK, bounded="generated texts with semicolons removed against a reference parser")

prop("C12", "References resolve exactly to the nodes that exist at that point",
     "In a plain source file, a reference by label or by path that names no node defined so far (in the file or its includes) is reported as unresolved at its place for node references and deletions, and one that names a node anywhere in the file or its includes is not reported inside property values; resolvable references are never reported. In plugins (behind the /plugin/ directive), overlays, include files and files of unknown type unresolved references are not reported at all.",
     [I, C], "all files and include graphs, all file types",
     "The tests resolve a few references within one file; label tables merged over includes, re-opened nodes and order of definition are not covered.",
     [("resolution", AN + " Analysis::resolve_reference"), ("values", AN + " Analysis::resolve_references"), ("suppression", AN + " Analysis::unresolved_reference_error")],
     own=["dts::analysis/*", "dts::ast/*"], hook=HOOK, bounded="generated single- and multi-file projects against a reference analysis")

prop("C14", "The version header is required once, on top",
     "A plain source file without the /dts-v1/ header is reported once at its very start; further headers are reported as duplicates (a warning), and a first header behind any other element than an include as misplaced. Include files, overlays and files of unknown type need no header, and no other file is reported.",
     [I, C], "all sequences of top-level elements and all file types",
     "The tests cover a missing, one duplicate and one misplaced header.",
     [("header rules", AN + " Analysis::analyze_file")],
     own=["dts::analysis/Analysis::analyze_file"], hook=HOOK, bounded="generated files with misplaced, missing and repeated headers against a reference analysis")

prop("C15", "Only non-string values of compatible properties are warned about",
     "Every value of a property named compatible that is not a string is warned about at exactly that value, at any depth of nesting and in referenced nodes. No other property and no string value is warned about.",
     [I], "all trees",
     "One test checks one property.",
     [("check", AN + " Analysis::analyze_property")],
     own=["dts::analysis/Analysis::*", "dts::ast/<PropertyValue as HasSpan>*"], hook=HOOK, bounded="generated trees with a high share of compatible properties against a reference analysis")

prop("C16", "Properties behind child nodes and misplaced omit-if-no-ref are reported",
     "A property that follows a child node in the same node body is reported, once and at its place; properties before the first child node are not, whatever lies in other bodies. An omit-if-no-ref directive in front of something that is not a node is reported.",
     [I], "all node bodies",
     "Two tests check one body each.",
     [("node bodies", PA + " Parser::node_payload")],
     own=par("node_payload"), hook=HOOK, bounded="generated texts with misplaced properties and directives against a reference parser")

prop("C17", "Cyclic includes are detected, only these, and never cause endless processing",
     "When files include each other in a circle (of any length, including a file that includes itself), at least one include on the circle is reported as cyclic, with a path of files that is a circle in the include graph; without a circle none is. Adding an element to the dependency check fails exactly if the element then lies on a circle, and adding such files always comes to an end.",
     [I, H], "all finite include graphs and all orders of adding files",
     "The tests use graphs of up to four files; detection of all cycles and no others needs all graphs.",
     [("import guard", IG + " ImportGuard::add"), ("search", IG + " ImportGuard::check_for_cyclic_dependencies"), ("use", AN + " Analysis::analyze_include"), ("parsing once", PJ + " Project::parse_included_file")],
     own=["dts::import_guard/*", "dts::analysis/Analysis::analyze_include"], hook=HOOK, bounded="random graphs of up to 8 elements against reachability, and projects of up to 7 files that include each other")

prop("C18", "Includes are looked up next to the file, then in the include paths, in order",
     "An include names the first existing file among: the directory of the including file, then the configured include directories in their order. The file found is loaded once into the project under its canonical path, with the type given by its extension; an include that cannot be found or read is reported exactly once at its place.",
     [I, C], "all directory layouts, include path lists and include names (relative, nested, missing, unreadable)",
     "The tests use one layout with a single include directory.",
     [("lookup", AST + " Include::path"), ("loading", PJ + " Project::parse_included_file"), ("include paths", PJ + " Project::set_include_paths")],
     own=["dts::ast/Include::path", "dts::project/Project::set_include_paths", "dts::project/Project::parse_*", "dts::project/Project::add_file*", "dts::project/project_path"], hook=HOOK, bounded="random directory layouts in a scratch directory against a reference resolution")

prop("C19", "A file is analysed against everything its includes define",
     "Labels and nodes defined in an included file, directly or over several levels, are known behind the include, with the latest definition winning; references to them resolve to the place in the included file. An include whose file has issues of severity error is reported at the include, and one whose file has none is not.",
     [I, H], "all acyclic include graphs and contents",
     "The tests have one level of include with one label.",
     [("order", PJ + " Project::compute_key_order"), ("merge", AN + " Analysis::analyze_include"), ("errors", PJ + " ProjectFile::has_errors")],
     own=["dts::analysis/*", "dts::project/ProjectFile::has_errors", "dts::project/Project::get_file", "dts::project/Project::compute_key_order", "dts::project/Project::push_after_includes", "dts::project/Project::add_file*"], hook=HOOK, bounded="generated multi-file projects against a reference analysis")

prop("C20", "What is known about a project does not depend on how it got there",
     "After any sequence of files being added, changed and re-added, the issues and trees of every file are those of a fresh project that is given the same final texts. In particular nothing of an earlier version of a file survives in its issues, labels or nodes.",
     [H], "all histories of adding and changing the files of a project without include cycles whose included files can be read",
     "No test changes a file more than once or changes an included file.",
     [("re-analysis", PJ + " Project::add_file_with_text"), ("parsing", PJ + " Project::parse_file")],
     own=["dts::project/Project::add_file*", "dts::project/Project::parse_*", "dts::project/Project::compute_key_order", "dts::project/Project::push_after_includes", "dts::analysis/*"],
     hook=HOOK, bounded="random histories of up to 6 steps over up to 5 files compared with a fresh project")

prop("C21", "The item at a cursor position is the one whose text covers it",
     "Looking up a position in a file yields the reference, label or include whose span contains it (start inclusive, end exclusive), and nothing at any other position.",
     [I], "all trees and all positions",
     "Two tests look up three positions.",
     [("visitor", VI + " item_at_cursor"), ("span test", DATA + " Span::contains"), ("entry", PJ + " Project::find_at_pos")],
     own=["dts::visitor/*", "dts::data/Span::contains", "dts::project/Project::find_at_pos"], hook=HOOK, bounded="all interesting positions of generated trees against the spans of a reference parser")

prop("C22", "A reference is documented and located as the node it names",
     "For every reference that can be resolved within a file and its includes, the position reported is the span of the name of the node that was last defined under that label or path, in the file where it was defined, and its documentation names that node. For any other reference nothing is reported.",
     [I, H], "all references in all projects",
     "One test asks for one label.",
     [("lookup", AN + " AnalysisContext::get_referenced"), ("position", PJ + " Project::get_node_position"), ("documentation", PJ + " Project::document_reference")],
     own=["dts::analysis/*", "dts::project/Project::get_*", "dts::project/Project::document_reference", "dts::project/project_path"], hook=HOOK, bounded="all references of generated projects against a reference analysis")

prop("C23", "Issue kinds have fixed severities; a file is erroneous iff it has an error",
     "Overlong names, non-string compatible values and duplicate directives are warnings, all other issues are errors. A file counts as erroneous exactly if at least one of its issues (from parsing or analysis) is an error.",
     [I], "all issue kinds and all lists of issues",
     "No test enumerates the severities or checks files with warnings only.",
     [("severities", EC + " SeverityMap"), ("files", PJ + " ProjectFile::has_errors"), ("issue", DI + " Diagnostic::severity")],
     own=["dts::error_codes/*", "dts::diagnostics/Diagnostic::severity", "dts::project/ProjectFile::has_errors"], hook=HOOK, bounded="all issue kinds exhaustively; files of generated projects")

prop("C24", "The file type follows from the extension alone",
     "A path ending in .dts is a plain source, .dtsi an include file, .dtso or .overlay an overlay, and any other path (no extension, different case, not valid text) is of unknown type.",
     [I], "all paths",
     "One documentation test checks two names.",
     [("extension", DATA + " FileType::from_file_ending"), ("path", DATA + " FileType::from")],
     own=["dts::data/FileType::from_file_ending", "dts::data/<FileType as From<&Path>>::from"],
     bounded="random paths with all kinds of extensions against a table")

prop("C25", "An issue is printed with its severity, place, source line and marker",
     "Printing an issue shows its severity, the path, the one-based line and column, the source line concerned, and a marker under the issue that is as long as the issue on that line and at least one character long, followed by the message. This works for every position, including behind the end of the text and for issues over several lines, and issues are printed in the order given.",
     [I], "all issues and source texts",
     "Two tests print one issue each.",
     [("printer", DI + " DiagnosticPrinter::fmt_diagnostic")],
     bounded="random texts and issues against a reference printer")

prop("C26", "The command line program reports success exactly for files without issues",
     "The program exits with status 0 and prints OK exactly if neither the file nor any file it includes has an issue; otherwise every issue of every file is printed and the status is not 0. A file that cannot be read ends with a status other than 0 and without OK.",
     [I, C], "all files, include directories and contents",
     "No test runs the program.",
     [("main", CLI + " main"), ("loading", PJ + " Project::add_file")],
     bins=True, bounded="the program run on generated files and directories; expected result from a reference analysis", quick_s=25)

prop("C27", "The language server publishes every issue of every file, converted exactly",
     "After every opened or changed document the server publishes for every file of the project exactly its issues: same line and column range, message, error code and severity, from the source ginko_ls. A file without issues gets an empty list.",
     [I, H], "all documents and include graphs",
     "The language server has no tests.",
     [("conversion", LS + " lsp_diag_from_diag"), ("publication", LS + " publish_diagnostics"), ("ranges", LS + " lsp_range_from_span")],
     own=["ls::server/Backend::*", "ls::server/<Backend as LanguageServer>::did_open", "ls::server/<Backend as LanguageServer>::did_change*", "ls::server/lsp_*", "dts::project/Project::files", "dts::project/Project::get_diagnostics", "dts::project/ProjectFile::diagnostics", "dts::diagnostics/Diagnostic::severity"],
     bins=True, bounded="the server run as a process over its protocol on generated documents", quick_s=25)

prop("C28", "The outline of a document has exactly its nodes, properties and directives",
     "The outline lists every node, property, deletion, include and reference of the document in source order and nested as in the source, with names, kinds, full ranges and name ranges as written. A document that cannot be parsed has no outline.",
     [I], "all documents",
     "The language server has no tests.",
     [("outline", LS + " document_symbol"), ("spans", AST + " Node, Property")],
     own=["ls::server/<Backend as LanguageServer>::document_symbol*", "ls::server/ginko_*", "dts::project/Project::get_root", "dts::ast/*HasSpan*", "dts::ast/*Display*"],
     bins=True, bounded="the server run as a process over its protocol on generated documents", quick_s=25)

prop("C29", "The server's view of a document is its latest text",
     "After any sequence of opening, changing (with one or several full-text changes per notification) and closing documents, issues and outlines are those of the latest text of each open document. A notification without changes changes nothing, and documents that are not on disk are handled like others.",
     [H], "all sequences of document notifications",
     "The language server has no tests.",
     [("open", LS + " did_open"), ("change", LS + " did_change"), ("close", LS + " did_close")],
     own=["ls::server/<Backend as LanguageServer>::did_*", "ls::server/Backend::url_to_file_path", "dts::project/Project::add_file_with_text", "dts::project/Project::remove_file", "dts::project/Project::set_include_paths"],
     bins=True, bounded="random notification sequences of up to 4 steps against a mirrored project", quick_s=25)

prop("C30", "Published issues settle on the latest state under concurrent notifications",
     "However the handling of notifications and requests interleaves, once all notifications have been handled the last issues published for each file are those of the latest texts.",
     ["schedules"], "all interleavings of concurrently handled notifications",
     "No test runs the server, and interleavings depend on the runtime's scheduler.",
     [("publication", LS + " publish_diagnostics"), ("locking", LS + " Backend")])

prop("C32", "Hover and go-to-definition answer for the item under the cursor",
     "Hovering over a resolvable reference names the node, over a label the label, over an include the file; go-to-definition on a resolvable reference leads to the name of the node in the file that defines it, on an include to the included file. Anywhere else, and for unresolvable references, there is no answer.",
     [I], "all documents and positions",
     "The language server has no tests.",
     [("hover", LS + " hover"), ("definition", LS + " goto_definition"), ("positions", LS + " position_to_ginko_position")],
     own=["ls::server/<Backend as LanguageServer>::hover", "ls::server/<Backend as LanguageServer>::goto_definition", "ls::server/ginko_*", "ls::server/position_*", "dts::visitor/*", "dts::project/Project::find_at_pos", "dts::project/Project::get_node_position", "dts::project/Project::document_reference", "dts::ast/Include::path"],
     bins=True, bounded="the server run as a process over its protocol; positions of generated documents", quick_s=25)

NOT_APPLICABLE = {
    "C30": "A property of schedules: publishing happens after awaiting points outside of the project lock, in futures driven by tokio and tower-lsp; per-function contracts over one call say nothing about the order in which concurrently running handlers send, and Verus does not model this runtime.",
}


def main():
    with open(f"{VERIF}/properties.jsonl", "w") as f:
        for p in P.values():
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    cfg = {}
    checks = []
    for id, p in P.items():
        if id in NOT_APPLICABLE:
            continue
        cfg[id] = {"own": p["own"], "level": p["level"], "bounded": p["bounded"], "bins": p["bins"], **p["kw"]}
        if p["own"]:
            t = "contracts on the extracted real code discharged by Verus (Z3); differential search for failing inputs"
            n = p["kw"].get("note") or "All obligations of the functions listed in the evidence are discharged for all inputs; what these contracts do not reach is covered by a bounded differential check (" + p["bounded"] + "), which is not counted as proved. Trusted: the extractor, Verus/Z3, the listed library specifications."
        else:
            t = "bounded stand-in: differential check of the real code against a reference written from the property"
            n = p["kw"].get("note") or "Bounded: " + p["bounded"] + ". The functions concerned are not yet under contract; nothing is counted as proved."
        checks.append({"property": id, "quick_cmd": f"python3 check.py {id}", "thorough_cmd": f"python3 check.py {id}",
                       "technique": t, "level": p["level"], "level_note": n})
    json.dump(cfg, open(f"{VERIF}/contracts/props.json", "w"), indent=1)
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
    json.dump({"version": 1, "setup_cmd": "bash setup.sh",
               "hooks": {"guard": "ginko_verif", "enable": "RUSTFLAGS=\"--cfg ginko_verif\"", "source_commits": hooks[::-1]},
               "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]},
              open(f"{VERIF}/MANIFEST.json", "w"), indent=1)


main()
