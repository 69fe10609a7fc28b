PAR = "ginko/src/dts/parser.rs"
LEXF = "ginko/src/dts/tokens/lexer.rs"
ANA = "ginko/src/dts/analysis.rs"
PRJ = "ginko/src/dts/project.rs"
ASTF = "ginko/src/dts/ast.rs"
DAT = "ginko/src/dts/data.rs"
VIS = "ginko/src/dts/visitor.rs"
DIA = "ginko/src/dts/diagnostics.rs"
ERR = "ginko/src/dts/error_codes.rs"
SRV = "ginko_ls/src/server.rs"

bug("c18-include-dir-last", "C18", PRJ, "include_paths.insert(0, parent.into());", "include_paths.push(parent.into());",
    "a file of the same name both next to the including file and in a configured include directory",
    "the include directory wins over the directory of the including file",
    cli({"d/a.dts": "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { a = <&here>; };\n", "d/b.dtsi": "/ { here: x { }; };\n", "i/b.dtsi": "/ { there: x { }; };\n"},
        "d/a.dts --include i", ["OK"], 0))

bug("c16-omit-node-not-counted", "C16", PAR, "node_discovered = true;", "node_discovered |= omit_if_no_ref.is_none();",
    "a property behind a child node that is prefixed with /omit-if-no-ref/",
    "properties behind such nodes are not reported",
    cli({"a.dts": "/dts-v1/;\n/ {\n  /omit-if-no-ref/ n { };\n  p = <1>;\n};\n"}, "a.dts", ["Properties must be placed before nodes"], 1))

bug("c10-label-swallowed", "C10", PAR, """            | TokenKind::Label(_)
            | TokenKind::String(_)
            | TokenKind::UnparsedNumber(_)
            | TokenKind::Directive(_)""", """            | TokenKind::String(_)
            | TokenKind::UnparsedNumber(_)
            | TokenKind::Directive(_)""",
    "a semicolon missing in front of a labelled property or node",
    "the label is swallowed when the semicolon in front of it is missing",
    cli({"a.dts": "/dts-v1/;\n/ {\n  p { }\n  lab: n { };\n};\n&lab { };\n"}, "a.dts", ["a.dts:3:", "Expected"], 1, ["cannot be resolved"]),
    more=[(PAR, "TokenKind::Unknown(_) | TokenKind::Comment(_) => true,", "TokenKind::Unknown(_) | TokenKind::Comment(_) | TokenKind::Label(_) => true,")])

bug("c15-first-value-only", "C15", ANA, """                    "compatible property should only contain strings",
                ))
            }""", """                    "compatible property should only contain strings",
                ));
                break;
            }""", "a compatible property with at least two values that are not strings", "only the first value that is not a string is reported",
    cli({"a.dts": "/dts-v1/;\n/ {\n  compatible = <1>,\n    \"x\",\n    <2>;\n};\n"}, "a.dts", ["a.dts:3:", "a.dts:5:"], 1))
