RC = "ginko/src/dts/reader.rs"
GUARD = "ginko/src/dts/import_guard.rs"
CLI = "ginko/src/main.rs"

bug("c02-double-star", "C02", LEXF, """                    } else {
                        buf.push(ch)
                    }
                }
                ch => buf.push(ch),""", """                    } else {
                        buf.push(ch);
                        if let Some(b'*') = self.reader.peek() {
                            buf.push(b'*');
                            self.reader.skip();
                        }
                    }
                }
                ch => buf.push(ch),""",
    "a block comment that ends in an even number of stars followed by a slash",
    "the end of such a comment is overlooked, everything up to the next end of a comment is swallowed",
    cli({"a.dts": "/dts-v1/;\n/ {\n  /* x **/\n  a = <1>;\n  b = <0q>;\n  /* y */\n};\n"}, "a.dts", ["a.dts:5:"], 1))

bug("c02-string-newline", "C02", LEXF, """                    if is_escaped {
                        is_escaped = false
                    }
                    buf.push(ch)""", """                    if is_escaped {
                        is_escaped = false;
                        if ch == b'\\n' {
                            continue;
                        }
                    }
                    buf.push(ch)""",
    "a string with a backslash in front of a line break", "the line break is missing in the text of the string",
    rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Parser::from_text(ParserContext::default(), "\\"a\\\\\\nb\\"", std::path::Path::new("a.dts").into());
        assert_eq!(format!("{}", p.property_value().ok().unwrap()), "\\"a\\nb\\"");
    }
    '''))

bug("c04-hex-wraps", "C04", PAR, """                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    u32::from_str_radix(&num.as_str()[2..], 16)""", """                let num = if num.len() == 1 {
                    num.parse::<u32>()
                } else if num.starts_with("0x") {
                    u64::from_str_radix(&num.as_str()[2..], 16).map(|num| num as u32)""",
    "a hexadecimal cell with 9 to 16 digits", "cells that are too large lose their upper half without a report",
    cli({"a.dts": "/dts-v1/;\n/ { a = <0x100000000>; };\n"}, "a.dts", ["a.dts:2:"], 1))

bug("c04-memreserve-signed", "C04", PAR, """                let num = if num.len() == 1 {
                    num.parse::<u64>()
                } else if num.starts_with("0x") {
                    u64::from_str_radix(&num.as_str()[2..], 16)
                } else if num.starts_with('0') {
                    u64::from_str_radix(&num.as_str()[1..], 8)
                } else {
                    num.parse::<u64>()
                };""", """                let num = if num.len() == 1 {
                    num.parse::<u64>()
                } else if num.starts_with("0x") {
                    u64::from_str_radix(&num.as_str()[2..], 16)
                } else if num.starts_with('0') {
                    u64::from_str_radix(&num.as_str()[1..], 8)
                } else {
                    num.parse::<i64>().map(|num| num as u64)
                };""",
    "a decimal number of a memory reservation of 2^63 or more", "such numbers are reported though they fit",
    cli({"a.dts": "/dts-v1/;\n/memreserve/ 9223372036854775808 1;\n/ { };\n"}, "a.dts", ["OK"], 0))

bug("c07-symbols-prefix", "C07", PAR, 'if name.unit_address.is_none() && name.name == "__symbols__" {', 'if name.unit_address.is_none() && name.name.starts_with("__symbols__") {',
    "a node name that begins with __symbols__", "such names are not checked at all",
    cli({"a.dts": "/dts-v1/;\n/ { __symbols__x { }; };\n"}, "a.dts", ["a.dts:2:"], 1))

bug("c07-long-after-comma", "C07", PAR, "} else if str.len() > 31 {", "} else if str.trim_end_matches('_').len() > 31 {",
    "a name of more than 31 characters that ends in underscores", "the underscores at the end are not counted",
    cli({"a.dts": "/dts-v1/;\n/ { a-property-of-33-characters______ = <1>; };\n"}, "a.dts", ["a.dts:2:5"], 1))

bug("c08-same-property", "C08", PAR, """                items.push(NodeItem::DeletedProperty(tok, property_name));""", """                items.push(NodeItem::DeletedProperty(tok, property_name));
                items.dedup_by(|b, a| matches!((a, b), (NodeItem::DeletedProperty(_, a), NodeItem::DeletedProperty(_, b)) if a.item() == b.item()));""",
    "two deletions of the same property directly behind each other", "the second one is missing in the tree",
    rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Parser::from_text(ParserContext::default(), "{ /delete-property/ a; /delete-property/ a; };", std::path::Path::new("a.dts").into());
        assert_eq!(p.node_payload().ok().unwrap().items.len(), 2);
    }
    '''))

bug("c08-empty-label", "C08", PAR, "let prop = Property::empty(ident, label, cloned_tok);", "let prop = Property::empty(ident, label.filter(|_| !node_discovered), cloned_tok);",
    "a labelled property without values behind a child node", "the label is missing in the tree",
    rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Parser::from_text(ParserContext::default(), "{ n { }; lab: a; };", std::path::Path::new("a.dts").into());
        match &p.node_payload().ok().unwrap().items[1] {
            NodeItem::Property(p) => assert!(p.label.is_some()),
            _ => panic!(),
        }
    }
    '''))

bug("c09-comma-in-cells", "C09", PAR, """                Ok(Cell::Expression)
            }
            _ => Err(""", """                Ok(Cell::Expression)
            }
            TokenKind::Comma if self.lexer.peek_kind() == Some(&TokenKind::OpenParen) => self.number_u32(),
            _ => Err(""",
    "a comma between angle brackets in front of an expression", "the comma is accepted",
    cli({"a.dts": "/dts-v1/;\n/ { a = <1, (2)>; };\n"}, "a.dts", ["a.dts:2:"], 1))

bug("c10-delete-property", "C10", PAR, """                let property_name = self.property_name()?;
                self.expect_semicolon()?;""", """                let property_name = self.property_name()?;
                if self.lexer.peek_kind() != Some(&TokenKind::CloseBrace) {
                    self.expect_semicolon()?;
                }""",
    "the semicolon of a deletion missing at the end of a node", "the missing semicolon is not reported",
    cli({"a.dts": "/dts-v1/;\n/ {\n  /delete-property/ a\n};\n"}, "a.dts", ["a.dts:3:"], 1))

bug("c12-plugin-forgotten", "C12", ANA, "                        ctx.dts_header_seen = true;", "                        ctx.dts_header_seen = true;\n                        ctx.is_plugin = file_type == FileType::DtSourceOverlay;",
    "a version header behind /plugin/", "references in such a plugin are reported as unresolved",
    cli({"a.dts": "/plugin/;\n/dts-v1/;\n/ { a = <&nowhere>; };\n"}, "a.dts", ["must be placed on top"], 1, ["cannot be resolved"]))

bug("c22-property-label-first", "C22", ANA, """            ctx.labels
                .insert(label.item().clone(), Labeled::Property(property.clone()));""", """            ctx.labels
                .entry(label.item().clone())
                .or_insert_with(|| Labeled::Property(property.clone()));""",
    "a label that is given to a node first and to a property later", "the label names the node though it was redefined",
    rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Project::default();
        let f = std::path::PathBuf::from("/nowhere/a.dts");
        p.add_file_with_text(f.clone(), "/dts-v1/;\\n/ { l: n { }; };\\n/ { l: q; a = <&l>; };".into(), FileType::DtSource);
        let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&f, &Position::new(2, 15)) else { panic!() };
        assert!(p.get_node_position(&f, r).is_none());
    }
    '''))

bug("c14-memreserve-first", "C14", ANA, "AnyDirective::Memreserve(_) => ctx.first_non_include = true,", "AnyDirective::Memreserve(_) => {}",
    "a memory reservation in front of the version header", "the misplaced header is not reported",
    cli({"a.dts": "/memreserve/ 1 2;\n/dts-v1/;\n/ { };\n"}, "a.dts", ["a.dts:2:1"], 1))

bug("c15-hash", "C15", ANA, "match property.name.as_str() {", "match property.name.trim_start_matches('#') {",
    "a property with the name #compatible", "values of another property are warned about",
    cli({"a.dts": "/dts-v1/;\n/ { #compatible = <1>; };\n"}, "a.dts", ["OK"], 0))

bug("c16-delete-counts", "C16", PAR, "items.push(NodeItem::DeletedNode(tok, node_name));", "items.push(NodeItem::DeletedNode(tok, node_name));\n                node_discovered = true;",
    "a property behind the deletion of a node", "such properties are reported",
    cli({"a.dts": "/dts-v1/;\n/ {\n  /delete-node/ n;\n  p = <1>;\n};\n"}, "a.dts", ["OK"], 0))

bug("c17-long-cycle", "C17", GUARD, "if !parent.contains_key(neighbor) {", "if !parent.contains_key(neighbor) && (parent.len() < 6 || *neighbor != start) {",
    "a circle of at least seven files", "long circles are not reported",
    cli({**{f"f{i}.dtsi": f'/include/ "f{(i + 1) % 8}.dtsi"\n' for i in range(8)}, "a.dts": "/dts-v1/;\n/include/ \"f0.dtsi\"\n/ { };\n"}, "a.dts", ["Cyclic include"], 1))

bug("c18-io-error-once", "C18", PRJ, """            Err(err) => {
                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
                return;
            }""", """            Err(err) => {
                if diagnostics.is_empty() {
                    diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
                }
                return;
            }""",
    "an include that does not exist in a file that has another issue before", "the missing include is not reported",
    cli({"a.dts": "/dts-v1/;\n/include/ \"x.dtsi\"\n/include/ \"y.dtsi\"\n/ { };\n"}, "a.dts", ["a.dts:2:", "a.dts:3:"], 1))

bug("c18-type-of-name", "C18", PRJ, "let typ = FileType::from(canonicalized_path.as_path());", "let typ = FileType::from(include.file_name.item().as_ref() as &Path);",
    "an include that is a symbolic link to a file with another extension", "the type of the file follows the name of the link",
    rust('''
    use ginko::dts::*;
    fn main() {
        let d = std::env::current_dir().unwrap().join("data");
        std::fs::create_dir(&d).unwrap();
        std::fs::write(d.join("real.dts"), "/ { };").unwrap();
        std::os::unix::fs::symlink("real.dts", d.join("b.dtsi")).unwrap();
        std::fs::write(d.join("a.dts"), "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n").unwrap();
        let mut p = Project::default();
        p.add_file(d.join("a.dts").to_str().unwrap().into()).unwrap();
        assert_eq!(p.get_diagnostics(&d.join("real.dts")).count(), 1);
    }
    '''))

bug("c19-first-wins", "C19", ANA, "            ctx.labels.extend(context.labels.clone());", "            for (label, item) in context.labels.clone() {\n                ctx.labels.entry(label).or_insert(item);\n            }",
    "the same label in two included files", "the definition in the first one is used",
    rust('''
    use ginko::dts::*;
    fn main() {
        let d = std::env::current_dir().unwrap().join("data");
        std::fs::create_dir(&d).unwrap();
        std::fs::write(d.join("b.dtsi"), "/ { l: b { }; };").unwrap();
        std::fs::write(d.join("c.dtsi"), "/ { l: c { }; };").unwrap();
        std::fs::write(d.join("a.dts"), "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n/include/ \\"c.dtsi\\"\\n/ { a = <&l>; };").unwrap();
        let mut p = Project::default();
        let a = d.join("a.dts");
        p.add_file(a.to_str().unwrap().into()).unwrap();
        let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&a, &Position::new(3, 10)) else { panic!() };
        let (_, f) = p.get_node_position(&a, r).unwrap();
        assert!(f.ends_with("c.dtsi"));
    }
    '''))

bug("c20-changed-only", "C20", PRJ, "            let proj_file = self.files.get(key).unwrap();\n            let result", """            let proj_file = self.files.get(key).unwrap();
            if proj_file.context.is_some() && !proj_file.file.as_ref().is_some_and(|file| {
                file.elements.iter().filter_map(|el| el.as_include()).any(|include| include.path().is_ok_and(|path| path == file_name))
            }) {
                continue;
            }
            let result""",
    "a file that includes the changed file over another one", "files that include the changed file indirectly keep their old issues",
    rust('''
    use ginko::dts::*;
    fn main() {
        let d = std::env::current_dir().unwrap().join("data");
        std::fs::create_dir(&d).unwrap();
        std::fs::write(d.join("c.dtsi"), "/ { l: c { }; };").unwrap();
        std::fs::write(d.join("b.dtsi"), "/include/ \\"c.dtsi\\"\\n").unwrap();
        std::fs::write(d.join("a.dts"), "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n/ { a = <&l>; };").unwrap();
        let mut p = Project::default();
        p.add_file(d.join("a.dts").to_str().unwrap().into()).unwrap();
        assert_eq!(p.get_diagnostics(&d.join("a.dts")).count(), 0);
        p.add_file_with_text(d.join("c.dtsi"), "/ { };".into(), FileType::DtSourceInclude);
        assert_eq!(p.get_diagnostics(&d.join("a.dts")).count(), 1);
    }
    '''))

bug("c21-multiline-cells", "C21", VIS, "PropertyValue::Cells(_, cells, _) => {\n                for cell in cells {", "PropertyValue::Cells(open, cells, _) => {\n                for cell in cells.iter().take_while(|_| open.start().line() <= cursor.line() && cursor.line() <= self.span().start().line()) {",
    "a reference in cells on another line than their opening bracket", "nothing is found there",
    cli({"a.dts": "x"}, "a.dts", ["a.dts"], 1) and rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Project::default();
        let f = std::path::PathBuf::from("/nowhere/a.dts");
        p.add_file_with_text(f.clone(), "/dts-v1/;\\n/ { l: n {\\n a = <1\\n  &l>; }; };".into(), FileType::DtSource);
        assert!(matches!(p.find_at_pos(&f, &Position::new(3, 3)), Some(ItemAtCursor::Reference(_))));
    }
    '''))

bug("c22-no-root", "C22", ANA, "            Reference::Path(path) => self.get_node_by_path(path),", "            Reference::Path(path) if path.iter().next().is_none() => None,\n            Reference::Path(path) => self.get_node_by_path(path),",
    "a reference to the root by its path", "the root is not found",
    rust('''
    use ginko::dts::*;
    fn main() {
        let mut p = Project::default();
        let f = std::path::PathBuf::from("/nowhere/a.dts");
        p.add_file_with_text(f.clone(), "/dts-v1/;\\n/ { a = &{/}; };".into(), FileType::DtSource);
        let Some(ItemAtCursor::Reference(r)) = p.find_at_pos(&f, &Position::new(1, 9)) else { panic!() };
        assert!(p.get_node_position(&f, r).is_some());
    }
    '''))

bug("c23-first-decides", "C23", PRJ, """        self.diagnostics()
            .any(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)""", """        self.diagnostics()
            .last()
            .is_some_and(|diagnostic| diagnostic.severity(severity_map) == Severity::Error)""",
    "a file whose last issue is a warning and that has an error before", "the file does not count as erroneous",
    cli({"a.dts": "/dts-v1/;\n/include/ \"b.dtsi\"\n/ { };\n", "b.dtsi": "/ { a = <0q>; compatible = <1>; };\n"}, "a.dts", ["Included file contains errors"], 1))

bug("c24-no-extension", "C24", DAT, """            .extension()
            .and_then(|extension| extension.to_str())""", """            .file_name()
            .and_then(|name| name.to_str())
            .and_then(|name| name.rsplit('.').next())""",
    "a file without extension that is named like one", "such files are taken for device tree files",
    rust('''
    use ginko::dts::*;
    fn main() {
        assert_eq!(FileType::from(std::path::Path::new("/x/dts")), FileType::Unknown);
        assert_eq!(FileType::from(std::path::Path::new("/x/.dts")), FileType::Unknown);
    }
    '''))

bug("c25-tabs", "C25", DIA, ".map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })", ".flat_map(|ch| if ch != '\\t' { vec![' '] } else { vec![' '; 4] })",
    "a tab in front of an issue", "the marker is in the wrong place",
    rust('''
    use ginko::dts::*;
    fn main() {
        let d = vec![Diagnostic::new(Span::new(Position::new(0, 2), Position::new(0, 3)), std::path::Path::new("a.dts").into(), ErrorCode::ParserError, "hm")];
        let p = DiagnosticPrinter { diagnostics: &d, code: vec!["\\tax".into()], severity_map: SeverityMap::default() };
        assert!(format!("{p}").contains("| \\t ^ hm"), "{p}");
    }
    '''))

bug("c25-behind-end", "C03", DIA, """            .get(start.line() as usize)
            .unwrap_or(&empty_string)""", """            .get((start.line() as usize).min(self.code.len() - 1))
            .unwrap_or(&empty_string)""",
    "an empty file", "printing the issue of an empty file panics",
    rust('''
    use ginko::dts::*;
    fn main() {
        let d = vec![Diagnostic::new(Position::zero().as_span(), std::path::Path::new("a.dts").into(), ErrorCode::ParserError, "hm")];
        let p = DiagnosticPrinter { diagnostics: &d, code: vec![], severity_map: SeverityMap::default() };
        assert!(format!("{p}").contains("1:1"));
    }
    '''))

bug("c26-warnings-ok", "C26", CLI, "            has_errors = true;", "            has_errors |= file.has_errors(&SeverityMap::default());",
    "a file with warnings only", "the program reports success",
    cli({"a.dts": "/dts-v1/;\n/ { compatible = <1>; };\n"}, "a.dts", ["a.dts:2:"], 1, ["OK"]))

bug("c27-no-empty", "C27", SRV, "            self.client\n                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)", """            if diagnostics.is_empty() && self.project.read().get_root(&file).is_some_and(|it| it.elements.is_empty()) {
                continue;
            }
            self.client
                .publish_diagnostics(Url::from_file_path(&file).unwrap(), diagnostics, None)""",
    "a document without issues that has no root node", "no list of issues is published for it, issues published before stay",
    lsp('''
    s = S()
    s.open("a.dtsi", "/ { a = <0q>; };")
    assert len(s.diags[uri("a.dtsi")]) == 1
    s.notify("textDocument/didChange", {"textDocument": {"uri": uri("a.dtsi"), "version": 2}, "contentChanges": [{"text": ""}]})
    s.request("textDocument/hover", {"textDocument": {"uri": uri("a.dtsi")}, "position": {"line": 0, "character": 0}})
    import time; time.sleep(0.5)
    s.request("textDocument/hover", {"textDocument": {"uri": uri("a.dtsi")}, "position": {"line": 0, "character": 0}})
    assert s.diags[uri("a.dtsi")] == []
    '''))

bug("c28-deleted-range", "C28", SRV, "range: ginko_span_to_range(Span::new(token.start(), ref_node.end())),\n                        selection_range: ginko_span_to_range(ref_node.span()),\n                        children: None,\n                    })\n                }\n                _ => None,",
    "range: ginko_span_to_range(Span::new(ref_node.start(), token.end().max(ref_node.end()))),\n                        selection_range: ginko_span_to_range(ref_node.span()),\n                        children: None,\n                    })\n                }\n                _ => None,",
    "an omit-if-no-ref directive in front of a reference", "its range in the outline misses the directive",
    lsp('''
    s = S()
    s.open("a.dts", "/dts-v1/;\\n/ { l: n { }; };\\n/omit-if-no-ref/ &l;\\n")
    r = s.request("textDocument/documentSymbol", {"textDocument": {"uri": uri("a.dts")}})
    assert r[1]["range"]["start"] == {"line": 2, "character": 0}, r
    '''))

bug("c29-open-cached", "C29", SRV, """        let file_type = FileType::from(file_path.as_path());
        self.project.write().add_file_with_text(
            file_path.clone(),
            params.text_document.text,
            file_type,
        );""", """        let file_type = FileType::from(file_path.as_path());
        if self.project.read().get_root(&file_path).is_none() {
            self.project.write().add_file_with_text(
                file_path.clone(),
                params.text_document.text,
                file_type,
            );
        }""",
    "opening a document that is already known as an include, with unsaved text", "the text on the disk is used",
    lsp('''
    open(os.path.join(sys.argv[2], "b.dtsi"), "w").write("/ { };")
    s = S()
    s.open("a.dts", "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n", 2)
    s.open("b.dtsi", "/ { a = <0q>; };", 2)
    assert len(s.diags[uri("b.dtsi")]) == 1
    '''))

bug("c32-own-file", "C32", SRV, "Some((span, path)) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(\n                        Url::from_file_path(path).unwrap(),", "Some((span, path)) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(\n                        Url::from_file_path(if path.exists() { &path } else { file_path.as_path() }).unwrap(),",
    "a node that is defined in a file that is not on the disk any more", "the definition is looked for in the wrong file",
    lsp('''
    p = os.path.join(sys.argv[2], "b.dtsi")
    open(p, "w").write("/ { l: n { }; };")
    s = S()
    s.open("a.dts", "/dts-v1/;\\n/include/ \\"b.dtsi\\"\\n/ { a = <&l>; };", 2)
    os.remove(p)
    r = s.request("textDocument/definition", {"textDocument": {"uri": uri("a.dts")}, "position": {"line": 2, "character": 10}})
    assert r["uri"] == uri("b.dtsi"), r
    '''))

bug("c01-tab", "C01", RC, """            b'\\n' => {
                self.pos = Position::new(self.pos.line() + 1, 0);""", """            b'\\n' | 0x0c => {
                self.pos = Position::new(self.pos.line() + 1, 0);""",
    "a form feed in the text", "a form feed counts as a line break",
    cli({"a.dts": "/dts-v1/;\n/ {\x0c a = <0q>; };\n"}, "a.dts", ["a.dts:2:"], 1))

bug("c06-odd-ident", "C06", PAR, "                if raw_str.len() % 2 != 0 {", "                if raw_str.len() % 2 != 0 && (raw_str.len() < 16 || matches!(tok.kind, TokenKind::Ident(_))) {",
    "a byte string with a group of 17 or more digits, odd in number, that starts with a digit", "the last digit is lost without a report",
    cli({"a.dts": "/dts-v1/;\n/ { a = [00112233445566778]; };\n"}, "a.dts", ["a.dts:2:"], 1))
