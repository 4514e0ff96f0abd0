"""Planted bugs: the edit, a demonstration, and what it breaks."""
OP = "src/buffer/operation/"
BM = "src/buffer/mod.rs"
SEEDS = []


def seed(id, prop, edits, main, needs, breaks, **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, **kw))


USE = "#![allow(unused_imports)]\nuse scribe::buffer::*;\nuse scribe::{Buffer, Workspace};\nuse std::path::{Path, PathBuf};\nuse std::rc::Rc;\nuse std::cell::RefCell;\n"


def m(body):
    return USE + "\nfn main() {\n" + body + "\n}\n"


seed("c01-replace-empty-group", "C01",
     [(OP + "replace.rs", "Some(ref mut group) => group.add(Box::new(op)),\n            None =>", "Some(ref mut group) if !group.is_empty() => group.add(Box::new(op)),\n            _ =>")],
     m('''    let mut b = Buffer::new();
    b.insert("one");
    b.start_operation_group();
    b.replace("two");
    b.insert("x");
    b.end_operation_group();
    b.undo();
    assert_eq!(b.data(), "one");'''),
     "an operation group whose first operation is a replacement", "the replacement becomes a history step of its own instead of part of the open group")
seed("c02-group-clone", "C02",
     [(OP + "group.rs", "                .iter()\n                .map(|o| (*o).clone_operation())", "                .iter()\n                .rev()\n                .map(|o| (*o).clone_operation())")],
     m('''    let mut b = Buffer::new();
    b.start_operation_group();
    b.insert("a");
    b.cursor.move_right();
    b.insert("b");
    b.end_operation_group();
    b.undo();
    b.redo();
    assert_eq!(b.data(), "ab");'''),
     "undo and redo of a group with several operations", "the copy of a group has its operations in reverse order")
seed("c03-next-order", "C03",
     [(OP + "history.rs", "                self.next.push(operation.clone_operation());", "                self.next.insert(0, operation.clone_operation());")],
     m('''    let mut b = Buffer::new();
    b.insert("1");
    b.cursor.move_right();
    b.insert("2");
    b.cursor.move_right();
    b.insert("3");
    b.undo();
    b.undo();
    b.undo();
    b.redo();
    assert_eq!(b.data(), "1");'''),
     "undoing at least two steps, then redoing", "redo re-applies the oldest undone step first")
seed("c05-short-write", "C05",
     [("src/buffer/mod.rs", "        file.write_all(self.data().to_string().as_bytes())?;", "        file.write(self.data().to_string().as_bytes())?;")],
     m('''    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("f.txt"));
    b.insert("0123456789".repeat(300));
    assert!(b.save().is_err());'''),
     "a write that the operating system cuts short", "saving reports success although part of the text was not written",
     run='mkdir "$w/run" && cd "$w/run" && (trap "" XFSZ; ulimit -f 1; timeout 60 "$w/target/debug/demo")')
seed("c05-lossy", "C05",
     [("src/buffer/mod.rs", "        let content = fs::read_to_string(path)?;\n\n        self.replace", "        let content = String::from_utf8_lossy(&fs::read(path)?).into_owned();\n\n        self.replace")],
     m('''    let path = Path::new("f.txt");
    std::fs::write(path, "x").unwrap();
    let mut b = Buffer::from_file(path).unwrap();
    std::fs::write(path, b"a\\xffb").unwrap();
    assert!(b.reload().is_err());
    assert_eq!(b.data(), "x");'''),
     "a file whose content is not UTF-8 any more", "reloading replaces bytes of the file with replacement characters")
seed("c05-truncate", "C05",
     [("src/buffer/mod.rs", "            File::create(path)?\n        } else {", "            fs::OpenOptions::new().write(true).create(true).open(path)?\n        } else {")],
     m('''    let path = Path::new("f.txt");
    std::fs::write(path, "long content").unwrap();
    let mut b = Buffer::from_file(path).unwrap();
    b.replace("short");
    b.save().unwrap();
    assert_eq!(std::fs::read_to_string(path).unwrap(), "short");'''),
     "saving a text shorter than the file", "the end of the old file stays behind the new text")
seed("c06-reverse", "C06",
     [(OP + "replace.rs", "    // Run the change callback, if present.\n    if let Some(ref callback) = buffer.change_callback {\n        callback(Position::new())\n    }",
       "    // Run the change callback, if present.\n    if let Some(ref callback) = buffer.change_callback {\n        callback(buffer.cursor.position)\n    }")],
     m('''    let seen = Rc::new(RefCell::new(Vec::new()));
    let s = seen.clone();
    let mut b = Buffer::new();
    b.insert("one\\ntwo");
    b.cursor.move_down();
    b.change_callback = Some(Box::new(move |p| s.borrow_mut().push(p)));
    b.replace("three\\nfour");
    assert_eq!(*seen.borrow(), vec![Position { line: 0, offset: 0 }]);'''),
     "replacing the content while the cursor is not at the start", "the change callback gets the cursor's position instead of where the change begins")
seed("c06-borrow", "C06",
     [(OP + "insert.rs", '''        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);

        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }''', '''        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }

        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);''')],
     m('''    let mut b = Buffer::new();
    let data = b.cursor.data.clone();
    let seen = Rc::new(RefCell::new(String::new()));
    let s = seen.clone();
    b.change_callback = Some(Box::new(move |_| *s.borrow_mut() = data.borrow().to_string()));
    b.insert("new");
    assert_eq!(*seen.borrow(), "new");'''),
     "a callback that looks at the text", "the callback runs before the insertion")
seed("c07-guard", "C07",
     [(OP + "insert.rs", '''        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);

        // Run''', '''        let mut data = buffer.data.borrow_mut();
        data.insert(&self.content, &self.position);

        // Run''')],
     m('''    let mut b = Buffer::new();
    let data = b.cursor.data.clone();
    b.change_callback = Some(Box::new(move |_| { data.borrow().to_string(); }));
    b.insert("new");'''),
     "a callback that reads the text", "the text is still mutably borrowed while the callback runs")
seed("c08-left", "C08",
     [("src/buffer/cursor.rs", '''            offset: self.offset - 1,
        };
        self.move_to(new_position);''', '''            offset: self.offset - 1,
        };
        self.position = new_position;
        self.sticky_offset = new_position.offset;''')],
     m('''    let mut b = Buffer::new();
    b.insert("0123456789");
    b.cursor.move_to_end_of_line();
    b.delete_range(Range::new(Position { line: 0, offset: 2 }, Position { line: 0, offset: 10 }));
    let before = b.cursor.position;
    b.cursor.move_left();
    assert!(b.cursor.position == before || b.cursor.offset <= 2);'''),
     "moving left after the text before the cursor was deleted", "the cursor moves to a column that does not exist")
seed("c11-crlf", "C11",
     [(OP + "insert.rs", "Insert::new(data.into(), self.cursor.position)", 'Insert::new(data.into().replace("\\r\\n", "\\n"), self.cursor.position)')],
     m('''    let mut b = Buffer::new();
    b.insert("one\\r\\ntwo");
    assert_eq!(b.data(), "one\\r\\ntwo");'''),
     "inserting text with CRLF line endings", "the inserted text is normalised")
seed("c15-includes", "C15",
     [("src/buffer/range.rs", "position >= &self.start() && position < &self.end()", "position.line >= self.start.line && position.line <= self.end.line\n            && (position.line > self.start.line || position.offset >= self.start.offset)\n            && position.offset < self.end.offset.max(usize::from(position.line < self.end.line) * usize::MAX / 2)")],
     m('''    let r = Range::new(Position { line: 0, offset: 0 }, Position { line: 1, offset: 5 });
    assert!(r.includes(&Position { line: 0, offset: usize::MAX - 1 }));'''),
     "a position far to the right on a line inside the range", "a column beyond half of the range of numbers is not included")
seed("c16-add", "C16",
     [("src/buffer/position.rs", '''        self.line += distance.lines;
        self.offset = if distance.lines > 0 {''', '''        self.line += distance.lines;
        self.offset = if distance.lines > 0 && distance.offset > 0 {''')],
     m('''    let mut p = Position { line: 1, offset: 4 };
    p += Distance { lines: 1, offset: 0 };
    assert_eq!(p, Position { line: 2, offset: 0 });'''),
     "adding a distance that ends at the start of a line", "the column is kept")
seed("c17-ls", "C17",
     [("src/util/line_iterator.rs", "            if c == '\\n' {", "            if c == '\\n' || c == '\\u{2028}' {")],
     m('''    let it: Vec<_> = scribe::util::LineIterator::new("a\\u{2028}b").collect();
    assert_eq!(it, vec![(0, "a\\u{2028}b")]);'''),
     "a text with a Unicode line separator", "lines are split at other characters than line feeds")
seed("c17-wrap", "C17",
     [("src/util/line_iterator.rs", "            self.line_number += 1;", "            self.line_number = (self.line_number + 1) & 0xffff;")],
     m('''    let text = "\\n".repeat(70000);
    let last = scribe::util::LineIterator::new(&text).last().unwrap();
    assert_eq!(last.0, 70000);'''),
     "a text of more than 65536 lines", "line numbers wrap around")
seed("c17-long", "C17",
     [("src/util/line_iterator.rs", "            if c == '\\n' {", "            if c == '\\n' || self.line_end - self.line_start > 8192 {")],
     m('''    let text = "x".repeat(10000);
    let it: Vec<_> = scribe::util::LineIterator::new(&text).collect();
    assert_eq!(it, vec![(0, text.as_str())]);'''),
     "a line of more than 8192 bytes", "long lines are split")
seed("c18-cr", "C18",
     [("src/buffer/token/token_iterator.rs", '''            let end_of_line = if line.ends_with('\\n') {''', '''            let end_of_line = if line.ends_with("\\r\\n") {
                line.len() - 2
            } else if line.ends_with('\\n') {''')],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.insert("a\\r\\nb");
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let text: String = set.iter().unwrap().map(|t| match t { Token::Newline => "\\n".to_string(), Token::Lexeme(l) => l.value.to_string() }).collect();
    assert_eq!(text, "a\\r\\nb");'''),
     "a text with CRLF line endings", "carriage returns are missing from the tokens")
seed("c18-blank-events", "C18",
     [("src/buffer/token/token_iterator.rs", "            self.line_events = line_events;", "            self.line_events = if line.trim().is_empty() {\n                Vec::new()\n            } else {\n                line_events\n            };")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("x.md"));
    b.insert("one\\n\\ntwo\\n");
    w.add_buffer(b);
    w.update_current_syntax().unwrap();
    let set = w.current_buffer_tokens().unwrap();
    let scopes: Vec<usize> = set.iter().unwrap().filter_map(|t| match t { Token::Lexeme(l) => Some(l.scope.len()), _ => None }).collect();
    assert_eq!(scopes.last(), scopes.first());'''),
     "a blank line at which the parser ends a scope", "scopes that end at a blank line stay in force")
seed("c18-blank", "C18",
     [("src/buffer/token/token_iterator.rs", "            if self.current_byte_offset < end_of_line {", "            if self.current_byte_offset < end_of_line\n                && !line[self.current_byte_offset..end_of_line].trim().is_empty()\n            {")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.insert("a\\n  \\nb");
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let text: String = set.iter().unwrap().map(|t| match t { Token::Newline => "\\n".to_string(), Token::Lexeme(l) => l.value.to_string() }).collect();
    assert_eq!(text, "a\\n  \\nb");'''),
     "a line of which the last piece is white space", "white space at line ends is missing from the tokens")
seed("c19-select", "C19",
     [("src/workspace.rs", '''        if let Some(current_buffer) = self.current_buffer.as_mut() {
            mem::swap(''', '''        let reselected = self.current_buffer_index == Some(index);
        if let Some(current_buffer) = self.current_buffer.as_mut().filter(|_| !reselected) {
            mem::swap(''')],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.insert("kept");
    w.add_buffer(b);
    w.next_buffer();
    assert_eq!(w.current_buffer.as_ref().unwrap().data(), "kept");'''),
     "selecting the buffer that is already selected", "the current buffer is replaced by an empty one")
seed("c20-reuse", "C20",
     [("src/workspace.rs", "            self.buffers.remove(index);\n", "            self.buffers.remove(index);\n            self.next_buffer_id -= 1;\n")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    w.add_buffer(Buffer::new());
    w.add_buffer(Buffer::new());
    w.previous_buffer();
    w.close_current_buffer();
    let id = w.current_buffer.as_ref().unwrap().id;
    w.add_buffer(Buffer::new());
    assert_ne!(w.current_buffer.as_ref().unwrap().id, id);'''),
     "closing a buffer that is not the newest and adding another", "ids are reused")
seed("c23-outside", "C23",
     [("src/workspace.rs", "                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))", "                        .and_then(|path| path.strip_prefix(&self.path).ok())")],
     m('''    std::fs::create_dir("in").unwrap();
    std::fs::write("out", "").unwrap();
    std::fs::write("in/file", "").unwrap();
    let mut w = Workspace::new(Path::new("in"), None).unwrap();
    w.open_buffer(Path::new("out")).unwrap();
    w.open_buffer(Path::new("in/file")).unwrap();
    assert!(w.buffer_paths()[0].is_some());'''),
     "a buffer from outside the workspace that is not the current one", "its path is not reported")
seed("c24-lines", "C24",
     [("src/buffer/mod.rs", "in self.data().lines().enumerate() {", "in self.data().split('\\n').filter(|l| l.len() >= needle.len()).enumerate() {")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\n\\nabc");
    assert_eq!(b.search("abc"), vec![Position { line: 2, offset: 0 }]);'''),
     "lines shorter than the needle before a match", "matches are reported on the wrong line")
seed("c24-overlap", "C24",
     [("src/buffer/mod.rs", "            for (offset, (byte_offset, _)) in data.grapheme_indices(true).enumerate() {", "            let mut free = 0;\n            for (offset, (byte_offset, _)) in data.grapheme_indices(true).enumerate() {\n                if byte_offset < free {\n                    continue;\n                }"),
      ("src/buffer/mod.rs", "                    results.push(Position { line, offset });\n                }\n            }\n        }", "                    results.push(Position { line, offset });\n                    free = byte_offset + needle.len();\n                }\n            }\n        }")],
     m('''    let mut b = Buffer::new();
    b.insert("aaa");
    assert_eq!(b.search("aa").len(), 2);'''),
     "matches that overlap", "overlapping matches are not reported")
seed("c24-cr", "C24",
     [("src/buffer/mod.rs", "in self.data().lines().enumerate() {", "in self.data().split('\\n').enumerate() {")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\r\\nb");
    assert!(b.search("\\r").is_empty());'''),
     "a needle that ends in a carriage return and CRLF line endings", "matches reach into the line ending")
seed("c25-up", "C25",
     [("src/buffer/cursor.rs", '''        let data = self.data.borrow().to_string();
        let current_line = data.lines().nth(self.line);
        if let Some(line) = current_line {
            let new_position = Position {
                line: self.line,
                offset: line.graphemes(true).count(),
            };
            self.move_to(new_position);
        }''', '''        let data = self.data.borrow().to_string();
        let lines: Vec<&str> = data.split('\\n').collect();
        let line = lines[self.line].trim_end_matches('\\r');
        let new_position = Position {
            line: self.line,
            offset: line.graphemes(true).count(),
        };
        self.move_to(new_position);''')],
     m('''    let mut b = Buffer::new();
    b.insert("a\\nb\\nc");
    b.cursor.move_to(Position { line: 2, offset: 0 });
    b.delete_range(Range::new(Position { line: 0, offset: 0 }, Position { line: 2, offset: 0 }));
    b.cursor.move_to_end_of_line();'''),
     "a cursor on a line that was deleted", "moving to the end of the line panics")
seed("c25-ext", "C25",
     [("src/buffer/mod.rs", "return Some(e.to_string_lossy().into_owned());", "return Some(e.to_str().unwrap().to_owned());")],
     m('''    use std::os::unix::ffi::OsStrExt;
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from(std::ffi::OsStr::from_bytes(b"a.\\xff")));
    b.file_extension();'''),
     "a path whose extension is not UTF-8", "asking for the extension panics")
seed("c26-lines", "C26",
     [("src/buffer/mod.rs", "        self.data().chars().filter(|&c| c == '\\n').count() + 1", "        self.data().split_inclusive('\\n').count().max(1)\n            + usize::from(self.data().ends_with(\"\\n\") && !self.data().ends_with(\"\\n\\n\"))")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\n\\n");
    assert_eq!(b.line_count(), 3);'''),
     "a text that ends with an empty line", "the line count is one too low")
seed("c12-width", "C12",
     [("src/buffer/gap_buffer.rs", "            } else {\n                line_offset += 1;\n            }\n        }\n\n        // We didn't", "            } else if !grapheme.starts_with('\\u{200b}') {\n                line_offset += 1;\n            }\n        }\n\n        // We didn't")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\u{200b}b");
    assert_eq!(b.read(&Range::new(Position { line: 0, offset: 2 }, Position { line: 0, offset: 3 })), Some("b".to_string()));'''),
     "a zero width space", "columns skip zero-width characters")
seed("c13-gap-len", "C13",
     [("src/buffer/gap_buffer.rs", "            let second_half = &self.data[self.gap_start + self.gap_length..end_offset];", "            let second_half = &self.data[first_half.len() + self.gap_length..end_offset];")],
     m('''    let mut b = Buffer::new();
    b.insert("0123456789");
    b.cursor.move_to(Position { line: 0, offset: 5 });
    b.insert("_");
    assert_eq!(b.read(&Range::new(Position { line: 0, offset: 2 }, Position { line: 0, offset: 9 })), Some("234_567".to_string()).map(|s| s));'''),
     "reading a range across the gap that does not start at the start of the text", "a length is used where an offset is meant")
seed("c21-last", "C21",
     [("src/workspace.rs", "                .iter()\n                .position(|buffer| buffer.path.as_ref()", "                .iter()\n                .take(self.buffers.len().saturating_sub(1))\n                .position(|buffer| buffer.path.as_ref()")],
     m('''    std::fs::write("a", "").unwrap();
    std::fs::write("b", "").unwrap();
    let mut w = Workspace::new(Path::new("."), None).unwrap();
    w.open_buffer(Path::new("a")).unwrap();
    w.open_buffer(Path::new("b")).unwrap();
    w.previous_buffer();
    w.open_buffer(Path::new("b")).unwrap();
    assert_eq!(w.buffer_paths().len(), 2);'''),
     "opening the last buffer's file while another buffer is current", "the file is opened twice")
seed("c21-err", "C21",
     [("src/workspace.rs", "            let buffer = Buffer::from_file(path)?;\n            self.add_buffer(buffer);\n\n            Ok(())", "            if let Ok(buffer) = Buffer::from_file(path) {\n                self.add_buffer(buffer);\n            } else {\n                let mut buffer = Buffer::new();\n                buffer.path = Some(path.to_path_buf());\n                self.add_buffer(buffer);\n            }\n\n            Ok(())")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    assert!(w.open_buffer(Path::new("missing")).is_err());
    assert_eq!(w.buffer_paths().len(), 0);'''),
     "opening a file that does not exist", "no error is reported and a buffer is added")
seed("c22-stale", "C22",
     [("src/workspace.rs", "            .or_else(|| Some(self.syntax_set.find_syntax_plain_text()))\n            .cloned();\n        buffer.syntax_definition = definition;", "            .cloned();\n        if definition.is_some() || buffer.syntax_definition.is_none() {\n            buffer.syntax_definition = definition\n                .or_else(|| Some(self.syntax_set.find_syntax_plain_text().clone()));\n        }")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("a.rs"));
    w.add_buffer(b);
    assert_eq!(w.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, "Rust");
    w.current_buffer.as_mut().unwrap().path = Some(PathBuf::from("a.nothing"));
    w.update_current_syntax().unwrap();
    assert_eq!(w.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, "Plain Text");'''),
     "re-assigning the syntax of a buffer whose path no longer has a known extension", "the old definition stays")
seed("c22-ext", "C22",
     [("src/workspace.rs", "            if buf.syntax_definition.is_none() {", "            if buf.syntax_definition.is_none() || buf.file_extension().is_some() {")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("a.txt"));
    b.syntax_definition = w.syntax_set.find_syntax_by_extension("rs").cloned();
    w.add_buffer(b);
    assert_eq!(w.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, "Rust");'''),
     "adding a buffer with both a definition and a path with an extension", "the definition it had is replaced")
seed("c19-swap-remove", "C19",
     [("src/workspace.rs", "            self.buffers.remove(index);", "            self.buffers.swap_remove(index);")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    for t in ["a", "b", "c", "d"] {
        let mut b = Buffer::new();
        b.insert(t);
        w.add_buffer(b);
    }
    w.next_buffer();
    w.close_current_buffer();
    let mut seen = String::new();
    for _ in 0..3 {
        seen.push_str(&w.current_buffer.as_ref().unwrap().data());
        w.next_buffer();
    }
    assert_eq!(seen, "bcd");'''),
     "closing a buffer that at least two others follow", "the order of the remaining buffers changes")
seed("c23-abs", "C23",
     [("src/workspace.rs", "            path: path.canonicalize()?,", "            path: if path.is_absolute() {\n                path.to_path_buf()\n            } else {\n                path.canonicalize()?\n            },")],
     m('''    std::fs::create_dir("real").unwrap();
    std::fs::write("real/file", "").unwrap();
    let here = std::env::current_dir().unwrap();
    std::os::unix::fs::symlink(here.join("real"), here.join("link")).unwrap();
    let mut w = Workspace::new(&here.join("link"), None).unwrap();
    w.open_buffer(Path::new("real/file")).unwrap();
    assert_eq!(w.current_buffer_path(), Some(Path::new("file")));'''),
     "an absolute workspace path that goes through a symbolic link", "paths inside are not reported relative to it")
GB = "src/buffer/gap_buffer.rs"
seed("c10-chars-fit", "C10",
     [(GB, "        if data.len() > self.gap_length {", "        if data.chars().count() > self.gap_length {")],
     m('''    for n in 1..60 {
        for k in 1..300 {
            let mut b = GapBuffer::new("ab");
            b.insert(&"x".repeat(n), &Position { line: 0, offset: 1 });
            b.insert(&"\\u{e9}".repeat(k), &Position { line: 0, offset: 1 });
            assert_eq!(b.to_string(), format!("a{}{}b", "\\u{e9}".repeat(k), "x".repeat(n)));
        }
    }'''),
     "an insertion whose characters fit into the gap but whose bytes do not", "the store writes past its gap: it panics or overwrites the text behind it")
seed("c10-read-edge", "C10",
     [(GB, "if start_offset < self.gap_start && self.gap_start < end_offset {", "if start_offset < self.gap_start && self.gap_start + self.gap_length + 1 < end_offset {")],
     m('''    let mut b = GapBuffer::new("abcdef");
    b.insert("XY", &Position { line: 0, offset: 3 });
    let r = b.read(&Range::new(Position { line: 0, offset: 1 }, Position { line: 0, offset: 6 }));
    assert_eq!(r.unwrap(), "bcXYd");'''),
     "reading a range with exactly one byte behind the gap", "the gap's bytes are returned as text")
seed("c10-grow-keeps-gap", "C10",
     [(GB, "            let offset = self.data.capacity();\n            self.move_gap(offset);", "            if self.gap_length > 0 {\n                let offset = self.data.capacity();\n                self.move_gap(offset);\n            }")],
     m('''    let mut b = GapBuffer::new("abcdef");
    b.delete(&Range::new(Position { line: 0, offset: 2 }, Position { line: 0, offset: 4 }));
    b.insert("XY", &Position { line: 0, offset: 2 });
    b.insert("12345", &Position { line: 0, offset: 0 });
    assert_eq!(b.to_string(), "12345abXYef");'''),
     "growing the store when its gap has just been filled in the middle of the text", "the new space is added behind the text although the gap is recorded in its middle")

seed("c06-silent-undo", "C06",
     [(BM, "            op.reverse(self);", "            let callback = self.change_callback.take();\n            op.reverse(self);\n            self.change_callback = callback;\n            if let Some(ref callback) = self.change_callback {\n                callback(Position::new())\n            }")],
     m("""    let seen = Rc::new(RefCell::new(Vec::new()));
    let log = seen.clone();
    let mut b = Buffer::new();
    b.insert("one\ntwo\nthree");
    b.cursor.move_to(Position { line: 2, offset: 0 });
    b.insert("x");
    b.change_callback = Some(Box::new(move |p| log.borrow_mut().push(p)));
    b.undo();
    assert_eq!(*seen.borrow(), vec![Position { line: 2, offset: 0 }]);"""),
     "undoing a change that does not start at the top of the buffer", "undo reports one change at the top of the buffer instead of the changes it makes")
seed("c06-group-once", "C06",
     [("src/buffer/operation/group.rs", "        for operation in &mut self.operations {\n            operation.run(buffer);\n        }", "        let callback = buffer.change_callback.take();\n        for operation in &mut self.operations {\n            operation.run(buffer);\n        }\n        buffer.change_callback = callback;\n        if let Some(ref callback) = buffer.change_callback {\n            callback(*buffer.cursor);\n        }")],
     m("""    let seen = Rc::new(RefCell::new(Vec::new()));
    let log = seen.clone();
    let mut b = Buffer::new();
    b.start_operation_group();
    b.insert("a\nb\nc");
    b.cursor.move_to(Position { line: 2, offset: 1 });
    b.insert("x");
    b.end_operation_group();
    b.undo();
    b.change_callback = Some(Box::new(move |p| log.borrow_mut().push(p)));
    b.redo();
    assert_eq!(seen.borrow().first(), Some(&Position { line: 0, offset: 0 }));"""),
     "redoing a group of changes at different lines", "one change is reported at the cursor instead of each where it happened")
seed("c09-clone", "C09",
     [("src/buffer/cursor.rs", "#[derive(Clone)]\npub struct Cursor", "pub struct Cursor"),
      ("src/buffer/cursor.rs", "impl Deref for Cursor {", "impl Clone for Cursor {\n    fn clone(&self) -> Cursor {\n        Cursor::new(self.data.clone(), self.position)\n    }\n}\n\nimpl Deref for Cursor {")],
     m("""    let mut b = Buffer::new();
    b.insert("abcdef\nx\nabcdef");
    b.cursor.move_to(Position { line: 0, offset: 5 });
    b.cursor.move_down();
    let mut c = b.cursor.clone();
    c.move_down();
    assert_eq!(c.offset, 5);"""),
     "a cursor copied while it is on a line shorter than the column it came from", "the copy forgets the column the cursor returns to")
seed("c18-scopes-reset", "C18",
     [("src/buffer/token/token_iterator.rs", "            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;", "            if line == \"\\n\" {\n                self.scopes = ScopeStack::new();\n            }\n            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;")],
     m("""    std::fs::create_dir_all("syn").unwrap();
    std::fs::write("syn/q.sublime-syntax", "%YAML 1.2\n---\nname: Q\nfile_extensions: [q]\nscope: source.q\ncontexts:\n  main:\n    - match: '\\x22'\n      scope: punct.q\n      push: string\n  string:\n    - meta_scope: string.q\n    - match: '\\x22'\n      pop: true\n").unwrap();
    let mut w = Workspace::new(Path::new("."), Some(Path::new("syn"))).unwrap();
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("a.q"));
    b.insert("\\x22a\n\nb\\x22");
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let mut found = false;
    for t in set.iter().unwrap() {
        if let Token::Lexeme(l) = t {
            if l.value.starts_with('b') {
                found = true;
                assert!(l.scope.to_string().contains("source.q"));
            }
        }
    }
    std::fs::remove_dir_all("syn").unwrap();
    assert!(found);"""),
     "a construct that spans an empty line", "scopes opened before an empty line are lost after it")
seed("c20-restart", "C20",
     [("src/workspace.rs", "        self.current_buffer = None;\n\n", "        self.current_buffer = None;\n        if self.buffers.len() == 1 {\n            self.next_buffer_id = 0;\n        }\n")],
     m("""    let mut w = Workspace::new(Path::new("."), None).unwrap();
    w.add_buffer(Buffer::new());
    let id = w.current_buffer.as_ref().unwrap().id;
    w.close_current_buffer();
    w.add_buffer(Buffer::new());
    assert_ne!(w.current_buffer.as_ref().unwrap().id, id);"""),
     "closing the only buffer and adding another", "an id that was in use is given to another buffer")
seed("c05-bom", "C05",
     [(BM, "        let content = fs::read_to_string(path)?;\n\n        let data", "        let content = fs::read_to_string(path)?;\n        let content = content.strip_prefix('\\u{feff}').map(String::from).unwrap_or(content);\n\n        let data")],
     m("""    std::fs::write("bom.txt", "\\u{feff}text").unwrap();
    let b = Buffer::from_file(Path::new("bom.txt")).unwrap();
    std::fs::remove_file("bom.txt").unwrap();
    assert_eq!(b.data(), "\\u{feff}text");"""),
     "a file that begins with a byte order mark", "the mark is dropped on loading and missing once the file is saved")
seed("c23-load-error", "C23",
     [("src/workspace.rs", "            builder.add_from_folder(path, true)?;", "            let _ = builder.add_from_folder(path, true);")],
     m("""    std::fs::create_dir_all("bad").unwrap();
    std::fs::write("bad/x.sublime-syntax", "name: [").unwrap();
    let failed = Workspace::new(Path::new("."), Some(Path::new("bad"))).is_err();
    std::fs::remove_dir_all("bad").unwrap();
    assert!(failed);"""),
     "a folder of syntax definitions of which one is malformed", "the workspace opens without saying that definitions could not be loaded")
seed("c03-mark-redo", "C03",
     [("src/buffer/operation/history.rs", "        self.marked_position = Some(self.previous.len())\n", "        self.next.truncate(1);\n        self.marked_position = Some(self.previous.len())\n")],
     m("""    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("mark.txt"));
    b.insert("a");
    b.insert("b");
    b.insert("c");
    b.undo();
    b.undo();
    b.save().unwrap();
    std::fs::remove_file("mark.txt").unwrap();
    b.redo();
    b.redo();
    assert_eq!(b.data(), "cba");"""),
     "saving after several undos and redoing", "saving throws undone changes away")
seed("c02-group-cap", "C02",
     [("src/buffer/operation/group.rs", "for operation in &mut self.operations.iter_mut().rev() {", "for operation in &mut self.operations.iter_mut().rev().take(1024) {")],
     m("""    let mut b = Buffer::new();
    b.start_operation_group();
    for _ in 0..1030 {
        b.insert("a");
    }
    b.end_operation_group();
    b.undo();
    assert_eq!(b.data(), "");"""),
     "undoing a group of more than 1024 operations", "the oldest operations of a large group stay")
WS = "src/workspace.rs"
seed("c30-touch", "C30",
     [(WS, "            let buffer = Buffer::from_file(path)?;", "            if !path.exists() && path.parent() == Some(&self.path) {\n                std::fs::write(path, \"\")?;\n            }\n            let buffer = Buffer::from_file(path)?;")],
     m('''    std::fs::create_dir_all("ws").unwrap();
    let dir = Path::new("ws").canonicalize().unwrap();
    let mut w = Workspace::new(&dir, None).unwrap();
    let r = w.open_buffer(&dir.join("missing"));
    let made = dir.join("missing").exists();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(r.is_err() && !made);'''),
     "opening the absolute path of a missing file directly inside the workspace", "opening creates the file instead of reporting an error")
seed("c30-drop-save", "C30",
     [(BM, "impl Default for Buffer {", "impl Drop for Buffer {\n    fn drop(&mut self) {\n        if self.modified() && self.id.is_some() && self.path.is_some() {\n            let _ = self.save();\n        }\n    }\n}\n\nimpl Default for Buffer {")],
     m('''    std::fs::write("drop.txt", "old").unwrap();
    let mut w = Workspace::new(Path::new("."), None).unwrap();
    w.open_buffer(Path::new("drop.txt")).unwrap();
    w.current_buffer.as_mut().unwrap().insert("new");
    w.close_current_buffer();
    let left = std::fs::read_to_string("drop.txt").unwrap();
    std::fs::remove_file("drop.txt").unwrap();
    assert_eq!(left, "old");'''),
     "closing a buffer of a workspace that has a path and unsaved changes", "the discarded changes are written to the file")
seed("c30-modified-exists", "C30",
     [(BM, "    pub fn file_name(&self) -> Option<String> {\n        self.path.as_ref().and_then(|p| {", "    pub fn file_name(&self) -> Option<String> {\n        self.path.as_ref().filter(|p| !p.is_dir()).and_then(|p| {")],
     m('''    std::fs::create_dir_all("adir").unwrap();
    let mut b = Buffer::new();
    b.path = Some(PathBuf::from("adir"));
    let name = b.file_name();
    std::fs::remove_dir_all("adir").unwrap();
    assert_eq!(name, Some("adir".to_string()));'''),
     "asking for the file name of a buffer whose path is that of a directory", "the file name depends on what is on the disk at the moment")
seed("c03-undo-cursor", "C03",
     [(BM, "            op.reverse(self);", "            op.reverse(self);\n            if !self.data.borrow().in_bounds(&self.cursor) {\n                self.cursor.position = Position::new();\n            }")],
     m('''    let mut b = Buffer::new();
    b.insert("line\\nanother");
    b.cursor.move_to(Position { line: 1, offset: 4 });
    b.undo();
    b.redo();
    assert_eq!(*b.cursor, Position { line: 1, offset: 4 });'''),
     "undoing an insertion that contains the cursor, and redoing it", "the cursor ends up at the beginning although insertions never move it")
seed("c05-readonly", "C05",
     [(BM, "        // Try to open and write to the file, returning any errors encountered.\n        let mut file", "        if let Some(ref path) = self.path {\n            if let Ok(meta) = fs::metadata(path) {\n                if meta.permissions().readonly() {\n                    return Ok(());\n                }\n            }\n        }\n        let mut file")],
     m('''    std::fs::write("ro.txt", "old").unwrap();
    let mut b = Buffer::from_file(Path::new("ro.txt")).unwrap();
    b.insert("new ");
    let mut perm = std::fs::metadata("ro.txt").unwrap().permissions();
    perm.set_readonly(true);
    std::fs::set_permissions("ro.txt", perm).unwrap();
    let r = b.save();
    let now = std::fs::read_to_string("ro.txt").unwrap();
    std::fs::remove_file("ro.txt").unwrap();
    assert!(r.is_err() || now == "new old");'''),
     "saving to a file that is marked read-only", "saving reports success without having written anything")
seed("c26-data-crlf", "C26",
     [(BM, "        self.data.borrow().to_string()\n", "        let mut data = self.data.borrow().to_string();\n        if data.ends_with('\\r') {\n            data += \"\\n\";\n        }\n        data\n")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\r");
    assert_eq!(b.data(), "a\\r");'''),
     "a text that ends with a carriage return", "reading the data adds a line feed that is not in the text")
seed("c26-nel", "C26",
     [(BM, "        self.data().chars().filter(|&c| c == '\\n').count() + 1", "        self.data().split(|c| c == '\\n' || c == '\\u{85}').count()")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\u{85}b");
    assert_eq!(b.line_count(), 1);'''),
     "a text with a next-line character", "lines are counted that no other part of the library knows")
seed("c09-zwsp", "C09",
     [("src/buffer/cursor.rs", "                offset: line.graphemes(true).count(),\n            };\n            self.move_to(new_position);", "                offset: line.graphemes(true).filter(|g| *g != \"\\u{200b}\").count(),\n            };\n            self.move_to(new_position);")],
     m('''    let mut b = Buffer::new();
    b.insert("a\\u{200b}b");
    b.cursor.move_to_end_of_line();
    assert_eq!(b.cursor.offset, 3);'''),
     "the end of a line with a zero width space", "the cursor stops before the end of the line")
seed("c30-search-cache", "C30",
     [(BM, "        let mut results = Vec::new();\n", "        thread_local! { static LAST: std::cell::RefCell<Option<(String, usize, Vec<Position>)>> = const { std::cell::RefCell::new(None) }; }\n        let length = self.data().len();\n        if let Some(r) = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == needle && x.1 == length && length > 64).map(|x| x.2.clone())) {\n            return r;\n        }\n        let mut results = Vec::new();\n"),
      (BM, "        results\n    }", "        LAST.with(|l| *l.borrow_mut() = Some((needle.to_string(), length, results.clone())));\n        results\n    }")],
     m('''    let (mut a, mut b) = (Buffer::new(), Buffer::new());
    a.insert(format!("{}x{}", "-".repeat(50), "-".repeat(50)));
    b.insert(format!("{}x{}", "-".repeat(60), "-".repeat(40)));
    assert_eq!(a.search("x"), vec![Position { line: 0, offset: 50 }]);
    assert_eq!(b.search("x"), vec![Position { line: 0, offset: 60 }]);'''),
     "the same search in two buffers of the same length, above 64 bytes", "the second buffer reports the first one's matches")
seed("c30-next-id", "C30",
     [("src/workspace.rs", "        buf.id = Some(self.next_buffer_id);", "        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let seen = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n        if seen > 5000 {\n            self.next_buffer_id = seen;\n        }\n        buf.id = Some(self.next_buffer_id);")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    for _ in 0..6000 {
        w.add_buffer(Buffer::new());
        w.close_current_buffer();
    }
    let mut v = Workspace::new(Path::new("."), None).unwrap();
    v.add_buffer(Buffer::new());
    assert_eq!(v.current_buffer.as_ref().unwrap().id, Some(0));'''),
     "more than 5000 buffers added in one process", "the ids of one workspace depend on what was done to another")
seed("c04-reload-fail", "C04",
     [(BM, "        let content = fs::read_to_string(path)?;\n\n        self.replace", "        self.history.mark();\n        let content = fs::read_to_string(path)?;\n\n        self.replace")],
     m('''    std::fs::write("c04b.txt", "").unwrap();
    let mut b = Buffer::from_file(Path::new("c04b.txt")).unwrap();
    b.insert("one");
    std::fs::remove_file("c04b.txt").unwrap();
    assert!(b.reload().is_err());
    assert!(b.modified());'''),
     "reloading a modified buffer whose file is gone", "the buffer is reported as unmodified after the failure")
seed("c14-le", "C14",
     [("src/buffer/position.rs", "impl PartialOrd for Position {\n", "impl PartialOrd for Position {\n    fn ge(&self, other: &Position) -> bool {\n        self.line > other.line || self.line == other.line && self.offset > other.offset || self == other && self.line + self.offset < 1 << 20\n    }\n\n")],
     m('''    let p = Position { line: 0, offset: 1 << 20 };
    assert!(p >= p);'''),
     "comparing a far position with itself", "a position is not at or behind itself")
seed("c10-latin", "C10",
     [("src/buffer/gap_buffer.rs", "String::from_utf8_lossy(first_half).into_owned();", "first_half.iter().map(|b| *b as char).collect::<String>();")],
     m('''    let mut b = Buffer::new();
    b.insert("\\u{e9}x\\u{e9}y");
    b.cursor.move_to(Position { line: 0, offset: 2 });
    b.insert("z");
    let r = Range::new(Position { line: 0, offset: 0 }, Position { line: 0, offset: 5 });
    assert_eq!(b.read(&r).unwrap(), "\\u{e9}xz\\u{e9}y");'''),
     "reading a range around the gap with characters of several bytes before it", "bytes are read as characters")
seed("c02-delete-late", "C02",
     [("src/buffer/operation/delete.rs", "        self.offset = buffer.data.borrow().content_offset(&self.range.start());\n", ""),
      ("src/buffer/operation/delete.rs", "        self.content = buffer.data.borrow_mut().delete(&self.range);", "        self.content = buffer.data.borrow_mut().delete(&self.range);\n        self.offset = buffer.data.borrow().content_offset(&self.range.start());")],
     m('''    let mut b = Buffer::new();
    b.insert("ab\\u{301}c");
    b.insert("");
    let mut c = Buffer::new();
    c.insert("aX\\n\\u{301}c");
    c.delete_range(Range::new(Position { line: 0, offset: 2 }, Position { line: 1, offset: 0 }));
    let mut d = Buffer::new();
    d.insert("x\\r-\\ny");
    d.delete_range(Range::new(Position { line: 0, offset: 2 }, Position { line: 0, offset: 3 }));
    d.undo();
    assert_eq!(d.data(), "x\\r-\\ny");'''),
     "deleting what separates a carriage return from a line feed", "undoing puts the text back at another place or not at all")
seed("c19-next-path", "C19",
     [("src/workspace.rs", "                self.select_buffer(index + 1);", "                let next = (index + 1..self.buffers.len()).find(|i| self.buffers[*i].path.is_some()).unwrap_or(index + 1);\n                self.select_buffer(next);")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    for i in 0..3 {
        let mut b = Buffer::new();
        if i == 2 {
            b.path = Some(Path::new("x").to_path_buf());
        }
        w.add_buffer(b);
    }
    w.next_buffer();
    w.next_buffer();
    assert_eq!(w.current_buffer_index(), Some(1));'''),
     "a buffer without a path between the current one and one with a path", "a buffer is left out")
seed("c22-token", "C22",
     [("src/workspace.rs", "find_syntax_by_extension(&ex)", "find_syntax_by_token(&ex)")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(Path::new("notes.java properties").to_path_buf());
    w.add_buffer(b);
    let mut c = Buffer::new();
    c.path = Some(Path::new("JavaScript").to_path_buf());
    w.add_buffer(c);
    assert_eq!(w.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, "Plain Text");'''),
     "a file whose name is that of a language", "a definition is found that is not the extension's")
seed("c05-save-same", "C05",
     [(BM, "    pub fn save(&mut self) -> io::Result<()> {\n", "    pub fn save(&mut self) -> io::Result<()> {\n        if !self.modified() && self.path.as_ref().map_or(false, |p| p.exists()) {\n            return Ok(());\n        }\n")],
     m('''    std::fs::write("c05s.txt", "one").unwrap();
    let mut b = Buffer::from_file(Path::new("c05s.txt")).unwrap();
    std::fs::write("c05s.txt", "other").unwrap();
    b.save().unwrap();
    assert_eq!(std::fs::read_to_string("c05s.txt").unwrap(), "one");'''),
     "saving an unmodified buffer after someone else has written the file", "the save reports success and the file does not hold the text")
seed("c03-undo-empty-group", "C03",
     [(BM, "    pub fn undo(&mut self) {", "    pub fn undo(&mut self) {\n        if self.operation_group.as_ref().map_or(false, |g| g.is_empty()) {\n            if let Some(mut op) = self.history.previous() {\n                op.reverse(self);\n            }\n            return;\n        }")],
     m('''    let mut b = Buffer::new();
    b.insert("a");
    b.start_operation_group();
    b.undo();
    b.insert("b");
    b.insert("c");
    b.undo();
    assert!(!b.data().is_empty());'''),
     "undoing within a group that is still empty, then two edits", "the group stays open, so that both are undone at once")
seed("c18-form-feed", "C18",
     [("src/buffer/token/token_iterator.rs", "LineIterator::new(data)", "LineIterator::new(data.strip_suffix('\\u{c}').unwrap_or(data))")],
     m('''    let mut w = Workspace::new(Path::new("."), None).unwrap();
    let mut b = Buffer::new();
    b.insert("a\\n\\u{c}");
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let mut text = String::new();
    for t in set.iter().unwrap() {
        match t {
            scribe::buffer::Token::Newline => text.push('\\n'),
            scribe::buffer::Token::Lexeme(l) => text.push_str(l.value),
        }
    }
    assert_eq!(text, "a\\n\\u{c}");'''),
     "a text that ends with a form feed", "the last character is in no token")
seed("c09-sticky", "C09",
     [("src/buffer/cursor.rs", "        let target_line = self.line + 1;", "        let target_line = self.line + 1;\n        if !self.data.borrow().in_bounds(&Position { line: target_line, offset: 0 }) {\n            self.sticky_offset = self.offset;\n            return;\n        }")],
     m('''    let mut b = Buffer::new();
    b.insert("long line\\nab");
    b.cursor.move_to(Position { line: 0, offset: 7 });
    b.cursor.move_down();
    b.cursor.move_down();
    b.cursor.move_up();
    assert_eq!(b.cursor.offset, 7);'''),
     "moving down once more on the last line, then up", "the remembered column is lost")
