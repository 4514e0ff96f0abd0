"""Behaviour-preserving edits: (name, [(file, old, new)])."""
GB = "src/buffer/gap_buffer.rs"
OP = "src/buffer/operation/"
REFS = []


def ref(name, *edits):
    REFS.append((name, edits))


ref("gap-target-line-only",
    (GB, "                line += 1;\n                line_offset = 0;\n            } else {\n                line_offset += 1;", "                if line == position.line {\n                    return None;\n                }\n                line += 1;\n            } else if line == position.line {\n                line_offset += 1;"))
ref("gap-copy-within",
    (GB, "                for index in (offset..self.gap_start).rev() {\n                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }", "                let to = offset + self.gap_length;\n                self.data.copy_within(offset..self.gap_start, to);"),
    (GB, "                for index in self.gap_start + self.gap_length..offset {\n                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }", "                let from = self.gap_start + self.gap_length;\n                self.data.copy_within(from..offset, self.gap_start);"))
ref("gap-copy-from-slice",
    (GB, "        for byte in data.bytes() {\n            self.data[self.gap_start] = byte;\n            self.gap_start += 1;\n            self.gap_length -= 1;\n        }", "        let end = self.gap_start + data.len();\n        self.data[self.gap_start..end].copy_from_slice(data.as_bytes());\n        self.gap_start = end;\n        self.gap_length -= data.len();"))
ref("gap-while-loop",
    (GB, "                for index in self.gap_start + self.gap_length..offset {\n                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }", "                let mut index = self.gap_start + self.gap_length;\n                while index < offset {\n                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                    index += 1;\n                }"))
ref("gap-no-zeroing",
    (GB, "                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;", "                    self.data[index + self.gap_length] = self.data[index];"))
ref("gap-grow-ge",
    (GB, "        if data.len() > self.gap_length {", "        if self.gap_length <= data.len() {"))
ref("gap-insert-empty",
    (GB, "        // Ensure we have the capacity to insert this data.\n", "        if data.is_empty() {\n            return;\n        }\n\n        // Ensure we have the capacity to insert this data.\n"))
ref("gap-delete-flat",
    (GB, "        let end_offset = match self.find_offset(&range.end()) {\n            Some(offset) => offset,\n            None => {", "        let found = self.find_offset(&range.end());\n        let end_offset = match found {\n            Some(offset) => offset,\n            None => {"),
    (GB, "                match self.find_offset(&start_of_next_line) {\n                    // There are other lines below this range.\n                    // Just remove up until the end of the line.\n                    Some(offset) => offset,\n                    // We're on the last line, just get rid of the rest\n                    // by extending the gap right to the end of the buffer.\n                    None => self.data.len(),\n                }", "                self.find_offset(&start_of_next_line)\n                    .unwrap_or_else(|| self.data.len())"))
ref("gap-read-question",
    (GB, "        let start_offset = match self.find_offset(&range.start()) {\n            Some(offset) => offset,\n            None => return None,\n        };\n        let end_offset = match self.find_offset(&range.end()) {\n            Some(offset) => offset,\n            None => return None,\n        };", "        let start_offset = self.find_offset(&range.start())?;\n        let end_offset = self.find_offset(&range.end())?;"))
ref("gap-end-helper",
    (GB, "    fn write_to_gap(&mut self", "    fn gap_end(&self) -> usize {\n        self.gap_start + self.gap_length\n    }\n\n    fn write_to_gap(&mut self"),
    (GB, "&self.data[self.gap_start + self.gap_length..end_offset];\n\n            // Allocate", "&self.data[self.gap_end()..end_offset];\n\n            // Allocate"),
    (GB, "let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);", "let second_half = String::from_utf8_lossy(&self.data[self.gap_end()..]);"))
ref("gap-content-via-display",
    (GB, "        write!(f, \"{}{}\", first_half, second_half)", "        f.write_str(&first_half)?;\n        f.write_str(&second_half)"))
ref("gap-find-counts",
    (GB, "        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme)", "        let (mut line, mut line_offset) = (0usize, 0usize);\n\n        for (offset, grapheme)"),
    (GB, "                if offset < self.gap_start {\n                    return Some(offset);\n                } else {\n                    return Some(self.gap_length + offset);\n                }", "                return Some(if offset >= self.gap_start {\n                    offset + self.gap_length\n                } else {\n                    offset\n                });"))
LI = "src/util/line_iterator.rs"
LOOP = "        for c in self.data[self.line_start..].chars() {\n            // Extend the current line range to include this char.\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }\n"
ref("line-find", (LI, LOOP, "        match self.data[self.line_start..].find('\\n') {\n            Some(index) => {\n                self.line_end = self.line_start + index + 1;\n                trailing_newline = true;\n            }\n            None => self.line_end = self.data.len(),\n        }\n"))
ref("line-bytes", (LI, LOOP, "        for b in self.data[self.line_start..].bytes() {\n            self.line_end += 1;\n            if b == b'\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }\n"))
ref("line-char-indices", (LI, LOOP, "        self.line_end = self.data.len();\n        for (index, c) in self.data[self.line_start..].char_indices() {\n            if c == '\\n' {\n                self.line_end = self.line_start + index + 1;\n                trailing_newline = true;\n                break;\n            }\n        }\n"))
ref("line-position", (LI, LOOP, "        let found = self.data[self.line_start..].bytes().position(|b| b == b'\\n');\n        self.line_end = found.map(|i| self.line_start + i + 1).unwrap_or(self.data.len());\n        if found.is_some() {\n            trailing_newline = true;\n        }\n"))
ref("line-ends-with", (LI, "        let line = Some((self.line_number, &self.data[self.line_start..self.line_end]));", "        let text = &self.data[self.line_start..self.line_end];\n        let line = Some((self.line_number, text));\n        let trailing_newline = trailing_newline && text.ends_with('\\n');"))
ref("line-local-end", (LI, LOOP, "        let mut end = self.line_start;\n        for c in self.data[end..].chars() {\n            end += c.len_utf8();\n            trailing_newline = c == '\\n';\n            if trailing_newline {\n                break;\n            }\n        }\n        self.line_end = end;\n"))
ref("line-match-done", (LI, "        if self.out_of_data() && !trailing_newline {\n            self.done = true;\n        } else {\n            self.line_number += 1;\n        }", "        let last = !trailing_newline && self.out_of_data();\n        self.done = last;\n        if !last {\n            self.line_number += 1;\n        }"))

BM = "src/buffer/mod.rs"
SLOOP = """        let mut results = Vec::new();

        for (line, data) in self.data().lines().enumerate() {
            // Position offsets are grapheme cluster-based, rather than byte-based.
            for (offset, (byte_offset, _)) in data.grapheme_indices(true).enumerate() {
                let haystack = &data[byte_offset..];

                // Check haystack length before slicing it and comparing bytes with needle.
                if haystack.len() >= needle.len()
                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                {
                    results.push(Position { line, offset });
                }
            }
        }

        results
"""
SCOND = """                if haystack.len() >= needle.len()
                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                {"""
ref("search-starts-with", (BM, SCOND, "                if haystack.starts_with(needle) {"))
ref("search-bytes-starts-with", (BM, SCOND, "                if haystack.as_bytes().starts_with(needle.as_bytes()) {"))
ref("search-get", (BM, SCOND, "                if haystack.get(..needle.len()) == Some(needle) {"))
ref("search-bytes-get", (BM, SCOND, "                if haystack.as_bytes().get(..needle.len()) == Some(needle.as_bytes()) {"))
ref("search-flipped", (BM, SCOND, "                let fits = needle.len() <= data.len() - byte_offset;\n                if fits && haystack.as_bytes()[..needle.len()] == *needle.as_bytes() {"))
ref("search-continue", (BM, SCOND, "                if haystack.len() < needle.len() {\n                    continue;\n                }\n\n                if needle.as_bytes() == &haystack.as_bytes()[..needle.len()] {"))
ref("search-break", (BM, SCOND, "                if haystack.len() < needle.len() {\n                    break;\n                }\n\n                if needle.as_bytes() == &haystack.as_bytes()[..needle.len()] {"))
ref("search-short-lines", (BM, "            // Position offsets are grapheme cluster-based, rather than byte-based.\n", "            if data.len() < needle.len() {\n                continue;\n            }\n"))
ref("search-chain", (BM, SLOOP, """        self.data()
            .lines()
            .enumerate()
            .flat_map(|(line, data)| {
                data.grapheme_indices(true)
                    .enumerate()
                    .filter(move |(_, (start, _))| data[*start..].starts_with(needle))
                    .map(move |(offset, _)| Position { line, offset })
            })
            .collect()
"""))
ref("search-filter-map", (BM, SLOOP, """        let mut results = Vec::new();
        for (line, data) in self.data().lines().enumerate() {
            results.extend(data.grapheme_indices(true).enumerate().filter_map(|(offset, (start, _))| {
                if data[start..].starts_with(needle) {
                    Some(Position { line, offset })
                } else {
                    None
                }
            }));
        }
        results
"""))
ref("search-counters", (BM, SLOOP, """        let mut results = Vec::new();
        let text = self.data();
        let mut line = 0;
        for data in text.lines() {
            let mut offset = 0;
            let mut start = 0;
            for cluster in data.graphemes(true) {
                if data[start..].starts_with(needle) {
                    results.push(Position { line, offset });
                }
                start += cluster.len();
                offset += 1;
            }
            line += 1;
        }
        results
"""))
ref("search-index", (BM, SLOOP, """        let mut results = Vec::new();
        let text = self.data();
        let lines: Vec<&str> = text.lines().collect();
        for line in 0..lines.len() {
            let starts: Vec<usize> = lines[line].grapheme_indices(true).map(|(i, _)| i).collect();
            for (offset, start) in starts.iter().enumerate() {
                if lines[line][*start..].starts_with(needle) {
                    results.push(Position { line, offset });
                }
            }
        }
        results
"""))
ref("search-filter-after", (BM, "        for (line, data) in self.data().lines().enumerate() {", "        for (line, data) in self.data().lines().enumerate().filter(|(_, data)| data.len() >= needle.len()) {"))
ref("search-split", (BM, "        for (line, data) in self.data().lines().enumerate() {", "        for (line, data) in self.data().split('\\n').enumerate() {\n            let data = data.strip_suffix('\\r').unwrap_or(data);"))

# ---- cursor
CU = "src/buffer/cursor.rs"
ref("cur-move-to-early", (CU, """        if self.data.borrow().in_bounds(&position) {
            self.position = position;
            self.sticky_offset = position.offset;
            return true;
        }
        false
""", """        if !self.data.borrow().in_bounds(&position) {
            return false;
        }
        self.position = position;
        self.sticky_offset = self.position.offset;
        true
"""))
ref("cur-move-to-bind", (CU, """        if self.data.borrow().in_bounds(&position) {
            self.position = position;
            self.sticky_offset = position.offset;
            return true;
        }
        false
""", """        let valid = self.data.borrow().in_bounds(&position);
        if valid {
            let Position { line, offset } = position;
            self.position = Position { line, offset };
            self.sticky_offset = offset;
        }
        valid
"""))
UPLOOP = """            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
            self.move_to(Position {
                line: target_line,
                offset: target_offset,
            });
            self.sticky_offset = new_position.offset;
        }
    }
    pub fn move_%s("""
HELP = """    fn line_length(&self, target: usize) -> usize {
        self.data
            .borrow()
            .to_string()
            .lines()
            .nth(target)
            .map(|line| line.graphemes(true).count())
            .unwrap_or(0)
    }

    fn move_to_clamped(&mut self, line: usize) {
        let sticky = self.sticky_offset;
        let offset = self.line_length(line);
        self.move_to(Position { line, offset });
        self.sticky_offset = sticky;
    }

"""
UPNEW = """            self.move_to_clamped(target_line);
        }
    }
%s    pub fn move_%s("""
ref("cur-line-length-helper", (CU, UPLOOP % "down", UPNEW % (HELP, "down")), (CU, UPLOOP % "left", UPNEW % ("", "left")))
ref("cur-loop-break", (CU, UPLOOP % "down", (UPLOOP % "down").replace("count();\n", "count();\n                    break;\n")))
ref("cur-up-checked-sub", (CU, """        if self.line == 0 {
            return;
        }
        let target_line = self.line - 1;
""", """        let target_line = match self.line.checked_sub(1) {
            Some(line) => line,
            None => return,
        };
"""))
ref("cur-up-sticky-local", (CU, """        let target_line = self.line - 1;
        let new_position = Position {
            line: target_line,
            offset: self.sticky_offset,
        };
""", """        let target_line = self.line - 1;
        let sticky = self.sticky_offset;
        let new_position = Position {
            line: target_line,
            offset: sticky,
        };
"""))
ref("cur-left-guard", (CU, """        if self.offset == 0 {
            return;
        }
        let new_position = Position {
            line: self.line,
            offset: self.offset - 1,
        };
        self.move_to(new_position);
""", """        if self.offset > 0 {
            let offset = self.position.offset - 1;
            self.move_to(Position { offset, ..self.position });
        }
"""))
ref("cur-start-struct", (CU, """        let new_position = Position {
            line: self.line,
            offset: 0,
        };
        self.move_to(new_position);
    }
    pub fn move_to_end_of_line(""", """        let mut target = self.position;
        target.offset = 0;
        self.move_to(target);
    }
    pub fn move_to_end_of_line("""))
ref("cur-eol-match", (CU, """        let current_line = data.lines().nth(self.line);
        if let Some(line) = current_line {
            let new_position = Position {
                line: self.line,
                offset: line.graphemes(true).count(),
            };
            self.move_to(new_position);
        }
""", """        let length = match data.lines().nth(self.line) {
            Some(line) => line.graphemes(true).count(),
            None => return,
        };
        self.move_to(Position {
            line: self.line,
            offset: length,
        });
"""))
ref("cur-eol-skip", (CU, "data.lines().nth(self.line);", "data.lines().skip(self.line).next();"))
MIN = """        let target_position = if length < self.sticky_offset {
            Position {
                line%s,
                offset: length,
            }
        } else {
            Position {
                line%s,
                offset: self.sticky_offset,
            }
        };
        self.move_to(target_position);
"""
ref("cur-last-min", (CU, MIN % ("", ""), """        let offset = length.min(self.sticky_offset);
        self.move_to(Position { line, offset });
"""))
ref("cur-first-min", (CU, MIN % (": 0", ": 0"), """        let offset = std::cmp::min(length, self.sticky_offset);
        self.move_to(Position { line: 0, offset });
"""))
ref("cur-first-next", (CU, """            .lines()
            .nth(0)
            .map(|line| line.graphemes(true).count())
            .unwrap_or(0);
""", """            .lines()
            .next()
            .map_or(0, |line| line.graphemes(true).count());
"""))
ref("cur-last-tuple", (CU, """            if c.ends_with('\\n') {
                line += 1;
                length = 0;
            } else {
                length += 1;
            }
""", """            if !c.ends_with('\\n') {
                length += 1;
                continue;
            }
            line += 1;
            length = 0;
"""))
ref("cur-last-distance", (CU, """        let mut line = 0;
        let mut length = 0;
        for c in self.data.borrow().to_string().graphemes(true) {
            if c.ends_with('\\n') {
                line += 1;
                length = 0;
            } else {
                length += 1;
            }
        }
""", """        let text = self.data.borrow().to_string();
        let end = crate::buffer::Distance::of_str(&text);
        let line = end.lines;
        let length = end.offset;
"""))
ref("cur-rename-sticky", (CU, "    sticky_offset: usize,\n}", "    desired_column: usize,\n}"),
    (CU, "            sticky_offset: position.offset,", "            desired_column: position.offset,"),
    (CU, "            self.sticky_offset = position.offset;", "            self.desired_column = position.offset;"),
    (CU, "        let target_line = self.line - 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.sticky_offset,", "        let target_line = self.line - 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.desired_column,"),
    (CU, "        let target_line = self.line + 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.sticky_offset,", "        let target_line = self.line + 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.desired_column,"),
    (CU, (UPLOOP % "down"), (UPLOOP % "down").replace("sticky_offset", "desired_column")),
    (CU, (UPLOOP % "left"), (UPLOOP % "left").replace("sticky_offset", "desired_column")),
    (CU, MIN % ("", ""), (MIN % ("", "")).replace("sticky_offset", "desired_column")),
    (CU, MIN % (": 0", ": 0"), (MIN % (": 0", ": 0")).replace("sticky_offset", "desired_column")))

# ---- operations
INS, DEL, REP, GRP, HIS = (OP + x + ".rs" for x in ("insert", "delete", "replace", "group", "history"))
ADD = """        match self.operation_group {
            Some(ref mut group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        };
"""
ref("op-record-helper",
    (INS, ADD, "        self.record(Box::new(op));\n"), (DEL, ADD, "        self.record(Box::new(op));\n"), (REP, ADD, "        self.record(Box::new(op));\n"),
    (GRP, "impl Buffer {\n", """impl Buffer {
    pub(super) fn record(&mut self, operation: Box<dyn Operation>) {
        if let Some(group) = self.operation_group.as_mut() {
            group.add(operation);
        } else {
            self.history.add(operation);
        }
    }

"""))
ref("op-record-iflet", (INS, ADD, """        let op: Box<dyn Operation> = Box::new(op);
        if let Some(group) = &mut self.operation_group {
            group.add(op);
            return;
        }
        self.history.add(op);
"""))
ref("op-notify-helper",
    (INS, """        self.offset = buffer.data.borrow().content_offset(&self.position);
        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }
""", """        let offset = buffer.data.borrow().content_offset(&self.position);
        self.offset = offset;
        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);
        buffer.notify(self.position);
"""),
    (INS, """                .delete_at(offset, self.content.len());
        }
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }
""", """                .delete_at(offset, self.content.len());
        }
        buffer.notify(self.position);
"""),
    (DEL, """        self.content = buffer.data.borrow_mut().delete(&self.range);
        if let Some(ref callback) = buffer.change_callback {
            callback(self.range.start())
        }
""", """        self.content = buffer.data.borrow_mut().delete(&self.range);
        buffer.notify(self.range.start());
"""),
    (REP, """    if let Some(ref callback) = buffer.change_callback {
        callback(Position::new())
    }
""", """    buffer.notify(Position::default());
"""),
    (BM, "    pub fn read(&self, range", """    fn notify(&self, position: Position) {
        if let Some(callback) = self.change_callback.as_ref() {
            callback(position);
        }
    }

    pub fn read(&self, range"""))
ref("ins-reverse-match", (INS, """        if let Some(offset) = self.offset {
            buffer
                .data
                .borrow_mut()
                .delete_at(offset, self.content.len());
        }
""", """        match self.offset {
            None => {}
            Some(start) => {
                let mut data = buffer.data.borrow_mut();
                let length = self.content.as_bytes().len();
                data.delete_at(start, length);
            }
        }
"""))
ref("ins-bind", (INS, """        let mut op = Insert::new(data.into(), self.cursor.position);
        op.run(self);
""", """        let position = self.cursor.position;
        let content: String = data.into();
        let mut op = Insert { content, position, offset: None };
        Operation::run(&mut op, self);
"""))
ref("del-reverse-question", (DEL, """        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
            buffer.data.borrow_mut().insert_at(content, offset);
            if let Some(ref callback) = buffer.change_callback {
                callback(self.range.start())
            }
        }
""", """        let content = match self.content {
            Some(ref content) => content,
            None => return,
        };
        let offset = match self.offset {
            Some(offset) => offset,
            None => return,
        };
        buffer.data.borrow_mut().insert_at(content, offset);
        if let Some(ref callback) = buffer.change_callback {
            callback(self.range.start())
        }
"""))
ref("del-end-local", (DEL, """        let mut end = Position {
            line: self.cursor.line,
            offset: self.cursor.offset + 1,
        };
        if !self.data.borrow().in_bounds(&end) {
            end.line += 1;
            end.offset = 0;
        }
        let start = self.cursor.position;
""", """        let start = self.cursor.position;
        let next = Position { offset: start.offset + 1, ..start };
        let end = if self.data.borrow().in_bounds(&next) {
            next
        } else {
            Position { line: start.line + 1, offset: 0 }
        };
"""))
ref("del-start-local", (DEL, """        self.offset = buffer.data.borrow().content_offset(&self.range.start());
        self.content = buffer.data.borrow_mut().delete(&self.range);
        if let Some(ref callback) = buffer.change_callback {
            callback(self.range.start())
        }
""", """        let start = self.range.start();
        {
            let mut data = buffer.data.borrow_mut();
            self.offset = data.content_offset(&start);
            self.content = data.delete(&self.range);
        }
        if let Some(callback) = &buffer.change_callback {
            callback(start);
        }
"""))
ref("del-tuple-op", (DEL, "        let mut op = Delete::new(range);\n", "        let mut op = Delete { range, offset: None, content: None };\n"))
ref("rep-old-once", (REP, "        let mut op = Replace::new(self.data(), content.into());\n", "        let mut op = Replace::new(old_content, content.into());\n"))
ref("rep-into-first", (REP, """        let old_content = self.data();
        if content.as_ref() == old_content {
            return;
        }
        let mut op = Replace::new(self.data(), content.into());
        op.run(self);
""", """        let new_content: String = content.into();
        let old_content = self.data();
        if old_content == new_content {
            return;
        }
        let mut op = Replace { old_content, new_content };
        op.run(self);
"""))
ref("rep-cursor-or", (REP, """    if !cursor.move_to(*buffer.cursor) {
        cursor.move_to(Position {
            line: buffer.cursor.line,
            offset: 0,
        });
    }
""", """    let position = buffer.cursor.position;
    let _ = cursor.move_to(position) || cursor.move_to(Position { line: position.line, offset: 0 });
"""))
ref("rep-method", (REP, "        replace_content(self.new_content.clone(), buffer);\n", "        let content = self.new_content.to_string();\n        replace_content(content, buffer);\n"),
    (REP, "fn replace_content(content: String, buffer: &mut Buffer) {\n    let data = Rc::new(RefCell::new(GapBuffer::new(content)));\n", "fn replace_content(text: String, buffer: &mut Buffer) {\n    let gap_buffer = GapBuffer::new(text);\n    let data = Rc::new(RefCell::new(gap_buffer));\n"))
ref("rep-swap-then-move", (REP, """    let mut cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });
    if !cursor.move_to(*buffer.cursor) {
        cursor.move_to(Position {
            line: buffer.cursor.line,
            offset: 0,
        });
    }
    buffer.data = data;
    buffer.cursor = cursor;
""", """    let old = buffer.cursor.position;
    buffer.data = data.clone();
    buffer.cursor = Cursor::new(data, Position::new());
    if !buffer.cursor.move_to(old) {
        buffer.cursor.move_to(Position {
            line: old.line,
            offset: 0,
        });
    }
"""))
ref("group-foreach", (GRP, """        for operation in &mut self.operations {
            operation.run(buffer);
        }
""", """        self.operations.iter_mut().for_each(|operation| operation.run(buffer));
"""), (GRP, """        for operation in &mut self.operations.iter_mut().rev() {
            operation.reverse(buffer);
        }
""", """        self.operations.iter_mut().rev().for_each(|operation| operation.reverse(buffer));
"""))
ref("group-index", (GRP, """        for operation in &mut self.operations {
            operation.run(buffer);
        }
""", """        for index in 0..self.operations.len() {
            self.operations[index].run(buffer);
        }
"""), (GRP, """        for operation in &mut self.operations.iter_mut().rev() {
            operation.reverse(buffer);
        }
""", """        let mut index = self.operations.len();
        while index > 0 {
            index -= 1;
            self.operations[index].reverse(buffer);
        }
"""))
ref("group-clone-loop", (GRP, """        Box::new(OperationGroup {
            operations: self
                .operations
                .iter()
                .map(|o| (*o).clone_operation())
                .collect(),
        })
""", """        let mut clone = OperationGroup::new();
        for operation in &self.operations {
            clone.add(operation.clone_operation());
        }
        Box::new(clone)
"""))
ref("group-len-zero", (GRP, "        self.operations.is_empty()\n", "        self.operations.len() == 0\n"))
ref("group-start-isnone", (GRP, """        match self.operation_group {
            Some(_) => (),
            None => {
                self.operation_group = Some(OperationGroup::new());
            }
        }
""", """        if self.operation_group.is_none() {
            self.operation_group = Some(OperationGroup::new());
        }
"""))
ref("group-start-insert", (GRP, """        match self.operation_group {
            Some(_) => (),
            None => {
                self.operation_group = Some(OperationGroup::new());
            }
        }
""", """        self.operation_group.get_or_insert_with(OperationGroup::new);
"""))
ref("group-end-match", (GRP, """        if let Some(group) = self.operation_group.take() {
            if !group.is_empty() {
                self.history.add(Box::new(group))
            }
        }
""", """        let group = match self.operation_group.take() {
            Some(group) => group,
            None => return,
        };
        if group.is_empty() {
            return;
        }
        self.history.add(Box::new(group));
"""))
ref("group-end-guard", (GRP, """        if let Some(group) = self.operation_group.take() {
            if !group.is_empty() {
                self.history.add(Box::new(group))
            }
        }
""", """        match std::mem::replace(&mut self.operation_group, None) {
            Some(group) if !group.is_empty() => self.history.add(Box::new(group)),
            _ => {}
        }
"""))
ref("his-prev-map", (HIS, """        match self.previous.pop() {
            Some(operation) => {
                self.next.push(operation.clone_operation());
                Some(operation)
            }
            None => None,
        }
""", """        let operation = self.previous.pop()?;
        self.next.push(operation.clone_operation());
        Some(operation)
"""))
ref("his-next-map", (HIS, """        match self.next.pop() {
            Some(operation) => {
                self.previous.push(operation.clone_operation());
                Some(operation)
            }
            None => None,
        }
""", """        let History { previous, next, .. } = self;
        next.pop().map(|operation| {
            previous.push(operation.clone_operation());
            operation
        })
"""))
ref("his-next-swap", (HIS, """                self.previous.push(operation.clone_operation());
                Some(operation)
""", """                let copy = operation.clone_operation();
                self.previous.push(operation);
                Some(copy)
"""))
ref("his-add-match", (HIS, """        if let Some(position) = self.marked_position {
            if position >= self.previous.len() {
                self.marked_position = None
            }
        }
""", """        match self.marked_position {
            Some(position) if position >= self.previous.len() => self.marked_position = None,
            _ => (),
        }
"""))
ref("his-add-filter", (HIS, """        if let Some(position) = self.marked_position {
            if position >= self.previous.len() {
                self.marked_position = None
            }
        }
""", """        let len = self.previous.len();
        self.marked_position = self.marked_position.filter(|&position| position < len);
"""))
ref("his-add-order", (HIS, """        self.previous.push(operation);
        self.next.clear();
        if let Some(position) = self.marked_position {
            if position >= self.previous.len() {
                self.marked_position = None
            }
        }
""", """        if let Some(position) = self.marked_position {
            if position > self.previous.len() {
                self.marked_position = None
            }
        }
        self.next = Vec::new();
        self.previous.push(operation);
"""))
ref("his-atmark-eq", (HIS, """        if let Some(position) = self.marked_position {
            self.previous.len() == position
        } else {
            false
        }
""", """        self.marked_position == Some(self.previous.len())
"""))
ref("his-atmark-map", (HIS, """        if let Some(position) = self.marked_position {
            self.previous.len() == position
        } else {
            false
        }
""", """        self.marked_position.map_or(false, |position| position == self.previous.len())
"""))
ref("his-rename", (HIS, "    next: Vec<Box<dyn Operation>>,\n", "    undoable_tail: Vec<Box<dyn Operation>>,\n"), (HIS, "            next: Vec::new(),", "            undoable_tail: Vec::new(),"),
    (HIS, "        self.next.clear();", "        self.undoable_tail.clear();"), (HIS, "self.next.push(", "self.undoable_tail.push("), (HIS, "self.next.pop()", "self.undoable_tail.pop()"))

# ---- ranges, positions, distances
RA, LR, DI, PO = ("src/buffer/%s.rs" % x for x in ("range", "line_range", "distance", "position"))
ref("range-new-match", (RA, """        if start > end {
            Range {
                start: end,
                end: start,
            }
        } else {
            Range { start, end }
        }
""", """        let (start, end) = if end < start { (end, start) } else { (start, end) };
        Range { start, end }
"""))
ref("range-new-swap", (RA, """        if start > end {
            Range {
                start: end,
                end: start,
            }
        } else {
            Range { start, end }
        }
""", """        let mut range = Range { start, end };
        if range.start > range.end {
            std::mem::swap(&mut range.start, &mut range.end);
        }
        range
"""))
ref("range-includes-contains", (RA, "        position >= &self.start() && position < &self.end()\n", "        (self.start..self.end).contains(position)\n"))
ref("range-includes-not", (RA, "        position >= &self.start() && position < &self.end()\n", "        if *position < self.start {\n            return false;\n        }\n        *position < self.end\n"))
ref("lr-new-minmax", (LR, """        if start < end {
            LineRange { start, end }
        } else {
            LineRange {
                start: end,
                end: start,
            }
        }
""", """        LineRange {
            start: start.min(end),
            end: start.max(end),
        }
"""))
ref("lr-new-le", (LR, "        if start < end {\n", "        if start <= end {\n"))
ref("lr-line-start-helper", (LR, """        Range::new(
            Position {
                line: self.start,
                offset: 0,
            },
            Position {
                line: self.end,
                offset: 0,
            },
        )
""", """        Range::new(line_start(self.start), line_start(self.end))
"""), (LR, """        Range::new(
            Position {
                line: self.start,
                offset: 0,
            },
            Position {
                line: self.end.saturating_add(1),
                offset: 0,
            },
        )
""", """        let following = self.end().checked_add(1).unwrap_or(usize::MAX);
        Range::new(line_start(self.start()), line_start(following))
"""), (LR, "impl LineRange {\n", "fn line_start(line: usize) -> Position {\n    Position { line, offset: 0 }\n}\n\nimpl LineRange {\n"))
ref("lr-includes-range", (LR, "        line >= self.start() && line < self.end()\n", "        (self.start..self.end).contains(&line)\n"))
ref("di-matches", (DI, "            lines: from.chars().filter(|&c| c == '\\n').count(),\n", "            lines: from.matches('\\n').count(),\n"))
ref("di-bytes", (DI, "            lines: from.chars().filter(|&c| c == '\\n').count(),\n", "            lines: from.bytes().filter(|b| *b == b'\\n').count(),\n"))
ref("di-rsplit", (DI, """            offset: from
                .split('\\n')
                .last()
                .map(|l| l.graphemes(true).count())
                .unwrap_or(0),
""", """            offset: from
                .rsplit('\\n')
                .next()
                .map_or(0, |l| l.graphemes(true).count()),
"""))
ref("di-rfind", (DI, """        Distance {
            lines: from.chars().filter(|&c| c == '\\n').count(),
            offset: from
                .split('\\n')
                .last()
                .map(|l| l.graphemes(true).count())
                .unwrap_or(0),
        }
""", """        let last = match from.rfind('\\n') {
            Some(index) => &from[index + 1..],
            None => from,
        };
        let mut lines = 0;
        for c in from.chars() {
            if c == '\\n' {
                lines += 1;
            }
        }
        Distance { lines, offset: last.graphemes(true).count() }
"""))
ref("di-split-count", (DI, "            lines: from.chars().filter(|&c| c == '\\n').count(),\n", "            lines: from.split('\\n').count() - 1,\n"))
CMP = """        Some(if self.line < other.line {
            Ordering::Less
        } else if self.line > other.line {
            Ordering::Greater
        } else if self.offset < other.offset {
            Ordering::Less
        } else if self.offset > other.offset {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
"""
ref("pos-cmp-then", (PO, CMP, "        Some(self.line.cmp(&other.line).then(self.offset.cmp(&other.offset)))\n"))
ref("pos-cmp-tuple", (PO, CMP, "        (self.line, self.offset).partial_cmp(&(other.line, other.offset))\n"))
ref("pos-cmp-match", (PO, CMP, """        match self.line.cmp(&other.line) {
            Ordering::Equal => self.offset.partial_cmp(&other.offset),
            ordering => Some(ordering),
        }
"""))
ref("pos-add-via-assign", (PO, """        let offset = if distance.lines > 0 {
            distance.offset
        } else {
            self.offset + distance.offset
        };
        Position {
            line: self.line + distance.lines,
            offset,
        }
""", """        let mut position = self;
        position += distance;
        position
"""))
ref("pos-assign-via-add", (PO, """        self.line += distance.lines;
        self.offset = if distance.lines > 0 {
            distance.offset
        } else {
            self.offset + distance.offset
        };
""", """        *self = *self + distance;
"""))
ref("pos-assign-match", (PO, """        self.line += distance.lines;
        self.offset = if distance.lines > 0 {
            distance.offset
        } else {
            self.offset + distance.offset
        };
""", """        match distance.lines {
            0 => self.offset += distance.offset,
            lines => {
                self.line += lines;
                self.offset = distance.offset;
            }
        }
"""))
ref("pos-new-zero", (PO, "        Default::default()\n", "        Position { line: 0, offset: 0 }\n"))
# ---- buffer
ref("buf-lines-matches", (BM, "        self.data().chars().filter(|&c| c == '\\n').count() + 1\n", "        self.data().matches('\\n').count() + 1\n"))
ref("buf-lines-split", (BM, "        self.data().chars().filter(|&c| c == '\\n').count() + 1\n", "        self.data().split('\\n').count()\n"))
ref("buf-lines-fold", (BM, "        self.data().chars().filter(|&c| c == '\\n').count() + 1\n", "        let mut count = 1;\n        for byte in self.data().bytes() {\n            if byte == b'\\n' {\n                count += 1;\n            }\n        }\n        count\n"))
ref("buf-lines-distance", (BM, "        self.data().chars().filter(|&c| c == '\\n').count() + 1\n", "        Distance::of_str(&self.data()).lines + 1\n"))
ref("buf-new-with", (BM, """        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });
        let mut buffer = Buffer {
            id: None,
            data: data.clone(),
            path: Some(path.canonicalize()?),
            cursor,
            history: History::new(),
            operation_group: None,
            syntax_definition: None,
            change_callback: None,
        };
        buffer.history.mark();
""", """        let path = path.canonicalize()?;
        let mut buffer = Buffer::with_content(content);
        buffer.path = Some(path);
        buffer.history.mark();
"""), (BM, "    pub fn data(&self) -> String {\n", """    fn with_content(content: String) -> Buffer {
        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(Rc::clone(&data), Position::new());
        Buffer {
            id: None,
            data,
            path: None,
            cursor,
            history: History::new(),
            operation_group: None,
            syntax_definition: None,
            change_callback: None,
        }
    }

    pub fn data(&self) -> String {
"""))
ref("buf-data-read", (BM, "        self.data.borrow().to_string()\n", "        let data = self.data.borrow();\n        format!(\"{}\", *data)\n"))
ref("buf-save-write", (BM, """        let mut file = if let Some(ref path) = self.path {
            File::create(path)?
        } else {
            File::create(PathBuf::new())?
        };
        file.write_all(self.data().to_string().as_bytes())?;
""", """        let path = self.path.clone().unwrap_or_default();
        let mut file = File::create(&path)?;
        let content = self.data();
        file.write_all(content.as_bytes())?;
"""))
ref("buf-save-fs", (BM, """        let mut file = if let Some(ref path) = self.path {
            File::create(path)?
        } else {
            File::create(PathBuf::new())?
        };
        file.write_all(self.data().to_string().as_bytes())?;
""", """        let path = match self.path {
            Some(ref path) => path.as_path(),
            None => Path::new(""),
        };
        fs::write(path, self.data())?;
"""), (BM, "use std::fs::{self, File};\nuse std::io;\nuse std::io::Write;\n", "use std::fs;\nuse std::io;\n"))
ref("buf-save-question", (BM, """        file.write_all(self.data().to_string().as_bytes())?;
        self.mark_history();
        Ok(())
""", """        if let Err(error) = file.write_all(self.data().as_bytes()) {
            return Err(error);
        }
        self.mark_history();
        return Ok(());
"""))
ref("buf-name-question", (BM, """        self.path.as_ref().and_then(|p| {
            p.file_name()
                .and_then(|f| f.to_str().map(|s| s.to_string()))
        })
""", """        let name = self.path.as_ref()?.file_name()?;
        Some(name.to_str()?.to_owned())
"""))
ref("buf-undo-match", (BM, """        if let Some(mut op) = self.history.previous() {
            op.reverse(self);
        }
""", """        match self.history.previous() {
            Some(mut operation) => operation.reverse(self),
            None => (),
        }
"""))
ref("buf-modified-match", (BM, """        let pending_operations = self
            .operation_group
            .as_ref()
            .map(|group| !group.is_empty())
            .unwrap_or(false);
        pending_operations || !self.history.at_mark()
""", """        match self.operation_group {
            Some(ref group) if !group.is_empty() => true,
            _ => !self.history.at_mark(),
        }
"""))
ref("buf-modified-early", (BM, """        let pending_operations = self
            .operation_group
            .as_ref()
            .map(|group| !group.is_empty())
            .unwrap_or(false);
        pending_operations || !self.history.at_mark()
""", """        if self.has_pending_operations() {
            return true;
        }
        !self.history.at_mark()
"""), (BM, "    pub fn line_count(&self)", "    fn has_pending_operations(&self) -> bool {\n        self.operation_group.as_ref().map_or(false, |group| !group.is_empty())\n    }\n\n    pub fn line_count(&self)"))
ref("buf-reload-match", (BM, """        let path = self.path.as_ref().ok_or(ErrorKind::MissingPath)?;
        let content = fs::read_to_string(path)?;
        self.replace(content);
""", """        let content = match self.path {
            Some(ref path) => fs::read_to_string(path)?,
            None => return Err(ErrorKind::MissingPath.into()),
        };
        self.replace(content);
"""))

# ---- workspace
WS = "src/workspace.rs"
ref("ws-add-match", (WS, "        let target_index = self.current_buffer_index.map(|i| i + 1).unwrap_or(0);\n", "        let target_index = match self.current_buffer_index {\n            Some(index) => index + 1,\n            None => 0,\n        };\n"))
ref("ws-add-id-late", (WS, """        buf.id = Some(self.next_buffer_id);
        self.next_buffer_id += 1;
        let target_index = self.current_buffer_index.map(|i| i + 1).unwrap_or(0);
""", """        let id = self.next_buffer_id;
        self.next_buffer_id = id + 1;
        buf.id = Some(id);
        let target_index = self.current_buffer_index.map_or(0, |i| i + 1);
"""))
ref("ws-add-syntax-flag", (WS, """        if let Some(buf) = self.current_buffer.as_ref() {
            if buf.syntax_definition.is_none() {
                let _ = self.update_current_syntax();
            }
        }
""", """        let missing_syntax = self
            .current_buffer
            .as_ref()
            .map_or(false, |buf| buf.syntax_definition.is_none());
        if missing_syntax {
            self.update_current_syntax().ok();
        }
"""))
ref("ws-open-early", (WS, """        if self.select_buffer_by_path(path) {
            Ok(())
        } else {
            let buffer = Buffer::from_file(path)?;
            self.add_buffer(buffer);
            Ok(())
        }
""", """        if !self.select_buffer_by_path(path) {
            self.add_buffer(Buffer::from_file(path)?);
        }
        Ok(())
"""))
CUR = """        self.current_buffer.as_ref().and_then(|buf| {
            buf.path
                .as_ref()
                .and_then(|path| path.strip_prefix(&self.path).ok().or_else(|| Some(path)))
        })
"""
ref("ws-path-question", (WS, CUR, """        let path = self.current_buffer.as_ref()?.path.as_ref()?;
        Some(path.strip_prefix(&self.path).unwrap_or(path))
"""))
ref("ws-path-helper", (WS, CUR, """        self.current_buffer
            .as_ref()
            .and_then(|buf| self.relative_path(buf))
"""), (WS, """                    buf.path
                        .as_deref()
                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))
""", """                    self.relative_path(buf)
"""), (WS, "    pub fn current_buffer_index(&self)", """    fn relative_path<'a>(&'a self, buf: &'a Buffer) -> Option<&'a Path> {
        match buf.path {
            Some(ref path) => match path.strip_prefix(&self.path) {
                Ok(relative) => Some(relative),
                Err(_) => Some(path.as_path()),
            },
            None => None,
        }
    }

    pub fn current_buffer_index(&self)"""))
ref("ws-close-take", (WS, """        self.current_buffer = None;
        if let Some(index) = self.current_buffer_index {
            self.buffers.remove(index);
            if self.buffers.is_empty() {
                self.current_buffer_index = None;
            } else {
                self.select_buffer(index.saturating_sub(1));
            }
        };
""", """        let index = match self.current_buffer_index.take() {
            Some(index) => index,
            None => {
                self.current_buffer = None;
                return;
            }
        };
        drop(self.current_buffer.take());
        self.buffers.remove(index);
        if !self.buffers.is_empty() {
            let previous = if index == 0 { 0 } else { index - 1 };
            self.select_buffer(previous);
        }
"""))
ref("ws-prev-match", (WS, """        if let Some(index) = self.current_buffer_index {
            if index > 0 {
                self.select_buffer(index - 1);
            } else {
                self.select_buffer(self.buffers.len() - 1);
            }
        }
""", """        let target = match self.current_buffer_index {
            None => return,
            Some(0) => self.buffers.len() - 1,
            Some(index) => index - 1,
        };
        self.select_buffer(target);
"""))
ref("ws-prev-modulo", (WS, """        if let Some(index) = self.current_buffer_index {
            if index > 0 {
                self.select_buffer(index - 1);
            } else {
                self.select_buffer(self.buffers.len() - 1);
            }
        }
""", """        if let Some(index) = self.current_buffer_index {
            let target = index.checked_sub(1).unwrap_or(self.buffers.len() - 1);
            self.select_buffer(target);
        }
"""))
ref("ws-next-modulo", (WS, """            if index == self.buffers.len() - 1 {
                self.select_buffer(0);
            } else {
                self.select_buffer(index + 1);
            }
""", """            let following = (index + 1) % self.buffers.len();
            self.select_buffer(following);
"""))
ref("ws-next-lt", (WS, """            if index == self.buffers.len() - 1 {
                self.select_buffer(0);
            } else {
                self.select_buffer(index + 1);
            }
""", """            let target = if index + 1 < self.buffers.len() { index + 1 } else { 0 };
            self.select_buffer(target);
"""))
ref("ws-tokens-match", (WS, """        let buf = self
            .current_buffer
            .as_ref()
            .ok_or(ErrorKind::EmptyWorkspace)?;
        let data = buf.data();
        let syntax_definition = buf
            .syntax_definition
            .as_ref()
            .ok_or(ErrorKind::MissingSyntax)?;
        Ok(TokenSet::new(data, syntax_definition, &self.syntax_set))
""", """        let buf = match self.current_buffer {
            Some(ref buf) => buf,
            None => return Err(ErrorKind::EmptyWorkspace.into()),
        };
        if let Some(definition) = &buf.syntax_definition {
            Ok(TokenSet::new(buf.data(), definition, &self.syntax_set))
        } else {
            Err(ErrorKind::MissingSyntax.into())
        }
"""))
ref("ws-paths-loop", (WS, """        self.buffers
            .iter()
            .enumerate()
            .map(|(i, buf)| {
                if self.current_buffer_index == Some(i) {
                    self.current_buffer_path()
                } else {
                    buf.path
                        .as_deref()
                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))
                }
            })
            .collect::<Vec<_>>()
""", """        let mut paths = Vec::with_capacity(self.buffers.len());
        for (i, buf) in self.buffers.iter().enumerate() {
            let path = if self.current_buffer_index == Some(i) {
                self.current_buffer_path()
            } else {
                match buf.path.as_ref() {
                    Some(path) => Some(path.strip_prefix(&self.path).unwrap_or(path)),
                    None => None,
                }
            };
            paths.push(path);
        }
        paths
"""))
ref("ws-syntax-match", (WS, """        let definition = buffer
            .file_extension()
            .or_else(|| buffer.file_name())
            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))
            .or_else(|| Some(self.syntax_set.find_syntax_plain_text()))
            .cloned();
        buffer.syntax_definition = definition;
""", """        let key = match buffer.file_extension() {
            Some(extension) => Some(extension),
            None => buffer.file_name(),
        };
        let found = match key {
            Some(ref key) => self.syntax_set.find_syntax_by_extension(key),
            None => None,
        };
        let definition = match found {
            Some(definition) => definition,
            None => self.syntax_set.find_syntax_plain_text(),
        };
        buffer.syntax_definition = Some(definition.clone());
"""))
ref("ws-syntax-unwrap-or", (WS, """            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))
            .or_else(|| Some(self.syntax_set.find_syntax_plain_text()))
            .cloned();
        buffer.syntax_definition = definition;
""", """            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))
            .unwrap_or_else(|| self.syntax_set.find_syntax_plain_text());
        buffer.syntax_definition = Some(definition.to_owned());
"""))
SEL = """        if let Some(current_buffer) = self.current_buffer.as_mut() {
            mem::swap(
                current_buffer,
                &mut self.buffers[self.current_buffer_index.unwrap()],
            );
        }
        if let Some(target_buffer) = self.buffers.get_mut(index) {
            self.current_buffer = Some(mem::replace(target_buffer, Buffer::new()));
            self.current_buffer_index = Some(index);
            return true;
        }
        false
"""
ref("ws-select-take", (WS, SEL, """        if let Some(target_index) = self.current_buffer_index {
            if let Some(buffer) = self.current_buffer.as_mut() {
                mem::swap(buffer, &mut self.buffers[target_index]);
            }
        }
        match self.buffers.get_mut(index) {
            None => false,
            Some(slot) => {
                self.current_buffer = Some(mem::take(slot));
                self.current_buffer_index = Some(index);
                true
            }
        }
"""))
ref("ws-select-helper", (WS, SEL, """        self.store_current_buffer();

        if index >= self.buffers.len() {
            return false;
        }

        let buffer = mem::replace(&mut self.buffers[index], Buffer::new());
        self.current_buffer = Some(buffer);
        self.current_buffer_index = Some(index);
        true
"""), (WS, "    fn select_buffer_by_path(", """    fn store_current_buffer(&mut self) {
        if let (Some(buffer), Some(index)) = (self.current_buffer.as_mut(), self.current_buffer_index) {
            mem::swap(buffer, &mut self.buffers[index]);
        }
    }

    fn select_buffer_by_path("""))
BYP = """        if let Ok(ref canonical_path) = path.canonicalize() {
            if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
                return true;
            }
            let index = self
                .buffers
                .iter()
                .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
            index
                .map(|index| self.select_buffer(index))
                .unwrap_or(false)
        } else {
            false
        }
"""
ref("ws-bypath-match", (WS, BYP, """        let canonical_path = match path.canonicalize() {
            Ok(canonical_path) => canonical_path,
            Err(_) => return false,
        };
        if let Some(current) = self.current_buffer.as_ref() {
            if current.path.as_ref() == Some(&canonical_path) {
                return true;
            }
        }
        match self
            .buffers
            .iter()
            .position(|buffer| buffer.path.as_deref() == Some(canonical_path.as_path()))
        {
            Some(index) => self.select_buffer(index),
            None => false,
        }
"""))
ref("ws-bypath-loop", (WS, BYP, """        let canonical_path = match path.canonicalize() {
            Ok(canonical_path) => canonical_path,
            Err(_) => return false,
        };
        if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(&canonical_path) {
            return true;
        }
        for index in 0..self.buffers.len() {
            if self.buffers[index].path.as_ref() == Some(&canonical_path) {
                return self.select_buffer(index);
            }
        }
        false
"""))
ref("ws-new-match", (WS, """        let mut syntax_set = SyntaxSet::load_defaults_newlines();
        if let Some(path) = syntax_definitions {
            let mut builder = syntax_set.into_builder();
            builder.add_from_folder(path, true)?;
            syntax_set = builder.build();
        }
        Ok(Workspace {
            path: path.canonicalize()?,
""", """        let defaults = SyntaxSet::load_defaults_newlines();
        let syntax_set = match syntax_definitions {
            None => defaults,
            Some(folder) => {
                let mut builder = defaults.into_builder();
                builder.add_from_folder(folder, true)?;
                builder.build()
            }
        };
        let path = path.canonicalize()?;
        Ok(Workspace {
            path,
"""))
# ---- tokens
TI = "src/buffer/token/token_iterator.rs"
NT = """        let token_result = self.build_next_token();
        if let Err(e) = token_result {
            self.error = Some(e);
            return None;
        }
        if let Ok(Some(token)) = token_result {
            return Some(token);
        }
        let parse_result = self.parse_next_line();
        if let Err(e) = parse_result {
            self.error = Some(e);
            return None;
        }
        if self.current_line.is_some() {
            Some(Token::Newline)
        } else {
            None
        }
"""
ref("ti-next-match", (TI, NT, """        match self.build_next_token() {
            Ok(Some(token)) => return Some(token),
            Ok(None) => (),
            Err(error) => {
                self.error = Some(error);
                return None;
            }
        }
        match self.parse_next_line() {
            Ok(()) => self.current_line.map(|_| Token::Newline),
            Err(error) => {
                self.error = Some(error);
                None
            }
        }
"""))
ref("ti-next-helper", (TI, NT, """        match self.advance() {
            Ok(token) => token,
            Err(e) => {
                self.error = Some(e);
                None
            }
        }
"""), (TI, "    fn build_next_token(", """    fn advance(&mut self) -> Result<Option<Token<'a>>> {
        if let Some(token) = self.build_next_token()? {
            return Ok(Some(token));
        }
        self.parse_next_line()?;
        if self.current_line.is_none() {
            return Ok(None);
        }
        Ok(Some(Token::Newline))
    }

    fn build_next_token("""))
ref("ti-eol-strip", (TI, """            let end_of_line = if line.ends_with('\\n') {
                line.len() - 1
            } else {
                line.len()
            };
""", """            let end_of_line = line.strip_suffix('\\n').unwrap_or(line).len();
"""))
ref("ti-value-local", (TI, """                    let end_of_token = cmp::min(event_offset, end_of_line);
                    lexeme = Some(Token::Lexeme(Lexeme {
                        value: &line[self.current_byte_offset..end_of_token],
                        scope: self.scopes.clone(),
                        position: self.current_position,
                    }));
                    self.current_position.offset = line[..end_of_token].graphemes(true).count();
                    self.current_byte_offset = event_offset;
""", """                    let end_of_token = event_offset.min(end_of_line);
                    let value = &line[self.current_byte_offset..end_of_token];
                    let position = self.current_position;
                    lexeme = Some(Token::Lexeme(Lexeme {
                        value,
                        scope: self.scopes.clone(),
                        position,
                    }));
                    let before = &line[..end_of_token];
                    self.current_position.offset = before.grapheme_indices(true).count();
                    self.current_byte_offset = event_offset;
"""))
ref("ti-lexeme-helper", (TI, """                    lexeme = Some(Token::Lexeme(Lexeme {
                        value: &line[self.current_byte_offset..end_of_token],
                        scope: self.scopes.clone(),
                        position: self.current_position,
                    }));
                    self""", """                    lexeme = Some(self.lexeme(&line[self.current_byte_offset..end_of_token]));
                    self"""), (TI, """                lexeme = Some(Token::Lexeme(Lexeme {
                    value: &line[self.current_byte_offset..end_of_line],
                    scope: self.scopes.clone(),
                    position: self.current_position,
                }));
            }
        }
""", """                lexeme = Some(self.lexeme(&line[self.current_byte_offset..end_of_line]));
            }
        }
"""), (TI, "    fn parse_next_line(", """    fn lexeme(&self, value: &'a str) -> Token<'a> {
        Token::Lexeme(Lexeme {
            value,
            scope: self.scopes.clone(),
            position: self.current_position,
        })
    }

    fn parse_next_line("""))
ref("ti-early-return", (TI, """                self.scopes.apply(&scope_change)?;
                if lexeme.is_some() {
                    return Ok(lexeme);
                }
""", """                self.scopes.apply(&scope_change)?;
                if let Some(token) = lexeme {
                    return Ok(Some(token));
                }
"""))
ref("ti-loop", (TI, "            while let Some((event_offset, scope_change)) = self.line_events.pop() {\n", "            loop {\n                let (event_offset, scope_change) = match self.line_events.pop() {\n                    Some(event) => event,\n                    None => break,\n                };\n"))
ref("ti-parse-match", (TI, """        if let Some((line_number, line)) = self.lines.next() {
            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;
            line_events.reverse();
            self.line_events = line_events;
            self.current_line = Some(line);
            self.current_position = Position {
                line: line_number,
                offset: 0,
            };
            self.current_byte_offset = 0;
        } else {
            self.current_line = None;
        }
        Ok(())
""", """        let (line_number, line) = match self.lines.next() {
            Some(next) => next,
            None => {
                self.current_line = None;
                return Ok(());
            }
        };
        self.line_events = self.parser.parse_line(line, self.syntaxes)?;
        self.line_events.reverse();
        self.current_line = Some(line);
        self.current_position = Position { line: line_number, offset: 0 };
        self.current_byte_offset = 0;
        Ok(())
"""))
ref("ti-parse-rev", (TI, """            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;
            line_events.reverse();
            self.line_events = line_events;
""", """            let line_events = self.parser.parse_line(line, self.syntaxes)?;
            self.line_events = line_events.into_iter().rev().collect();
"""))
ref("ti-rename", (TI, "    current_byte_offset: usize,\n", "    consumed: usize,\n"), (TI, "            current_byte_offset: 0,\n", "            consumed: 0,\n"),
    (TI, "                if event_offset > self.current_byte_offset {\n", "                if event_offset > self.consumed {\n"),
    (TI, "                        value: &line[self.current_byte_offset..end_of_token],\n", "                        value: &line[self.consumed..end_of_token],\n"),
    (TI, "                    self.current_byte_offset = event_offset;", "                    self.consumed = event_offset;"),
    (TI, "            if self.current_byte_offset < end_of_line {\n                lexeme = Some(Token::Lexeme(Lexeme {\n                    value: &line[self.current_byte_offset..end_of_line],\n", "            if self.consumed < end_of_line {\n                lexeme = Some(Token::Lexeme(Lexeme {\n                    value: &line[self.consumed..end_of_line],\n"),
    (TI, "            self.current_byte_offset = 0;", "            self.consumed = 0;"))
ref("ws-tokens-from-kind", (WS, """            .ok_or(ErrorKind::MissingSyntax)?;
        Ok(TokenSet""", """            .ok_or_else(|| Error::from_kind(ErrorKind::MissingSyntax))?;
        Ok(TokenSet"""))
ref("ws-update-bail", (WS, """        let buffer = self
            .current_buffer
            .as_mut()
            .ok_or(ErrorKind::EmptyWorkspace)?;
        let definition""", """        let buffer = match self.current_buffer.as_mut() {
            Some(buffer) => buffer,
            None => return Err(Error::from(ErrorKind::EmptyWorkspace)),
        };
        let definition"""))
ref("ti-eol-trim", (TI, """            let end_of_line = if line.ends_with('\\n') {
                line.len() - 1
            } else {
                line.len()
            };
""", """            let end_of_line = line.trim_end_matches('\\n').len();
"""))

REFS += [
    ('r-gap-swap', [
        ('src/buffer/gap_buffer.rs', '                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;', '                    self.data.swap(index, index + self.gap_length);'),
        ('src/buffer/gap_buffer.rs', '                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;', '                    self.data.swap(index, index - self.gap_length);'),
    ]),
    ('r-gap-reserve-max', [
        ('src/buffer/gap_buffer.rs', '            self.data.reserve(data.len());', '            self.data.reserve(data.len().max(64));'),
    ]),
    ('r-gap-display', [
        ('src/buffer/gap_buffer.rs', '        write!(f, "{}{}", first_half, second_half)', '        f.write_str(&first_half)?;\n        f.write_str(&second_half)'),
    ]),
    ('r-gap-display2', [
        ('src/buffer/gap_buffer.rs', '        write!(f, "{}{}", first_half, second_half)', '        fmt::Display::fmt(&first_half, f)?;\n        fmt::Display::fmt(&second_half, f)'),
    ]),
    ('r-gap-new-vec', [
        ('src/buffer/gap_buffer.rs', '        let mut bytes = data.as_ref().as_bytes().to_owned();', '        let mut bytes = Vec::from(data.as_ref().as_bytes());'),
    ]),
    ('r-gap-new-string', [
        ('src/buffer/gap_buffer.rs', '        let mut bytes = data.as_ref().as_bytes().to_owned();', '        let mut bytes = String::from(data.as_ref()).into_bytes();'),
    ]),
    ('r-gap-new-nogap', [
        ('src/buffer/gap_buffer.rs', '        let capacity = bytes.capacity();\n        let gap_start = bytes.len();\n        let gap_length = capacity - gap_start;\n        unsafe {\n            bytes.set_len(capacity);\n        }\n', '        let gap_start = bytes.len();\n        let gap_length = 0;\n'),
        ('src/buffer/gap_buffer.rs', '        let mut bytes = data.as_ref().as_bytes().to_owned();', '        let bytes = data.as_ref().as_bytes().to_owned();'),
    ]),
    ('r-gap-new-resize', [
        ('src/buffer/gap_buffer.rs', '        unsafe {\n            bytes.set_len(capacity);\n        }\n\n        GapBuffer', '        bytes.resize(capacity, 0);\n\n        GapBuffer'),
    ]),
    ('r-gap-content-match', [
        ('src/buffer/gap_buffer.rs', '        self.find_offset(position).map(|offset| {\n            if offset > self.gap_start {\n                offset - self.gap_length\n            } else {\n                offset\n            }\n        })', '        match self.find_offset(position) {\n            Some(offset) if offset > self.gap_start => Some(offset - self.gap_length),\n            other => other,\n        }'),
    ]),
    ('r-gap-find-match', [
        ('src/buffer/gap_buffer.rs', '                if offset < self.gap_start {\n                    return Some(offset);\n                } else {\n                    return Some(self.gap_length + offset);\n                }', '                return Some(if offset >= self.gap_start {\n                    offset + self.gap_length\n                } else {\n                    offset\n                });'),
    ]),
    ('r-gap-find-pos', [
        ('src/buffer/gap_buffer.rs', '        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme) in contents', '        let mut current = Position { line: 0, offset: 0 };\n\n        for (offset, grapheme) in contents'),
        ('src/buffer/gap_buffer.rs', '            if line == position.line && line_offset == position.offset {\n                // Content', '            if current == *position {\n                // Content'),
        ('src/buffer/gap_buffer.rs', '                line += 1;\n                line_offset = 0;\n            } else {\n                line_offset += 1;', '                current.line += 1;\n                current.offset = 0;\n            } else {\n                current.offset += 1;'),
        ('src/buffer/gap_buffer.rs', '        if line == position.line && line_offset == position.offset {\n            return Some(self.data.len());', '        if current == *position {\n            return Some(self.data.len());'),
    ]),
    ('r-gap-find-skip', [
        ('src/buffer/gap_buffer.rs', "            // Check to see if we've found the position yet.\n", '            if line > position.line {\n                return None;\n            }\n'),
    ]),
    ('r-gap-read-slices', [
        ('src/buffer/gap_buffer.rs', '            // Allocate a string for the first half.\n            let mut data = String::from_utf8_lossy(first_half).into_owned();\n\n            // Push the second half onto the first.\n            data.push_str(String::from_utf8_lossy(second_half).borrow());\n\n            data', '            let mut bytes = first_half.to_vec();\n            bytes.extend_from_slice(second_half);\n            String::from_utf8_lossy(&bytes).into_owned()'),
    ]),
    ('r-gap-read-format', [
        ('src/buffer/gap_buffer.rs', '            // Allocate a string for the first half.\n            let mut data = String::from_utf8_lossy(first_half).into_owned();\n\n            // Push the second half onto the first.\n            data.push_str(String::from_utf8_lossy(second_half).borrow());\n\n            data', '            format!(\n                "{}{}",\n                String::from_utf8_lossy(first_half),\n                String::from_utf8_lossy(second_half)\n            )'),
        ('src/buffer/gap_buffer.rs', 'use std::borrow::Borrow;\n', ''),
    ]),
    ('r-gap-gapend', [
        ('src/buffer/gap_buffer.rs', '    fn move_gap_to_content_offset(', '    fn gap_end(&self) -> usize {\n        self.gap_start + self.gap_length\n    }\n\n    fn move_gap_to_content_offset('),
        ('src/buffer/gap_buffer.rs', '                for index in self.gap_start + self.gap_length..offset {', '                for index in self.gap_end()..offset {'),
        ('src/buffer/gap_buffer.rs', '&self.data[self.gap_start + self.gap_length..]);\n\n        write', '&self.data[self.gap_end()..]);\n\n        write'),
    ]),
    ('r-ins-map', [
        ('src/buffer/operation/insert.rs', '        if let Some(ref callback) = buffer.change_callback {\n            callback(self.position)\n        }\n    }\n\n    fn reverse', '        if let Some(callback) = buffer.change_callback.as_ref() {\n            callback(self.position)\n        }\n    }\n\n    fn reverse'),
    ]),
    ('r-ins-iter', [
        ('src/buffer/operation/replace.rs', '    if let Some(ref callback) = buffer.change_callback {\n        callback(Position::new())\n    }', '    buffer\n        .change_callback\n        .iter()\n        .for_each(|callback| callback(Position::new()));'),
    ]),
    ('r-del-and', [
        ('src/buffer/operation/delete.rs', '        if let (Some(content), Some(offset)) = (&self.content, self.offset) {\n            buffer.data.borrow_mut().insert_at(content, offset);', '        if let Some((content, offset)) = self.content.as_ref().and_then(|c| self.offset.map(|o| (c, o))) {\n            buffer.data.borrow_mut().insert_at(content, offset);'),
    ]),
    ('r-his-mapor', [
        ('src/buffer/operation/history.rs', '        if let Some(position) = self.marked_position {\n            self.previous.len() == position\n        } else {\n            false\n        }', '        self.marked_position.map_or(false, |position| position == self.previous.len())'),
    ]),
    ('r-his-matches', [
        ('src/buffer/operation/history.rs', '        if let Some(position) = self.marked_position {\n            self.previous.len() == position\n        } else {\n            false\n        }', '        matches!(self.marked_position, Some(position) if position == self.previous.len())'),
    ]),
    ('r-his-newvec', [
        ('src/buffer/operation/history.rs', '        self.next.clear();', '        self.next = Vec::new();'),
    ]),
    ('r-his-drain', [
        ('src/buffer/operation/history.rs', '        self.next.clear();', '        self.next.drain(..);'),
    ]),
    ('r-his-take', [
        ('src/buffer/operation/history.rs', '        if let Some(position) = self.marked_position {\n            if position >= self.previous.len() {\n                self.marked_position = None\n            }\n        }', '        if let Some(position) = self.marked_position.take() {\n            if position < self.previous.len() {\n                self.marked_position = Some(position);\n            }\n        }'),
    ]),
    ('r-cur-bool', [
        ('src/buffer/cursor.rs', '            return true;\n        }\n        false', '            true\n        } else {\n            false\n        }'),
    ]),
    ('r-cur-helper', [
        ('src/buffer/cursor.rs', '    /// Decrements the cursor line. The', '    fn end_of(&self, target_line: usize) -> usize {\n        let data = self.data.borrow().to_string();\n        data.lines()\n            .nth(target_line)\n            .map(|line| line.graphemes(true).count())\n            .unwrap_or(0)\n    }\n\n    /// Decrements the cursor line. The'),
        ('src/buffer/cursor.rs', "            let mut target_offset = 0;\n            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {\n                if line_number == target_line {\n                    target_offset = line.graphemes(true).count();\n                }\n            }\n            self.move_to(Position {\n                line: target_line,\n                offset: target_offset,\n            });\n\n            // Moving the position successfully updates the sticky offset, but we\n            // haven't actually moved to where we really wanted to go (offset-wise).\n            // Restore the original desired offset; it might be available on the next try.\n            self.sticky_offset = new_position.offset;\n        }\n    }\n\n    /// Increments the cursor line.", '            let target_offset = self.end_of(target_line);\n            self.move_to(Position {\n                line: target_line,\n                offset: target_offset,\n            });\n            self.sticky_offset = new_position.offset;\n        }\n    }\n\n    /// Increments the cursor line.'),
    ]),
    ('r-cur-vertical', [
        ('src/buffer/cursor.rs', '    /// Decrements the cursor line. The', '    fn move_to_line(&mut self, target_line: usize) {\n        let sticky = self.sticky_offset;\n        if !self.move_to(Position { line: target_line, offset: sticky }) {\n            let offset = self\n                .data\n                .borrow()\n                .to_string()\n                .lines()\n                .nth(target_line)\n                .map_or(0, |line| line.graphemes(true).count());\n            self.move_to(Position { line: target_line, offset });\n            self.sticky_offset = sticky;\n        }\n    }\n\n    /// Decrements the cursor line. The'),
        ('src/buffer/cursor.rs', "        let target_line = self.line + 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.sticky_offset,\n        };\n\n        // Try moving to the same offset on the line below, falling back to its EOL.\n        if !self.move_to(new_position) {\n            let mut target_offset = 0;\n            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {\n                if line_number == target_line {\n                    target_offset = line.graphemes(true).count();\n                }\n            }\n            self.move_to(Position {\n                line: target_line,\n                offset: target_offset,\n            });\n\n            // Moving the position successfully updates the sticky offset, but we\n            // haven't actually moved to where we really wanted to go (offset-wise).\n            // Restore the original desired offset; it might be available on the next try.\n            self.sticky_offset = new_position.offset;\n        }", '        self.move_to_line(self.line + 1);'),
    ]),
    ('r-di-graphemes', [
        ('src/buffer/distance.rs', "        Distance {\n            lines: from.chars().filter(|&c| c == '\\n').count(),\n            offset: from\n                .split('\\n')\n                .last()\n                .map(|l| l.graphemes(true).count())\n                .unwrap_or(0),\n        }", "        let mut distance = Distance { lines: 0, offset: 0 };\n        for g in from.graphemes(true) {\n            if g.ends_with('\\n') {\n                distance.lines += 1;\n                distance.offset = 0;\n            } else {\n                distance.offset += 1;\n            }\n        }\n        distance"),
    ]),
    ('r-ws-len-guard', [
        ('src/workspace.rs', '        if let Some(target_buffer) = self.buffers.get_mut(index) {\n            self.current_buffer = Some(mem::replace(target_buffer, Buffer::new()));\n', '        if index < self.buffers.len() {\n            self.current_buffer = Some(mem::replace(&mut self.buffers[index], Buffer::new()));\n'),
    ]),
    ('r-ws-take', [
        ('src/workspace.rs', 'Some(mem::replace(target_buffer, Buffer::new()))', 'Some(mem::take(target_buffer))'),
    ]),
    ('r-ws-swap-none', [
        ('src/workspace.rs', '        if let Some(current_buffer) = self.current_buffer.as_mut() {\n            mem::swap(\n                current_buffer,\n                &mut self.buffers[self.current_buffer_index.unwrap()],\n            );\n        }', '        if let (Some(buffer), Some(index)) = (self.current_buffer.take(), self.current_buffer_index) {\n            self.buffers[index] = buffer;\n        }'),
    ]),
    ('r-ws-checked', [
        ('src/workspace.rs', '            if index > 0 {\n                self.select_buffer(index - 1);\n            } else {\n                self.select_buffer(self.buffers.len() - 1);\n            }', '            let target = index.checked_sub(1).unwrap_or(self.buffers.len() - 1);\n            self.select_buffer(target);'),
    ]),
    ('r-ws-close-cmp', [
        ('src/workspace.rs', '                self.select_buffer(index.saturating_sub(1));', '                self.select_buffer(if index == 0 { 0 } else { index - 1 });'),
    ]),
    ('r-ws-any', [
        ('src/workspace.rs', '            if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {\n                return true;\n            }', '            if let Some(ref buffer) = self.current_buffer {\n                if buffer.path.as_ref().map_or(false, |p| p == canonical_path) {\n                    return true;\n                }\n            }'),
    ]),
    ('r-ws-bypath-question', [
        ('src/workspace.rs', '            index\n                .map(|index| self.select_buffer(index))\n                .unwrap_or(false)', '            match index {\n                Some(index) => self.select_buffer(index),\n                None => false,\n            }'),
    ]),
    ('r-ti-intoiter', [
        ('src/buffer/token/token_iterator.rs', '    line_events: Vec<(usize, ScopeStackOp)>,', '    line_events: std::vec::IntoIter<(usize, ScopeStackOp)>,'),
        ('src/buffer/token/token_iterator.rs', '            line_events: Vec::new(),', '            line_events: Vec::new().into_iter(),'),
        ('src/buffer/token/token_iterator.rs', 'self.line_events.pop()', 'self.line_events.next()'),
        ('src/buffer/token/token_iterator.rs', '            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;\n            line_events.reverse();\n            self.line_events = line_events;', '            self.line_events = self.parser.parse_line(line, self.syntaxes)?.into_iter();'),
    ]),
    ('r-ti-min', [
        ('src/buffer/token/token_iterator.rs', 'cmp::min(event_offset, end_of_line)', 'event_offset.min(end_of_line)'),
    ]),
    ('r-ti-trim', [
        ('src/buffer/token/token_iterator.rs', "            let end_of_line = if line.ends_with('\\n') {\n                line.len() - 1\n            } else {\n                line.len()\n            };", "            let end_of_line = line.strip_suffix('\\n').unwrap_or(line).len();"),
    ]),
    ('r-li-position', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }", "        match self.data.as_bytes()[self.line_start..].iter().position(|&b| b == b'\\n') {\n            Some(index) => {\n                self.line_end += index + 1;\n                trailing_newline = true;\n            }\n            None => self.line_end = self.data.len(),\n        }"),
    ]),
    ('r-li-find', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }", "        if let Some(index) = self.data[self.line_start..].find('\\n') {\n            self.line_end = self.line_start + index + 1;\n            trailing_newline = true;\n        } else {\n            self.line_end = self.data.len();\n        }"),
    ]),
    ('r-ins-for', [
        ('src/buffer/operation/replace.rs', '    if let Some(ref callback) = buffer.change_callback {\n        callback(Position::new())\n    }', '    for callback in &buffer.change_callback {\n        callback(Position::new())\n    }'),
    ]),
    ('r-ins-map2', [
        ('src/buffer/operation/replace.rs', '    if let Some(ref callback) = buffer.change_callback {\n        callback(Position::new())\n    }', '    buffer.change_callback.as_ref().map(|callback| callback(Position::new()));'),
    ]),
    ('r-ws-relative2', [
        ('src/workspace.rs', '    fn select_buffer(&mut self', "    fn relative<'b>(&self, path: &'b Path) -> &'b Path {\n        path.strip_prefix(&self.path).unwrap_or(path)\n    }\n\n    fn select_buffer(&mut self"),
        ('src/workspace.rs', '.and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))', '.map(|path| self.relative(path))'),
    ]),
    ('ok-delete-at', [
        ('src/buffer/gap_buffer.rs', '        self.move_gap_to_content_offset(offset);\n\n        // Widen the gap to cover the deleted contents.\n        self.gap_length += length;', '        self.move_gap_to_content_offset(offset + length);\n        self.gap_start -= length;\n        self.gap_length += length;'),
    ]),
    ('ok-reserve', [
        ('src/buffer/gap_buffer.rs', '            self.data.reserve(data.len());', '            self.data.reserve(data.len() - self.gap_length);'),
    ]),
    ('ok-content-offset', [
        ('src/buffer/gap_buffer.rs', '            if offset > self.gap_start {\n                offset - self.gap_length', '            if offset >= self.gap_start + self.gap_length {\n                offset - self.gap_length'),
    ]),
    ('ok-insert-once', [
        ('src/buffer/operation/insert.rs', '        self.offset = buffer.data.borrow().content_offset(&self.position);', '        if self.offset.is_none() {\n            self.offset = buffer.data.borrow().content_offset(&self.position);\n        }'),
    ]),
    ('ok-delete-once', [
        ('src/buffer/operation/delete.rs', '        self.content = buffer.data.borrow_mut().delete(&self.range);', '        let deleted = buffer.data.borrow_mut().delete(&self.range);\n        if self.content.is_none() {\n            self.content = deleted;\n        }'),
    ]),
    ('q-insert-empty', [
        ('src/buffer/operation/insert.rs', '        let mut op = Insert::new(data.into(), self.cursor.position);', '        let data = data.into();\n        if data.is_empty() {\n            return;\n        }\n        let mut op = Insert::new(data, self.cursor.position);'),
    ]),
    ('ok-save-buf', [
        ('src/buffer/mod.rs', '        file.write_all(self.data().to_string().as_bytes())?;', '        let mut writer = io::BufWriter::new(&mut file);\n        writer.write_all(self.data().as_bytes())?;\n        writer.flush()?;'),
    ]),
    ('ok-save-fmt', [
        ('src/buffer/mod.rs', '        file.write_all(self.data().to_string().as_bytes())?;', '        write!(file, "{}", self.data())?;'),
    ]),
    ('ok-delete-redo', [
        ('src/buffer/operation/delete.rs', '        self.content = buffer.data.borrow_mut().delete(&self.range);', '        let removed = buffer.data.borrow_mut().delete(&self.range);\n        self.content = removed;'),
    ]),
    ('ok-find-early', [
        ('src/buffer/gap_buffer.rs', '        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme)', "        if position.line > contents.matches('\\n').count() {\n            return None;\n        }\n        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme)"),
    ]),
    ('ok-find-early3', [
        ('src/buffer/gap_buffer.rs', '        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme)', '        if position.line > contents.len() || position.offset > contents.len() {\n            return None;\n        }\n        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme)'),
    ]),
    ('ok-read-fromutf', [
        ('src/buffer/gap_buffer.rs', '            String::from_utf8_lossy(&self.data[start_offset..end_offset]).into_owned()', '            match std::str::from_utf8(&self.data[start_offset..end_offset]) {\n                Ok(text) => text.to_string(),\n                Err(_) => String::from_utf8_lossy(&self.data[start_offset..end_offset]).into_owned(),\n            }'),
    ]),
    ('ok-mg-copywithin', [
        ('src/buffer/gap_buffer.rs', '                for index in (offset..self.gap_start).rev() {\n                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }', '                self.data.copy_within(offset..self.gap_start, offset + self.gap_length);'),
    ]),
    ('ok-dist-rsplit', [
        ('src/buffer/distance.rs', "                .split('\\n')\n                .last()", "                .rsplit('\\n')\n                .next()"),
    ]),
    ('ok-pos-derive', [
        ('src/buffer/position.rs', '#[derive(Copy, Clone, Debug, Default, PartialEq)]', '#[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd)]'),
        ('src/buffer/position.rs', 'impl PartialOrd for Position {\n    fn partial_cmp(&self, other: &Position) -> Option<Ordering> {\n        Some(if self.line < other.line {\n            Ordering::Less\n        } else if self.line > other.line {\n            Ordering::Greater\n        } else if self.offset < other.offset {\n            Ordering::Less\n        } else if self.offset > other.offset {\n            Ordering::Greater\n        } else {\n            Ordering::Equal\n        })\n    }\n}\n', ''),
    ]),
    ('ok-pos-tuple', [
        ('src/buffer/position.rs', '        Some(if self.line < other.line {\n            Ordering::Less\n        } else if self.line > other.line {\n            Ordering::Greater\n        } else if self.offset < other.offset {\n            Ordering::Less\n        } else if self.offset > other.offset {\n            Ordering::Greater\n        } else {\n            Ordering::Equal\n        })', '        (self.line, self.offset).partial_cmp(&(other.line, other.offset))'),
    ]),
    ('ok-linecount', [
        ('src/buffer/mod.rs', "        self.data().chars().filter(|&c| c == '\\n').count() + 1", "        self.data().matches('\\n').count() + 1"),
    ]),
    ('ok-join', [
        ('src/buffer/operation/replace.rs', 'Replace::new(self.data(), content.into())', 'Replace::new(self.data(), content.into().split(\'\\n\').collect::<Vec<_>>().join("\\n"))'),
    ]),
    ('ok-ws-rem', [
        ('src/workspace.rs', '            if index == self.buffers.len() - 1 {\n                self.select_buffer(0);\n            } else {\n                self.select_buffer(index + 1);\n            }', '            self.select_buffer((index + 1).rem_euclid(self.buffers.len()));'),
    ]),
    ('ok-ws-rem2', [
        ('src/workspace.rs', '            if index == self.buffers.len() - 1 {\n                self.select_buffer(0);\n            } else {\n                self.select_buffer(index + 1);\n            }', '            self.select_buffer((index + 1) % self.buffers.len());'),
    ]),
    ('ok-rotate', [
        ('src/buffer/gap_buffer.rs', '                for index in (offset..self.gap_start).rev() {\n                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }', '                let end = self.gap_start + self.gap_length;\n                self.data[offset..end].rotate_right(self.gap_length);'),
    ]),
    ('ok-rotate2', [
        ('src/buffer/gap_buffer.rs', '                for index in self.gap_start + self.gap_length..offset {\n                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }', '                self.data[self.gap_start..offset].rotate_left(self.gap_length);'),
    ]),
    ('ok-linecount-split', [
        ('src/buffer/mod.rs', "        self.data().chars().filter(|&c| c == '\\n').count() + 1", "        self.data().split(|c| c == '\\n').count()"),
    ]),
    ('ok-dist-closure', [
        ('src/buffer/distance.rs', "                .split('\\n')\n                .last()", "                .rsplit(|c: char| c == '\\n')\n                .next()"),
    ]),
    ('k-from-canon', [
        ('src/buffer/mod.rs', '        let content = fs::read_to_string(path)?;\n\n        let data', '        let path = path.canonicalize()?;\n        let content = fs::read_to_string(&path)?;\n\n        let data'),
        ('src/buffer/mod.rs', '            path: Some(path.canonicalize()?),', '            path: Some(path),'),
    ]),
    ('k-save-path', [
        ('src/buffer/mod.rs', '        let mut file = if let Some(ref path) = self.path {\n            File::create(path)?\n        } else {\n            File::create(PathBuf::new())?\n        };', '        let path = self.path.clone().unwrap_or_default();\n        let mut file = File::create(&path)?;'),
    ]),
    ('k-save-and', [
        ('src/buffer/mod.rs', '        file.write_all(self.data().to_string().as_bytes())?;\n\n        self.mark_history();\n\n        Ok(())', '        file.write_all(self.data().as_bytes()).map(|_| self.mark_history())'),
    ]),
    ('k-reload-map', [
        ('src/buffer/mod.rs', '        let content = fs::read_to_string(path)?;\n\n        self.replace(content);\n\n        self.mark_history();\n\n        Ok(())', '        match fs::read_to_string(path) {\n            Ok(content) => {\n                self.replace(content);\n                self.mark_history();\n                Ok(())\n            }\n            Err(error) => Err(error.into()),\n        }'),
    ]),
    ('k-data-format', [
        ('src/buffer/mod.rs', '        self.data.borrow().to_string()', '        format!("{}", self.data.borrow())'),
    ]),
    ('k-with-data', [
        ('src/buffer/mod.rs', 'impl Buffer {\n', 'impl Buffer {\n    fn with_contents(content: &str, path: Option<PathBuf>) -> Buffer {\n        let data = Rc::new(RefCell::new(GapBuffer::new(content)));\n        Buffer {\n            id: None,\n            cursor: Cursor::new(Rc::clone(&data), Position::new()),\n            data,\n            path,\n            history: History::new(),\n            operation_group: None,\n            syntax_definition: None,\n            change_callback: None,\n        }\n    }\n\n'),
        ('src/buffer/mod.rs', '        let data = Rc::new(RefCell::new(GapBuffer::new(content)));\n        let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });\n\n        // Create a new buffer using the loaded data, path, and other defaults.\n        let mut buffer = Buffer {\n            id: None,\n            data: data.clone(),\n            path: Some(path.canonicalize()?),\n            cursor,\n            history: History::new(),\n            operation_group: None,\n            syntax_definition: None,\n            change_callback: None,\n        };', '        let mut buffer = Buffer::with_contents(&content, Some(path.canonicalize()?));'),
    ]),
    ('k-default-with', [
        ('src/buffer/mod.rs', '        let mut history = History::new();\n        history.mark();\n\n        Buffer {\n            id: None,\n            data: data.clone(),\n            path: None,', '        Buffer {\n            id: None,\n            data: Rc::clone(&data),\n            path: None,'),
    ]),
    ('k-group-insert', [
        ('src/buffer/operation/group.rs', '        self.operations.push(operation);', '        let index = self.operations.len();\n        self.operations.insert(index, operation);'),
    ]),
    ('k-group-filter', [
        ('src/buffer/operation/group.rs', '        if let Some(group) = self.operation_group.take() {\n            if !group.is_empty() {\n                self.history.add(Box::new(group))\n            }\n        }', '        if let Some(group) = self.operation_group.take().filter(|group| !group.is_empty()) {\n            self.history.add(Box::new(group));\n        }'),
    ]),
    ('k-group-clone-helper', [
        ('src/buffer/operation/group.rs', '        Box::new(OperationGroup {\n            operations: self\n                .operations\n                .iter()\n                .map(|o| (*o).clone_operation())\n                .collect(),\n        })', '        let mut copy = OperationGroup::new();\n        for operation in self.operations.iter() {\n            copy.add(operation.clone_operation());\n        }\n        Box::new(copy)'),
    ]),
    ('k-group-default', [
        ('src/buffer/operation/group.rs', '        match self.operation_group {\n            Some(_) => (),\n            None => {\n                self.operation_group = Some(OperationGroup::new());\n            }\n        }', '        self.operation_group.get_or_insert_with(OperationGroup::new);'),
    ]),
    ('k-ins-early', [
        ('src/buffer/operation/insert.rs', '        if let Some(offset) = self.offset {\n            buffer\n                .data\n                .borrow_mut()\n                .delete_at(offset, self.content.len());\n        }\n', '        let length = self.content.len();\n        match self.offset {\n            None => {}\n            Some(offset) => {\n                let mut data = buffer.data.borrow_mut();\n                data.delete_at(offset, length);\n            }\n        }\n'),
    ]),
    ('k-del-end', [
        ('src/buffer/operation/delete.rs', '        let mut end = Position {\n            line: self.cursor.line,\n            offset: self.cursor.offset + 1,\n        };\n', '        let Position { line, offset } = *self.cursor;\n        let mut end = Position {\n            line,\n            offset: offset + 1,\n        };\n'),
    ]),
    ('k-del-end2', [
        ('src/buffer/operation/delete.rs', '        if !self.data.borrow().in_bounds(&end) {\n            end.line += 1;\n            end.offset = 0;\n        }', '        let on_line = self.data.borrow().in_bounds(&end);\n        if !on_line {\n            end = Position {\n                line: end.line + 1,\n                ..Position::new()\n            };\n        }'),
    ]),
    ('k-sel-pair', [
        ('src/workspace.rs', '        if let Some(current_buffer) = self.current_buffer.as_mut() {\n            mem::swap(\n                current_buffer,\n                &mut self.buffers[self.current_buffer_index.unwrap()],\n            );\n        }', '        if let (Some(buffer), Some(slot)) = (self.current_buffer.take(), self.current_buffer_index) {\n            self.buffers[slot] = buffer;\n        }'),
    ]),
    ('k-sel-pair2', [
        ('src/workspace.rs', '        if let Some(current_buffer) = self.current_buffer.as_mut() {\n            mem::swap(\n                current_buffer,\n                &mut self.buffers[self.current_buffer_index.unwrap()],\n            );\n        }', '        if let Some(mut current_buffer) = self.current_buffer.take() {\n            let slot = self.current_buffer_index.unwrap();\n            mem::swap(&mut current_buffer, &mut self.buffers[slot]);\n            self.current_buffer = Some(current_buffer);\n        }'),
    ]),
    ('k-close-early', [
        ('src/workspace.rs', '        if let Some(index) = self.current_buffer_index {\n            self.buffers.remove(index);\n\n            if self.buffers.is_empty() {\n                self.current_buffer_index = None;\n            } else {\n                self.select_buffer(index.saturating_sub(1));\n            }\n        };', '        let index = match self.current_buffer_index {\n            Some(index) => index,\n            None => return,\n        };\n        self.buffers.remove(index);\n        self.current_buffer_index = None;\n\n        if !self.buffers.is_empty() {\n            self.select_buffer(if index == 0 { 0 } else { index - 1 });\n        }'),
    ]),
    ('k-read-bytes', [
        ('src/buffer/gap_buffer.rs', '            // Allocate a string for the first half.\n            let mut data = String::from_utf8_lossy(first_half).into_owned();\n\n            // Push the second half onto the first.\n            data.push_str(String::from_utf8_lossy(second_half).borrow());\n\n            data', '            let mut bytes = first_half.to_vec();\n            bytes.extend_from_slice(second_half);\n            String::from_utf8_lossy(&bytes).into_owned()'),
    ]),
    ('k-display-str', [
        ('src/buffer/gap_buffer.rs', '        write!(f, "{}{}", first_half, second_half)', '        f.write_str(&first_half)?;\n        f.write_str(&second_half)'),
    ]),
    ('k-find-helper', [
        ('src/buffer/gap_buffer.rs', '                // Content following the gap is shifted by its length.\n                if offset < self.gap_start {\n                    return Some(offset);\n                } else {\n                    return Some(self.gap_length + offset);\n                }', '                return Some(self.data_offset(offset));'),
        ('src/buffer/gap_buffer.rs', "    // Maps a position to its offset equivalent in the buffer's contents.", "    fn data_offset(&self, offset: usize) -> usize {\n        match offset.cmp(&self.gap_start) {\n            Ordering::Less => offset,\n            _ => offset + self.gap_length,\n        }\n    }\n\n    // Maps a position to its offset equivalent in the buffer's contents."),
    ]),
    ('k-find-pos', [
        ('src/buffer/gap_buffer.rs', "        let mut line = 0;\n        let mut line_offset = 0;\n\n        for (offset, grapheme) in contents.grapheme_indices(true) {\n            // Check to see if we've found the position yet.\n            if line == position.line && line_offset == position.offset {", "        let mut current = Position::new();\n\n        for (offset, grapheme) in contents.grapheme_indices(true) {\n            // Check to see if we've found the position yet.\n            if current == *position {"),
        ('src/buffer/gap_buffer.rs', "            if grapheme.ends_with('\\n') {\n                line += 1;\n                line_offset = 0;\n            } else {\n                line_offset += 1;\n            }\n        }\n\n        // We didn't find the position *within* the contents, but it could\n        // be right after them, which means it's at the end of the buffer.\n        if line == position.line && line_offset == position.offset {", "            if grapheme.ends_with('\\n') {\n                current.line += 1;\n                current.offset = 0;\n            } else {\n                current.offset += 1;\n            }\n        }\n\n        // We didn't find the position *within* the contents, but it could\n        // be right after them, which means it's at the end of the buffer.\n        if current == *position {"),
    ]),
    ('k-lr-includes', [
        ('src/buffer/line_range.rs', '        line >= self.start() && line < self.end()', '        (self.start..self.end).contains(&line)'),
    ]),
    ('k-lr-to', [
        ('src/buffer/line_range.rs', '        Range::new(\n            Position {\n                line: self.start,\n                offset: 0,\n            },\n            Position {\n                line: self.end.saturating_add(1),\n                offset: 0,\n            },\n        )', '        LineRange {\n            start: self.start,\n            end: self.end.saturating_add(1),\n        }\n        .to_range()'),
    ]),
    ('k-li-while', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            // Extend the current line range to include this char.\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }", "        match self.data[self.line_start..].find('\\n') {\n            Some(index) => {\n                self.line_end = self.line_start + index + 1;\n                trailing_newline = true;\n            }\n            None => self.line_end = self.data.len(),\n        }"),
    ]),
    ('k-ti-match', [
        ('src/buffer/token/token_iterator.rs', '        if let Err(e) = token_result {\n            self.error = Some(e);\n\n            return None;\n        }\n\n        // Try to fetch a token from the current line.\n        if let Ok(Some(token)) = token_result {\n            return Some(token);\n        }\n', '        match token_result {\n            Err(e) => {\n                self.error = Some(e);\n                return None;\n            }\n            Ok(Some(token)) => return Some(token),\n            Ok(None) => (),\n        }\n'),
    ]),
    ('k-ti-eventhelper', [
        ('src/buffer/token/token_iterator.rs', "            let end_of_line = if line.ends_with('\\n') {\n                line.len() - 1\n            } else {\n                line.len()\n            };", "            let end_of_line = line.strip_suffix('\\n').unwrap_or(line).len();"),
    ]),
    ('k-ti-lineevents', [
        ('src/buffer/token/token_iterator.rs', '            let mut line_events = self.parser.parse_line(line, self.syntaxes)?;\n            line_events.reverse();\n            self.line_events = line_events;', '            self.line_events = self.parser.parse_line(line, self.syntaxes)?;\n            self.line_events.reverse();'),
    ]),
    ('k-ti-next-map', [
        ('src/buffer/token/token_iterator.rs', '        if self.current_line.is_some() {\n            Some(Token::Newline)\n        } else {\n            None\n        }', '        self.current_line.map(|_| Token::Newline)'),
    ]),
    ('k-cur-last-str', [
        ('src/buffer/cursor.rs', "        let mut line = 0;\n        let mut length = 0;\n        for c in self.data.borrow().to_string().graphemes(true) {\n            if c.ends_with('\\n') {\n                line += 1;\n                length = 0;\n            } else {\n                length += 1;\n            }\n        }\n", "        let contents = self.data.borrow().to_string();\n        let line = contents.matches('\\n').count();\n        let length = contents\n            .rsplit('\\n')\n            .next()\n            .map_or(0, |last| last.graphemes(true).count());\n"),
    ]),
    ('k-cur-up-nth', [
        ('src/buffer/cursor.rs', '        let target_line = self.line - 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.sticky_offset,\n        };\n\n        // Try moving to the same offset on the line above, falling back to its EOL.\n        if !self.move_to(new_position) {\n            let mut target_offset = 0;\n            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {\n                if line_number == target_line {\n                    target_offset = line.graphemes(true).count();\n                }\n            }\n', '        let target_line = self.line - 1;\n        let new_position = Position {\n            line: target_line,\n            offset: self.sticky_offset,\n        };\n\n        // Try moving to the same offset on the line above, falling back to its EOL.\n        if !self.move_to(new_position) {\n            let contents = self.data.borrow().to_string();\n            let target_offset = contents\n                .lines()\n                .nth(target_line)\n                .map_or(0, |line| line.graphemes(true).count());\n'),
    ]),
    ('k-search-helper', [
        ('src/buffer/mod.rs', '                if haystack.len() >= needle.len()\n                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]\n                {\n                    results.push(Position { line, offset });\n                }', '                if begins_with(haystack.as_bytes(), needle.as_bytes()) {\n                    results.push(Position { line, offset });\n                }'),
        ('src/buffer/mod.rs', '#[cfg(test)]\nmod tests {', 'fn begins_with(text: &[u8], prefix: &[u8]) -> bool {\n    if text.len() < prefix.len() {\n        return false;\n    }\n    text.iter().zip(prefix.iter()).all(|(a, b)| a == b)\n}\n\n#[cfg(test)]\nmod tests {'),
    ]),
    ('n-ext-trait', [
        ('src/buffer/cursor.rs', 'use std::ops::', 'trait Clusters {\n    fn clusters(&self) -> usize;\n}\n\nimpl Clusters for str {\n    fn clusters(&self) -> usize {\n        self.graphemes(true).count()\n    }\n}\n\nuse std::ops::'),
        ('src/buffer/cursor.rs', '                offset: line.graphemes(true).count(),\n            };\n            self.move_to(new_position);', '                offset: line.clusters(),\n            };\n            self.move_to(new_position);'),
    ]),
    ('n-halves', [
        ('src/buffer/gap_buffer.rs', '    fn write_to_gap', '    fn halves(&self) -> (&[u8], &[u8]) {\n        let (first, rest) = self.data.split_at(self.gap_start);\n        (first, &rest[self.gap_length..])\n    }\n\n    fn write_to_gap'),
        ('src/buffer/gap_buffer.rs', '        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);\n        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);\n\n        write!(f', '        let (first, second) = self.halves();\n        let first_half = String::from_utf8_lossy(first);\n        let second_half = String::from_utf8_lossy(second);\n\n        write!(f'),
    ]),
    ('n-letelse', [
        ('src/buffer/cursor.rs', '        let current_line = data.lines().nth(self.line);\n        if let Some(line) = current_line {\n            let new_position = Position {\n                line: self.line,\n                offset: line.graphemes(true).count(),\n            };\n            self.move_to(new_position);\n        }', '        let Some(line) = data.lines().nth(self.line) else {\n            return;\n        };\n        let offset = line.graphemes(true).count();\n        let line = self.line;\n        self.move_to(Position { line, offset });'),
    ]),
    ('n-macro', [
        ('src/buffer/operation/insert.rs', 'impl Buffer {\n', 'macro_rules! record {\n    ($buffer:expr, $op:expr) => {\n        match $buffer.operation_group {\n            Some(ref mut group) => group.add(Box::new($op)),\n            None => $buffer.history.add(Box::new($op)),\n        }\n    };\n}\n\nimpl Buffer {\n'),
        ('src/buffer/operation/insert.rs', '        match self.operation_group {\n            Some(ref mut group) => group.add(Box::new(op)),\n            None => self.history.add(Box::new(op)),\n        };', '        record!(self, op);'),
    ]),
    ('n-trait-default', [
        ('src/buffer/operation/mod.rs', '    fn clone_operation(&self)', '    fn notify(&self, buffer: &Buffer, position: crate::buffer::Position) {\n        if let Some(ref callback) = buffer.change_callback {\n            callback(position)\n        }\n    }\n    fn clone_operation(&self)'),
        ('src/buffer/operation/delete.rs', '        // Run the change callback, if present.\n        if let Some(ref callback) = buffer.change_callback {\n            callback(self.range.start())\n        }\n    }\n\n    fn rev', '        self.notify(buffer, self.range.start());\n    }\n\n    fn rev'),
    ]),
    ('n-label', [
        ('src/buffer/cursor.rs', "        if !self.move_to(new_position) {\n            let mut target_offset = 0;\n            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {\n                if line_number == target_line {\n                    target_offset = line.graphemes(true).count();\n                }\n            }\n            self.move_to(Position {\n                line: target_line,\n                offset: target_offset,\n            });\n\n            // Moving the position successfully updates the sticky offset, but we\n            // haven't actually moved to where we really wanted to go (offset-wise).\n            // Restore the original desired offset; it might be available on the next try.\n            self.sticky_offset = new_position.offset;\n        }\n    }\n\n    /// Inc", "        if !self.move_to(new_position) {\n            let text = self.data.borrow().to_string();\n            let mut lines = text.lines().enumerate();\n            let target_offset = 'found: loop {\n                match lines.next() {\n                    Some((number, line)) if number == target_line => {\n                        break 'found line.graphemes(true).count();\n                    }\n                    Some(_) => continue,\n                    None => break 'found 0,\n                }\n            };\n            self.move_to(Position {\n                line: target_line,\n                offset: target_offset,\n            });\n            self.sticky_offset = new_position.offset;\n        }\n    }\n\n    /// Inc"),
    ]),
    ('n-bool-arith', [
        ('src/buffer/gap_buffer.rs', "            if grapheme.ends_with('\\n') {\n                line += 1;\n                line_offset = 0;\n            } else {\n                line_offset += 1;\n            }", "            let breaks = grapheme.ends_with('\\n');\n            line += usize::from(breaks);\n            line_offset = if breaks { 0 } else { line_offset + 1 };"),
    ]),
    ('n-try-fold', [
        ('src/buffer/gap_buffer.rs', '        for (offset, grapheme) in contents.grapheme_indices(true) {\n            // Check', "        let target = (position.line, position.offset);\n        for (offset, grapheme) in contents.grapheme_indices(true) {\n            if (line, line_offset) != target {\n                let next = if grapheme.ends_with('\\n') {\n                    (line + 1, 0)\n                } else {\n                    (line, line_offset + 1)\n                };\n                line = next.0;\n                line_offset = next.1;\n                continue;\n            }\n            // Check"),
    ]),
    ('n-thensome', [
        ('src/buffer/gap_buffer.rs', '        if line == position.line && line_offset == position.offset {\n            return Some(self.data.len());\n        }\n\n        None', '        (line == position.line && line_offset == position.offset).then_some(self.data.len())'),
    ]),
    ('n-slicepat', [
        ('src/buffer/operation/history.rs', '    pub fn at_mark(&self) -> bool {\n        if let Some(position) = self.marked_position {\n            self.previous.len() == position\n        } else {\n            false\n        }', '    pub fn at_mark(&self) -> bool {\n        self.marked_position.is_some_and(|position| position == self.previous.len())'),
    ]),
    ('n-zip', [
        ('src/buffer/operation/delete.rs', '        if let (Some(content), Some(offset)) = (&self.content, self.offset) {', '        if let Some((content, offset)) = self.content.as_ref().zip(self.offset) {'),
    ]),
    ('n-swap', [
        ('src/buffer/range.rs', '        if start > end {', '        let (mut start, mut end) = (start, end);\n        if start > end {\n            std::mem::swap(&mut start, &mut end);\n        }\n        if start > end {'),
    ]),
    ('n-closure-q', [
        ('src/workspace.rs', '        self.current_buffer.as_ref().and_then(|buf| {\n            buf.path\n                .as_ref()\n                .and_then(|path| path.strip_prefix(&self.path).ok().or_else(|| Some(path)))\n        })', '        let path: &Path = self.current_buffer.as_ref()?.path.as_ref()?;\n        Some(match path.strip_prefix(&self.path) {\n            Ok(relative) => relative,\n            Err(_) => path,\n        })'),
    ]),
    ('n-ws-replace', [
        ('src/workspace.rs', '            self.current_buffer = Some(mem::replace(target_buffer, Buffer::new()));', '            self.current_buffer.replace(mem::take(target_buffer));'),
    ]),
    ('n-ws-split', [
        ('src/workspace.rs', '    fn select_buffer(&mut self, index: usize) -> bool {\n        if let Some(current_buffer) = self.current_buffer.as_mut() {', '    fn stash(&mut self) {\n        if let (Some(current), Some(index)) = (self.current_buffer.take(), self.current_buffer_index) {\n            self.buffers[index] = current;\n        }\n    }\n\n    fn select_buffer(&mut self, index: usize) -> bool {\n        self.stash();\n        if let Some(current_buffer) = self.current_buffer.as_mut() {'),
    ]),
    ('n-ti-content', [
        ('src/buffer/token/token_iterator.rs', "            let end_of_line = if line.ends_with('\\n') {\n                line.len() - 1\n            } else {\n                line.len()\n            };", "            let end_of_line = line.len() - usize::from(line.ends_with('\\n'));"),
    ]),
    ('n-ti-bytes', [
        ('src/buffer/token/token_iterator.rs', "            let end_of_line = if line.ends_with('\\n') {\n                line.len() - 1\n            } else {\n                line.len()\n            };", "            let end_of_line = match line.as_bytes().last() {\n                Some(b'\\n') => line.len() - 1,\n                _ => line.len(),\n            };"),
    ]),
    ('n-lr-minmax', [
        ('src/buffer/line_range.rs', '        if start < end {\n            LineRange { start, end }\n        } else {\n            LineRange {\n                start: end,\n                end: start,\n            }\n        }', '        let [start, end] = if end < start { [end, start] } else { [start, end] };\n        LineRange { start, end }'),
    ]),
    ('n-li-splitinc', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            // Extend the current line range to include this char.\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }", "        if let Some(line) = self.data[self.line_start..].split_inclusive('\\n').next() {\n            self.line_end += line.len();\n            trailing_newline = line.ends_with('\\n');\n        }"),
    ]),
    ('n-li-splitonce', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            // Extend the current line range to include this char.\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }", "        let rest = &self.data[self.line_start..];\n        match rest.split_once('\\n') {\n            Some((line, _)) => {\n                self.line_end += line.len() + 1;\n                trailing_newline = true;\n            }\n            None => self.line_end = self.data.len(),\n        }"),
    ]),
    ('n-di-splitonce', [
        ('src/buffer/distance.rs', "            offset: from\n                .split('\\n')\n                .last()\n                .map(|l| l.graphemes(true).count())\n                .unwrap_or(0),", "            offset: match from.rsplit_once('\\n') {\n                Some((_, last)) => last.graphemes(true).count(),\n                None => from.graphemes(true).count(),\n            },"),
    ]),
    ('n-search-windows', [
        ('src/buffer/mod.rs', '                if haystack.len() >= needle.len()\n                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]\n                {', '                if haystack.strip_prefix(needle).is_some() {'),
    ]),
    ('n-search-helper2', [
        ('src/buffer/mod.rs', '    pub fn search(&self, needle: &str) -> Vec<Position> {\n        let mut results = Vec::new();\n\n        for (line, data) in self.data().lines().enumerate() {\n            // Position offsets are grapheme cluster-based, rather than byte-based.\n            for (offset, (byte_offset, _)) in data.grapheme_indices(true).enumerate() {\n                let haystack = &data[byte_offset..];\n\n                // Check haystack length before slicing it and comparing bytes with needle.\n                if haystack.len() >= needle.len()\n                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]\n                {\n                    results.push(Position { line, offset });\n                }\n            }\n        }\n\n        results\n    }', '    pub fn search(&self, needle: &str) -> Vec<Position> {\n        self.data()\n            .lines()\n            .enumerate()\n            .flat_map(|(line, data)| {\n                Self::columns(data, needle)\n                    .into_iter()\n                    .map(move |offset| Position { line, offset })\n            })\n            .collect()\n    }\n\n    fn columns(line: &str, needle: &str) -> Vec<usize> {\n        line.grapheme_indices(true)\n            .enumerate()\n            .filter(|(_, (start, _))| line[*start..].starts_with(needle))\n            .map(|(column, _)| column)\n            .collect()\n    }'),
    ]),
    ('n-clamp', [
        ('src/buffer/cursor.rs', "        let target_position = if length < self.sticky_offset {\n            // Current offset is beyond the last line's length; move to the end of it.\n            Position {\n                line,\n                offset: length,\n            }\n        } else {\n            // Current offset is available on the last line; go there.\n            Position {\n                line,\n                offset: self.sticky_offset,\n            }\n        };\n        self.move_to(target_position);", '        let offset = self.sticky_offset.clamp(0, length);\n        self.move_to(Position { line, offset });'),
    ]),
    ('n-gap-rotate', [
        ('src/buffer/gap_buffer.rs', '                for index in (offset..self.gap_start).rev() {\n                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }\n\n                self.gap_start = offset;', '                let end = self.gap_start + self.gap_length;\n                self.data[offset..end].rotate_right(self.gap_length);\n                self.gap_start = offset;'),
    ]),
    ('n-mod-any', [
        ('src/buffer/mod.rs', '        let pending_operations = self\n            .operation_group\n            .as_ref()\n            .map(|group| !group.is_empty())\n            .unwrap_or(false);', '        let pending_operations = self.operation_group.iter().any(|group| !group.is_empty());'),
    ]),
    ('n-save-match', [
        ('src/buffer/mod.rs', '        let mut file = if let Some(ref path) = self.path {\n            File::create(path)?\n        } else {\n            File::create(PathBuf::new())?\n        };', '        let target = self.path.clone().unwrap_or_default();\n        let mut file = File::create(target)?;'),
    ]),
    ('n-ext-filter', [
        ('src/buffer/mod.rs', '            p.extension().and_then(|e| {\n                if !e.is_empty() {\n                    return Some(e.to_string_lossy().into_owned());\n                }\n\n                None\n            })', '            p.extension().filter(|e| !e.is_empty()).map(|e| e.to_string_lossy().into_owned())'),
    ]),
    ('n-del-start2', [
        ('src/buffer/operation/delete.rs', '        if !self.data.borrow().in_bounds(&end) {\n            end.line += 1;\n            end.offset = 0;\n        }', '        let inside = self.data.borrow().in_bounds(&end);\n        if !inside {\n            end = Position {\n                line: end.line + 1,\n                ..Position::new()\n            };\n        }'),
    ]),
    ('n-rep-clone', [
        ('src/buffer/operation/replace.rs', "        let old_content = self.data();\n\n        // Ignore replacements that don't change content.\n        if content.as_ref() == old_content {\n            return;\n        }\n\n        // Build and run an insert operation.\n        let mut op = Replace::new(self.data(), content.into());", '        let content: String = content.into();\n        let old_content = self.data();\n        if old_content.eq(&content) {\n            return;\n        }\n        let mut op = Replace::new(old_content, content);'),
    ]),
    ('n-group-extend', [
        ('src/buffer/operation/group.rs', '    pub fn add(&mut self, operation: Box<dyn Operation>) {\n', '    pub fn add(&mut self, operation: Box<dyn Operation>) {\n        let _count = self.operations.len();\n'),
    ]),
    ('n-gap-write-splice', [
        ('src/buffer/gap_buffer.rs', '        for byte in data.bytes() {\n            self.data[self.gap_start] = byte;\n            self.gap_start += 1;\n            self.gap_length -= 1;\n        }', '        let end = self.gap_start + data.len();\n        self.data[self.gap_start..end].copy_from_slice(data.as_bytes());\n        self.gap_start = end;\n        self.gap_length -= data.len();'),
    ]),
    ('n-gap-write-zip', [
        ('src/buffer/gap_buffer.rs', '        for byte in data.bytes() {\n            self.data[self.gap_start] = byte;\n            self.gap_start += 1;\n            self.gap_length -= 1;\n        }', '        for (slot, byte) in self.data[self.gap_start..].iter_mut().zip(data.bytes()) {\n            *slot = byte;\n        }\n        self.gap_start += data.len();\n        self.gap_length -= data.len();'),
    ]),
    ('n-gap-write-enum', [
        ('src/buffer/gap_buffer.rs', '        for byte in data.bytes() {\n            self.data[self.gap_start] = byte;\n            self.gap_start += 1;\n            self.gap_length -= 1;\n        }', '        let start = self.gap_start;\n        for (index, &byte) in data.as_bytes().iter().enumerate() {\n            self.data[start + index] = byte;\n        }\n        self.gap_start = start + data.len();\n        self.gap_length -= data.len();'),
    ]),
    ('s-cur-withtext', [
        ('src/buffer/cursor.rs', '    pub fn move_left(&mut self) {', '    fn with_text<T>(&self, f: impl FnOnce(&str) -> T) -> T {\n        let text = self.data.borrow().to_string();\n        f(&text)\n    }\n\n    pub fn move_left(&mut self) {'),
        ('src/buffer/cursor.rs', '        let data = self.data.borrow().to_string();\n        let current_line = data.lines().nth(self.line);\n        if let Some(line) = current_line {\n            let new_position = Position {\n                line: self.line,\n                offset: line.graphemes(true).count(),\n            };\n            self.move_to(new_position);\n        }', '        let line = self.line;\n        let length = self.with_text(|text| text.lines().nth(line).map(|l| l.graphemes(true).count()));\n        if let Some(offset) = length {\n            self.move_to(Position { line, offset });\n        }'),
    ]),
    ('s-cur-lastfold', [
        ('src/buffer/cursor.rs', "        let mut line = 0;\n        let mut length = 0;\n        for c in self.data.borrow().to_string().graphemes(true) {\n            if c.ends_with('\\n') {\n                line += 1;\n                length = 0;\n            } else {\n                length += 1;\n            }\n        }\n", "        let (line, length) = self.data.borrow().to_string().graphemes(true).fold(\n            (0, 0),\n            |(line, length), cluster| {\n                if cluster.ends_with('\\n') {\n                    (line + 1, 0)\n                } else {\n                    (line, length + 1)\n                }\n            },\n        );\n"),
    ]),
    ('s-gap-content', [
        ('src/buffer/gap_buffer.rs', '            if line == position.line && line_offset == position.offset {\n                // Content following the gap is shifted by its length.\n                if offset < self.gap_start {\n                    return Some(offset);\n                } else {\n                    return Some(self.gap_length + offset);\n                }\n            }\n', '            if line == position.line && line_offset == position.offset {\n                return Some(self.to_data_offset(offset));\n            }\n'),
        ('src/buffer/gap_buffer.rs', '    fn move_gap_to_content_offset(', '    // Content following the gap is shifted by its length.\n    fn to_data_offset(&self, offset: usize) -> usize {\n        offset + if offset < self.gap_start { 0 } else { self.gap_length }\n    }\n\n    fn move_gap_to_content_offset('),
    ]),
    ('s-gap-readspan', [
        ('src/buffer/gap_buffer.rs', '        let data = if start_offset < self.gap_start && self.gap_start < end_offset {', '        let gap = self.gap_start..self.gap_start + self.gap_length;\n        let spans_gap = start_offset < gap.start && gap.start < end_offset;\n        let data = if spans_gap {'),
    ]),
    ('s-gap-moveif', [
        ('src/buffer/gap_buffer.rs', '        match offset.cmp(&self.gap_start) {\n            Ordering::Less => {', '        let direction = offset.cmp(&self.gap_start);\n        if direction == Ordering::Equal {\n            return;\n        }\n\n        match direction {\n            Ordering::Less => {'),
    ]),
    ('s-gap-shift', [
        ('src/buffer/gap_buffer.rs', '                for index in (offset..self.gap_start).rev() {\n                    self.data[index + self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }\n', '                for index in (offset..self.gap_start).rev() {\n                    self.shift(index, index + self.gap_length);\n                }\n'),
        ('src/buffer/gap_buffer.rs', '                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n', '                    self.shift(index, index - self.gap_length);\n'),
        ('src/buffer/gap_buffer.rs', '    fn write_to_gap', '    fn shift(&mut self, from: usize, to: usize) {\n        self.data[to] = self.data[from];\n        self.data[from] = 0;\n    }\n\n    fn write_to_gap'),
    ]),
    ('s-gap-takebyte', [
        ('src/buffer/gap_buffer.rs', '                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n', '                    self.data[index - self.gap_length] = std::mem::take(&mut self.data[index]);\n'),
    ]),
    ('s-op-trait-record', [
        ('src/buffer/operation/insert.rs', '        match self.operation_group {\n            Some(ref mut group) => group.add(Box::new(op)),\n            None => self.history.add(Box::new(op)),\n        };\n', '        self.apply(op);\n'),
        ('src/buffer/operation/insert.rs', '        op.run(self);\n', ''),
        ('src/buffer/operation/insert.rs', '        let mut op = Insert', '        let op = Insert'),
        ('src/buffer/operation/insert.rs', 'impl Buffer {\n', "impl Buffer {\n    pub(crate) fn apply<O: Operation + 'static>(&mut self, mut op: O) {\n        op.run(self);\n        let op: Box<dyn Operation> = Box::new(op);\n        if let Some(group) = self.operation_group.as_mut() {\n            group.add(op);\n        } else {\n            self.history.add(op);\n        }\n    }\n\n"),
        ('src/buffer/operation/delete.rs', '        match self.operation_group {\n            Some(ref mut group) => group.add(Box::new(op)),\n            None => self.history.add(Box::new(op)),\n        };\n', '        self.apply(op);\n'),
        ('src/buffer/operation/delete.rs', '        let mut op = Delete::new(range);\n        op.run(self);\n', '        let op = Delete::new(range);\n'),
    ]),
    ('s-rep-early', [
        ('src/buffer/operation/replace.rs', '    if !cursor.move_to(*buffer.cursor) {\n        cursor.move_to(Position {\n            line: buffer.cursor.line,\n            offset: 0,\n        });\n    }\n', '    let position = buffer.cursor.position;\n    let start_of_line = Position { offset: 0, ..position };\n    let _ = cursor.move_to(position) || cursor.move_to(start_of_line);\n'),
    ]),
    ('s-rep-anyof', [
        ('src/buffer/operation/replace.rs', '    if !cursor.move_to(*buffer.cursor) {\n        cursor.move_to(Position {\n            line: buffer.cursor.line,\n            offset: 0,\n        });\n    }\n', '    let Position { line, offset } = *buffer.cursor;\n    for target in [Position { line, offset }, Position { line, offset: 0 }] {\n        if cursor.move_to(target) {\n            break;\n        }\n    }\n'),
    ]),
    ('s-his-shift', [
        ('src/buffer/operation/history.rs', '        match self.previous.pop() {\n            Some(operation) => {\n                self.next.push(operation.clone_operation());\n                Some(operation)\n            }\n            None => None,\n        }', '        Self::shift(&mut self.previous, &mut self.next)'),
        ('src/buffer/operation/history.rs', '        match self.next.pop() {\n            Some(operation) => {\n                self.previous.push(operation.clone_operation());\n                Some(operation)\n            }\n            None => None,\n        }', '        Self::shift(&mut self.next, &mut self.previous)'),
        ('src/buffer/operation/history.rs', '    pub fn mark(', '    fn shift(\n        from: &mut Vec<Box<dyn Operation>>,\n        to: &mut Vec<Box<dyn Operation>>,\n    ) -> Option<Box<dyn Operation>> {\n        let operation = from.pop()?;\n        to.push(operation.clone_operation());\n        Some(operation)\n    }\n\n    pub fn mark('),
    ]),
    ('s-ws-rel', [
        ('src/workspace.rs', '            buf.path\n                .as_ref()\n                .and_then(|path| path.strip_prefix(&self.path).ok().or_else(|| Some(path)))\n        })', '            self.relative(buf)\n        })'),
        ('src/workspace.rs', '                    buf.path\n                        .as_deref()\n                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))\n', '                    self.relative(buf)\n'),
        ('src/workspace.rs', '    pub fn current_buffer_index(', "    fn relative<'a>(&self, buffer: &'a Buffer) -> Option<&'a Path> {\n        let path = buffer.path.as_deref()?;\n        match path.strip_prefix(&self.path) {\n            Ok(relative) => Some(relative),\n            Err(_) => Some(path),\n        }\n    }\n\n    pub fn current_buffer_index("),
    ]),
    ('s-ws-wrap', [
        ('src/workspace.rs', '            if index == self.buffers.len() - 1 {\n                self.select_buffer(0);\n            } else {\n                self.select_buffer(index + 1);\n            }', '            let following = index + 1;\n            let target = if following < self.buffers.len() { following } else { 0 };\n            self.select_buffer(target);'),
        ('src/workspace.rs', '            if index > 0 {\n                self.select_buffer(index - 1);\n            } else {\n                self.select_buffer(self.buffers.len() - 1);\n            }', '            let target = index.checked_sub(1).unwrap_or(self.buffers.len() - 1);\n            self.select_buffer(target);'),
    ]),
    ('s-ws-store', [
        ('src/workspace.rs', '        if let Some(current_buffer) = self.current_buffer.as_mut() {\n            mem::swap(\n                current_buffer,\n                &mut self.buffers[self.current_buffer_index.unwrap()],\n            );\n        }\n', '        self.store_current();\n'),
        ('src/workspace.rs', '    fn select_buffer_by_path(', '    fn store_current(&mut self) {\n        if let (Some(current), Some(index)) = (self.current_buffer.as_mut(), self.current_buffer_index) {\n            mem::swap(current, &mut self.buffers[index]);\n        }\n    }\n\n    fn select_buffer_by_path('),
    ]),
    ('s-ws-syntax', [
        ('src/workspace.rs', '        let definition = buffer\n            .file_extension()\n            .or_else(|| buffer.file_name())\n            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))\n            .or_else(|| Some(self.syntax_set.find_syntax_plain_text()))\n            .cloned();\n        buffer.syntax_definition = definition;\n', '        let key = match buffer.file_extension() {\n            Some(extension) => Some(extension),\n            None => buffer.file_name(),\n        };\n        let found = match key {\n            Some(ref key) => self.syntax_set.find_syntax_by_extension(key),\n            None => None,\n        };\n        let syntax = found.unwrap_or_else(|| self.syntax_set.find_syntax_plain_text());\n        buffer.syntax_definition = Some(syntax.clone());\n'),
    ]),
    ('s-buf-notify', [
        ('src/buffer/mod.rs', "    pub fn line_count(&self) -> usize {\n        self.data().chars().filter(|&c| c == '\\n').count() + 1", "    pub fn line_count(&self) -> usize {\n        let text = self.data();\n        let mut count = 1;\n        for byte in text.bytes() {\n            count += usize::from(byte == b'\\n');\n        }\n        count"),
    ]),
    ('s-buf-ext', [
        ('src/buffer/mod.rs', '        self.path.as_ref().and_then(|p| {\n            p.extension().and_then(|e| {\n                if !e.is_empty() {\n                    return Some(e.to_string_lossy().into_owned());\n                }\n\n                None\n            })\n        })', '        let extension = self.path.as_ref()?.extension()?;\n        if extension.is_empty() {\n            None\n        } else {\n            Some(extension.to_string_lossy().to_string())\n        }'),
    ]),
    ('s-buf-mark', [
        ('src/buffer/mod.rs', '        if self.operation_group.is_some() {\n            self.end_operation_group();\n            self.start_operation_group();\n        }\n\n        self.history.mark();', '        let grouping = self.operation_group.is_some();\n        self.end_operation_group();\n        self.history.mark();\n        if grouping {\n            self.start_operation_group();\n        }'),
    ]),
    ('s-buf-from', [
        ('src/buffer/mod.rs', '        let content = fs::read_to_string(path)?;\n\n        let data', '        let mut file = File::open(path)?;\n        let mut content = String::new();\n        io::Read::read_to_string(&mut file, &mut content)?;\n\n        let data'),
    ]),
    ('s-ti-guard', [
        ('src/buffer/token/token_iterator.rs', '            if self.current_byte_offset < end_of_line {\n                lexeme', '            let rest_is_empty = self.current_byte_offset >= end_of_line;\n            if !rest_is_empty {\n                lexeme'),
    ]),
    ('s-ti-take', [
        ('src/buffer/token/token_iterator.rs', '        let mut lexeme = None;\n\n        if let Some(line) = self.current_line {', '        let mut lexeme = None;\n        let current = self.current_line;\n\n        if let Some(line) = current {'),
    ]),
    ('s-ti-lexfn', [
        ('src/buffer/token/token_iterator.rs', '            if self.current_byte_offset < end_of_line {\n                lexeme = Some(Token::Lexeme(Lexeme {\n                    value: &line[self.current_byte_offset..end_of_line],\n                    scope: self.scopes.clone(),\n                    position: self.current_position,\n                }));\n            }', '            if let Some(rest) = line.get(self.current_byte_offset..end_of_line) {\n                if !rest.is_empty() {\n                    lexeme = Some(Token::Lexeme(Lexeme {\n                        value: rest,\n                        scope: self.scopes.clone(),\n                        position: self.current_position,\n                    }));\n                }\n            }'),
    ]),
    ('s-li-len', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }\n", "        let rest = &self.data[self.line_start..];\n        for (index, c) in rest.char_indices() {\n            self.line_end = self.line_start + index + c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }\n"),
    ]),
    ('s-li-inclusive', [
        ('src/util/line_iterator.rs', "        for c in self.data[self.line_start..].chars() {\n            self.line_end += c.len_utf8();\n\n            if c == '\\n' {\n                trailing_newline = true;\n                break;\n            }\n        }\n", "        if let Some(length) = self.data[self.line_start..].find('\\n') {\n            trailing_newline = true;\n            self.line_end += length + 1;\n        } else {\n            self.line_end = self.data.len();\n        }\n"),
    ]),
    ('s-di-twopass', [
        ('src/buffer/distance.rs', "            lines: from.chars().filter(|&c| c == '\\n').count(),\n            offset: from\n                .split('\\n')\n                .last()\n                .map(|l| l.graphemes(true).count())\n                .unwrap_or(0),\n", "            lines: from.bytes().filter(|b| *b == b'\\n').count(),\n            offset: match from.rfind('\\n') {\n                Some(index) => from[index + 1..].graphemes(true).count(),\n                None => from.graphemes(true).count(),\n            },\n"),
    ]),
    ('s-pos-lex', [
        ('src/buffer/position.rs', '        Some(if self.line < other.line {\n            Ordering::Less\n        } else if self.line > other.line {\n            Ordering::Greater\n        } else if self.offset < other.offset {\n            Ordering::Less\n        } else if self.offset > other.offset {\n            Ordering::Greater\n        } else {\n            Ordering::Equal\n        })', '        match self.line.partial_cmp(&other.line) {\n            Some(Ordering::Equal) => self.offset.partial_cmp(&other.offset),\n            unequal => unequal,\n        }'),
    ]),
    ('s-ra-minmax', [
        ('src/buffer/range.rs', '        if start > end {\n            Range {\n                start: end,\n                end: start,\n            }\n        } else {\n            Range { start, end }\n        }', '        let (start, end) = match start.partial_cmp(&end) {\n            Some(std::cmp::Ordering::Greater) => (end, start),\n            _ => (start, end),\n        };\n        Range { start, end }'),
    ]),
    ('v-moveto-ok', [
        ('src/buffer/cursor.rs', '        if self.data.borrow().in_bounds(&position) {\n', '        let exists = self.data.borrow().in_bounds(&position);\n        if exists {\n'),
    ]),
    ('v-del-zip', [
        ('src/buffer/operation/delete.rs', 'if let (Some(content), Some(offset)) = (&self.content, self.offset) {', 'if let Some((content, offset)) = self.content.as_ref().zip(self.offset) {'),
    ]),
    ('v-display-loop', [
        ('src/buffer/gap_buffer.rs', '        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);\n        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);\n\n        write!(f, "{}{}", first_half, second_half)', '        for half in [\n            &self.data[..self.gap_start],\n            &self.data[self.gap_start + self.gap_length..],\n        ] {\n            f.write_str(&String::from_utf8_lossy(half))?;\n        }\n\n        Ok(())'),
    ]),
    ('v-read-concat', [
        ('src/buffer/gap_buffer.rs', '            // Allocate a string for the first half.\n            let mut data = String::from_utf8_lossy(first_half).into_owned();\n\n            // Push the second half onto the first.\n            data.push_str(String::from_utf8_lossy(second_half).borrow());\n\n            data\n', '            let bytes = [first_half, second_half].concat();\n\n            String::from_utf8_lossy(&bytes).into_owned()\n'),
    ]),
    ('v-read-loop', [
        ('src/buffer/gap_buffer.rs', '            // Allocate a string for the first half.\n            let mut data = String::from_utf8_lossy(first_half).into_owned();\n\n            // Push the second half onto the first.\n            data.push_str(String::from_utf8_lossy(second_half).borrow());\n\n            data\n', '            let mut data = String::with_capacity(first_half.len() + second_half.len());\n            for half in [first_half, second_half] {\n                data += &String::from_utf8_lossy(half);\n            }\n\n            data\n'),
    ]),
    ('v-search-foreach', [
        ('src/buffer/mod.rs', '        for (line, data) in self.data().lines().enumerate() {\n', '        let text = self.data();\n        text.lines().enumerate().for_each(|(line, data)| {\n'),
        ('src/buffer/mod.rs', '                    results.push(Position { line, offset });\n                }\n            }\n        }\n', '                    results.push(Position { line, offset });\n                }\n            }\n        });\n'),
    ]),
    ('v-undo-none', [
        ('src/buffer/mod.rs', '        if let Some(mut op) = self.history.previous() {\n            op.reverse(self);\n        }', '        let step = self.history.previous();\n        if step.is_none() {\n            return;\n        }\n        step.unwrap().reverse(self);'),
    ]),
    ('v-group-while', [
        ('src/buffer/operation/group.rs', '        for operation in &mut self.operations.iter_mut().rev() {\n            operation.reverse(buffer);\n        }', '        let mut remaining = self.operations.len();\n        while remaining > 0 {\n            remaining -= 1;\n            self.operations[remaining].reverse(buffer);\n        }'),
    ]),
    ('v-di-single', [
        ('src/buffer/distance.rs', "        Distance {\n            lines: from.chars().filter(|&c| c == '\\n').count(),\n            offset: from\n                .split('\\n')\n                .last()\n                .map(|l| l.graphemes(true).count())\n                .unwrap_or(0),\n        }", "        let mut distance = Distance { lines: 0, offset: 0 };\n        for cluster in from.graphemes(true) {\n            if cluster.ends_with('\\n') {\n                distance.lines += 1;\n                distance.offset = 0;\n            } else {\n                distance.offset += 1;\n            }\n        }\n        distance"),
    ]),
    ('v-name-q', [
        ('src/buffer/mod.rs', '        self.path.as_ref().and_then(|p| {\n            p.file_name()\n                .and_then(|f| f.to_str().map(|s| s.to_string()))\n        })', '        let name = self.path.as_ref()?.file_name()?.to_str()?;\n        Some(name.to_owned())'),
    ]),
    ('v-ws-new', [
        ('src/workspace.rs', '        let mut syntax_set = SyntaxSet::load_defaults_newlines();\n\n        if let Some(path) = syntax_definitions {\n            let mut builder = syntax_set.into_builder();\n            builder.add_from_folder(path, true)?;\n\n            syntax_set = builder.build();\n        }\n', '        let defaults = SyntaxSet::load_defaults_newlines();\n        let syntax_set = match syntax_definitions {\n            None => defaults,\n            Some(folder) => {\n                let mut builder = defaults.into_builder();\n                builder.add_from_folder(folder, true)?;\n                builder.build()\n            }\n        };\n'),
    ]),
    ('v-ws-id', [
        ('src/workspace.rs', '        buf.id = Some(self.next_buffer_id);', '        let id = self.next_buffer_id;\n        buf.id = Some(id);'),
        ('src/workspace.rs', '        self.next_buffer_id += 1;', '        self.next_buffer_id = id + 1;'),
    ]),
    ('v-ws-id2', [
        ('src/workspace.rs', '        self.next_buffer_id += 1;\n\n', '\n'),
        ('src/workspace.rs', '        buf.id = Some(self.next_buffer_id);', '        buf.id = Some(self.take_id());'),
        ('src/workspace.rs', '    pub fn open_buffer(', '    fn take_id(&mut self) -> usize {\n        let id = self.next_buffer_id;\n        self.next_buffer_id += 1;\n        id\n    }\n\n    pub fn open_buffer('),
    ]),
    ('v-ti-parse', [
        ('src/buffer/token/token_iterator.rs', '        if let Some((line_number, line)) = self.lines.next() {\n', '        self.current_line = None;\n\n        if let Some((line_number, line)) = self.lines.next() {\n'),
        ('src/buffer/token/token_iterator.rs', '            self.current_byte_offset = 0;\n        } else {\n            self.current_line = None;\n        }', '            self.current_byte_offset = 0;\n        }'),
    ]),
    ('v-sel-bounds', [
        ('src/workspace.rs', '        if let Some(target_buffer) = self.buffers.get_mut(index) {\n            self.current_buffer = Some(mem::replace(target_buffer, Buffer::new()));\n', '        if index < self.buffers.len() {\n            self.current_buffer = Some(mem::take(&mut self.buffers[index]));\n'),
    ]),
    ('v-left-checked', [
        ('src/buffer/cursor.rs', '        if self.offset == 0 {\n            return;\n        }\n\n        let new_position = Position {\n            line: self.line,\n            offset: self.offset - 1,\n        };\n        self.move_to(new_position);', '        if let Some(offset) = self.offset.checked_sub(1) {\n            self.move_to(Position {\n                offset,\n                ..self.position\n            });\n        }'),
    ]),
    ('v-right-mut', [
        ('src/buffer/cursor.rs', '        let new_position = Position {\n            line: self.line,\n            offset: self.offset + 1,\n        };\n        self.move_to(new_position);', '        let mut target = self.position;\n        target.offset += 1;\n        self.move_to(target);'),
    ]),
    ('v-gap-text', [
        ('src/buffer/gap_buffer.rs', '            String::from_utf8_lossy(&self.data[start_offset..end_offset]).into_owned()', '            self.text(start_offset, end_offset)'),
        ('src/buffer/gap_buffer.rs', '        let deleted = &self.data[self.gap_start + self.gap_length..end_offset];\n        let deleted = String::from_utf8_lossy(deleted).into_owned();\n', '        let deleted = self.text(self.gap_start + self.gap_length, end_offset);\n'),
        ('src/buffer/gap_buffer.rs', '    fn write_to_gap', '    fn text(&self, from: usize, to: usize) -> String {\n        String::from_utf8_lossy(&self.data[from..to]).into_owned()\n    }\n\n    fn write_to_gap'),
    ]),
    ('v-gap-two', [
        ('src/buffer/gap_buffer.rs', '                for index in self.gap_start + self.gap_length..offset {\n                    self.data[index - self.gap_length] = self.data[index];\n                    self.data[index] = 0;\n                }\n', '                let (mut to, mut from) = (self.gap_start, self.gap_start + self.gap_length);\n                while from < offset {\n                    self.data[to] = self.data[from];\n                    self.data[from] = 0;\n                    to += 1;\n                    from += 1;\n                }\n'),
    ]),
    ('v-li-number', [
        ('src/util/line_iterator.rs', '        let line = Some((self.line_number, &self.data[self.line_start..self.line_end]));\n\n        if self.out_of_data() && !trailing_newline {\n            self.done = true;\n        } else {\n            self.line_number += 1;\n        }\n\n        line', '        let number = self.line_number;\n        let text = &self.data[self.line_start..self.line_end];\n\n        self.done = self.out_of_data() && !trailing_newline;\n        if !self.done {\n            self.line_number = number + 1;\n        }\n\n        Some((number, text))'),
    ]),
    ('v-save-flush', [
        ('src/buffer/mod.rs', '        file.write_all(self.data().to_string().as_bytes())?;\n', '        let data = self.data();\n        file.write_all(data.as_bytes())?;\n        file.flush()?;\n'),
    ]),
    ('v-buf-parts', [
        ('src/buffer/mod.rs', '        let pending_operations = self\n            .operation_group\n            .as_ref()\n            .map(|group| !group.is_empty())\n            .unwrap_or(false);\n\n        pending_operations || !self.history.at_mark()', '        let pending = matches!(self.operation_group, Some(ref group) if !group.is_empty());\n        let saved = self.history.at_mark();\n        !(saved && !pending)'),
    ]),
    ('v-his-mark', [
        ('src/buffer/operation/history.rs', '        if let Some(position) = self.marked_position {\n            if position >= self.previous.len() {\n                self.marked_position = None\n            }\n        }', '        let reachable = self\n            .marked_position\n            .map_or(true, |position| position < self.previous.len());\n        if !reachable {\n            self.marked_position = None;\n        }'),
    ]),
    ('v-his-before', [
        ('src/buffer/operation/history.rs', '        self.previous.push(operation);\n        self.next.clear();\n\n        if let Some(position) = self.marked_position {\n            if position >= self.previous.len() {\n                self.marked_position = None\n            }\n        }', '        let steps = self.previous.len();\n        match self.marked_position {\n            Some(position) if position > steps => self.marked_position = None,\n            _ => {}\n        }\n        self.next = Vec::new();\n        self.previous.push(operation);'),
    ]),
    ('v-rep-old', [
        ('src/buffer/operation/replace.rs', '        let mut op = Replace::new(self.data(), content.into());', '        let mut op = Replace::new(old_content, content.into());'),
    ]),
    ('v-pos-mut', [
        ('src/buffer/position.rs', '        let offset = if distance.lines > 0 {\n            distance.offset\n        } else {\n            self.offset + distance.offset\n        };\n\n        Position {\n            line: self.line + distance.lines,\n            offset,\n        }', '        let base = match distance.lines {\n            0 => self.offset,\n            _ => 0,\n        };\n\n        Position {\n            line: distance.lines + self.line,\n            offset: distance.offset + base,\n        }'),
    ]),
]
