"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []


def p(id, title, st, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b} for a, b in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe) if observe else [], "hook_needed": None}})


B = "src/buffer/mod.rs"
OPS = ["src/buffer/operation/insert.rs", "src/buffer/operation/delete.rs", "src/buffer/operation/replace.rs"]
G = "src/buffer/gap_buffer.rs"

p("C01", "Every edit is recorded exactly once",
  "Whenever inserting, deleting, deleting a range or replacing changes a buffer's text, exactly one new entry describing that edit is added to what can be undone: to the open operation group if there is one, otherwise to the history as a step of its own. Recording an edit outside a group discards everything that could still be redone. Edits that change nothing record at most one entry.",
  ["inputs", "histories"], "every text, cursor, range, content, and state of the history and of the operation group",
  "The tests edit a handful of short texts and undo once or twice; a path that skips or doubles recording (an empty group, an out-of-range end, a group opened twice) only shows after an unsampled sequence.",
  [B, "src/buffer/operation/group.rs", "src/buffer/operation/history.rs"] + OPS,
  [("edit methods run an operation, then record it", "Buffer::insert, Buffer::delete_range, Buffer::replace in src/buffer/operation/*.rs"),
   ("open group", "Buffer::start_operation_group, Buffer::end_operation_group in src/buffer/operation/group.rs")],
  [("history", "what can be undone and redone"), ("operation group", "the operations of the group being recorded, if any")])
p("C02", "Undoing an edit restores the text exactly, redoing re-applies it",
  "Reversing a recorded edit on the text it produced gives back the previous text byte for byte, and running it again gives the edited text again, however often the two alternate. A copy of a recorded edit does the same as the original. A group re-runs its edits first to last and reverses them last to first, each exactly once.",
  ["inputs", "histories"], "every text, position, range and content, including multi-line, empty, CRLF and combining content and ends out of bounds",
  "The tests undo single ASCII edits; exactness over all texts (grapheme clusters merging at the seam, line breaks, out-of-bounds ends) and over repeated undo and redo is never sampled.",
  OPS + ["src/buffer/operation/group.rs", G],
  [("operations and their inverses", "Operation::run, Operation::reverse, Operation::clone_operation in src/buffer/operation/*.rs"),
   ("groups", "OperationGroup::run, OperationGroup::reverse in src/buffer/operation/group.rs")],
  [("recorded operation", "what an edit inserted, removed or replaced, and where")])
p("C03", "Undo and redo walk the history in strict last-in first-out order",
  "Undo reverses exactly the most recent recorded step (an open, non-empty operation group counts as one step and is closed by it) and makes it the next to be redone. Redo re-applies exactly the most recently undone step and makes it the next to be undone. With nothing to undo or redo neither of them changes anything. Neither changes the text, the cursor or anything else about the buffer beyond what the step does. A fresh buffer has nothing to undo or redo and no open group. A group is open from starting it until ending it or the next undo or redo. Beyond the edit that reloading is and the closing of an open group, starting and ending groups, saving and reloading leave what can be undone and redone as it was, and saving and reloading also whether a group is open; when an open group is closed, its operations become one step.",
  ["histories"], "every sequence of recorded, undone and open steps",
  "Tests cover one or two steps; order, loss or duplication of steps for arbitrary interleavings of edits, groups, undo and redo is not sampled.",
  ["src/buffer/operation/history.rs", "src/buffer/operation/group.rs", B],
  [("two stacks", "History::previous, History::next, History::add in src/buffer/operation/history.rs"), ("undo and redo", "Buffer::undo, Buffer::redo in src/buffer/mod.rs")],
  [("previous / next", "steps that can be undone / redone")])
p("C04", "A buffer knows whether it differs from what was last saved or loaded",
  "After loading from a file, saving or reloading successfully, a buffer reports itself unmodified; recording an edit makes it modified; it is unmodified again exactly when undoing or redoing has brought it back to the saved step. Once the saved step can no longer be reached by undoing or redoing, it stays modified until the next successful save or reload. A failed save or reload does not change what is reported.",
  ["histories", "fault_sequences"], "every history of edits, groups, undo, redo, save, reload, and failures of the latter",
  "The tests check a few fixed sequences; losing the mark on a new branch of history, or an open group, needs histories they do not contain.",
  [B, "src/buffer/operation/history.rs"],
  [("mark", "History::mark, History::at_mark in src/buffer/operation/history.rs"), ("modified", "Buffer::modified in src/buffer/mod.rs"), ("saving", "Buffer::save, Buffer::reload, Buffer::from_file in src/buffer/mod.rs")],
  [("mark", "the step of the history that corresponds to the saved state")])
p("C05", "Saving and loading keep file and buffer in step, and failures change nothing",
  "Saving writes exactly the buffer's text to its path, replacing whatever the file held, and reports success only if everything was written; loading yields a buffer holding exactly the file's text and its canonical path, with the cursor at the start and nothing to undo; reloading replaces the text with the file's. Any error on the way, including a missing path, is returned and leaves the buffer's text, history and identity as they were. No other file is written.",
  ["inputs", "fault_sequences"], "every text and path, and every failure of the operating system at each call",
  "Tests only use files that exist and calls that succeed; short writes, ignored errors and half-updated buffers need failing system calls.",
  [B], [("file access", "Buffer::save, Buffer::from_file, Buffer::reload in src/buffer/mod.rs")],
  [("path", "where the buffer is saved")])
p("C06", "The change callback sees every change, after it has happened",
  "When a change callback is set, every edit, undo step or redo step that changes the text calls it exactly once per elementary operation, after the text has changed, with the position where the change begins. At the time of the call the buffer already holds the new text and can be read by the callback without failing. Changes to nothing call it at most once, and the callback stays set.",
  ["inputs", "histories"], "every edit, reversal and re-run on every text",
  "One or two tests install a callback; a path that misses it, calls it twice or early, or passes another position passes them all.",
  OPS + [B], [("callback", "Buffer::change_callback in src/buffer/mod.rs"), ("call sites", "Operation::run and Operation::reverse of each operation")],
  [("change callback", "the function the user installed")])
p("C07", "No operation trips over its own borrow of the shared text",
  "No method of a buffer, cursor or workspace, and no operation, ever borrows the shared text in a way that conflicts with a borrow it already holds, so none of them aborts with a borrow error. Every such borrow ends before the method returns, and before any user callback runs.",
  ["inputs", "programs"], "every path through every function that touches the shared text",
  "A borrow held across a call is only fatal on the paths where the callee borrows too; tests reach few of them, and the compiler does not check run-time borrows.",
  [B, "src/buffer/cursor.rs"] + OPS, [("shared text", "Rc<RefCell<GapBuffer>> in src/buffer/mod.rs and src/buffer/cursor.rs")],
  [("data", "the text shared by a buffer and its cursor")])
p("C08", "Cursor movements never leave the text",
  "A cursor movement either leaves the cursor where it was or puts it on a position that exists in the current text, whatever the text and the requested destination. It never changes the text or the cursor's hold on it.",
  ["inputs"], "every text, cursor position and requested destination",
  "Tests move around short fixed texts; empty texts, multi-byte clusters, trailing newlines and huge positions are sampled sparsely if at all.",
  ["src/buffer/cursor.rs", G], [("movements", "Cursor::move_* in src/buffer/cursor.rs")], [("position", "the cursor's line and column")])
p("C09", "Cursor movements go where they say",
  "Each movement puts the cursor at its documented destination: up and down one line at the remembered column or the end of a shorter line, left and right one column or nowhere at the ends of a line, the start and end of line, the first and last line, or an explicit position, only if it exists, and otherwise the cursor stays put. Horizontal and explicit movements set the remembered column, vertical ones keep it. Replacing the whole content keeps the cursor's position if it still exists, otherwise the start of its line if that exists, otherwise the start of the text. A new cursor is at the position given and remembers its column, and a copy of a cursor has its position, its remembered column and its text.",
  ["inputs"], "every text, cursor position, remembered column and destination",
  "Tests check each movement on one or two texts; the remembered column over sequences and shorter lines, and last lines with or without a newline, are sampled once.",
  ["src/buffer/cursor.rs", "src/buffer/operation/replace.rs"], [("movements", "Cursor::move_* in src/buffer/cursor.rs"), ("content replacement", "replace_content in src/buffer/operation/replace.rs")],
  [("sticky column", "the column vertical movements aim for")])
p("C10", "The text store holds exactly the text, whatever the gap does",
  "Moving the gap, growing the store, inserting and deleting at an offset leave the stored text exactly as it was apart from the bytes inserted or removed there. The gap always lies within the store, is as long as recorded, and no byte outside it is ever lost, duplicated or read from inside it. The size of the store grows when an insertion needs more room than the gap offers and never truncates content.",
  ["inputs", "histories"], "every content, gap location, gap size, offset and inserted text",
  "Tests place the gap at a few locations in texts of a few bytes; off-by-one errors in copying depend on the direction and distance of the move against the gap's size.",
  [G], [("gap movement", "GapBuffer::move_gap in src/buffer/gap_buffer.rs"), ("growth", "GapBuffer::insert, GapBuffer::insert_at"), ("removal", "GapBuffer::delete, GapBuffer::delete_at"), ("content", "GapBuffer::to_string")],
  [("data", "the bytes stored, with a gap"), ("gap_start, gap_length", "where the gap is")])
p("C11", "Edits change exactly the text they are asked to change",
  "Inserting puts the content at the cursor's position and changes nothing else; deleting removes the character after the cursor, or joins the next line at a line's end; deleting a range removes exactly the text between its two ends, an end past a line meaning the start of the next line or the end of the text; replacing leaves exactly the new content. An edit at a position that does not exist changes nothing. Inserting and deleting never move the cursor, and edits keep cursor and buffer on the same text and the buffer's identity as it was.",
  ["inputs"], "every text, cursor, range and content",
  "A few fixed texts and ranges are tested; edits at the ends, across lines and beyond the end of a line vary with every input.",
  OPS + [B, G], [("edits", "Buffer::insert, Buffer::delete, Buffer::delete_range, Buffer::replace")], [("data", "the text"), ("cursor", "where edits happen")])
p("C12", "Positions resolve to the right place of the text",
  "A position of a line and a column resolves to the byte offset reached by skipping that many line breaks and then that many user-perceived characters of the line; the end of a line and the end of the text are valid columns, positions beyond them do not exist. A line feed and a carriage return with line feed each count as one line break, in every function that interprets positions. The answer depends on the text only, not on where the store's gap is.",
  ["inputs", "histories"], "every text (mixed line endings, combining characters, empty lines), position and gap location",
  "Tests resolve a few positions in ASCII texts; grapheme clusters spanning the gap, CRLF and positions beyond the end need inputs and edit histories that are not sampled.",
  [G, "src/buffer/cursor.rs", "src/buffer/mod.rs", "src/buffer/distance.rs"], [("position resolution", "GapBuffer::find_offset in src/buffer/gap_buffer.rs")],
  [("position", "a line and a column in user-perceived characters")])
p("C13", "Byte offsets, character counts and columns are never mixed up",
  "Columns count user-perceived characters and storage offsets count bytes, in every computation: no count of characters is used as a byte offset or of bytes as a column, and texts are only cut at offsets where a character begins. Offsets into the stored text and offsets that include the gap are likewise kept apart.",
  ["inputs", "programs"], "every expression that computes an offset or a column, for every text",
  "In ASCII text all units coincide, and nearly every test text is ASCII; a mix-up compiles because all of them are plain integers.",
  [G, B, "src/buffer/cursor.rs", "src/buffer/distance.rs", "src/buffer/token/token_iterator.rs"], [("units", "every usize used as index, length, line or column")])
p("C14", "Positions are ordered by line, then column",
  "Comparing two positions orders them by line first and by column second, a total order that agrees with equality. All the ways of comparing positions agree with one another. A copy of a position equals it, and a new or default position is the start of the text.",
  ["inputs"], "all pairs of positions", "Tests compare a few pairs; totality and agreement range over all pairs.",
  ["src/buffer/position.rs"], [("ordering", "PartialOrd, Ord and PartialEq of Position")])
p("C15", "Ranges are normalised, half-open and convert faithfully",
  "A range made from two positions, or from two lines, holds exactly these two, the lesser one as its start and the greater as its end. A range includes a position exactly if it is at or after the start and before the end; a range of lines includes a line exactly if it is its first or a later one and before its last. A range of lines converts to the range from the start of its first line to the start of the line after its last (inclusive conversion) or to the start of its last line (plain conversion). Copies equal what they were made from, and two ranges are equal exactly if they hold the same two ends.",
  ["inputs"], "all pairs of positions or lines, and all positions tested against them",
  "Tests use a few small ranges; reversed ends, empty ranges and the largest line number are sampled once or never.",
  ["src/buffer/range.rs", "src/buffer/line_range.rs"], [("ranges", "Range::new, Range::includes in src/buffer/range.rs"), ("line ranges", "LineRange::new, LineRange::includes, LineRange::to_inclusive_range in src/buffer/line_range.rs")])
p("C16", "Adding a distance to a position moves it by that text",
  "Adding a distance with no line breaks moves a position right by its columns; adding one with line breaks moves it down by them and to exactly its column. The distance of a text is its number of line feeds and the number of user-perceived characters after the last of them. Both forms of addition agree, and two distances are equal exactly if both their parts are.",
  ["inputs"], "all positions, distances and texts", "Tests use a few short ASCII texts.",
  ["src/buffer/position.rs", "src/buffer/distance.rs"], [("addition", "Add<Distance> and AddAssign<Distance> for Position"), ("distance of a text", "Distance::of_str in src/buffer/distance.rs")])
p("C17", "Line iteration partitions the text",
  "Iterating over the lines of a text yields them numbered from zero, in order, each ending right after its first line feed or at the end of the text, so that joining them gives the text back. After a final line feed, and for an empty text, there is one last empty line. No line is skipped or repeated, and the iteration ends after the last one and stays ended.",
  ["inputs"], "every text", "Tests iterate two short texts.",
  ["src/util/line_iterator.rs"], [("iteration", "LineIterator::next in src/util/line_iterator.rs")], [("line_start", "where the next line begins")])
p("C18", "Token streams reproduce the text they describe",
  "The tokens of a text are line breaks and lexemes that, in order and together, give back the text; a line break token stands for exactly one line feed and never occurs inside a lexeme. Each lexeme's position is the line it is on and the number of user-perceived characters that begin before it on that line, and its scopes are the ones in force after applying the parser's scope changes up to there. A parsing error ends the stream instead of a wrong token being produced.",
  ["inputs", "fault_sequences"], "every text, syntax definition and parser outcome",
  "Tests tokenise a few lines of Ruby and Rust; events at line ends, several events at one place, and errors occur only with particular syntaxes.",
  ["src/buffer/token/token_iterator.rs", "src/buffer/token/token_set.rs", B], [("token iteration", "TokenIterator::next in src/buffer/token/token_iterator.rs")])
p("C19", "Workspace selection stays coherent and no buffer is lost",
  "A workspace always has a current buffer exactly if it has buffers, and its reported index is that buffer's place in the list. Adding inserts the new buffer right after the current one (first if there is none) and selects it; closing removes exactly the current buffer and selects the one before it (the new first one if it was first); next and previous select the neighbour, wrapping around. Apart from the buffer added or closed, no operation changes, loses, duplicates or reorders buffers.",
  ["histories"], "every sequence of workspace operations on any number of buffers",
  "Tests use up to three buffers and short sequences; the swapping of the current buffer in and out of the list can lose one only on particular sequences.",
  ["src/workspace.rs"], [("check-in and check-out", "Workspace::select_buffer in src/workspace.rs"), ("list changes", "Workspace::add_buffer, Workspace::close_current_buffer")],
  [("buffers", "the list, with a placeholder for the current one"), ("current_buffer, current_buffer_index", "the current buffer and its place")])
p("C20", "Buffer ids are unique within a workspace",
  "Every buffer added to a workspace gets an id that no other buffer of it has had before, even after buffers were closed. Nothing else changes a buffer's id: selecting, closing, saving, editing and reloading leave it as it is.",
  ["histories"], "every sequence of workspace and buffer operations", "Tests add two buffers and compare their ids.",
  ["src/workspace.rs", B], [("ids", "Workspace::add_buffer in src/workspace.rs")], [("next_buffer_id", "the id the next buffer gets")])
p("C21", "Opening a path never duplicates a buffer",
  "Opening a path that, made canonical, is the path of an open buffer selects that buffer and changes nothing else, whichever buffer it is. Opening any other path loads the file into a new buffer, added as usual. If the file cannot be loaded the error is returned and the workspace is unchanged.",
  ["inputs", "histories", "fault_sequences"], "every path (relative, absolute, symbolic), set of open buffers and file system failure",
  "Tests open one file twice; matching the current buffer, later buffers and failing paths are separate code paths.",
  ["src/workspace.rs"], [("deduplication", "Workspace::open_buffer, Workspace::select_buffer_by_path in src/workspace.rs")])
p("C22", "Syntax definitions are assigned as documented and tokens use them",
  "Adding a buffer without a syntax definition gives it one, and adding one that has a definition keeps it; updating the current buffer's syntax always re-assigns it. The definition is looked up by the path's extension, or its file name if it has no extension, and is plain text when nothing matches. Tokens and updates report an error on an empty workspace, tokens report one when there is no definition, and tokens otherwise are those of the current buffer's text with its definition and the workspace's syntaxes.",
  ["inputs", "configurations"], "every path, extension, buffer and set of syntaxes", "Tests use one extension, and one extensionless name.",
  ["src/workspace.rs"], [("assignment", "Workspace::update_current_syntax in src/workspace.rs"), ("tokens", "Workspace::current_buffer_tokens")])
p("C23", "Reported paths are relative to the workspace when they can be",
  "The current buffer's reported path is its path relative to the workspace's when it lies inside, its whole path otherwise, and none if it has no path. The list of buffer paths reports the same for every buffer, in order, the current one included. A new workspace's path is canonical, it has no buffers, and failing to resolve the path or to load syntaxes is reported as an error.",
  ["inputs", "configurations"], "every workspace path and buffer path", "Tests use two fixed directories.",
  ["src/workspace.rs"], [("paths", "Workspace::current_buffer_path, Workspace::buffer_paths, Workspace::new in src/workspace.rs")])
p("C24", "Search finds every match, where it is",
  "Searching reports exactly the occurrences of the needle that begin at a user-perceived character of a line of the text and lie within the line (its line ending excluded), overlapping ones included. They are reported in order, each once, as the line and the column, in user-perceived characters, at which they begin. Searching does not change the buffer.",
  ["inputs"], "every text and needle", "Tests search one ASCII text; columns after multi-byte characters, and several matches on a line, are not sampled.",
  [B], [("search", "Buffer::search in src/buffer/mod.rs")])
p("C25", "Editing, moving and querying never panic",
  "No public method panics, whatever the text, cursor, range, needle or history, as long as numbers fit in memory: every index, slice, unwrap and subtraction is guarded on every path that reaches it. This holds for positions and ranges far outside the text and for empty texts, histories and workspaces.",
  ["inputs", "histories"], "every input to every public method, in every state reachable through the public methods",
  "A panic needs just one unusual input (an empty text, a last line, a wide character); tests sample a few.",
  [B, G, "src/buffer/cursor.rs", "src/workspace.rs", "src/util/line_iterator.rs", "src/buffer/line_range.rs"] + OPS, [("panic sites", "every index, slice, unwrap and checked arithmetic operation in src/")])
p("C26", "Reading a buffer reports its content and changes nothing",
  "Reading the data of a buffer gives exactly its text, reading a range gives the text between its ends if both exist and nothing otherwise, and the number of lines is the number of line feeds plus one. The file name and extension are those of the buffer's path, if it has one. None of these changes the buffer.",
  ["inputs"], "every text, range and path", "Tests read one or two short texts.",
  [B, G], [("accessors", "Buffer::data, Buffer::read, Buffer::line_count, Buffer::file_name, Buffer::file_extension in src/buffer/mod.rs")])
p("C27", "A crash while saving never loses the previous file content",
  "If the process or the machine stops while a buffer is being saved, the file holds either all of its old or all of the new content afterwards.",
  ["crash_points"], "every point at which saving can be interrupted", "Tests do not interrupt saving.",
  [B], [("saving", "Buffer::save in src/buffer/mod.rs")])
p("C28", "Editing cost stays proportional to the distance moved",
  "Consecutive edits at nearby places take time proportional to the text inserted and the distance between them, not to the size of the whole text.",
  ["inputs", "histories"], "every sequence of edits and every text", "Tests do not measure time.",
  [G], [("gap reuse", "GapBuffer::move_gap in src/buffer/gap_buffer.rs")])
p("C29", "Scopes reported for a token are the ones its grammar assigns",
  "The scopes attached to a token, are those that the syntax definition assigns to that piece of text.",
  ["inputs", "configurations"], "every text and syntax definition", "Tests check a few tokens.",
  ["src/buffer/token/token_iterator.rs"], [("scopes", "TokenIterator::next")])
p("C30", "Only the functions that are about files touch the world outside the buffer",
  "Editing, moving, undoing, redoing, grouping, reading, searching and tokenizing a buffer, and selecting and closing buffers of a workspace, work purely in memory: they read and write no file, and what they do depends on no clock and no environment variable. Loading, reloading and opening only read files; only saving writes to the file system. No function prints or reads standard streams, starts threads or processes, ends the process, or changes its working directory or environment, and dropping a buffer, cursor or workspace has no effect on any of these. No state is kept outside the buffers and workspaces themselves, so what is done to one never affects another.",
  ["inputs", "histories"], "every public function, every path through it",
  "Tests look at return values and buffer contents; a side effect on files, streams or the process, or on a condition they do not set up, goes unnoticed.",
  [B, "src/workspace.rs", "src/buffer/cursor.rs", G, "src/buffer/token/token_iterator.rs"] + OPS,
  [("files", "Buffer::from_file, Buffer::save, Buffer::reload in src/buffer/mod.rs; Workspace::new, Workspace::open_buffer in src/workspace.rs"), ("everything else", "every other public function and trait implementation of the crate")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
