# prop(id, title, statement, over, quantifier text, why tests cannot, anchor files, mechanisms, level note)
NOT_APPLICABLE = []
D = ED + "core/document/"
DOCNOTE = ("TLC explores EdDoc exhaustively for short texts; all operation sequences to a depth and seeded random histories are "
           "executed by the real document and each recorded step is validated by TLC against EdDoc. Bounded by the histories run.")

prop("E01", "Undo and redo restore exactly the texts that existed",
     "Undoing an edit restores the exact previous document text and the cursor position recorded before it, and redoing restores the exact text that was undone, through any sequence of inserts, deletes, replaces, incremental edits and fluent edits. "
     "Redo stays available step by step until a new edit is made, and a new edit discards everything that was undone. "
     "With nothing to undo or redo the call is refused and the document is unchanged.",
     ["histories", "inputs"], "every interleaving of edits, undo and redo, over any text including multi-byte characters, within the history limits",
     "Unit tests undo one or two fixed edits; the history can be wrong only for particular sequences (replace of different length, several undos then redos, edit after partial undo).",
     [D + "undo_redo.rs", D + "editing.rs", D + "incremental_edit.rs", ED + "core/history/manager.rs", ED + "core/history/stack_impl.rs"],
     [("inverse of each recorded operation", D + "undo_redo.rs: undo/redo"), ("redo cleared by new operations", ED + "core/history/stack_impl.rs: push"),
      ("cursor tracking", ED + "core/history/manager.rs: record_operation")], DOCNOTE)
prop("E02", "History limits are respected and accounted for exactly",
     "The undo history never holds more entries, nor more memory, than configured (a memory limit of zero means unlimited); when a new edit exceeds a limit the oldest entries are dropped, never more than needed and never newer ones first. "
     "Reported undo and redo counts and memory use always equal what is actually held, including after undo, redo, clearing and reconfiguration.",
     ["histories", "configurations"], "every history of edits, undo, redo, clear and reconfiguration under every limit configuration",
     "Tests push a handful of entries against one configuration and only check an upper bound.",
     [ED + "core/history/stack_impl.rs", ED + "core/history/config.rs", ED + "core/history/entry.rs", ED + "core/history/manager.rs"],
     [("limit enforcement", ED + "core/history/stack_impl.rs: enforce_limits"), ("memory accounting", ED + "core/history/stack_impl.rs: push/pop_undo/push_redo/pop_redo")],
     DOCNOTE + " The cost of an entry is measured from the real code on an unlimited history, not assumed.")
prop("E03", "Edits are exact splices and rejected edits change nothing",
     "Inserting, deleting or replacing text changes exactly the addressed byte range and nothing else, and length, emptiness and range reads agree with the new text. "
     "An edit addressed beyond the end of the text or inside a multi-byte character is refused with an error and leaves text and modified flag untouched.",
     ["inputs", "histories"], "every text, every in-range or out-of-range position or range, every inserted text",
     "Tests use a few ASCII strings and positions; boundaries, multi-byte text and chained edits are not covered.",
     [D + "editing_raw.rs", D + "editing.rs", D + "text_access.rs", ED + "commands/text_commands.rs", ED + "commands/fluent_builder.rs"],
     [("bounds and boundary checks", D + "editing_raw.rs: insert_raw/delete_raw"), ("range reads", D + "text_access.rs: text_range")], DOCNOTE)
prop("E04", "Observers are told of every edit, exactly once and accurately",
     "Each accepted insert, delete, replace or incremental edit sends exactly one notification carrying the range it replaced, the removed text and the inserted text, so an observer applying the notifications to its copy always has the document's text. "
     "A refused edit sends none.",
     ["histories", "inputs"], "every sequence of accepted and refused edits through the editing, fluent and incremental entry points",
     "Tests check that a channel is present or that one insert is reported.",
     [D + "editing.rs", D + "incremental_edit.rs", D + "incremental_fast.rs", D + "constructors.rs", ED + "events/event.rs"],
     [("emission after each edit", D + "editing.rs: insert/delete/replace"), ("emission of incremental edits", D + "incremental_fast.rs: edit_fast_path")], DOCNOTE)
prop("E05", "Incremental edits behave exactly like plain edits",
     "An edit made through the incremental entry points yields the same text, the same refusals, the same undo and redo behaviour and the same notification as the plain edit of the same range, whatever its size or content and whatever edits preceded it. "
     "It never panics, also when plain edits, undo or redo happened since the last incremental edit.",
     ["histories", "inputs"], "every mix of small and large incremental edits, section headers, multi-line and multi-byte text, plain edits, undo and redo",
     "The fast and slow paths, the fallback and the parser cache are each tested on one fixed script.",
     [D + "incremental_edit.rs", D + "incremental_fast.rs", D + "incremental_parse.rs", ED + "core/incremental/apply.rs", ED + "core/incremental/reparse.rs"],
     [("fast path selection", D + "incremental_edit.rs: edit_incremental"), ("cache resynchronisation", ED + "core/incremental/apply.rs: apply_change")], DOCNOTE)
prop("E13", "Commands and batches apply all or nothing and undo as one step",
     "A command or batch of commands run on a document either applies completely, in order, or fails and leaves the text and the history as they were. "
     "A completed command is one undo step: a single undo restores the exact text from before it, and a redo brings back exactly its result.",
     ["histories", "fault_sequences"], "every nesting of batches, every position of a failing sub-command, before and after other edits, undos and redos",
     "Tests run one two-command batch that succeeds; failure in the middle and undo of a batch are not exercised.",
     [D + "validation.rs", ED + "commands/batch_command.rs", ED + "commands/text_commands.rs", D + "undo_redo.rs"],
     [("all-or-nothing execution with one history entry", D + "validation.rs: execute_command"), ("batch sequencing", ED + "commands/batch_command.rs: execute")], DOCNOTE)

EVNOTE = ("TLC checks that EvCmd's byte replacements mean the intended change to the events and nothing else; its histories and seeded ones run "
          "on the real document and TLC validates every result against EvCmd. Bounded by the histories run; case-insensitive matching is exercised on ASCII letters.")
EC = ED + "commands/event_commands/"
prop("E11", "Event commands change the addressed events and nothing else",
     "Toggling, retiming, splitting, merging, deleting, changing the effect or editing fields of events by index acts on exactly the events with those indices, counted over every event of every events section as the reader reports them. "
     "Only the fields the command is about change, found by the format in force at that line: all other bytes of the document stay as they were. "
     "Times move by the given offset, stay within range, and the end stays after the start; a merged event has the first's fields, the second's end and both texts, and lines in between stay; a deleted event takes its whole line. "
     "An index or time that does not fit makes the command fail without a change, an empty list means every event (none for deleting), and each completed change is one undo step.",
     ["histories", "inputs"], "every document (custom formats, several events sections, blank and damaged lines, CRLF, missing last newline, non-ASCII text, commas in text and effects) and every sequence of event commands, run directly, as undoable unit, or through the fluent interface",
     "Tests run each command once on one three-event document in the default format; formats, several changed events, other sections and the untouched bytes are not looked at.",
     [EC + "helpers.rs", EC + "toggle.rs", EC + "timing.rs", EC + "split.rs", EC + "merge.rs", EC + "delete.rs", EC + "batch_delete.rs", EC + "effect_exec.rs", D + "event_lines.rs", D + "event_edit.rs"],
     [("locating events and their fields", D + "event_lines.rs"), ("one edit per command", EC + "helpers.rs: apply")], EVNOTE)
prop("E12", "Event queries report exactly the matching events, in order",
     "A query returns exactly the events that satisfy all its filters (type, style, speaker, text, effect, layer, time range), each with the fields, line and place the reader gives it and the index that commands use for it, ordered by the chosen criteria with ties in document order, cut to the limit; "
     "indices, counts, the first hit and single events fetched by index agree with that, however the query is put together and after any edits.",
     ["inputs", "histories"], "every document and every combination of filters, orders and limits, interleaved with event commands",
     "Tests query one small document with one filter at a time; positions, ties, second criteria, odd times and later edits are not covered.",
     [ED + "core/fluent/event_query_exec.rs", ED + "core/fluent/event_query_filter.rs", ED + "core/fluent/event_query.rs", ED + "core/fluent/query_types.rs", ED + "core/fluent/event_ops.rs"],
     [("filters and order", ED + "core/fluent/event_query_filter.rs"), ("collecting events", ED + "core/fluent/event_query_exec.rs: collect_events")], EVNOTE)

PARSENOTE = ("TLC checks AssParse over every short sequence of lines; those documents and seeded realistic and damaged ones are read by "
             "the real parser and every observation is validated by TLC against AssParse. Bounded by the documents run.")
S = CO + "parser/sections/"
STNOTE = ("TLC checks that DocCmd's byte replacements mean the intended change to what the reader sees and nothing else; its histories and seeded ones run "
          "on the real document and TLC validates every result against DocCmd. Bounded by the histories run; style lines are built from values without commas.")
prop("E14", "Style commands and line helpers change exactly what they name",
     "Creating, editing, deleting, cloning or applying a style acts on the first style that carries exactly the given name, as the reader reads it, and on no other. "
     "Editing changes the named fields, found by the format in force at that line, and keeps every other byte; a new style's line follows the format of the section it is added to; "
     "applying a style changes the style field of the matching events only. Adding or replacing a whole style or event line, and editing an event by its text, "
     "change that line only, and no command touches text outside its section. A style that is not there is an error and leaves the document as it was.",
     ["inputs", "histories"], "every document (custom formats, inherited styles, names that are prefixes of others, several sections, text that looks like a style line) and every command on it",
     "Tests use one or two styles in the default format; prefix names, custom formats, look-alike lines elsewhere and missing sections are not sampled.",
     [ED + "commands/style_commands/create.rs", ED + "commands/style_commands/edit.rs", ED + "commands/style_commands/delete.rs", ED + "commands/style_commands/clone.rs",
      ED + "commands/style_commands/apply.rs", D + "section_lines.rs", D + "style_lines.rs", D + "ass_api.rs", ED + "core/fluent/style.rs"],
     [("locating styles as the parser reads them", D + "style_lines.rs: style_line"), ("field replacement by format", ED + "commands/style_commands/edit.rs: execute"),
      ("places for new lines", D + "section_lines.rs: add_style_line")], STNOTE)
prop("E15", "Script information is read and written as the parser reads it",
     "Reading a field of the script information gives the value the parser reads for exactly that key, or nothing if the key is not there; reading all gives every field in order. "
     "Setting a field changes its first line, or adds a line to the section, so that reading it back gives the value; deleting removes every line of the key. "
     "Comments, look-alike lines in other sections, keys that merely begin the same and all other bytes stay. Resolution, wrap style and border scaling are read "
     "and written through the same fields, and a value that is no number is reported, not guessed. Without the section an operation fails and changes nothing.",
     ["inputs", "histories"], "every document and every sequence of reads, settings and deletions",
     "Tests set and read a few keys of a well-formed section; repeated keys, comments, look-alikes, CRLF and missing sections are not sampled.",
     [ED + "commands/script_info_commands/set.rs", ED + "commands/script_info_commands/get.rs", ED + "commands/script_info_commands/delete.rs", ED + "core/fluent/script_info.rs",
      D + "info_lines.rs", D + "ass_api.rs"],
     [("locating fields as the parser reads them", D + "info_lines.rs: info_lines"), ("setting a field", D + "info_lines.rs: put_info_field"),
      ("typed accessors", ED + "core/fluent/script_info.rs: get_resolution")], STNOTE)

prop("E17", "Subtitles of other formats keep their lines, times and styling both ways",
     "Importing a SubRip or WebVTT file gives one dialogue per cue, in order, at its times to a hundredth of a second, with its lines of text and its bold, italic and underline; "
     "cue settings, coordinates, identifiers, comments, style blocks and byte order marks are no text, and character references are the characters. "
     "Exporting gives one numbered cue per dialogue of every events section, with its lines, exact times and styling: hard line breaks become lines, other override tags, comments in "
     "blocks and drawings show nothing, no blank line cuts a cue short, and WebVTT text is escaped. So reading an export back gives the same dialogues, whatever the chain of formats.",
     ["inputs", "histories"], "every SubRip, WebVTT, plain text or script file and every chain of imports and exports, by the format registry or the converter",
     "Tests convert a few hand-written cues; settings after times, tags within one block, drawings, several events sections, texts that look like numbers or headers are not sampled.",
     [ED + "formats/srt/import.rs", ED + "formats/srt/export.rs", ED + "formats/srt/styling.rs", ED + "formats/srt/time.rs", ED + "formats/webvtt/importer.rs", ED + "formats/webvtt/exporter.rs",
      ED + "formats/webvtt/cue.rs", ED + "formats/webvtt/styling.rs", ED + "utils/formats/import_srt.rs", ED + "utils/formats/import_webvtt.rs", ED + "utils/formats/export_srt.rs",
      ED + "utils/formats/export_webvtt.rs", ED + "utils/formats/plain_text.rs"],
     [("text of a cue from an event", ED + "formats/cue_text.rs: convert_text"), ("reading cues", ED + "utils/formats/import_webvtt.rs: parse_webvtt_cues"), ("timing lines", ED + "formats/webvtt/cue.rs")],
     "The specification (Subs.tla) gives a file of each format its meaning, a sequence of cues whose lines are bytes and switches of bold, italic and underline, and checks that writing and "
     "reading back keeps it over any chain of conversions; the real code's files, read by the specification, must mean the same. White space at the edges of lines and cues that show nothing are "
     "left open, as are colours, fonts and voices; SubRip has no spelling of a literal tag, so text that looks like one becomes one.")

prop("E18", "Tag and karaoke commands rewrite what they name and keep the rest",
     "Inserting, removing, replacing, wrapping and parsing override tags in a range touch exactly the tags named there (those that start with the given text), and every other byte stays, comments in blocks and unclosed braces included. "
     "Parsing reports each tag of the range once, with its arguments, at the position of its backslash; a closing tag left to the command is that of the tag opened. "
     "Adjusting karaoke changes each karaoke tag's own duration, in order. Generating, splitting and applying karaoke keep the visible text with its white space and all other tags, and give each syllable or word one timing, which replaces the old. "
     "A command that is refused changes nothing and none panics; one undo restores the text.",
     ["inputs", "histories"], "every text with any blocks, damaged or nested, every range, tag, pattern and timing, by the commands or the fluent calls",
     "Tests run each command on one short text with one tag and look for a substring; tags that share a beginning, several tags in a block, ranges inside a script and texts of more than ASCII are not sampled.",
     [ED + "commands/tag_commands/insert.rs", ED + "commands/tag_commands/parse.rs", ED + "commands/tag_commands/remove.rs", ED + "commands/tag_commands/replace.rs", ED + "commands/tag_commands/wrap.rs",
      ED + "commands/karaoke_commands/adjust_impl.rs", ED + "commands/karaoke_commands/generate.rs", ED + "commands/karaoke_commands/split.rs", ED + "commands/karaoke_commands/apply_impl.rs",
      ED + "core/fluent/tag.rs", ED + "core/fluent/karaoke.rs"],
     [("tags of a range", ED + "commands/tag_commands/"), ("karaoke of a range", ED + "commands/karaoke_commands/")],
     "TagCmd.tla splits a text into plain text and blocks and rewrites the tags named where they stand; TLC checks over every text of 3 (4) of ten pieces that each command keeps what it does not name, and every command on those texts (sampled) and seeded "
     "sequences on generated texts and scripts are compared byte by byte. Left open: where syllables lie within a word, timings of texts with braces nested in blocks, and the import template, which is a stub.")

prop("E16", "Searching finds exactly the occurrences, and replacing changes only those",
     "A search yields exactly the places of the indexed text that spell the pattern, taken from the left without overlap and in order, each with its text, line, column and the line around it: "
     "regardless of case or not, whole words or any, as it is or as a regular expression, within all of the text, a range, lines or named sections, up to the number asked for. "
     "Replacing finds them in the document as it is now, changes exactly those and nothing else, and tells where they were. A wrong expression is refused and changes nothing; updating or rebuilding the index makes searches see the document as it is.",
     ["inputs", "histories"], "every text and pattern, ASCII or not, every combination of options, and every history of edits, index updates, searches and replacements on each kind of index",
     "Tests look for one whole word in a short text; parts of words, case with an index, scopes, multi-byte text and replacements are not sampled.",
     [ED + "utils/search/query.rs", ED + "utils/search/matching.rs", ED + "utils/search/index.rs", ED + "utils/search/incremental.rs", ED + "utils/search/trait_impl.rs",
      ED + "utils/indexing/fst_search.rs", ED + "utils/indexing/fst_build.rs", ED + "utils/indexing/linear.rs"],
     [("matches within a scope", ED + "utils/search/matching.rs: find_matches"), ("what the word index rules out", ED + "utils/search/query.rs: words_may_contain"), ("replacing", ED + "utils/search/matching.rs: replace_matches")],
     "Search.tla says which stretches of a text spell a pattern and which of them are taken; TLC checks it against the plain definition over every text of 2 (3) of twelve pieces with every option, and searches over texts of 3 (4) pieces (sampled) and seeded "
     "histories on every kind of index are compared result by result. Regular expressions are spellings of literal text or malformed ones; case is that of the Latin and Cyrillic letters used.")

prop("E10", "Built style and event lines read back as the values they were built from",
     "A style or event line built from chosen values, in the plain layout, that of a script version or a given list of fields, is read under that layout as one style or event that has in every field of the layout the value given last, or the documented default, and no issue. "
     "An empty list of fields and a field of no known name are refused. "
     "Editing an event through a builder starts from the event and rewrites exactly the type and the fields whose value changed, in whatever layout and letter case the event's format has; every other byte stays, "
     "an index with no event is refused and changes nothing, and the edit is one step to undo.",
     ["inputs", "histories"], "every setting of fields whose values have room in the layout (a comma only in a text that stands last, no line breaks), every layout, and every document, index and history of edits",
     "Tests build a handful of lines and look for substrings; the order of fields under other layouts, defaults, field names of other letter case, numbers the builder cannot hold and columns it does not know are not sampled.",
     [ED + "core/builders/event_build.rs", ED + "core/builders/event.rs", ED + "core/builders/style_build.rs", ED + "core/builders/style_format.rs", ED + "core/builders/style_setters.rs", ED + "core/document/builder_edit.rs"],
     [("values by layout", ED + "core/builders/event_build.rs: value; style_format.rs: build_with_format"), ("edit through a builder", ED + "core/document/builder_edit.rs: edit_event_with_builder")],
     "Build.tla gives the values of a layout and the rewriting of an event; TLC checks for all layouts of 3 (4) of seven fields that a line written from them reads (AssParse.tla) as them and that an edit changes the fields named and no others; "
     "those layouts and seeded settings, layouts and documents run on the real builders, and TLC reads every line they make. Lines whose values have no room are built but not judged.")

prop("E20", "Embedded fonts and graphics are added, listed and removed as they are read",
     "Adding a font or graphic puts one entry at the end of the first section of its kind (a new one if there is none), so that parsing gives the same document with this file appended and decoding it gives the bytes embedded. "
     "A name or data that would not be read back as given is refused and nothing changes. Removing takes out exactly the first file of that name, a name that only begins or contains it is another file, and no file of the name changes nothing. "
     "Clearing leaves no file of the kind in any section and everything else as it was; listing gives the names the parser reads. Header-like text in comments, values or events is no section. Each command is one step to undo.",
     ["inputs", "histories"], "every document, name, data and history of these commands",
     "Tests add two files to a one-section document and look for substrings; names that share a beginning, several sections, comments and blank lines in them, headers quoted elsewhere, missing final newlines and binary lengths are not sampled.",
     [ED + "commands/fonts_graphics_commands/add.rs", ED + "commands/fonts_graphics_commands/remove.rs", ED + "commands/fonts_graphics_commands/clear.rs", ED + "commands/fonts_graphics_commands/list.rs",
      ED + "commands/fonts_graphics_commands/section.rs", ED + "commands/fonts_graphics_commands/encoding.rs"],
     [("files of a kind and their places", ED + "commands/fonts_graphics_commands/section.rs"), ("UU-encoding", ED + "commands/fonts_graphics_commands/encoding.rs: uuencode_data")],
     "Media.tla states the commands on what a document says (the reader of AssParse.tla) and on its text; TLC checks on every document of 3 (4) of twelve pieces that they keep what they do not name, and a fixed sequence of all commands on those texts (sampled) and seeded "
     "histories on generated documents are replayed: the real text after each command, read by the specification, must say what the specification's command says, with one insertion or removal, and the data must decode (Codec.tla) to the bytes given.")

prop("E06", "Offsets, lines and columns name the same places, and edits there keep to them",
     "Every offset between characters is one line and column (counted from 1, columns in characters) and that line and column lead back to it; a column past its line, a line or column of 0 and an offset past the text are refused. "
     "A line ends before its whole line break, whichever it is. Deleting forward and backward takes whole characters, replacing to the end of a line keeps its break, indenting and unindenting change the beginnings of the lines selected and nothing else, wrapping keeps what it wraps. "
     "An edit or question at a place that does not exist is refused, changes nothing and does not panic; each edit is one step to undo. Ranges and selections contain, meet, join and extend as sets of offsets do.",
     ["inputs", "histories"], "every text with any characters and line breaks, every offset, line, column and selection, and every history of edits at them",
     "Tests convert a few positions in short ASCII text with plain newlines; CR LF, other line breaks, multi-byte characters, columns at the end of a line and invalid places are not sampled.",
     [ED + "core/position/builder.rs", ED + "core/position/points.rs", ED + "core/position/range.rs", ED + "core/position/selection.rs", ED + "core/document/text_access.rs",
      ED + "core/fluent/position.rs", ED + "core/fluent/selection.rs", ED + "core/fluent/document_ext.rs"],
     [("line and column to offset", ED + "core/position/builder.rs: build"), ("offset to line and column", ED + "core/document/text_access.rs: position_to_line_column"), ("edits at a place", ED + "core/fluent/position.rs"), ("lines of a selection", ED + "core/fluent/selection.rs")],
     "Places.tla gives a text its lines, line breaks and places and says what each edit makes of it; TLC checks over every text of 3 (4) of ten pieces that offsets and lines with columns are the same places and that edits keep to their lines; every conversion on those texts (sampled) "
     "and seeded histories on generated texts are compared with the real code. What counts as a line break is that of the default build (LF, CR LF, CR, VT, FF, NEL, LS, PS). An offset within a character has no column to compare.")

prop("R09", "Text and drawings stand where the event's position or margins say",
     "The text of an event stands where its first \\pos or \\move puts it at the frame's time, else at the edges, or the middle, that its alignment and margins give; the first valid \\an or \\a anywhere in the event decides the alignment, else its style, and a margin of zero is the style's. "
     "Each line is aligned as a whole, its runs follow each other by the widths and spacing they are drawn with and share a baseline; lines stack downwards, each break one line, an empty one half as high. "
     "A drawing is placed the same way by the box around it. What is painted is where the layers say.",
     ["inputs"], "every text of runs, breaks and drawings with any alignment, position and movement tags in any order, over any styles, margins, times and resolutions",
     "Tests place one short text with one tag.",
     [RE + "pipeline/build/position.rs", RE + "pipeline/build/text/mod.rs", RE + "pipeline/build/drawing.rs", RE + "pipeline/build/run.rs", RE + "pipeline/text_segmenter/mod.rs", RE + "pipeline/text_segmenter/apply.rs", RE + "backends/software/text/prepare.rs"],
     [("anchor and alignment", RE + "pipeline/build/position.rs"), ("lines and runs", RE + "pipeline/build/text/mod.rs"), ("painting", RE + "backends/software/text/prepare.rs")],
     "Place.tla derives the anchor, the lines and the place of each run from the event and the tags in force (Runs.tla); Place_TV compares the runs' and drawings' places with the layers the pipeline hands to its backends, taking the widths and heights of glyphs from the shaper, and for lines of one letter the box of what is painted. TLC checks alignment, anchors, movements and lines over texts of 2 (3) pieces. Word wrapping and LayoutRes are not specified.")

prop("R14", "Text is broken into lines that fit, and no others",
     "A line of an event's text ends where \\N says, and where \\n says if lines are not wrapped (WrapStyle 2, \\q2); otherwise \\n is a space, and a line too wide for the room between the margins is also broken at spaces, each break taking that one space and nothing else. "
     "No line of several words is wider than the room. Wrap style 1 puts as much on each line as fits; 0 and 3 use as few lines as that, with the widest as narrow as possible. "
     "The last valid \\q, wherever it stands, goes before the script's style. An event with a position is not wrapped.",
     ["inputs"], "every text of words, breaks and tags that leave widths alone, in any font size, scale and spacing, between any margins, under every wrap style and resolution",
     "Tests wrap two or three fixed sentences.",
     [RE + "pipeline/build/wrap.rs", RE + "pipeline/build/text/mod.rs", RE + "pipeline/build/position.rs", RE + "pipeline/build/run.rs", RE + "pipeline/text_segmenter/mod.rs"],
     [("word wrapping", RE + "pipeline/build/wrap.rs"), ("wrap style", RE + "pipeline/build/position.rs: event_wrap_style"), ("\\n", RE + "pipeline/text_segmenter/mod.rs: join_soft_breaks")],
     "Wrap.tla packs words of given widths; TLC checks against all other ways of breaking up to 6 (7) words that it takes the fewest lines and that the balanced one has the least width. Wrap_TV reads the lines off the layers of the pipeline and takes the widths of all spans of words from the shaper, with a pixel and a half of slack. Lines that mix font sizes (whose width the code takes from their first font) and runs of spaces are not generated.")

prop("C01", "Every line of a script is read as what it says, or reported",
     "Reading any text yields exactly the sections, fields, styles, events, fonts and graphics that its lines state, in order, with format lines, style inheritance and section headers honoured and byte order marks, comments and blank lines skipped. "
     "Each line that cannot be read is reported as exactly one issue and costs nothing but that line; an unknown section is reported and skipped up to the next header. "
     "Reading never panics and never refuses a text.",
     ["inputs"], "every UTF-8 text, well-formed, damaged or truncated, with any line ends, format lines and embedded media",
     "Unit tests read fixed scripts; interplay of recovery, formats, comments, media data and headers depends on arbitrary line sequences.",
     [CO + "parser/main/parse.rs", CO + "parser/main/section.rs", S + "script_info/parser.rs", S + "styles/parser.rs", S + "events/parser.rs", CO + "parser/binary_data/binary_parser.rs"],
     [("section dispatch and recovery", CO + "parser/main/section.rs"), ("field mapping by format", S + "events/parser.rs"), ("embedded media", CO + "parser/binary_data/binary_parser.rs")],
     PARSENOTE)
prop("C02", "Reported positions point at the text they describe",
     "The span of every style, event, font and graphic covers exactly its own text with the right line and column, section boundaries enclose exactly their entries, issues name the line they occur on, and looking up an offset finds the section whose extent contains it, for every document.",
     ["inputs"], "every UTF-8 text and every offset into or beyond it",
     "Tests check spans of one section at the start of a text; blank lines, comments, BOM, CRLF and later sections shift them.",
     [CO + "parser/ast/span.rs", CO + "parser/script/lookup.rs", CO + "parser/position_tracker/tracker.rs", S + "events/parser.rs", S + "styles/parser.rs"],
     [("line and offset tracking", CO + "parser/position_tracker/tracker.rs"), ("entry spans", S + "events/parser.rs")], PARSENOTE)
prop("C03", "Writing a script and reading it back loses nothing",
     "For every script whose sections each use one field list, writing it as text and reading that text yields the same sections, entries, field values, formats and version, and writing again yields the same text.",
     ["inputs"], "every readable text: custom field lists, inherited styles, all event types, embedded media, multiple sections of a kind",
     "Tests round-trip simple scripts in the default formats and compare a few substrings.",
     [CO + "parser/ast/event/serialization.rs", CO + "parser/ast/style/conversion.rs", CO + "parser/script/serialize.rs"],
     [("event writing by format", CO + "parser/ast/event/serialization.rs"), ("style writing by format", CO + "parser/ast/style/conversion.rs")], PARSENOTE)

CODECNOTE = "TLC checks Codec over every text of a few pieces of telling alphabets; those texts and seeded ones are run through the real code and validated by TLC. Bounded by the texts run."
prop("C07", "Time codes are read and written exactly",
     "A time H:MM:SS.CC reads as its exact number of centiseconds (the fraction counting centiseconds however many digits it has), anything else or anything beyond the representable range is refused, and nothing wraps around or panics. "
     "Every centisecond value written as a time reads back as the same value, and an event's duration is its end minus its start, or zero.",
     ["inputs"], "every text as a time and every representable value",
     "Tests check a dozen literals; boundaries of every field, overflow and the round trip of all values are not covered.",
     [CO + "utils/time.rs", CO + "parser/ast/event/event_struct.rs"],
     [("reading", CO + "utils/time.rs: parse_ass_time"), ("writing", CO + "utils/time.rs: format_ass_time")], CODECNOTE)
prop("C08", "Colours, hex numbers, names and UU data decode exactly",
     "A colour with six or eight hex digits, with or without its prefix and suffix, reads as exactly its red, green, blue and alpha, and every other text is refused. "
     "Hex numbers up to eight digits read exactly whichever code path is taken, and entry names are accepted exactly when free of separators and control characters. "
     "Decoding UU lines yields exactly the bytes their lengths and groups carry, so that encoding any bytes and decoding them restores them.",
     ["inputs"], "every text as colour, hex number or name, every byte string and every sequence of lines as UU data",
     "Tests check a few literals and hand-made lines; partial groups, every length, signs, mixed case and multi-byte text are not covered.",
     [CO + "utils/color.rs", CO + "tokenizer/simd/hex.rs", CO + "utils/uu.rs", CO + "utils/fields.rs", CO + "parser/ast/media/font.rs"],
     [("colour reading", CO + "utils/color.rs: parse_bgr_color"), ("UU decoding", CO + "utils/uu.rs: decode_uu_data"), ("hex reading", CO + "tokenizer/simd/hex.rs: parse_hex_u32")], CODECNOTE)
prop("C09", "Overlap analysis reports exactly the events shown together",
     "For any list of events the overlap analysis reports each pair of events that are on screen at a common instant exactly once and no other pair, events being shown from their start up to but not including their end, and the count agrees; an unreadable time is an error.",
     ["inputs"], "every list of events in any order, with ties, touching, nested, identical, empty and reversed intervals",
     "Tests check a handful of sorted lists with a couple of events.",
     [CO + "analysis/events/overlap/detection.rs", CO + "analysis/events/overlap/sweep.rs"],
     [("sweep over starts and ends", CO + "analysis/events/overlap/detection.rs: find_overlaps_generic"), ("order of simultaneous ends and starts", CO + "analysis/events/overlap/sweep.rs: cmp")],
     "TLC proves the sweep equal to the pairwise definition for up to 3 events over 4 instants; the real analysis is validated on every 3-event list over 3 instants and on seeded longer lists.")
prop("C06", "Editing a parsed script changes exactly what was asked, or nothing",
     "Updating a line at an offset, adding, removing, batching and atomically replacing entries, and setting formats change exactly the addressed entries in exactly the requested way; every other entry, its span and the section order stay. "
     "A refused operation names its reason and leaves the script as it was, an atomic batch applies wholly or not at all, the change log lists each change once, and the diff of two scripts names exactly the sections and fields that differ.",
     ["histories", "inputs"], "every history of edits on every parsed script, with any line contents, offsets and formats",
     "Tests perform one edit on a two-entry script; histories, addressing after edits, failing batches and change logs over them are not covered.",
     [CO + "parser/script/update.rs", CO + "parser/script/mutate.rs", CO + "parser/script/batch.rs", CO + "parser/script/tracking.rs", CO + "parser/script/auto.rs"],
     [("line updates by offset", CO + "parser/script/update.rs"), ("batches", CO + "parser/script/batch.rs"), ("change log and diff", CO + "parser/script/tracking.rs")],
     "TLC explores every sequence of up to 2 (thorough 3) of 64 operations of ScriptMut and checks atomicity and framing; those and seeded histories on generated documents run on the real Script and are validated step by step by TLC. Bounded by the histories run.")
prop("C12", "Text analysis splits visible text from override tags exactly",
     "For every event text the plain text is the text outside override blocks with its escapes resolved, the override tags are exactly those written in the blocks, each with its name, arguments and position, and line breaks, character counts and drawing state follow from them; no text makes the analysis panic, and no character is lost, invented or split.",
     ["inputs"], "every UTF-8 text with any nesting and damage of braces, backslashes and tags",
     "Tests analyse a few well-formed texts; unclosed blocks, stray backslashes, multi-byte text next to them and adjacency of tags are not covered.",
     [CO + "analysis/events/text_analysis/analysis.rs", CO + "analysis/events/text_analysis/parser.rs", CO + "analysis/events/tags/parser.rs", CO + "analysis/events/line_breaks.rs"],
     [("text walk", CO + "analysis/events/text_analysis/analysis.rs"), ("tag parsing", CO + "analysis/events/tags/parser.rs")],
     "TLC checks TagText over every text of a few telling pieces (plain text is a subsequence, tag count, reassembly); those texts and seeded ones run through the real analysis and are validated by TLC. Bounded by the texts run.")
prop("C14", "The extension registry dispatches to the one owner of each name",
     "A name of a tag handler or section processor has exactly one owner from its registration until it is removed or the registry is cleared; a second registration is refused and changes nothing, and every call goes to the owner with exactly the given arguments. "
     "Reading a script with a registry yields the same sections and issues as reading it without, shows each unknown section's header and lines to the owner of exactly that name, and reports its answer once at that section.",
     ["histories", "inputs"], "every history of registrations, removals and calls, and every script read in between",
     "Tests register a couple of handlers and read one small unknown section.",
     [CO + "plugin/registry.rs", CO + "parser/main/registry.rs", CO + "plugin/sections/aegisub/processors.rs", CO + "parser/script/builder.rs"],
     [("registration and dispatch", CO + "plugin/registry.rs"), ("unknown sections shown to processors", CO + "parser/main/registry.rs: try_process_with_registry")],
     "TLC explores every history of up to 3 (thorough 4) registry operations of Plugins; those and seeded histories with recording handlers and generated documents are validated by TLC. Bounded by the histories run.")
prop("C16", "Built-in tag handlers accept exactly well-formed arguments",
     "For every built-in override tag, its handler accepts exactly the argument texts that are well formed for that tag (toggles, weights, ranges, numbers, colours, alphas, points, parenthesised lists with their counts and bounds), validation and processing agree, "
     "and an override block read with all handlers registered is diagnosed as malformed exactly where a tag's arguments are not.",
     ["inputs"], "every argument text for every built-in tag, alone and inside override blocks",
     "Tests check a few accepted and refused literals per handler and never run a handler on what the tag reader hands over.",
     [CO + "plugin/tags/position/position_handler.rs", CO + "plugin/tags/position/move_handler.rs", CO + "plugin/tags/animation/fade_handlers.rs", CO + "plugin/tags/color/validation.rs", CO + "plugin/tags/transform/validation.rs", CO + "plugin/tags/formatting.rs", CO + "plugin/tags/clipping/clip_handler.rs", CO + "analysis/events/tags/registry_parser.rs"],
     [("argument grammars", CO + "plugin/tags/"), ("diagnosis from handler answers", CO + "analysis/events/tags/registry_parser.rs")],
     "TLC checks TagArgs over every text of up to 2 (thorough 3) pieces for every tag; every such text of 3 pieces (sampled) and seeded near misses run through the real handlers and are validated by TLC. inf/nan and exponents beyond single precision are left open.")

prop("C10", "Lint reports exactly the issues the rules define",
     "For every script each lint rule reports exactly the lines and values that break it (overlapping or non-positive durations, unreadable colours in styles and override tags, references to styles that do not exist or cannot be read, damaged tags, oversized or overloaded lines, control and replacement characters, lines too short or too fast to read), in order and with its severity. "
     "Any configuration reports exactly the selected rules' issues of at least the asked severity, cut to the asked number, and linting never panics.",
     ["inputs"], "every script, every configuration of enabled and disabled rules, severity and limit",
     "Tests give each rule one clean and one broken script.",
     [CO + "analysis/linting/runner.rs", CO + "analysis/linting/rules/accessibility/rule.rs", CO + "analysis/linting/rules/invalid_color/rule.rs", CO + "analysis/linting/rules/encoding/rule.rs", CO + "analysis/linting/rules/missing_style/rule.rs", CO + "analysis/construction.rs"],
     [("rules", CO + "analysis/linting/rules/"), ("selection and limits", CO + "analysis/linting/runner.rs")],
     "The lint part of Analysis.tla is evaluated by TLC on the document its own reader reads, for seeded scripts around every threshold; the real linter's full, configured, per-category and per-rule reports are validated against it. Bounded by the scripts run; the digits of the reading speed are not compared.")
prop("C11", "Styles resolve through their parents whatever their order",
     "Every style resolves to its own values and, where it leaves one out, to its parent's resolved value, whatever the order of definitions and the depth of inheritance; scaling to the play resolution is applied to every value exactly once. "
     "Missing parents, cycles and repeated names are each reported exactly once and leave styles standing for themselves; a style with an unreadable value is left out and affects no other; complexity and validation issues follow from the resolved values.",
     ["inputs"], "every style section: any order, parents, cycles, repeated names, omitted and damaged values, any resolutions",
     "Tests resolve two or three styles written parent first, mostly without scaling.",
     [CO + "analysis/styles/analyzer/analysis.rs", CO + "analysis/styles/analyzer/dependency.rs", CO + "analysis/styles/resolved_style/inheritance.rs", CO + "analysis/styles/resolved_style/from_style.rs", CO + "analysis/styles/resolved_style/scaling.rs"],
     [("resolution order", CO + "analysis/styles/analyzer/dependency.rs"), ("inheritance", CO + "analysis/styles/resolved_style/inheritance.rs"), ("scaling", CO + "analysis/styles/resolved_style/scaling.rs")],
     "TLC proves a worklist resolution order-independent and equal to Analysis' definition for every three styles (parents, cycles, omitted and damaged values); seeded style sections run through the real analyzer and are validated by TLC with exact fractions. Bounded by the sections run; values are dyadic so that single precision is exact.")
prop("C17", "Line facts, time queries and summaries follow from the script",
     "Exactly the lines with readable times, a positive duration and readable text are analysed, in order; their times, durations, scores and impact follow from their text and times. Pairwise relations, overlap lists, range queries, sorting (stable, by start then end), the total span, the average duration and the performance summary agree with those facts for every script, without overflow at any time the format can express.",
     ["inputs"], "every events section, including ties, reversed and extreme times and any text",
     "Tests analyse two or three well-formed events.",
     [CO + "analysis/events/dialogue_info/analyze.rs", CO + "analysis/events/dialogue_info/accessors.rs", CO + "analysis/events/utils/duration.rs", CO + "analysis/events/utils/ordering.rs", CO + "analysis/events/scoring/calculators.rs", CO + "analysis/queries.rs"],
     [("line facts", CO + "analysis/events/dialogue_info/analyze.rs"), ("queries and summary", CO + "analysis/queries.rs")],
     "The line part of Analysis.tla is evaluated by TLC on the document its own reader reads; seeded documents with ties, thresholds and extreme times, and documents large enough for the summary thresholds, are validated. Bounded by the documents run.")

prop("C05", "Incremental parsing equals parsing the new text",
     "After any edit, parsing incrementally gives the script that parsing the whole new text gives: the same sections, items, positions, issues and text, whatever the edit touches (section headers, format lines, line ends, several sections, the very start or end) and however many edits came before. "
     "The delta between two scripts names exactly the sections that were added, changed or removed, each section being compared with its own counterpart.",
     ["inputs", "histories"], "every script, every replaced range and replacement text, every sequence of edits",
     "Tests edit one value inside one section of a well-formed script; headers, merged or split sections and shifted positions are not compared with a full parse.",
     [CO + "parser/script/incremental.rs", CO + "parser/script/partial.rs", CO + "parser/script/delta.rs", CO + "parser/incremental/range_adjust.rs", CO + "parser/incremental/section_bounds.rs"],
     [("reparse of affected sections", CO + "parser/script/incremental.rs: parse_incremental"), ("delta", CO + "parser/script/delta.rs")],
     "TLC states the merge of kept and reparsed sections and proves it equal to AssParse of the new text for every replacement of lines in five documents; those edits and seeded sessions run through the real code, each result is validated by TLC against AssParse. Bounded by the sessions run.")
prop("C04", "Streaming a script gives the same result in every chunking",
     "Feeding a script to the streaming parser in chunks of any sizes, cut inside a character, a line or a line end, yields the same lines, sections and parser state as feeding it at once; bytes that are no text are refused with an error and change nothing, wherever the chunks were cut. "
     "Finishing flushes the last line exactly once, and a cleared or finished parser starts afresh.",
     ["inputs", "schedules", "histories"], "every text, valid or damaged, every way of cutting it into chunks, with clearing and finishing in between",
     "Tests cut one ASCII script at one or two places on line boundaries.",
     [CO + "parser/streaming/parser.rs", CO + "parser/streaming/source.rs", CO + "parser/streaming/processor/line_processor.rs", CO + "parser/streaming/state/parser_state.rs", CO + "parser/streaming/state/section_kind.rs"],
     [("reassembly of cut characters and lines", CO + "parser/streaming/parser.rs"), ("line state machine", CO + "parser/streaming/processor/line_processor.rs")],
     "TLC proves every chunking of short byte strings equivalent to one feed in Stream.tla; all short chunk sequences and seeded cuttings run on the real parser, whose state (read through a cfg(ass_verif) hook) is validated after each chunk. The result's version and section list are stubs in the code and are not claimed.")
prop("C13", "Tokens tile the text and the two builds agree",
     "Tokenizing any text ends, loses no character and never panics; each token carries the exact text, kind, line and column of what it covers, tokens are in order without overlap, and a damaged or overlong construct is one issue at its place. "
     "The vectorised and the scalar build produce the same tokens, and the delimiter scan, hexadecimal reader and UTF-8 validator agree with their plain definitions at every length and alignment.",
     ["inputs", "configurations"], "every text with any mix of delimiters, line ends, wide characters and lengths around the vector width, in both builds",
     "Tests read short ASCII lines; positions after vectorised scans, wide characters and differences between the builds are not compared.",
     [CO + "tokenizer/ass_tokenizer.rs", CO + "tokenizer/next_token.rs", CO + "tokenizer/scanner/navigator.rs", CO + "tokenizer/scanner/text_scanner.rs", CO + "tokenizer/scanner/token_scanner.rs", CO + "tokenizer/simd/delimiters.rs", CO + "tokenizer/simd/hex.rs", CO + "tokenizer/simd/utf8.rs"],
     [("scanner", CO + "tokenizer/scanner/"), ("vectorised helpers", CO + "tokenizer/simd/")],
     "TLC checks tiling and progress of Tokens.tla over every sequence of up to 3 (5) pieces; those texts and seeded ones run through both builds and every token is validated. The 50-token limit of tokenize_all is pinned by a test and specified as it is.")
prop("C15", "Text clean-up repairs exactly what is damaged",
     "Repairing bytes replaces exactly the damaged parts by U+FFFD, keeps everything else, and counts its replacements; validation names the first damaged byte; cutting never splits a character nor exceeds the limit. "
     "Byte order marks are recognised by their longest match, line ends and white space are normalised idempotently without touching other characters, and encoding detection follows the bytes alone.",
     ["inputs"], "every byte sequence, valid or damaged, with any marks, line ends, white space and control characters",
     "Tests use one or two short byte strings for each helper.",
     [CO + "utils/utf8/validation/recovery.rs", CO + "utils/utf8/validation/truncate.rs", CO + "utils/utf8/normalization/line_endings.rs", CO + "utils/utf8/encoding/detection.rs", CO + "utils/utf8/bom.rs"],
     [("repair", CO + "utils/utf8/validation/recovery.rs"), ("normalisation", CO + "utils/utf8/normalization/"), ("detection", CO + "utils/utf8/encoding/detection.rs")],
     "TLC checks the laws (idempotence, validity, counting) over every sequence of up to 3 (5) of 19 telling bytes; those and seeded inputs run through the real helpers and are validated. The start of the last line when the position is at the end of the text is pinned by a test and left open.")

prop("E07", "Sessions stay separate, limited and correctly accounted for",
     "Every operation on a session reads or changes that session's document alone, and one naming an unknown session is refused and changes nothing. "
     "There are never more sessions than configured, the active session is one that exists, statistics always equal what is held, only completed edits count as operations, and clean-up removes exactly the sessions not accessed for the given time, if enabled.",
     ["histories", "configurations"], "every history of creating, replacing, switching, editing, removing and cleaning up sessions through any clone of the manager",
     "Tests create two or three sessions and remove one; replacing, limits after removal and failed edits are not covered.",
     [ED + "sessions/lifecycle.rs", ED + "sessions/access.rs", ED + "sessions/session.rs", ED + "sessions/manager.rs"],
     [("lifecycle and limits", ED + "sessions/lifecycle.rs"), ("document access and clean-up", ED + "sessions/access.rs")],
     "TLC explores Sessions.tla over two names and all histories of 4 (5) operations; those of 3 (4) and seeded longer ones run through the real manager and each step is validated. Ages are tested relative to a recorded moment.")
prop("E08", "Events reach exactly the matching handlers in priority order",
     "A dispatched event is delivered exactly once to every registered handler whose filter accepts it, highest priority first and in order of registration among equals, and to no other; a handler's failure is reported and ends that dispatch. "
     "Handler identifiers are never reused, limits on handlers hold, an unregistered handler hears nothing more, queued events arrive in order, and statistics count exactly what happened.",
     ["histories", "configurations"], "every history of registrations with any filters and priorities, removals, single, batched and queued events, and failing handlers",
     "Tests register one or two handlers and dispatch one event.",
     [ED + "events/dispatch.rs", ED + "events/registry.rs", ED + "events/filter.rs", ED + "events/channel.rs", ED + "events/event_query.rs"],
     [("dispatch", ED + "events/dispatch.rs"), ("filters", ED + "events/filter.rs: matches"), ("order and limits", ED + "events/registry.rs")],
     "TLC explores Channel.tla over six kinds of handlers and three events; those histories and seeded ones over all event types run through the real channel, and who was told what is validated. Processing times are not compared.")
prop("E09", "Extensions follow their life cycle and keep to their own commands",
     "An extension is loaded only once and only when what it depends on is loaded; it offers its commands from a successful initialisation until it is unloaded, a command runs in the extension that registered it last, and unloading removes everything it owned. "
     "A failed initialisation or shutdown is reported and visible as its state; operations on unknown extensions change nothing. Extensions may use the configuration and data of the manager while it runs them.",
     ["histories", "fault_sequences"], "every history of loading, initialising, running and unloading extensions with dependencies, shared commands and failures",
     "Tests load one extension and call it directly, not through the manager.",
     [ED + "extensions/manager_loading.rs", ED + "extensions/manager_access.rs", ED + "extensions/manager_lifecycle.rs", ED + "extensions/manager.rs", ED + "extensions/context.rs"],
     [("life cycle", ED + "extensions/manager_loading.rs"), ("commands, configuration and data", ED + "extensions/manager_access.rs")],
     "TLC explores ExtLife.tla over two extensions; those histories and seeded ones over three run through the real manager with extensions that use their context, and calls, states, commands and data are validated. Events and messages sent by extensions only go to the console and are not claimed.")

RE = "crates/ass-renderer/src/"
prop("R01", "The subtitles selected for a time are exactly the active ones",
     "At every time the selected events are exactly those whose start has come and whose end has not, in file order, comments only when asked for, whatever script or time was selected before and wherever it lies in memory. "
     "What is reported as newly active or no longer active is exactly the difference from the last call, and a selection is only called unchanged if nothing that is shown can have changed.",
     ["inputs", "histories"], "every list of events with any times, every sequence of times, scripts and settings",
     "Tests select once or twice from one script that stays in place.",
     [RE + "renderer/event_selector.rs", RE + "renderer/time_index.rs"],
     [("selection", RE + "renderer/event_selector.rs: select_active"), ("time index", RE + "renderer/time_index.rs")],
     "TLC explores Select.tla over all histories of 4 (5) calls on seven scripts; those and seeded ones run through the real selector with each script parsed from the same reused buffer, and every selection is validated. Times beyond 2^31 centiseconds are not covered.")
prop("R04", "Colliding subtitles are moved apart and stay on screen",
     "A subtitle placed among others of its layer ends where it overlaps none of them, margins included, moving only up (bottom alignments) or down (others) and only as far as needed; one that collides with nothing does not move, and positions are then kept on the screen. "
     "Other layers are ignored; in the priority variant subtitles with enough priority stay and the others give way in order of priority; a free place found is free.",
     ["inputs", "histories"], "every sequence of placed, fixed and cleared boxes of any size, alignment, layer and priority on any screen",
     "Tests place two overlapping boxes.",
     [RE + "collision/mod.rs", RE + "collision/resolver.rs"],
     [("placement", RE + "collision/mod.rs: find_position"), ("priorities and free places", RE + "collision/resolver.rs")],
     "TLC proves non-overlap, direction and screen bounds of Collide.tla over every sequence of 3 (4) placements of 27 boxes; those and seeded ones run through the real resolvers, each answer validated in half pixels. Bounded by the histories run.")
prop("R06", "The render cache answers with what was stored and keeps its limits",
     "A look-up answers with the value last stored under exactly that key or not at all; shaped text and drawings do not mix. "
     "Each side never holds more than its limit, an entry is dropped only when a new one needs room, a limit of zero holds nothing, clearing forgets everything, and hits, misses and evictions are counted exactly.",
     ["histories", "configurations"], "every sequence of stores, look-ups and clears, every limit and keys that differ in any one part",
     "Tests store and read two entries far from the limit.",
     [RE + "cache/mod.rs"],
     [("stores with eviction", RE + "cache/mod.rs: store_shaped_text, store_drawing_path")],
     "Caches.tla keeps the set of all contents that any choice of evicted entries allows, so no order of eviction is prescribed; TLC checks it over all histories of 5 (6) operations and validates real histories against it. GlyphCache's key type is not exported, so it is out of reach.")
prop("R07", "Atlas regions lie inside the atlas and never overlap",
     "Every region a texture atlas hands out has the size asked for, lies inside the atlas and overlaps no other; what cannot fit is refused without disturbing anything. "
     "Writing to a region changes its own pixels only, all of those the data covers, and clearing makes the atlas new.",
     ["inputs", "histories"], "every sequence of allocations of any size, writes with complete or short data, and clears, on every atlas size",
     "Tests allocate two small regions.",
     [RE + "utils/caches.rs"],
     [("allocation", RE + "utils/caches.rs: allocate"), ("writes", RE + "utils/caches.rs: write_region")],
     "Atlas.tla says which answers are allowed, not how to pack; TLC checks that row packing satisfies it over all histories of 4 (5) operations, and validates every answer and every pixel of real histories. Bounded by the histories run.")
prop("R12", "Dirty regions cover everything that was marked",
     "Until they are cleared, the listed dirty regions cover every region that was marked, list nothing outside the bounding box of what was marked, and are never more than the regions marked. "
     "Merging two regions gives their exact bounding box; intersection, point and area queries agree with the pixels the regions contain.",
     ["inputs", "histories"], "every sequence of marked regions of any position and size, including empty ones, and clears",
     "Tests merge one pair.",
     [RE + "utils/regions.rs", RE + "renderer/event_selector.rs"],
     [("merging", RE + "renderer/event_selector.rs: add_dirty_region")],
     "TLC checks coverage of Regions.tla over all histories of 3 (4) operations; those and seeded ones run through the real code and each list is validated. Whether regions that only touch intersect is left open.")
prop("R02", "A frame depends on nothing but what it shows",
     "A rendered frame is determined by the frame size, the script's settings and styles, the events active at the time and, only if one of them changes while shown, the time. "
     "Whatever this renderer, another one or another script rendered before has no part in it: every cache is invisible. A frame has the size asked for, carries its time, and is empty when nothing is active.",
     ["inputs", "histories"], "every sequence of scripts, sizes and times, and every script made of the tags, styles and settings the renderer knows",
     "Tests render a new script with a new renderer.",
     [RE + "renderer/mod.rs", RE + "renderer/frame_key.rs", RE + "backends/software/cache/coverage.rs", RE + "backends/software/cache/blur_tile.rs", RE + "pipeline/shaping/mod.rs"],
     [("static frame reuse", RE + "renderer/mod.rs: render_frame"), ("coverage tiles", RE + "backends/software/cache/coverage.rs")],
     "Frames.tla states what a frame depends on; TLC generates every history of 4 operations over seven scripts that differ in one part each, and with seeded ones over all tags each frame's digest is compared with that of the same key and with a fresh renderer on a fresh thread. Bounded by the histories run; embedded fonts are not covered.")
prop("R03", "An incremental frame equals a full one",
     "Rendering a frame from an earlier one gives exactly the pixels of rendering it from nothing, whichever earlier frame it starts from and whatever was shown in between.",
     ["inputs", "histories"], "every sequence of scripts, sizes and times and every choice among the earlier frames",
     "Tests update one frame in which nothing overlaps.",
     [RE + "renderer/mod.rs", RE + "backends/software/mod.rs"],
     [("incremental rendering", RE + "renderer/mod.rs: render_frame_incremental")],
     "As R02, with incremental frames from any of the last three frames among the operations. Bounded by the histories run.")
prop("R10", "The bitmaps of a frame, laid over each other, are the frame",
     "The list of positioned bitmaps for a time, laid over each other in order, gives the frame rendered for that time up to the rounding of each blend, whatever was rendered before; nothing of one layer turns up in another's bitmap, and what is not blurred holds no more colour than its opacity leaves room for.",
     ["inputs", "histories"], "every script made of the tags, styles and settings the renderer knows, every time and every earlier rendering",
     "Tests compare two plain lines of text.",
     [RE + "backends/software/mod.rs", RE + "backends/software/dirty.rs", RE + "backends/coverage/composite.rs"],
     [("bitmap list", RE + "backends/software/mod.rs: render_to_bitmaps"), ("cropping", RE + "backends/software/dirty.rs")],
     "As R02, with bitmap lists flattened in exact arithmetic by the harness and the difference to the frame judged by Frames_TV.tla within a bound on the rounding. Blurred colours saturate in an order of their own (listed finding), so of frames with blur only the opacity is compared.")
prop("R08", "Text is drawn as the tags in force over it say",
     "Every byte of an event's text that is not a tag, and no other, is drawn once and in order, with what its style and the override tags before it put in force at the frame's time: font, size, spacing, bold, italic, underline, strike-out, the four colours and opacities, border, shadow, blur, rotation, origin, slant, scale, clip and karaoke. A tag with no argument returns to the style; \\bord and \\shad replace both axes; \\r drops what was set for the text, switches to the style it names and keeps what holds for the line; \\t moves from what was in force towards its tags as far as its time has gone; a syllable is sung from where the one before it ended; \\fad and \\fade dim every colour; a tag that is not one, or a comment in a block, changes nothing.",
     ["inputs"], "every text of pieces, tag blocks, nested animations, resets and drawings, over any styles, event times, script resolutions and frame times",
     "Tests look at one tag at a time at one time.",
     [RE + "pipeline/text_segmenter/apply.rs", RE + "pipeline/text_segmenter/split.rs", RE + "pipeline/text_segmenter/mod.rs", RE + "pipeline/build/text/mod.rs", RE + "pipeline/build/text/colors.rs", RE + "pipeline/build/text/effects.rs", RE + "pipeline/build/text/defaults.rs", RE + "pipeline/build/animation.rs", RE + "pipeline/transform/mod.rs", RE + "pipeline/build/run.rs", RE + "pipeline/build/style.rs"],
     [("tags in force", RE + "pipeline/text_segmenter/apply.rs"), ("blocks", RE + "pipeline/text_segmenter/split.rs"), ("\\t", RE + "pipeline/transform/mod.rs"), ("values drawn", RE + "pipeline/build/text/mod.rs")],
     "Runs.tla walks the pieces of a text keeping what is in force, from which it derives the look of each; Runs_TV compares it with the layers the renderer's pipeline hands to its backends, byte by byte. TLC checks the walk over texts of 2 (3) blocks of 23 tags at three times. Generated texts keep WrapStyle 2, scripts whose scale is the same on both axes, \\t accelerations of 1 and 2, and set no single axis or colour after a \\t of all of them.")

prop("R13", "A drawing's outline is what its commands say",
     "The outline built for a drawing consists of exactly the segments its commands describe (moves, lines, Bézier curves, b-splines, closing), each point where the text says and in order, each figure closed; what an override tag or a wrong number cuts off is cut off there and nowhere else, "
     "a drawing that cannot be read yields none, and no drawing text makes the renderer fail.",
     ["inputs"], "every text as a drawing: every command with any number of points, any spelling of numbers and white space, right and wrong",
     "Tests draw a square and a single curve.",
     [RE + "pipeline/drawing/mod.rs", RE + "pipeline/drawing/parse.rs"],
     [("tokens and commands", RE + "pipeline/drawing/parse.rs"), ("outline", RE + "pipeline/drawing/mod.rs")],
     "Draw.tla reads the text byte by byte and computes the outline in exact 600ths; TLC checks it over every sequence of 3 (4) words, and every outline the real code builds for those of 4 (5) words and for seeded ones is compared segment by segment. Numbers with more than two decimals are not generated.")
prop("R05", "A frame of drawings shows each at its place, colour and opacity",
     "A frame shows exactly the drawings active at its time, laid over each other by layer, start and order, each with its style's or its tags' colour and opacity, faded as \\fad or \\fade says, at the place that \\pos, \\move, the alignment, the margins and the script's resolution give it, scaled by the level of \\p, and only inside (or outside) its clip; the rest of the frame is transparent.",
     ["inputs"], "every list of events of drawings with any of these tags in any order, any styles, script and frame sizes, and every time",
     "Tests check that a drawing makes some pixel visible.",
     [RE + "pipeline/build/drawing.rs", RE + "pipeline/build/position.rs", RE + "pipeline/build/text/colors.rs", RE + "pipeline/tag_processor/mod.rs", RE + "backends/software/vector.rs"],
     [("colour, fade, alignment", RE + "pipeline/build/drawing.rs"), ("tags", RE + "pipeline/tag_processor/mod.rs"), ("painting", RE + "backends/software/vector.rs")],
     "Paint.tla computes each pixel's colour with exact fractions from the shapes, tags and times, and Paint_TV compares every pixel no edge runs through, within the rounding of each blend. TLC checks it over stacks of 2 (3) events. Shapes are rectilinear; curves are R13's.")
