"""The properties, and how each is decided. tools/mkmeta.py writes
properties.jsonl and MANIFEST.json from this table."""

AI = "abstract interpretation of the source (relational numeric domain, trace partitioning, loop invariants by fixpoint)"

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                   files=files, mech=mech, reason=reason))


prop("P07", "Position lookups in a tree give the documented node",
     "For every tree and every position, looking up a token or context by position gives exactly the node the documentation "
     "promises: the first one that ends after the position, the last one that starts before it, the first one that starts at "
     "or after it, or the last one that ends at or before it, in the whole depth of the tree, together with the trail of indices "
     "that leads to it. Nothing is found only if no such node exists. The first and last token, the start and the end of a "
     "context, and the index of a node in its parent are those of its outermost descendants.",
     ["inputs"], "all trees whose nodes are sorted by position, all positions",
     "The tests look up a few positions in a few small trees; off-by-one errors of the binary searches show at specific boundaries only.",
     ["parce/tree.py", "parce/treebuilderutil.py"],
     [("binary searches", "parce/tree.py:Context.find*"), ("descending", "parce/tree.py:Context.first_token, last_token, pos, end")],
     AI, "Proves for all trees and positions that the returned index is the boundary index of the sorted children on every level.")

prop("P09", "Edits of a text are applied exactly, completely, all or nothing",
     "After an edit, or after an edit context with any number of edits in any order, the text of a document is the old text with "
     "exactly the given ranges replaced by the given texts; edits that overlap are refused, edits that do not are accepted. When "
     "an edit context ends with an exception, or its edits are refused, the text stays as it was, and later edits work as usual. "
     "The position and the numbers of removed and added characters are reported once per change, and describe it exactly; "
     "every edit increases the revision and marks the document as modified.",
     ["inputs", "histories", "fault_sequences"], "all texts, all sequences of edits and nested edit contexts, with exceptions anywhere",
     "The tests make a handful of edits; combinations of several edits in one context and failing contexts are hardly sampled.",
     ["parce/mutablestring.py", "parce/document.py"],
     [("recording and applying edits", "parce/mutablestring.py:AbstractMutableString.__setitem__, __exit__, _apply_changes, _get_changes"),
      ("building the new text", "parce/mutablestring.py:MutableString._update_text"),
      ("replacing", "parce/document.py:AbstractDocument.replace, re_sub")],
     AI, "Proves per function, for any number of edits, the pieces of the new text, the bookkeeping of edit contexts and the reported numbers.")

prop("P10", "Undo and redo restore the text exactly",
     "After any sequence of edits, each call to undo takes back exactly the last edit context that was not yet undone, giving the text before "
     "it character by character, and each redo repeats it exactly. A new edit makes nothing redoable, undoing and redoing do "
     "not lose other steps, and both are refused inside an edit context. The modified state comes back with the text, except that "
     "after the document was set unmodified all other states count as modified.",
     ["inputs", "histories"], "all texts and all histories of edits, undo, redo and setting the modified state",
     "A test undoes one or two small edits; the offsets of later edits in one context only matter for specific combinations.",
     ["parce/document.py"],
     [("reverse edits", "parce/document.py:Document._reverse_changes"), ("stacks", "parce/document.py:Document._store_undo, _apply_undo_redo")],
     AI, "Proves for any number of edits that the stored reverse edits are exact, and the effect of edit, undo and redo on the stacks in every mode.")

prop("P11", "Cursors follow the text they point at",
     "When a document is edited, by one or by any number of edits in one go, every cursor of the document is adjusted: a cursor "
     "position at or before an edit stays, one inside the replaced text moves to its start, one after it moves along with the text; "
     "an end of a selection before an edit stays, one inside (or at its borders) moves to the end of the new text, one after it moves "
     "along. An open end stays open.",
     ["inputs", "histories"], "all cursors, all lists of edits applied in one go",
     "The tests move one or two cursors with single edits; several edits at once need the accumulated offset.",
     ["parce/document.py"],
     [("updating", "parce/document.py:AbstractDocument._update_text"), ("registering", "parce/document.py:Cursor.__init__")],
     AI, "Proves the adjustment for every cursor and any number of edits, with the accumulated offset as loop invariant.")

prop("P27", "Blocks partition the text at the block separators",
     "For every text and block separator (of any length): the block of a position starts after the last separator that ends at or before the position (or at 0) "
     "and ends at the first separator from there (or at the end of the text); the next and previous block are separated from it by exactly one "
     "separator and are missing only at the ends of the document; finding by number (positive or negative) and the stored block numbers count the blocks "
     "exactly, the number of blocks is the number of separators plus one, and iterating yields the block of the start position and then every block "
     "that starts before the end position, in order.",
     ["inputs"], "all texts, separators, positions, block numbers and ranges",
     "The tests count blocks of a small text; empty last blocks, separators longer than one character and ends inside a block need specific texts.",
     ["parce/document.py"],
     [("searching", "parce/document.py:AbstractDocument.find_start_of_block, find_end_of_block, find_block"),
      ("counting", "parce/document.py:AbstractDocument.find_block_by_number, block_count, Block.block_number"),
      ("walking", "parce/document.py:AbstractDocument.blocks, Block.next_block, Block.previous_block")],
     AI, "Proves the borders, numbers and order of the blocks for all texts and numbers, with counting invariants for the loops.")

prop("P01", "Tokens are exact pieces of the text, in order, without unexplained gaps",
     "For every text, start position and lexicon: every token's text is the slice of the text at the token's position, also for tokens made of "
     "the subgroups of a match or by a delegate lexicon; tokens never overlap and are in order. A token has the action and the target of the rule whose "
     "pattern matched there. Text that no pattern matches gets the default action if there is one (never skipped, never containing a match), or "
     "leads to the default target if there is one (where the current position does not match); otherwise it is skipped. Lexing ends only at the end of the text or where nothing "
     "matches any more. Whether a lexicon is compiled to a literal search or to a regular expression makes no difference.",
     ["inputs"], "all texts, start positions and kinds of lexicons (none, one literal, one or more other patterns; default action static, dynamic, default target, none)",
     "There are ten differently optimised parse functions; tests run a few of them on a few texts.",
     ["parce/lexicon.py", "parce/lexer.py", "parce/ruleitem.py"],
     [("the parse functions", "parce/lexicon.py:Lexicon._get_parse_function"),
      ("actions that give several tokens", "parce/ruleitem.py:SubgroupAction.replace, DelegateAction.replace; parce/lexer.py:Lexer.filter_actions")],
     AI, "Analyses the function that is built for every kind of lexicon, for all texts and positions, with the meaning of find, match and finditer as axioms.")

prop("P02", "The lexer's stack of lexicons and its events agree, and lexing ends",
     "For every text and language: the targets in the events, taken together, describe exactly how the lexer's stack of lexicons changes (how many lexicons "
     "are left, which are entered, in order); the root lexicon is never left; a token that leads into a lexicon belongs to the old lexicon, or to the new one "
     "if that consumes it; every non-empty token is in exactly one event; lexing continues right after a token with the lexicon on top of the stack. Targets "
     "that follow each other combine to one target with the same effect. A rule's targets have their documented meaning: negative numbers leave, positive "
     "numbers repeat the current lexicon, lexicons are entered. Patterns that match the empty string cannot make the lexer go back and forth between lexicons forever.",
     ["inputs"], "all sequences of matches and targets, including empty matches",
     "Tests lex small texts; leaving more lexicons than there are, combining targets and empty matches need specific rules and texts.",
     ["parce/lexer.py", "parce/target.py"],
     [("events", "parce/lexer.py:Lexer.events"), ("combining targets", "parce/target.py:TargetFactory.add, pop, push, get, make")],
     AI, "Proves for every match the agreement of stack, target factory and events, and for all states that the factory composes targets.")

prop("P04", "No change of the text is lost; the tree builder always becomes idle again",
     "Whatever the order and the moment in which updates are requested, also while the builder is building, replacing or finishing, and whatever fails: "
     "every requested change is queued before anything else happens and is either built into the tree or still queued for the next time; processing is started exactly "
     "if the builder is idle; when processing ends, in any way, the builder is idle, and it becomes idle only when nothing is queued. No callback runs "
     "while the lock is held. The range that is reported contains the ranges of all changes that were built, in the coordinates of the newest text, and "
     "the open lexicons are those of the newest complete build.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of update requests with the stages of the process, exceptions and closing at every stage and callback",
     "Tests run one update at a time in one thread; a change that arrives at the wrong moment or a failing callback is never sampled.",
     ["parce/treebuilder.py", "parce/work.py"],
     [("the process", "parce/treebuilder.py:TreeBuilder.process"), ("requests", "parce/treebuilder.py:TreeBuilder.rebuild, add_changes; parce/work.py:Worker.update")],
     AI, "Lock and typestate analysis of every path through the generator: queue, busy flag and lock as ghost state, exceptions at every yield and callback.")

prop("P05", "Nobody waits forever or gets an unfinished tree or transform",
     "For every schedule of threads: waiting for the tree or the transform ends, and only when it is ready; asking for it returns it only when it is ready, otherwise nothing, "
     "and a given callback is called once when it is finished. Those who wait for the tree are woken when the tree is built, before the transform runs. Whatever fails while "
     "processing (or if processing is abandoned), all that wait are woken. A process that has been overtaken by a newer one does not announce the newer one as finished. After "
     "processing, the transformer that was set last has been run on the new tree, and has been told which contexts became invalid and when the tree is replaced; setting one while nothing is processed starts it, otherwise no second process is started. "
     "No lock is held while callbacks, builds or transforms run.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of the process with requests, exceptions at every stage and callback",
     "The tests use a worker that runs in the same thread, or wait for a background thread that is never disturbed.",
     ["parce/work.py"],
     [("the process", "parce/work.py:Worker.process, start, set_transformer, slot_invalidate, slot_replace"), ("waiting and asking", "parce/work.py:Worker.wait_build, wait_transform, get_root, get_transform")],
     AI, "Lock and typestate analysis of every path; shared fields may change whenever their lock is not held.")

prop("P12", "Changes that were queued together are merged into one that covers them all",
     "For all edits of a text, in any number and at any positions: the merged change starts at or before, and ends at or after, every one of the edits, in the coordinates "
     "of the newest text; the text before it and after it is unchanged, and its numbers of removed and added characters fit the length of the newest text. The newest text "
     "and the newest root lexicon count. A position of the old text is translated to its place in the new text: before the change it stays, inside it moves to its end, after it it shifts.",
     ["inputs", "histories"], "all sequences of edits: before, after, overlapping, containing each other",
     "The tests merge one or two pairs of edits; the cases of overlap are many.",
     ["parce/treebuilderutil.py", "parce/treebuilder.py"],
     [("merging", "parce/treebuilderutil.py:Changes.add, new_position, has_changes"), ("the queue", "parce/treebuilder.py:TreeBuilder.get_changes")],
     AI, "Proves the covering relations for all integers, relationally, on every path of the functions.")

LINT = "rule evaluation over the syntax trees: "

prop("P19", "The bundled language definitions are valid, in every lexicon and rule",
     "For every bundled language, every lexicon and every rule, also those a text rarely reaches: the pattern is a valid regular expression, there is an action, the groups that actions "
     "and items refer to exist in the pattern, and the targets are lexicons that exist (or numbers); a lexicon has at most one default action or target, and default targets do not "
     "enter lexicons in a circle forever. Every registered language can be found and loaded, its file name patterns, mime types and guesses have valid patterns and weights from 0 to 1, and every method of "
     "a bundled transform belongs to a lexicon, so that its contexts are really transformed.",
     ["inputs"], "all lexicons, rules and registry entries of the package",
     "A lexicon is only compiled when a text leads to it, and a rule item is only evaluated when its pattern matches: an error in a rare one raises in the middle of lexing a user's text.",
     ["parce/lang/", "parce/registry.py", "parce/transform.py"],
     [("languages", "parce/lang/*.py"), ("the registry", "parce/lang/_registry.py")],
     LINT + "the rules every lexicon can yield are derived from the source, with the patterns, groups, lexicons and constants they refer to",
     "Covers every rule of every lexicon; values that the source does not determine are left undecided.")

prop("P22", "No path runs into an undefined name, attribute or a wrong call",
     "On every path of every function of the package: names are defined (imported, global, or a local variable that has been assigned before on some path), attributes of modules, classes and instances of the "
     "package exist, calls of the package's functions fit their signatures, methods take the instance, what is imported exists, and format strings get their values. No function fails with "
     "a NameError, AttributeError, UnboundLocalError or TypeError of this kind, however rare the input or error path that leads to it.",
     ["inputs", "fault_sequences"], "all functions, including error paths, rare branches and languages",
     "Python finds such errors only when the line is executed, and the tests execute a part of the lines.",
     ["parce/"],
     [("everywhere", "parce/**/*.py")],
     LINT + "scopes (symbol tables), definite unassignment of locals, class and module namespaces, call signatures",
     "Reports only names, attributes and calls that fail whenever they are reached; what cannot be resolved is not judged.")

prop("P28", "Events reach every connected callback exactly once, in order",
     "Whatever callbacks do (connect, disconnect, emit the event again, let their object die): emitting an event calls every callback that is connected to it, exactly once, by priority and "
     "then in the order they were connected, with the event's arguments (after the observable, if asked for). A callback that is disconnected before its turn is not called, one connected once is never called "
     "twice, one whose object is gone is not called but removed. Connecting a function twice has no effect, disconnecting removes exactly it, and never fails; asking whether something is "
     "connected tells the truth. Methods do not keep their object alive. Results that are context managers are entered, and left with the stack that is returned; exceptions are not hidden.",
     ["histories", "schedules"], "all sequences of connecting, disconnecting and emitting, also from inside callbacks",
     "The tests connect a few functions and emit a few events; callbacks that change the connections while they are called are not sampled.",
     ["parce/util.py"],
     [("emitting", "parce/util.py:Observable.emit"), ("connecting", "parce/util.py:Observable.connect, disconnect, is_connected"), ("observers", "parce/util.py:_Observer")],
     AI, "Every path of every method, with the list of callbacks as ghost state that any callback may change.")

prop("P17", "Loading and saving keep the text; a failed save loses nothing",
     "Saving writes the whole text, with the given newline option, in the given encoding, else the document's, else the one the text names (as its language defines), else the language's default or utf-8; "
     "nothing is replaced or dropped: if the text cannot be encoded, that is reported, and the file that was to be overwritten stays as it was. The document is set unmodified only, and always, when the file has been written and closed; "
     "url and encoding of the document are set if they are given. Loading reads the whole file and decodes all of it: a byte order mark decides the encoding and is cut off exactly, else what the text names, else the given encoding, "
     "else the default; unknown names are skipped. The encoding given, or found, is remembered; the root lexicon is the given or named one, or guessed from the base name of the url, the mime type and the contents; all options, also errors and newline, reach the "
     "place they are meant for. Only local files are read and written: a file url means its path, a name without scheme itself, everything else is refused.",
     ["inputs", "fault_sequences"], "all texts, encodings, byte order marks, options and failures of encoding, opening, reading and writing",
     "The tests load and save a few small files without failures; a failing save, rare byte order marks and combinations of encodings are not sampled.",
     ["parce/docio.py", "parce/util.py", "parce/__init__.py", "parce/document.py"],
     [("saving", "parce/docio.py:DocumentIOMixin.save, to_bytes, encode_text"), ("loading", "parce/docio.py:DocumentIOMixin.load, from_bytes, decode_data"),
      ("byte order marks", "parce/util.py:get_bom_encoding"), ("urls", "parce/docio.py:localfile")],
     AI, "Every path, with a failure possible at every step; files, buffers and encodings are symbolic, options are followed from the argument to their use.")

prop("P08", "Walking a tree visits every token exactly once, in order",
     "For every tree, Context.tokens() and util.tokens() yield every token exactly once, in the given direction; ancestors() goes from the nearest context up to the root or the given one, ancestors_with_index() gives the index that "
     "leads to each, and forward(), backward() and the sibling methods visit exactly what comes after or before the node. A Range made from two positions or two tokens has the nearest common ancestor, leads to the tokens that were found, "
     "is None only if it would be empty, and its slices and tokens are exactly those from the first to the last token, telling the target factory about every context that is left and entered. "
     "get_group() and its companions find the whole group, its start and its end from any member.",
     ["inputs"], "all trees, positions and tokens",
     "The tests walk through one or two small trees; ranges that start or end several contexts deep, and groups at the end of a context, are hardly sampled.",
     ["parce/tree.py", "parce/util.py"],
     [("walking", "parce/tree.py:Context.tokens, parce/util.py:tokens"), ("ancestors and siblings", "parce/tree.py:Node.ancestors, ancestors_with_index, forward, backward, left_siblings, right_siblings"),
      ("ranges", "parce/tree.py:Range.from_tree, Range.slices, Token.common_ancestor_with_trail"), ("groups", "parce/tree.py:GroupToken.get_group")],
     AI, "Walks are proved for any tree; ranges for trails of up to three indices at either side (any indices), because every level is treated alike.")

prop("P16", "The HTML that is written shows exactly the text, with its formats",
     "For every text and every format, whatever characters they contain: reading the HTML that html() returns gives all pieces of the text, once, in order and nothing else, each within exactly the format that belongs to it (as style or "
     "class), with tags that match; no character of the text can end up as markup, and no character of a format can end its attribute. escape() and attrescape() can be undone by reading the HTML. full_html() contains the text once, "
     "unchanged, in a pre element with the base format; inline_css() writes every property.",
     ["inputs"], "all texts and formats",
     "The tests write no HTML at all with special characters in the text or the formats.",
     ["parce/out/html.py"],
     [("escaping", "parce/out/html.py:escape, attrescape"), ("writing", "parce/out/html.py:HtmlFormatter.html, SimpleHtmlFormatter.html, HtmlMixin.full_html, inline_css")],
     AI, "Strings are sequences of literals and holes with the characters that were replaced in them (exact, as a map of characters); up to three pieces of text.")

prop("P18", "Transforming passes to every method exactly the contents of its context",
     "For every tree and every stream of lexer events: the method for a context is called once, with an item list that has the argument of its lexicon and contains, in order, every token of the context and the result (under the right "
     "name) of every context in it for which the transform of its language has a method. A context without a method is handed over whole to a method that is marked with add_untransformed, and otherwise left out; what comes after it is "
     "neither lost nor given to another method. Only the result of a context itself is cached for it; invalidating a node forgets the results of the node and all contexts around it, also if they have none; the result of an interrupted "
     "transformation is not stored; started, updated and finished are told in that order, and a transformer follows the tree builder it is connected with until it is disconnected.",
     ["inputs", "histories"], "all trees, events, transforms and languages",
     "The tests transform a few small texts; contexts without method, several contexts left by one event, mixed languages and cached results are hardly sampled.",
     ["parce/transform.py"],
     [("trees", "parce/transform.py:Transformer.transform_tree"), ("text", "parce/transform.py:Transformer.transform_text"),
      ("cache and events", "parce/transform.py:Transformer.process, invalidate_node, interrupt, connect_treebuilder, disconnect_treebuilder")],
     AI, "Trees of any depth; events that leave and enter up to two contexts each (build_tree and consume_events: any number).")

prop("P25", "Formatting gives every token its format and covers the text exactly",
     "For every tree, text and requested range: every token in the range gets, in order, the format that the theme of its language (else the default theme) gives to its action, also after leaving an embedded language; text between "
     "tokens gets the format for unparsed text or the base format, if there is one. Adjoining ranges with the same format are merged, and only those; only the first and last range are cut at the borders of the requested range. "
     "The pieces of text that are produced are together exactly the text of the range, and a format context is started once, told about every change of theme, and ended once.",
     ["inputs"], "all trees, texts, ranges, themes and format contexts",
     "The tests format one small text; embedded languages with their own theme, partial ranges and gaps are hardly sampled.",
     ["parce/formatter.py", "parce/util.py"],
     [("ranges", "parce/formatter.py:AbstractFormatter.format_ranges"), ("text", "parce/formatter.py:AbstractFormatter.format_text, format_document"),
      ("cutting and merging", "parce/util.py:fix_boundaries, merge_adjacent"), ("themes", "parce/formatter.py:Formatter.add_theme")],
     AI, "Proves the walk over the tree for any depth and number of nodes; switching themes is analysed separately, for contexts nested up to two deep.")

prop("P06", "The tree is built as the lexer tells; a replaced part joins old and new nodes",
     "For every sequence of lexer events: build_tree() and the tree builder put every token in the context that the lexer is in, in order, with every node's parent being the context it is in; lexemes that come together become a group with their "
     "numbers. If changes arrive while a new tree is being built, the build restarts with the newest text and root lexicon, keeps all tokens (and only those) up to the place where lexing is taken up again, and loses none. Lexing is taken up again at the start of a match, with the lexicons of the contexts there, and old tokens are kept as far as the "
     "events they were built from are the same as the new ones; every event after these is handled. Old tokens after the "
     "changed part are reused only if no change touches them, an equal token at the same place was found, and the root lexicon is the same. replace_tree() keeps exactly the nodes before and after the changed part, joins the contexts that "
     "continue, moves exactly the tokens after it by the difference in length (once), invalidates the contexts of which the children change, and returns the changed range and the lexicons that are open.",
     ["inputs", "histories"], "all events, trees, changes and moments at which they arrive",
     "The tests rebuild one small document a few times, and never while a build is running.",
     ["parce/treebuilder.py", "parce/treebuilderutil.py", "parce/tree.py"],
     [("building", "parce/treebuilder.py:build_tree, TreeBuilder.build_new_tree; parce/treebuilderutil.py:new_tree"), ("taking up lexing", "parce/treebuilderutil.py:get_prepared_lexer, events_with_tokens, get_lexer"), ("tokens", "parce/tree.py:make_tokens, GroupToken.make_group"),
      ("replacing", "parce/treebuilder.py:TreeBuilder.replace_tree, replace_nodes, replace_pos")],
     AI, "Shape analysis: positions, lengths and texts are symbolic; the trees have known shapes (tokens up to three contexts deep before and after the change, all combinations of shared contexts), with up to two events before and one change while building.")

na("P30", "An updated tree is the tree that would be built from scratch",
   "After any sequence of edits, the tree that was updated incrementally has the same contexts and tokens, with the same positions, actions and lexicons, as a tree that is built from the whole new text at once.",
   ["inputs", "histories"], "all texts, languages and sequences of edits",
   "The tests compare a few edits of a few texts.",
   ["parce/treebuilder.py"], [("building and replacing", "parce/treebuilder.py:TreeBuilder.build_new_tree, replace_tree")],
   "It compares the results of two different computations over runtime texts and user defined lexers; no rule on the shape of the code decides when the new lexer state coincides with an old one "
   "(that depends on what the rules match). The parts that can be decided statically are in P04 (queue), P12 (merged change) and P07 (lookups).")

na("P31", "Transforming text directly gives the same result as via a tree",
   "For every text and transform, transforming the text while it is lexed gives the same result as building the tree and transforming that.",
   ["inputs"], "all texts, lexicons and transforms",
   "The tests transform a few small texts.",
   ["parce/transform.py"], [("two ways", "parce/transform.py:Transformer.transform_text, transform_tree")],
   "Equality of two runs over runtime data, through arbitrary user code.")

na("P32", "The regular expression made of words matches exactly those words",
   "A regular expression that is built from a set of words matches each of the words, the longest one first, and nothing else.",
   ["inputs"], "all sets of words",
   "The tests convert a few lists of words.",
   ["parce/regex.py"], [("conversion", "parce/regex.py:words2regexp")],
   "The language of a regular expression that is computed from runtime strings by a recursive trie transformation is not visible in the shape of the code.")

na("P33", "Evaluating a rule early or late gives the same rule",
   "Evaluating the parts of a dynamic rule that do not depend on the match in advance never changes the actions and targets the rule gives for a match.",
   ["inputs", "programs"], "all rule items and matches",
   "The tests evaluate a few rule items.",
   ["parce/ruleitem.py"], [("evaluation", "parce/ruleitem.py:RuleItem.evaluate, pre_evaluate")],
   "Equality of two interpretations of runtime object graphs with user functions in them.")
