#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Variables hold the value and flavor that GNU make would give them",
 "For every makefile made of assignments (`=`, `:=`, `::=`, `?=`, `+=`) and references (`$x`, `$(x)`, `${x}`, nested and computed names, `$$`), reading it leaves every global variable, and no other, defined with the flavor and the expansion GNU make gives it. "
 "Recursive values are expanded when used and follow later changes of what they mention, simple values (and what is appended to them) are fixed when assigned, `?=` never touches a variable that already has a value, and `+=` appends after exactly one space and keeps the flavor. "
 "References to undefined variables expand to nothing, and `$$` is one literal dollar that is not expanded again.",
 ["programs", "histories"], "all assignment sequences over any names, values, nesting of references and order",
 "Unit tests assert one or two hand-written assignments; the guarantee is about every order of assignments, redefinitions, appends and nested references, where state left by one line changes the meaning of a later one.",
 ["src/parsers/variable/mod.rs", "src/ast/mod.rs", "src/parsers/ast/mod.rs", "src/lib.rs", "src/eval/mod.rs"],
 [("assignment parsing and application", "src/parsers/variable/mod.rs"), ("expansion", "src/ast/mod.rs AstNode::eval_internal"), ("append", "src/lib.rs Database::append_to_variable")],
 ["Database::get_variable", "Variable::expand", "Variable::ast"],
 [dict(name="variables", meaning="name to unexpanded value and flavor", where="src/lib.rs Database")], "Variable::verif_flavor (cfg hastur_verif)")

prop("C02", "Conditionals apply exactly the lines of the selected branch",
 "Lines between `ifeq`/`ifneq`, `else` and `endif` take effect if and only if every conditional around them selects their branch, where a conditional compares its two operands (`(a,b)`, `\"a\" \"b\"` or `'a' 'b'`) as they expand at that point of the reading, without the white space around them. "
 "This holds at every nesting depth and for every kind of line (assignments, rules, recipe lines, includes, evals, defines), nothing in an unselected branch is evaluated or has to be well formed (including operands of conditionals nested in it, and defines, whose bodies are skipped as a whole), and lines before the conditional or after its `endif` are not affected by it. "
 "An `else` or `endif` without a conditional, a second `else`, and extra text after `else` or `endif` are reported as errors.",
 ["programs", "histories"], "all nestings and sequences of conditionals around all kinds of lines, and all operand values",
 "The tests contain single conditionals; the nesting/else/ignoring state machine has to be right for every sequence of conditional lines, including state left behind by finished and by skipped conditionals.",
 ["src/parsers/conditional/mod.rs", "src/parsers/mod.rs"],
 [("conditional stack and ignoring flag", "src/parsers/mod.rs ParserState"), ("conditional parsing and evaluation", "src/parsers/conditional/mod.rs")],
 ["Engine::read_makefile", "Database::get_variable", "Database::get_rule"],
 [dict(name="conditionals", meaning="stack of open conditionals", where="src/parsers/mod.rs ParserState")])

prop("C03", "The rule database is exactly what the rule lines and recipes say",
 "For every makefile of explicit rules (`targets : deps`, `::`, inline `; command`, recipe lines starting with the engine's command character), the database ends up with exactly one rule per target, carrying its dependencies in written order (variables expanded when the rule line was read) and its recipe commands in order (text after the command character up to a comment, expanded only when evaluated, backslash-newline kept, whatever the next line starts with). "
 "A rule without a recipe adds its dependencies to the target's existing rule; a rule with a recipe replaces it; all targets of one line get the same dependencies and recipe. "
 "A recipe ends at the next rule line, assignment or directive that takes effect, or at the end of the file, and blank lines, comments and conditionals do not end it.",
 ["programs", "histories", "configurations"], "all sequences of rule lines, recipe lines and lines in between, all target/dependency lists, any command character",
 "Tests check single rules; which lines belong to which recipe and how repeated rules merge depends on the whole history of lines.",
 ["src/parsers/targets/mod.rs", "src/parsers/recipe_line.rs", "src/parsers/mod.rs", "src/lib.rs", "src/parsers/file_sequence.rs"],
 [("open rule", "src/parsers/mod.rs ParserState::current_rule/close_rule"), ("rule line parsing", "src/parsers/targets/mod.rs"), ("merging", "src/lib.rs Database::from_protorule")],
 ["Database::rules", "Database::get_rule", "Rule::target", "Rule::dependencies", "Rule::recipe"],
 [dict(name="current_rule", meaning="rule whose recipe is being read", where="src/parsers/mod.rs")], "Command::verif_ast, Rule::verif_rule_type, Rule::verif_dep_names (cfg hastur_verif)")

prop("C04", "Every character of evaluated text is located where it was written",
 "Every character of an expanded variable, target, dependency or command carries as its location the file, line and column (counted in characters from 1) at which that character was written in the makefile or included file, however it got there (references, substitution references, appends, defines, continuations, `$(eval)`, rules). "
 "Only text that hastur itself inserts (the space for a line continuation, between appended or substituted words, the newline inside a continued recipe, a separator) is marked synthetic. "
 "For `$$` the location of either dollar is acceptable.",
 ["programs", "inputs"], "all makefile texts of the supported syntax, including multi-byte characters, CRLF, byte order marks and multiple files",
 "Tests compare a few hand-computed locations; the mapping has to survive every combination of slicing, copying and re-evaluating text.",
 ["src/source_location.rs", "src/evaluated/mod.rs", "src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/parsers/ast/mod.rs", "src/lib.rs"],
 [("location arithmetic", "src/source_location.rs Located::slice"), ("segment iteration", "src/evaluated/block_span.rs SegmentsIter")],
 ["BlockSpan::segments", "BlockSpan::location", "LocatedStr::location"], None, "Command::verif_ast")

prop("C05", "Sensitivity names exactly the variables an expansion looked up",
 "The sensitivity set of an expanded variable is exactly the set of names of all variables that were looked up to produce it, directly or through other variables, in computed names and in substitution references, whether or not they are defined; for a simple variable these are the lookups made when it was assigned. "
 "Targets and dependencies of a rule are sensitive at least to every variable that contributed text to them, also when the rule line itself is read from `$(eval)` text, and only to variables expanded in making that line. "
 "So a variable outside the set can be changed to anything without changing the expansion.",
 ["programs", "histories"], "all variable environments, reference graphs and texts",
 "Tests check a handful of one-level references; completeness of the set is a for-all over reference graphs.",
 ["src/ast/mod.rs", "src/ast/text_functions.rs", "src/evaluated/mod.rs", "src/parsers/targets/mod.rs", "src/parsers/mod.rs"],
 [("sensitivity merging", "src/ast/mod.rs eval_internal"), ("merging when text is copied", "src/evaluated/mod.rs push_all_contents")],
 ["Block::sensitivity", "Block::into_sensitivity"])

prop("C06", "Blocks and spans behave exactly like the flat text they stand for",
 "Whatever pieces a block is built from (constants, slices of nodes, nested blocks, references, empty pieces, multi-byte text), the block and every span sliced from it report the same length, characters, byte indices, segments, searches, comparisons, splits, takes and offsets as the equivalent flat string does, with indices in bytes. "
 "Copying a span to a new block, pushing spans onto a block or wrapping them as a piece preserves the text and the per-character locations, and never changes the block it was taken from. "
 "Slicing a slice equals slicing once with the combined range.",
 ["inputs", "histories"], "all block structures and all slice ranges on character boundaries",
 "Tests slice a few fixed blocks; boundary conditions at piece borders, nested offsets and multi-byte characters multiply.",
 ["src/evaluated/block_span.rs", "src/evaluated/content_reference.rs", "src/evaluated/mod.rs", "src/evaluated/nodes.rs", "src/evaluated/nom/mod.rs"],
 [("span arithmetic", "src/evaluated/nom/mod.rs"), ("simplification of pieces", "src/evaluated/content_reference.rs simplify")],
 ["BlockSpan", "Block", "ContentReference", "nom input traits"], None, "LocatedString::verif_new")

prop("C07", "Substitution references rewrite exactly the matching words",
 "`$(var:key=replacement)`, split at the first `:` and the last `=` after it, yields the words of the variable's expansion (separated by blanks), in order and joined by single spaces, where a word that matches the key is rewritten and every other word is unchanged. "
 "A key without `%` matches words ending with it (also the empty key) and replaces that suffix; a key with an unescaped `%` matches words that start and end with its two halves without overlap, and yields the replacement with its first unescaped `%` standing for what the `%` matched, or the replacement alone if it has none. "
 "`\\%` in key and replacement before that is a literal `%`, and key, replacement and name may themselves contain references.",
 ["inputs", "programs"], "all values, keys and replacements",
 "Tests try five substitutions; matching is a relation over all words and keys (repeated suffixes, empty captures, overlaps, blanks).",
 ["src/ast/text_functions.rs", "src/ast/mod.rs", "src/parsers/mod.rs"],
 [("matching and replacing", "src/ast/text_functions.rs do_subref"), ("splitting", "src/ast/mod.rs eval_internal")],
 ["Variable::expand"])

prop("C08", "Layout does not change meaning",
 "Adding comments (on their own lines or after a line), blank lines, trailing line breaks or a byte order mark, indenting lines with spaces, ending lines with CRLF instead of LF, leaving out the final line break, or breaking a non-recipe line at blanks between words with backslash-newline leaves the resulting variables, rules and outcome unchanged. "
 "A comment runs to the end of its logical line, also through backslash-newline, and a backslash-newline together with the blanks around it is read as one space. "
 "Each line is read on its own: what follows a line never changes how that line is read.",
 ["programs", "inputs"], "all makefiles and all positions and combinations of these layout changes",
 "Tests have a few fixed layouts; the guarantee is an equivalence over every program and every position of the change.",
 ["src/parsers/mod.rs", "src/parsers/comment.rs", "src/parsers/recipe_line.rs", "src/lib.rs"],
 [("line grabbing and collapsing", "src/parsers/mod.rs makefile_grab_line/makefile_line"), ("comments", "src/parsers/comment.rs")],
 ["Engine::read_makefile", "Engine::process_block"])

prop("C09", "Including a file equals reading its lines in place",
 "`include` of any list of files (also computed by references) has the same effect on variables and rules as reading each file, in order, at that point as a makefile of its own, relative to the engine's working directory; nested includes behave the same, and the lines after the include are read as if it were not there, except that it closes the open rule. "
 "Conditionals, defines and open rules never leak from an included file into the includer or the other way round. "
 "A file that cannot be opened is reported by name for `include` and skipped for `-include`/`sinclude`, and an error inside an included file is an error of the reading.",
 ["programs", "histories", "fault_sequences"], "all splits of a program over files, include lists, nesting, and present/missing files",
 "One test includes one file; isolation and ordering must hold for all contents, positions and missing-file patterns.",
 ["src/parsers/directives/mod.rs", "src/lib.rs", "src/parsers/file_sequence.rs"],
 [("include handling", "src/parsers/directives/mod.rs handle_include")],
 ["Engine::read_makefile", "Engine::working_directory", "ParseErrorKind::IncludeFailure"])

prop("C10", "$(eval text) equals reading the expanded text at that point",
 "Expanding `$(eval text)` expands the text once and then reads the result as makefile text of its own (assignments, defines, rules with recipes, conditionals, nested evals), with all effects visible to whatever is expanded or read next; the reference itself contributes no text. "
 "An eval runs exactly once each time it is expanded, in left-to-right order with its surroundings: once for an immediate context (simple assignment, rule line, line of its own, conditional operand), at each use for a recursive variable, and never in an unselected conditional branch or in text that is only defined. "
 "Open rules and conditionals of the surrounding text and of the evaluated text do not mix.",
 ["programs", "histories"], "all evaluated texts, contexts of evaluation and nesting of evals",
 "One integration test covers one eval; effects inside an expansion interact with every kind of line around it.",
 ["src/ast/mod.rs", "src/lib.rs", "src/parsers/ast/mod.rs", "src/parsers/mod.rs"],
 [("eval node", "src/ast/mod.rs AstChildren::Eval"), ("block processing", "src/lib.rs Engine::process_block")],
 ["AstNode::eval", "Engine::read_makefile"])

prop("C11", "Any text is read to an answer: accepted or rejected with the right error",
 "For every input text, reading returns (no crash, no hang) either success or an error, except that constructs hastur explicitly declares unimplemented may say so by panicking with `not implemented`. "
 "Malformed lines outside skipped branches are rejected with the error kind that names the problem: unterminated references, lines without a separator, recipe lines outside a rule, stray or repeated `else`/`endif`, extra text after `endif`/`endef`, malformed `ifeq`/`ifneq`, wrong argument counts of `strip`/`word`/`words`, a recipe without targets, and includes that cannot be opened; text that is not UTF-8 is an I/O error. "
 "After an error, everything the earlier lines established is still in the database and the engine can go on reading other makefiles.",
 ["inputs", "histories"], "all character sequences, and all malformed lines at all positions",
 "Tests feed well-formed text almost only; absence of crashes is a for-all over texts.",
 ["src/lib.rs", "src/parsers/mod.rs", "src/parsers/error_utils.rs", "src/parsers/conditional/mod.rs", "src/parsers/targets/mod.rs", "src/parsers/ast/mod.rs", "src/parsers/variable/mod.rs"],
 [("error routing", "src/lib.rs Engine::process_block"), ("error kinds", "src/lib.rs ParseErrorKind")],
 ["Engine::read_makefile", "MakefileError", "ParseErrorKind"])

prop("C12", "Databases are snapshots: updates return new ones, old ones never change",
 "A clone of the database, or the database an update was applied to, keeps every variable, target variable and rule it had, whatever is set, appended, added, read or evaluated afterwards through the engine or through databases derived from it. "
 "Each update (set a variable, append with or without a space, set a variable for a target, add a rule) changes exactly the named entry: other names, other targets and globals of the same name keep their values, and appending to an absent variable defines it. "
 "Reading the same makefiles from equal engines gives equal results, and putting back an old database puts back exactly the state it describes.",
 ["histories"], "all sequences of updates, snapshots, branches and restores",
 "Tests never hold on to an old database; aliasing shows only when histories branch.",
 ["src/lib.rs", "src/types.rs", "src/eval/mod.rs", "src/evaluated/mod.rs"],
 [("persistent maps", "src/lib.rs Database"), ("copy on write blocks", "src/evaluated/mod.rs")],
 ["Database", "Engine::replace_database"],
 [dict(name="Database", meaning="variables, target variables, rules", where="src/lib.rs")], "VariableParameters::verif_new")

prop("C13", "Parsed expressions mirror their text, and visitors see every node once",
 "The syntax tree of any text holds, in order, exactly its literal pieces, references and function calls: printing it back gives the original text (up to `$(`/`${`, `$x` and blanks before function arguments), with `eval`, `strip`, `words` and `word` recognised only as whole words followed by a blank and split at top-level commas, anything else in parentheses being a variable reference, and each reference located at its `$`. "
 "A visitor is called exactly once for every node in left-to-right, parent-before-child order with the matching kind, and a mutating visitor's changes are exactly the changes seen by later evaluation. "
 "Joining expressions drops only empty ones and keeps order.",
 ["inputs", "programs"], "all texts and all syntax trees",
 "Tests parse a few expressions and no test runs a visitor; the correspondence is over all nestings.",
 ["src/parsers/ast/mod.rs", "src/ast/mod.rs", "src/ast/visit.rs"],
 [("expression parser", "src/parsers/ast/mod.rs"), ("visitors", "src/ast/visit.rs"), ("joining", "src/ast/mod.rs collapsing_concat")],
 ["Variable::ast", "AstNode::children", "ast::visit::Visitor", "ast::visit::MutVisitor"])

prop("C14", "Interned names correspond one to one to strings",
 "Interning a variable or file name returns the same handle for equal strings and different handles for different strings (case, blanks and Unicode included), for the lifetime of the cache and its clones, no matter how many names are added in between. "
 "A lookup without interning finds a name exactly if it was interned before and never adds one, resolving a file handle gives back the interned string, and variable and file names never interfere. "
 "Names met while reading makefiles (assigned or referenced variables, makefile names, targets and dependencies) are interned under exactly their expanded text, so that rules and variables are found again under it.",
 ["histories", "inputs"], "all sequences of intern/lookup/resolve operations and all strings",
 "No test covers the cache beyond incidental use; uniqueness is over all histories.",
 ["src/lib.rs"],
 [("interners", "src/lib.rs NameCache")], ["NameCache", "Database::get_rule", "Rule::target_fname"], None, "Rule::verif_dep_names")

prop("C15", "Locations order text by position within one source, and only there",
 "Locations in the same file are ordered by line and then by character; locations in different files, of different kinds, or in different evaluations are unordered, so the order is transitive, antisymmetric and consistent with equality. "
 "Slicing located text at any byte offset on a character boundary gives the text there together with the location of its first character: the line grows by one and the character restarts at 1 after each line feed, and grows by one for every other character. "
 "Synthetic text stays synthetic, and equal only to itself.",
 ["inputs"], "all pairs and triples of locations, and all texts and offsets",
 "Tests never compare locations; order laws are universally quantified.",
 ["src/source_location.rs"],
 [("ordering", "src/source_location.rs PartialOrd for Location"), ("advancing", "src/source_location.rs Located::slice")],
 ["Location::partial_cmp", "Located::partial_cmp", "Located::slice"], None, "LocatedString::verif_new")

prop("C16", "Backslashes quote exactly the separator they precede",
 "In target and dependency lists a separator (blank, `:`, and `;` in the rule line) preceded by an odd number of backslashes is an ordinary character of the name, one preceded by an even number separates, and of the backslashes directly before it exactly half (rounded down) remain. "
 "Backslashes not directly before a separator are kept unchanged. "
 "The same holds for `%` in substitution keys and replacements.",
 ["inputs"], "all strings over names, backslashes and separators",
 "A dozen examples exist for one helper; quoting has to be right for every run of backslashes at every position and for the helper's every use.",
 ["src/parsers/mod.rs", "src/parsers/targets/mod.rs", "src/parsers/file_sequence.rs", "src/ast/text_functions.rs"],
 [("unquoting", "src/parsers/mod.rs makefile_take_until_unquote"), ("word splitting", "src/parsers/targets/mod.rs next_mword")],
 ["Rule::target", "Rule::dependencies", "Variable::expand"])

prop("C17", "define ... endef captures its body verbatim",
 "`define name [op]` through the matching `endef` assigns exactly the lines in between, unchanged (line feeds as line ends, comments, blanks, indentation, backslash-newlines, conditionals and rule lines included) and each ended by a line feed, with the same meaning of the operator as a one-line assignment (`=` if absent) at the point of `endef`. "
 "Inner `define`/`endef` lines (whole words, possibly indented by spaces) nest and belong to the body; longer words starting with them, lines that start with the command character, and the continuations of other lines do not count. "
 "Nothing in the body takes effect when it is read, and reading goes on normally after `endef`.",
 ["programs", "inputs"], "all bodies, nestings, operators and surroundings",
 "Tests define a few simple bodies; verbatim capture is over every kind of line that is special elsewhere.",
 ["src/parsers/variable/mod.rs", "src/parsers/mod.rs"],
 [("define state", "src/parsers/mod.rs DefineState"), ("define lines", "src/parsers/variable/mod.rs parse_define_line/handle_define_line")],
 ["Database::get_variable", "Variable::expand"],
 [dict(name="current_define", meaning="the define being read", where="src/parsers/mod.rs ParserState")])

prop("C18", "Expanded text tells through which references it came",
 "For every character of an expanded variable, target, dependency or command, the evaluated tree names, from the outermost inwards, exactly the variable references and substitution references through which the character came, each with the name as it expanded, and for a substitution reference also its key and replacement, all located where they were written. "
 "This holds through nested and computed references, appended and simply expanded values (which keep the references of the time they were assigned), words copied or rewritten by substitutions, and rule lines made of references. "
 "Text that is read as makefile text of its own (the text of an eval, an included file) starts anew there, and the text and locations of the tree are those of the flat text.",
 ["programs", "histories"], "all variable environments, reference graphs, substitutions and texts",
 "Tests compare the tree of a few one-level references; what the tree says has to survive every slicing, copying, simplifying and re-parsing of text, for every graph of references.",
 ["src/evaluated/nodes.rs", "src/evaluated/content_reference.rs", "src/evaluated/mod.rs", "src/ast/mod.rs", "src/ast/text_functions.rs"],
 [("nodes of the evaluated tree", "src/evaluated/nodes.rs"), ("wrapping in references", "src/ast/mod.rs eval_internal"), ("simplification and slicing of pieces", "src/evaluated/content_reference.rs"), ("copying", "src/evaluated/mod.rs push_all_contents")],
 ["Block", "ContentReference", "EvaluatedNode", "Variable::expand", "Rule::target", "Rule::dependencies", "Command"], None, "ContentReference::verif_parts, VariableReference::verif_value (cfg hastur_verif)")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
