G = 'crates/syntax/src/parse/'
PARSE_FILES = [G + 'grammar.rs', G + 'grammar/', G + 'parser.rs', G + 'event.rs']
GNOTE = ('Sound over-approximation of every path of every grammar function reachable from the parse entry points '
         '(token kinds as sets, three tokens of look-ahead, summaries to a fixpoint); anything it cannot model fails the check. '
         'Trusts the model of the parser primitives (checked separately by S06) and of std.')
L = 'crates/aptos-language-server/src/'
LNOTE = ('Every path of the named functions is enumerated symbolically, callees inlined, loops unrolled twice; '
         'what the analysis cannot model fails the check. Trusts the stated model of std, lsp-server, salsa and crossbeam.')
PROPS = [
 dict(id='S01', title='Every started syntax node is closed exactly once, whatever the input',
      statement='Whatever text is parsed, every tree node the parser opens is completed, abandoned or rolled back exactly once before parsing ends, so that building the tree never crashes on an unbalanced node. This holds on every path through the grammar, error recovery and early returns included.',
      over=['inputs'], q='every source text (valid, broken, half-typed) and every path through the recursive-descent grammar',
      why='The parser fixtures exercise a few hundred texts; the paths that drop a node lie in error recovery for inputs no fixture contains, and the parser crate does not even build in the offline test run.',
      files=PARSE_FILES, mech=[('Marker drop bomb', G + 'parser.rs'), ('grammar functions', G + 'grammar/')],
      tech='interprocedural typestate analysis (abstract interpretation to a fixpoint)', note=GNOTE),
 dict(id='S02', title='The parser never panics, whatever the input',
      statement='Parsing never panics: wherever the grammar consumes a specific token unconditionally, or asserts or unwraps something about the next token, that token is guaranteed to be there for every possible input. Malformed input produces syntax errors, never a crash.',
      over=['inputs'], q='every token sequence that any source text can produce',
      why='A crash needs one specific malformed token sequence at one of several hundred consume sites; fixtures sample only a few.',
      files=PARSE_FILES, mech=[('bump / assert guards', G + 'parser.rs'), ('grammar functions', G + 'grammar/')],
      tech='interprocedural abstract interpretation over token sets', note=GNOTE),
 dict(id='S03', title='The parser terminates: every loop and recursion consumes input',
      statement='Parsing terminates on every input: no loop of the grammar can go round without consuming a token, and no chain of grammar calls can return to its start without consuming a token. No input can hang the editor.',
      over=['inputs'], q='every token sequence, every loop iteration and every recursive call chain of the grammar',
      why='Non-termination needs a token in a position no fixture has; a hanging test would only show it for that one text.',
      files=PARSE_FILES, mech=[('progress of loops', G + 'parser.rs'), ('grammar functions', G + 'grammar/')],
      tech='progress (ranking) analysis over abstract token states', note=GNOTE),
 dict(id='S04', title='Parser context is restored on every exit of every grammar rule',
      statement='Every grammar rule leaves the parsing context as it found it on every exit, early and error exits included: the set of tokens at which error recovery stops, and whether statements are parsed as code, specification or proof statements. One malformed construct therefore never changes how the rest of the file is parsed.',
      over=['inputs'], q='every exit (normal, early return, error) of every grammar rule on every input',
      why='The leak shows only on the rest of a file after one specific malformed construct; fixtures compare a handful of trees.',
      files=PARSE_FILES, mech=[('with_recovery_* / with_stmt_kind', G + 'parser.rs')],
      tech='effect-balance (push/pop, save/restore) analysis', note=GNOTE),
 dict(id='S05', title='Lexing is lossless: tokens tile the text at character boundaries',
      statement='For every text, the lexer cuts the text into tokens that follow one another without gap or overlap and cover it completely: each token has a non-zero length in bytes that ends at a character boundary (non-ASCII text included), and is recorded exactly once with that length and a syntax kind. A token with a fixed spelling (operator, punctuation, keyword) gets the kind of exactly that spelling, the longest operator spelling first, and a block comment ends right after its matching `*/`.',
      over=['inputs'], q='every source text, including unterminated comments and strings, non-ASCII characters and stray control characters',
      why='A wrong length shows only on one specific text (a multi-byte character in a comment, say); fixtures are almost all ASCII.',
      files=['crates/syntax/src/parse/lexer.rs', 'crates/syntax/src/parse/lexer/move_model.rs', 'crates/syntax/src/syntax_kind/generated.rs'],
      mech=[('find_token', 'crates/syntax/src/parse/lexer/move_model.rs'), ('tokenize', 'crates/syntax/src/parse/lexer.rs')],
      tech='symbolic path analysis of the lexer: every returned length is shown to be a prefix length in bytes',
      note='Every path of the lexer is enumerated symbolically; a length counts only if it is derived from a byte offset of the text (or a count of one-byte characters). Trusts the stated model of str, regex and unicode-segmentation.'),
 dict(id='L01', title='Every request gets exactly one answer',
      statement='Every request the client sends is answered exactly once, with a response that carries its id: the result of the handler unchanged, or an error (invalid parameters, unknown method, handler failure), or the default answer while the workspace loads. A request whose computation was interrupted by an edit is started again while it is still pending, or answered with an error; a request the client cancelled gets one answer; no request is dropped, answered twice, or taken by the handler of another method.',
      over=['histories', 'schedules'], q='every request, whatever its method and parameters, and every interleaving with edits, cancellation and results from worker threads',
      why='A lost or doubled answer needs a particular interleaving of edits, cancellation and worker results; the tests that drive the server send one request at a time, and do not run offline.',
      files=[L + 'handlers/dispatch.rs', L + 'main_loop.rs', L + 'global_state.rs', L + 'task_pool.rs'],
      mech=[('RequestDispatcher', L + 'handlers/dispatch.rs'), ('on_request / handle_task', L + 'main_loop.rs'), ('respond / cancel / register_request', L + 'global_state.rs')],
      tech='effect analysis: every path of the dispatcher and of the main loop is enumerated symbolically and its answers counted', note=LNOTE),
 dict(id='L02', title='A crash while answering a request stays contained',
      statement='A panic while a request is computed on a snapshot never takes the server down or leaves the request unanswered: it is caught and answered with an internal error. Only the shutdown request runs with exclusive access to the server state outside such a guard.',
      over=['inputs', 'fault_sequences'], q='every request handler, whatever it panics on',
      why='It takes a handler that panics; no test has one.',
      files=[L + 'handlers/dispatch.rs', L + 'main_loop.rs', 'Cargo.toml'],
      mech=[('catch_unwind around handlers', L + 'handlers/dispatch.rs'), ('on_request', L + 'main_loop.rs')],
      tech='effect analysis: every call of a handler is shown to lie under the unwind guard, with the panic branch answered', note=LNOTE),
 dict(id='L03', title='No semantic answer from a half-loaded workspace, none after shutdown',
      statement='While the workspace is not completely loaded, requests whose answer depends on the analysed project are not computed: they get the default (empty) answer, only formatting, selection range and shutdown are served. After a shutdown request every further request is refused with an invalid-request error.',
      over=['histories', 'schedules'], q='every request method and every moment of the server\'s life',
      why='The window is a few hundred milliseconds after start or after a manifest change; no test sends a request in it.',
      files=[L + 'handlers/dispatch.rs', L + 'main_loop.rs'],
      mech=[('readiness gate', L + 'handlers/dispatch.rs'), ('on_request', L + 'main_loop.rs')],
      tech='guard (dominance) analysis over every path from a request to its handler', note=LNOTE),
 dict(id='L06', title="An open document's text is the editor's, never the disk's",
      statement="While a document is open in the editor, the server works on the text and version the editor sent: opening records both, every change is applied to the text recorded before and recorded with its version, and contents reported by the file watcher never replace it. After closing, the disk contents are read again; a file that is not open and that the watcher reports as changed is always taken over.",
      over=['histories', 'schedules'], q='every interleaving of open, change, close, save and watcher events',
      why='The loss needs a watcher event at a particular moment relative to the edits, or an unusual client (duplicate open, orphan close); no test interleaves them.',
      files=[L + 'handlers/notification.rs', L + 'opened_files.rs', L + 'main_loop.rs', L + 'global_state.rs'],
      mech=[('didOpen / didChange / didClose', L + 'handlers/notification.rs'), ('load_files_into_vfs', L + 'main_loop.rs'), ('OpenedFiles', L + 'opened_files.rs')],
      tech='effect analysis: every path of the document handlers and of the watcher is enumerated and its writes compared', note=LNOTE),
 dict(id='L07', title='Package loads never overlap and none that was requested is lost',
      statement='At most one load of the workspace packages runs at a time. A load requested while another runs is remembered, with the latest request winning, and starts when the running one ends; every load that starts ends exactly once, its result is recorded and then switched to. Saving a manifest, creating or deleting files, changing the workspace folders or the set of configured packages always requests a load.',
      over=['histories', 'schedules'], q='every order of requests, starts and completions, and every event of the main loop',
      why='It takes a request at a particular moment of a running load; the tests start one load and wait.',
      files=[L + 'op_queue.rs', L + 'main_loop.rs', L + 'reload.rs', L + 'handlers/notification.rs', L + 'file_changes.rs'],
      mech=[('OpQueue', L + 'op_queue.rs'), ('load_aptos_packages_from_fs', L + 'reload.rs'), ('after_handle_event / handle_task', L + 'main_loop.rs')],
      tech='typestate: the queue automaton is extracted from the source and compared with its specification; effect analysis of its users', note=LNOTE),
 dict(id='L08', title='The server reports ready only when the current configuration is loaded',
      statement="The project counts as fully loaded, and the status sent to the client as quiescent, exactly when no package load runs, no file scan is in progress, and the last scan is of the current file-system configuration. Every switch to new packages starts a scan under a new configuration version; a load that failed never replaces a workspace that was loaded.",
      over=['histories', 'schedules'], q='every order of package loads, scan progress reports and configuration changes',
      why='The window lies between two asynchronous messages; tests wait until everything is loaded.',
      files=[L + 'reload.rs', L + 'main_loop.rs', L + 'global_state.rs'],
      mech=[('is_project_fully_loaded / switch_workspaces', L + 'reload.rs'), ('handle_vfs_msg', L + 'main_loop.rs')],
      tech='truth tables of the predicates and effect analysis of every path that writes what they read', note=LNOTE),
 dict(id='L09', title='Every file change reaches the analysis once, with normalised text',
      statement="Every change of the virtual file system is handed to the analysis exactly once: created and modified files with their text after line-ending normalisation (the line endings found are recorded for that file), deleted files as deleted. When files were created or deleted or a manifest changed, the package roots are recomputed before the changes are applied and the packages are reloaded, and the editor is asked to refresh what it shows.",
      over=['histories', 'inputs'], q='every set of pending file changes and every turn of the main loop',
      why='Only combinations of changes in one turn of the loop expose a lost one; tests change one file at a time.',
      files=[L + 'file_changes.rs', L + 'main_loop.rs'],
      mech=[('fetch_pending_file_changes', L + 'file_changes.rs'), ('after_handle_event', L + 'main_loop.rs')],
      tech='effect analysis: every path through the change loop, per changed file', note=LNOTE),
 dict(id='T01', title='Line endings are normalised on the way in and restored on the way out',
      statement='For every text, normalisation removes exactly the carriage return of each CRLF pair and nothing else, and reports Dos exactly when there was one (Unix otherwise, the text unchanged). Converting back turns every line feed into CRLF for Dos text and leaves Unix text alone. Each edit sent to the client is converted with the line endings recorded for the very file it edits.',
      over=['inputs'], q='every text: any mix of CR, LF and CRLF, at any position and in any number',
      why='Four short texts are tested for normalisation and none for the way back; a wrong length or offset needs a specific mix of endings.',
      files=['crates/stdext/src/line_endings.rs', L + 'lsp/to_proto.rs', L + 'global_state.rs'],
      mech=[('LineEndings::normalize / map', 'crates/stdext/src/line_endings.rs'), ('lsp_text_edit', L + 'lsp/to_proto.rs'), ('file_line_index', L + 'global_state.rs')],
      tech='symbolic path analysis: the bytes kept, moved and cut on each path are compared as linear forms with what must remain',
      note='Loop unrolled three times; every later iteration is the same code on the same abstract state. Trusts the stated model of memchr, slices and str.'),
 dict(id='D03', title='Text edits are disjoint, sorted, and each change is applied exactly once',
      statement='Whatever changes a rename, assist or organise-imports run collects, the resulting text edit holds them sorted and without overlap: overlapping changes are refused, a deletion or replacement added twice is applied once, insertions are all kept and stay in the order they were added. Applying an edit replaces exactly those ranges of the original text; merging two edits keeps the changes of both or changes nothing; mapping an offset through an edit shifts it by the changes before it and gives no answer inside a replaced range.',
      over=['inputs'], q='every list of changes, in any order, with any adjacency or duplication',
      why='The tests sample half a dozen edits; the order of insertions at one place, a duplicate, or an offset at the very border of a change need a specific edit.',
      files=['crates/ide-db/src/text_edit.rs'],
      mech=[('TextEditBuilder::finish', 'crates/ide-db/src/text_edit.rs'), ('TextEdit::union / apply / apply_to_offset', 'crates/ide-db/src/text_edit.rs')],
      tech='symbolic path analysis with truth tables of the comparison, ordering and merging predicates, and a confinement check of who may build an edit',
      note='Loops unrolled three times, later iterations being the same code on the same abstract state. Trusts the stated model of slice sorting and itertools adaptors.'),
 dict(id='S06', title='The syntax tree holds exactly the text, nested as the parser decided',
      statement='Whatever the parser does, the tree built from its events contains every byte of the source text once and in order: consuming tokens, rolling back a speculative parse, extending or preceding a finished node and gluing several raw tokens into one never lose, repeat or reorder text. Nodes are nested exactly as their start and finish events and parent links say, errors are kept, and every parse entry point stops only at the end of the input.',
      over=['inputs'], q='every source text and every sequence of parser operations',
      why='A lost token needs a rollback across a composite token, a file ending in a comment or a similar combination; the fixtures hold ordinary code.',
      files=[G + 'text_tree_sink.rs', G + 'event.rs', G + 'parser.rs', G + 'text_token_source.rs', 'crates/syntax/src/parse.rs'],
      mech=[('TextTreeSink', G + 'text_tree_sink.rs'), ('process', G + 'event.rs'), ('Marker / CompletedMarker / do_bump / pop_event', G + 'parser.rs'), ('TextTokenSource', G + 'text_token_source.rs')],
      tech='path-sensitive abstract interpretation of the event list, cursor and tree builder with linear forms for text and token positions',
      note='Sink operations over every pattern of four symbolic tokens (trivia or not); later tokens meet the same code in the same abstract state. Trusts rowan to keep the tokens it is given.'),
 dict(id='S07', title='Token and recovery sets hold exactly what was put into them',
      statement='A token set built from kinds, united with another or reduced by another answers "contains" for exactly the kinds set theory says, for every token kind the grammar can ask about, and a recovery set does the same for kinds and contextual names. Whether error recovery stops at a token therefore depends only on the sets written in the grammar, never on how kinds are numbered or on what else is in the set.',
      over=['inputs'], q='every token kind and every combination of sets',
      why='A wrong bit shows only on one pair of kinds in one recovery situation.',
      files=[G + 'token_set.rs', G + 'recovery_set.rs', G + 'parser.rs', 'crates/syntax/src/syntax_kind/generated.rs'],
      mech=[('TokenSet', G + 'token_set.rs'), ('RecoverySet', G + 'recovery_set.rs'), ('SyntaxKind', 'crates/syntax/src/syntax_kind/generated.rs')],
      tech='symbolic bit-level evaluation of every set operation and path-wise truth tables of the membership tests',
      note='Sets of up to four listed kinds for the constructor; the loop body is the same for every further kind.'),
 dict(id='S08', title='Operators are found and grouped by the precedence of Move',
      statement='At every position the operator taken is the longest one spelled there; * / % bind tighter than + -, then shifts, &, ^, |, comparisons, &&, ||, and last assignments and implications; equal levels group to the left and prefix operators bind tighter than all of them. The tree reports for each binary expression the same operator and level that the parser used.',
      over=['inputs'], q='every sequence of operator tokens and every nesting of expressions',
      why='Fixtures cover a few of the hundreds of operator pairs; a wrong grouping still parses without an error.',
      files=[G + 'grammar/expressions.rs', 'crates/syntax/src/ast/node_ext/bin_expr.rs', 'crates/syntax/src/ast/operators.rs'],
      mech=[('current_op / expr_bp / lhs', G + 'grammar/expressions.rs'), ('BinExpr::op_details / op_bp', 'crates/syntax/src/ast/node_ext/bin_expr.rs')],
      tech='decision tables extracted by abstract interpretation, and typestate of the precedence-climbing loop on every path',
      note='Windows of three raw tokens (no operator is longer); the loop is unrolled three times, later iterations being the same code on the same abstract state.'),
 dict(id='S09', title='Composite tokens are recognised and consumed exactly as spelled',
      statement='Asking for a punctuation token answers yes exactly when the joined raw tokens at that place spell it, with nothing between them, whatever follows; consuming it takes exactly those raw tokens and nothing else. Every punctuation token the grammar asks for can be spelled, and expecting a token either consumes it or reports an error, never both and never neither.',
      over=['inputs'], q='every punctuation kind and every sequence of raw tokens the lexer can produce',
      why='The difference shows only with unusual spacing (`< =`) or with a rare three-character operator.',
      files=[G + 'parser.rs', G + 'lexer.rs', 'crates/syntax/src/syntax_kind/generated.rs'],
      mech=[('nth_at / eat / bump / at_composite2 / at_composite3', G + 'parser.rs'), ('expect / expect_with_error', G + 'parser.rs')],
      tech='decision tables of at/eat/bump extracted from the source over all lexer-producible token windows, compared with spelling',
      note='Windows of three raw tokens, at lookahead 0 and 1.'),
 dict(id='L05', title='Semantic tokens colour each stretch of text once, as the file is highlighted',
      statement='Decoding the semantic tokens the server sends gives tokens in document order, without overlap and none spanning a line break, each at the position and with the type of the innermost highlighted element there. The legend announced at start lists the token types in the order the numbers refer to. The edits sent for a delta request turn the previous token list exactly into the new one.',
      over=['inputs', 'histories'], q='every sequence of tokens pushed, every tree of nested highlighted ranges, every pair of token lists',
      why='Tests hold two or three tokens on one or two lines; the deltas, the nesting and the common prefix/suffix matter for any sequence.',
      files=[L + 'lsp/semantic_tokens.rs', L + 'lsp/to_proto.rs', L + 'lsp/capabilities.rs', 'crates/ide/src/syntax_highlighting/highlights.rs'],
      mech=[('SemanticTokensBuilder / diff_tokens', L + 'lsp/semantic_tokens.rs'), ('semantic_tokens', L + 'lsp/to_proto.rs'), ('Highlights', 'crates/ide/src/syntax_highlighting/highlights.rs')],
      tech='path-sensitive abstract interpretation of the builder over three symbolic tokens, of the highlight tree over symbolic children and of the token diff over symbolic lists; agreement of the legend table with the enum', note=LNOTE),
 dict(id='L14', title="Positions and ranges are converted with the right file's line index",
      statement='Every offset or range the server sends is converted with the line index of the file it lies in and goes out under that file\'s URL; every position it receives is converted with the index of the document it names. A position is converted to an offset and back without change in the negotiated encoding, a column beyond the end of its line means the end of that line, and a range that ends before it starts is refused.',
      over=['inputs', 'histories'], q='every request handler and every pair of files it may touch; every position, range and encoding',
      why='Tests use one file or files with alike line structure and ASCII text, where a wrong index or unit gives the same answer.',
      files=[L + 'lsp/from_proto.rs', L + 'lsp/to_proto.rs', L + 'handlers/request.rs', L + 'lsp/ext.rs'],
      mech=[('lsp_range / location / text_edit', L + 'lsp/to_proto.rs'), ('offset / text_range / file_position', L + 'lsp/from_proto.rs')],
      tech='derivation (provenance) dataflow analysis of every server function: which file an offset, a line index and a URL come from; symbolic evaluation of the conversions', note=LNOTE),
 dict(id='L16', title='A document edited through change events ends up as the text in the editor',
      statement='Applying the changes of one notification, in order and each to the text the earlier ones left, gives the text the editor holds, whatever mix of ranged and whole-document changes it carries. Ranges are read in the negotiated encoding and against the lines of the text at that moment.',
      over=['inputs', 'histories'], q='every sequence of changes in one notification and every text',
      why='It takes a notification with several changes, a later one above or below an earlier one that moved lines; typing produces one change at a time.',
      files=[L + 'lsp/utils.rs', L + 'handlers/notification.rs'],
      mech=[('apply_document_changes', L + 'lsp/utils.rs'), ('handle_did_change_text_document', L + 'handlers/notification.rs')],
      tech='path-sensitive abstract interpretation over every sequence of up to three (thorough: four) symbolic changes with a typestate for the freshness of the line index', note=LNOTE),
 dict(id='D01', title='A cancelled query is reported as cancelled, never as a partial answer',
      statement='Every query of an analysis snapshot runs under the cancellation guard, so that a pending change stops it with an error instead of a panic or an answer about a state that is gone. The server passes that error on to where requests are retried or refused: no handler or conversion turns it into a default, an empty or a shorter answer.',
      over=['schedules', 'inputs'], q='every query and every result computed from one, whenever a change arrives',
      why='The cancellation must arrive between two queries of one request; tests never write while a request runs.',
      files=['crates/ide/src/lib.rs', L + 'handlers/request.rs', L + 'lsp/to_proto.rs', L + 'lsp/from_proto.rs', L + 'global_state.rs'],
      mech=[('Analysis::with_db', 'crates/ide/src/lib.rs'), ('handle_references / handle_inlay_hints_resolve', L + 'handlers/request.rs'), ('code_lens / location', L + 'lsp/to_proto.rs')],
      tech='effect analysis: fixpoint over the functions whose result may carry a cancellation, and a dataflow of each such result to the construct that consumes it', note='The type of a receiver is inferred from field names, parameter types and bindings (syn sees no types).'),
 dict(id='D02', title='After a change, every answer is about the changed workspace',
      statement='A change first cancels running queries and then writes each of its parts exactly as given, package roots before anything that needs them, a deleted file as empty, the last text of a file last. No memoised value outlives what it was computed from: whatever a query looks up is either an input of the database or guarded by one that every replacement sets.',
      over=['histories', 'inputs'], q='every combination of the parts of a change and every history of changes between two queries',
      why='A stale value shows only when the same query ran before and after a particular change, such as the creation of a file; tests build a fresh database per case.',
      files=['crates/base-db/src/change.rs', 'crates/base-db/src/inputs.rs', 'crates/ide-db/src/root_db.rs', 'crates/ide-db/src/apply_change.rs', 'crates/lang/src/hir_db.rs'],
      mech=[('FileChanges::apply', 'crates/base-db/src/change.rs'), ('Files::replace_package_roots', 'crates/base-db/src/inputs.rs'), ('RootDatabase', 'crates/ide-db/src/root_db.rs')],
      tech='effect analysis of the database lookups against the writers of what they look into; path-sensitive abstract interpretation of the change over every combination of its parts; purity query over the code of memoised queries', note='Trusts salsa: a setter invalidates what read the field; interned and tracked values are compared by value.'),
 dict(id='D07', title='Unification binds each variable once, never to a type containing it',
      statement='Whatever types inference compares, it neither panics nor loops: a type variable is bound only while unbound, and never to a type that contains it, even through other variables; two joined variables keep the type already known for either, and following variables always ends. A comparison made only on trial leaves no trace in what is known about any variable.',
      over=['inputs', 'histories'], q='every pair of types compared and every history of earlier comparisons in the same function',
      why='Cycles and double bindings need two or three variables met in a certain order within one function; a test holds one such order.',
      files=['crates/lang/src/types/unification.rs', 'crates/lang/src/types/inference.rs', 'crates/lang/src/types/inference/combine_types.rs', 'crates/lang/src/types/inference/inference_result.rs'],
      mech=[('UnificationTable', 'crates/lang/src/types/unification.rs'), ('combine_ty_vars / unify_ty_vars_with_unknown / occurs check', 'crates/lang/src/types/inference/combine_types.rs')],
      tech='path-sensitive abstract interpretation of the union-find in terms of roots and values; typestate and provenance of every binding site', note='Trusts std HashMap and the derived equality of types.'),
 dict(id='D08', title='Folding or searching a type reaches every type inside it',
      statement='Substituting, resolving or searching a type treats every type nested in it exactly once - arguments, elements, parameters, results, and the substitutions of named functions, schemas and structs - and keeps everything else as it is. A type parameter without substitution stays itself, and the value found for a variable has its own parts treated too.',
      over=['inputs'], q='every type, however deeply nested, and every substitution',
      why='The position that is missed shows only for a type that has something to substitute right there, under the right outer kind.',
      files=['crates/lang/src/types/fold.rs', 'crates/lang/src/types/substitution.rs', 'crates/lang/src/types/ty.rs', 'crates/lang/src/types/ty/', 'crates/lang/src/types/inference/combine_types.rs'],
      mech=[('TypeFoldable', 'crates/lang/src/types/fold.rs'), ('Substitution', 'crates/lang/src/types/substitution.rs')],
      tech='shape obligations derived from the type definitions, discharged by path-sensitive abstract interpretation of every fold and visit', note='TypeError (its abilities variant) is outside the rule.'),
 dict(id='S10', title='The typed syntax tree never lacks a child or parent that is relied on',
      statement='Whatever text is parsed, complete or half-written, every node has the children and sits under the parents that the typed tree takes for granted, so no accessor panics on it. A typed view can be made from exactly the node kinds it declares, and making it never fails for one of them.',
      over=['inputs'], q='every source text, every node of its tree and every accessor of a typed node',
      why='The missing child or the odd parent appears only in code with one particular mistake, usually while it is being typed; fixture files are complete programs.',
      files=['crates/syntax/src/ast/', 'crates/syntax/src/ast/generated/nodes.rs', G + 'grammar.rs', G + 'grammar/'],
      mech=[('children and parents of a node', 'crates/syntax/src/ast/node_ext/'), ('cast / can_cast tables', 'crates/syntax/src/ast/generated/nodes.rs'), ('what each grammar function puts into a node', G + 'grammar/')],
      tech='collection of the assumptions (unwrap/expect) from the typed tree; interprocedural dataflow of children and parents through every path of the grammar', note='Only assumptions whose receiver type can be resolved; trees built from complete text by ast::make are assumed complete.'),
 dict(id='L04', title='What is advertised is served; a client is sent only what it can take',
      statement='Every capability that the server advertises in its answer to initialize is backed by handlers for the requests it invites, and what it serves it advertises. Requests, notifications and forms of answers that need a client capability (refreshes, progress, status, location links, nested symbols, label offsets, insert/replace edits, label details, snippets, unresolved code actions, client-side file watching) are sent only to clients that declared that very capability. Positions are counted in an encoding that the client offered or UTF-16, which is the one the server states.',
      over=['inputs'], q='every combination of declared client capabilities',
      why='There are far more combinations of client capabilities than clients in any test, and a wrong guard shows only with a client that has one and lacks another.',
      files=[L + 'lsp/capabilities.rs', L + 'main_loop.rs', L + 'lsp/utils.rs', L + 'lsp/to_proto.rs', L + 'handlers/request.rs', L + 'config.rs', L + 'reload.rs', 'crates/ide-completion/src/lib.rs', 'crates/ide-completion/src/item.rs'],
      mech=[('server_capabilities / ClientCapabilities', L + 'lsp/capabilities.rs'), ('GlobalState::on_request', L + 'main_loop.rs'), ('ask_for_*_refresh, report_progress, show_message', L + 'main_loop.rs')],
      tech='path-sensitive abstract interpretation: capabilities returned on every path against the registered handlers; guard (control-dependence) check of every capability-bound effect, following callers; provenance of each accessor', note=LNOTE),
 dict(id='D05', title='The package graph holds every reachable package with all its dependencies',
      statement='Each manifest reachable from the workspace is read once and becomes a package or a reported error; a missing dependency is reported and hides no other, and cycles end. A package gets exactly its transitive dependencies that have a valid manifest, and everything reached through git is a library. Each package is loaded in full (manifest, sources, tests, scripts), watched and marked local only if local, and the graph is published complete or not at all.',
      over=['inputs', 'histories'], q='every set of manifests on disk, their dependency shapes (cycles, duplicates, missing or broken ones), and every order in which their files reach the server',
      why='Which packages see each other depends on the shape of a whole directory tree; a test holds one small tree, all of it valid.',
      files=['crates/project-model/src/lib.rs', 'crates/project-model/src/aptos_package.rs', 'crates/project-model/src/aptos_package/load_from_fs.rs', 'crates/project-model/src/dep_graph.rs', 'crates/project-model/src/project_folders.rs', 'crates/project-model/src/move_toml.rs'],
      mech=[('collect_reachable_manifests, collect_deps_transitively, load_aptos_packages', 'crates/project-model/src/aptos_package/load_from_fs.rs'), ('collect, dep_graph_entry', 'crates/project-model/src/dep_graph.rs'), ('ProjectFolders, PackageRootConfig', 'crates/project-model/src/project_folders.rs')],
      tech='path-sensitive abstract interpretation of the loader with bounded symbolic collections: each worklist step is checked against what it must record, queue and skip', note='Loops are followed for two steps with two elements each. Trusts toml, walkdir and std collections.'),
 dict(id='L10', title='Each setting is declared, read and obeyed as the one it is',
      statement="Every setting the server reads is declared in the extension's package.json under the same name, with the same default and a type the server accepts, and every declared setting is read; what a user sets is what the server uses, and without a value the default is. The configuration each feature gets is built from its own settings (a lens also needs lens.enable, auto-import also needs a client that resolves additional edits). Features obey it: a disabled or not enabled diagnostic is never shown, each kind of lens and inlay hint is shown exactly when it is switched on, and extra arguments and tool paths reach the commands they are meant for.",
      over=['inputs', 'histories'], q='every setting and every combination of values of the settings a feature depends on',
      why='There are more than twenty settings, declared twice and passed through three layers; no test sets any of them in the server.',
      files=[L + 'config.rs', L + 'config/options.rs', L + 'config/options/macros.rs', 'editors/code/package.json', 'crates/ide-diagnostics/src/lib.rs', 'crates/ide-diagnostics/src/config.rs', 'crates/ide/src/inlay_hints.rs', 'crates/ide/src/annotations.rs'],
      mech=[('config_data! / accessors', L + 'config/options/macros.rs'), ('Config::*_config', L + 'config.rs'), ('DiagnosticsConfig::is_diagnostic_enabled', 'crates/ide-diagnostics/src/config.rs')],
      tech='macro expansion, cross-language declaration match and path analysis of every consumer against the settings it read', note=LNOTE),
 dict(id='L11', title='The settings the client sends are taken over or reported',
      statement="Whenever the client sends settings (neither null nor empty), each well-formed one is in force afterwards in place of the earlier answer, an ill-formed one falls back to its default and is reported with its key, and no other setting is affected. All errors of the latest answer, and only those, are shown in the server status until the next answer. A renamed setting is still read under its old name.",
      over=['histories', 'inputs'], q='every sequence of configuration answers, each with any mix of absent, well-formed and ill-formed settings',
      why='No test sends a configuration; a lost error or a setting that stays at its old value shows up only for a particular mix or sequence.',
      files=[L + 'config/options.rs', L + 'config/config_change.rs', L + 'handlers/notification.rs', L + 'reload.rs'],
      mech=[('get_field_json', L + 'config/options.rs'), ('apply_change', L + 'config/config_change.rs'), ('handle_did_change_configuration', L + 'handlers/notification.rs'), ('current_status', L + 'reload.rs')],
      tech='path-sensitive evaluation of the reader on a concrete key over all value shapes; effect analysis from the answer to the status', note=LNOTE),
 dict(id='L17', title='Everything a workspace is made of is watched for changes from outside',
      statement="Whenever the server switches to a set of packages, every .move file below the source directories of each package of the workspace, at any depth, and the manifest of every package is watched for creation, change and deletion. The client does it (in a form it supports) if it is to watch, the server's own scanner otherwise; this holds for the packages switched to, not for those of an earlier load.",
      over=['inputs', 'histories'], q='every set of packages, either kind of watcher, clients with and without relative patterns, every sequence of loads',
      why='No test registers watchers; a file that is not watched is only noticed when another program changes it.',
      files=[L + 'reload.rs'],
      mech=[('setup_client_file_watchers', L + 'reload.rs'), ('switch_workspaces', L + 'reload.rs')],
      tech='path-sensitive evaluation of the registration for unknown packages; each directory and manifest is an obligation', note=LNOTE),
 dict(id='D10', title='A search for the uses of an item finds every one of them',
      statement="Find references, highlighting and rename report every name in the workspace that resolves to the item, each under its own file and range, and no other name. The part of the workspace that is searched covers every place from which the item can be referred to (other modules and depending packages, the specs of a function, the whole construct a variable is bound in), and within it no occurrence of the name is passed over before it is resolved.",
      over=['inputs'], q='every kind of item, every text around an occurrence, every file of every depending package',
      why='The tests rename within one or two files; which scopes, neighbouring characters and kinds of names are skipped depends on the code around the use.',
      files=['crates/ide-db/src/search.rs', 'crates/lang/src/hir_db.rs'],
      mech=[('item_search_scope', 'crates/ide-db/src/search.rs'), ('FindUsages::search', 'crates/ide-db/src/search.rs'), ('reverse_transitive_dep_package_ids', 'crates/lang/src/hir_db.rs')],
      tech='path-sensitive evaluation of the search: scope table per kind of item, concrete neighbouring characters, truth tables of the classification', note=LNOTE),
 dict(id='D04', title='A rename changes every use of one item consistently, or is refused',
      statement="An accepted rename edits the definition and every use found of the item that the name under the cursor stands for, each in its own file, so that the program keeps its meaning: field shorthands in literals and patterns are expanded on the right side. Builtin items, items of libraries, aliases, builtin types and new names that are not identifiers are refused. The range offered for renaming is that of the name under the cursor.",
      over=['inputs'], q='every kind of name, definition and use, every new name',
      why='Tests cover single examples; the combination of kind of use, kind of item and shorthand decides which edit is right.',
      files=['crates/ide-db/src/rename.rs', 'crates/ide/src/rename.rs'],
      mech=[('rename_named_element', 'crates/ide-db/src/rename.rs'), ('source_edit_from_references', 'crates/ide-db/src/rename.rs'), ('find_definition', 'crates/ide/src/rename.rs')],
      tech='path-sensitive evaluation: decision table from kind of use and item to the edit made', note=LNOTE),
 dict(id='D09', title='An item can be used exactly where the Move visibility rules allow it',
      statement="Resolution, import suggestions and completion offer an item at a place exactly when the rules allow it there: public, same module or script, a friend's module, the same package, a type in type position, builtins and specs; otherwise they say whether it is private or of the wrong scope. Test-only and verify-only items are usable only in code of the same scope, every piece of code having the scope of the closest enclosing item that sets one. Imports follow their own, wider rules.",
      over=['inputs'], q='every kind of item, modifier, attribute and nesting, every kind of place that names it',
      why='The tests cover single combinations; a dozen independent conditions on the item and the place decide together.',
      files=['crates/lang/src/nameres/is_visible.rs', 'crates/lang/src/item_scope.rs', 'crates/syntax/src/ast/visibility.rs'],
      mech=[('is_visible_in_context', 'crates/lang/src/nameres/is_visible.rs'), ('item_scopes', 'crates/lang/src/item_scope.rs'), ('HasVisibility::vis', 'crates/syntax/src/ast/visibility.rs')],
      tech='path-sensitive evaluation of the decision against a reference decision tree over the facts of each path, enumerated tree walks, modifier and attribute tables', note=LNOTE),
 dict(id='L12', title='Server and editor client agree on the messages and commands they exchange',
      statement="Every message the bundled client sends or awaits beyond the standard protocol is known to the server under the same name and as the same kind (request or notification), is handled by the server or sent by it, and has the same shape on both sides: whatever one side sends, the other can read, and no field that one side counts on is missing or named differently. A code lens is offered only if the client announced the command it runs (both commands, for a specification lens; and a debugger is available, for debugging), and the client implements each command it announces.",
      over=['inputs'], q='every message of either side with any value of each field, and every set of commands a client may announce',
      why='The two halves are written in different languages and nothing compiles or tests them together; a field that is left out for some values, or a lens shown to a client without the command, fails only in the running editor.',
      files=[L + 'lsp/ext.rs', L + 'lsp/to_proto.rs', L + 'config.rs', 'editors/code/src/lsp_ext.ts', 'editors/code/src/client.ts'],
      mech=[('Runnable', L + 'lsp/ext.rs'), ('ServerStatusParams', L + 'lsp/ext.rs'), ('client_commands', L + 'config.rs'), ('code_lens', L + 'lsp/to_proto.rs')],
      tech='comparison of the message types of both languages field by field (serde attributes, optionality by direction); path-sensitive evaluation of the lens builder against the announced commands', note=LNOTE),
 dict(id='L15', title='What is resolved later is what was listed, or nothing',
      statement="A code action, inlay hint or specification lens that was listed without its details is filled in on request only if the document still has the version it was listed for; otherwise it is refused or left as it is. What is filled in comes from the same listing computed again (same document, range, settings and kinds of actions), from the same place in it, and with the same id and kind (for a hint: same hash, position and kind); the data sent along are read back as they were written. A code action whose edit needs file operations the client does not support is refused, both when listed and when resolved.",
      over=['histories', 'inputs'], q='every sequence of listing, editing and resolving, every list of assists and every limitation to kinds of actions',
      why='No test lists and resolves; an edit for an older text, or the edit of a neighbour in the list, only shows up for a particular order of requests or list.',
      files=[L + 'handlers/request.rs', L + 'lsp/to_proto.rs', L + 'lsp/from_proto.rs', 'crates/ide-db/src/assists.rs', 'crates/ide-db/src/assist_context.rs'],
      mech=[('handle_code_action_resolve / handle_inlay_hints_resolve', L + 'handlers/request.rs'), ('code_action / inlay_hint', L + 'lsp/to_proto.rs'), ('annotation', L + 'lsp/from_proto.rs'), ('AssistResolveStrategy::should_resolve', 'crates/ide-db/src/assists.rs')],
      tech='path-sensitive symbolic evaluation of listing and resolving; every path that fills something in is compared with the listing, and the id text with its reader', note=LNOTE),
]
NA = {}
