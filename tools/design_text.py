HEAD = '''
# Static analysis of the Aptos Move language server

## Approach

Everything is decided by one program, `engine/` (crate `sa`, std plus the cached `syn`/`quote`/`proc-macro2`), which on every
run parses the current source of `/repo` and decides one property at a time: `sa <ID>`. Nothing of `/repo` is run, and
nothing is compared with a stored copy of its text: a rule judges what the paths of a function do. Only `crates/stdext` of the 14
crates compiles offline (salsa, rowan, lsp-types and others are not in the cache), so MIR- and rustc-driver based analyses
were out of reach; the engine works on the syntax tree with its own name resolution, and its own path-sensitive abstract
interpreter in place of a type-checked IR.

* `repo.rs` loads all crates: functions, impls, structs, enums, constants, macros (`T!`, `ast_node!`-style generated code included).
* `absint.rs` is a path-sensitive abstract interpreter of Rust function bodies over symbolic values: constructors, structs,
  tuples, lists, references to places, kind sets, symbolic terms. It forks on undecided conditions, records each
  decision as a fact, unrolls loops to a stated bound (or iterates to a fixpoint in the grammar domain), inlines the functions a rule
  names, and models std (Option/Result/Vec/iterators/strings/maps). What a rule cannot model is an "undecided" violation, not silence.
* `trace.rs` is the general trace domain on top: rules give an inlining predicate, an event predicate, and hooks that
  model particular functions; they get back every path with its events, facts, heap and result.
* `grammar.rs` is a second domain: token-kind sets with three tokens of look-ahead, marker typestate and recovery-set state, with
  summaries iterated to a fixpoint over the mutually recursive grammar.
* `report.rs`: obligations (what was checked), counts of functions and paths, violations with file and line and the path,
  floors (a rule that suddenly finds fewer things to check than it should is a violation: anchors that vanish do not pass silently),
  known findings by key.

`check.sh <ID>` builds the engine (offline, cached in `engine/target`), runs the rule, writes `evidence/<ID>.json`; a violation prints
`VIOLATION property=<ID> replay=<file>` where the file lists each violated obligation with construct and path. Quick and thorough differ
only where stated. Most rules take under two seconds; the grammar domain takes about 40 s and S06 about a minute.

### Keeping quiet on refactorings

Rules inline helpers in the files they look at, compare decision tables and effects rather than syntax, accept any order of
independent effects, and find constructs by type or by role (for instance: all functions from which a request handler is reached)
before they fall back on a name. `tools/muts/*.py` holds, per rule, deliberate bugs *and* behaviour-preserving edits (helper extracted, loop rewritten,
early return in place of `if let`, reordered statements) with the expected verdict; `tools/mut.py` applies each to a copy and prints
what is unexpected. Two things remain name-dependent on purpose: the public methods a property is about (`TextEdit::apply`, `Parser::nth_at`...), and the
third-party API (`lsp_server`, `salsa`, `crossbeam`). If a named anchor is gone, the check fails with "not found" instead of passing.

### Trusted base

The engine itself; the models of std, salsa (inputs, interning, cancellation), rowan (tree shape), crossbeam, lsp-server;
syn's parse; absence of `unsafe` tricks. Integer overflow in release mode is not modelled except where stated.
'''
HOW = {
'S01': '''Marker typestate (`open -> completed | abandoned | undone`) for every `Parser::start()` site, on every path of every grammar function
reachable from the parse entry points, through returns, closures, early exits and calls (summaries say what a callee does with a marker it is given).
A path that loses a marker is the violation. One known finding (include_schema_expr).''',
'S02': '''Same fixpoint; obligation per `bump(T)`, `assert!`, `unwrap` and unreachable arm: in every abstract state reaching it, the token is in the
set that makes it safe. Found two genuine panics (fixed).''',
'S03': '''Same fixpoint with a "consumed since" bit per loop head and per call chain: every cycle of the call graph and every loop must consume.
A loop that stops when nothing was consumed is accepted by its own guard.''',
'S04': '''Recovery set and statement kind are part of the abstract state; their value at every exit must equal the one at entry.''',
'S05': '''`find_token` and its helpers are interpreted over a symbolic text; token length expressions must be byte offsets that end on a character boundary
(a sum of byte lengths of consumed characters), cover the text, be positive; and the spelling -> raw token -> SyntaxKind tables must agree. Found the block comment defect (fixed).''',
'S06': '''Tree building as a whole: `event::process` replayed on every event sequence up to a bound with forward parents; the tree sink over four symbolic tokens (each trivia/comment/other): every token is
handed to the builder exactly once, in order, trivia placed inside; the parser primitives emit the events they stand for; every entry point ends at EOF. Bound: four tokens, event lists of the stated length; the code is uniform in them.''',
'S07': '''Bit-level symbolic evaluation of TokenSet and RecoverySet operations: membership after union/sub/with is the boolean function it should be for each kind <128, and every kind used fits.''',
'S08': '''Decision table of `current_op` over all windows of raw tokens the lexer can produce, against the operator ladder; typestate of the expr_bp loop (right operand parsed with binding power + 1, left-associative); agreement with the AST's operator accessors.''',
'S09': '''Tables of `nth_at`, `eat`, `bump` over windows of three raw tokens, look-ahead 0 and 1: a glued token is seen iff its parts are joined and spell it; bump consumes exactly those parts.''',
'S10': '''The assumptions are read off the typed tree (`unwrap`/`expect` on a child accessor, `parent()`, `parent_of_type`, `ancestor...`); the grammar fixpoint of S02 also carries, per open node, the children it certainly has at completion and every (node, parent) pair that can arise, `precede` and `abandon` included. cast/can_cast tables are compared per kind. Found four real panics (structs and enums in scripts, parameters with a pattern, lemma paths behind `::`, a literal pattern at an address), all fixed. Not covered: receivers whose static type cannot be resolved, and the text of tokens.''',
'L01': '''Every function taking an LSP request is traced over every path: register, take, spawn, respond. Typestate: one `Response` with the id of the request on every path, retries included.''',
'L02': '''Traces of each dispatch function: handler runs under catch_unwind on a snapshot or with the panic context; a panic becomes an error response.''',
'L03': '''Traces: which guard facts (vfs_done, shutdown requested, workspaces present) hold whenever a handler is started.''',
'L05': '''Builder over three symbolic tokens (any position); legend table vs enum; highlight tree with up to two symbolic children; per-line cutting; token diff over symbolic lists of up to two (three) tokens.''',
'L06': '''See the technique line; every path of the state transition is enumerated with callees of the server inlined.''',
'L07': '''As L06, for the publication of diagnostics.''',
'L08': '''As L06, for cached data handed out by request handlers.''',
'L09': '''As L06, for the loading state machine.''',
'L14': '''Provenance: each value in a handler is labelled with the argument or file it derives from; each conversion (file_range/line_index/url) must join labels of the same file. Functions that take file and range apart push the
obligation to their callers. The conversion functions are evaluated symbolically.''',
'L04': '''`server_capabilities` is interpreted on every path (760 combinations of what it asks); every provider or option that can be on must have its requests in the registration chain of `on_request`, and the reverse. For each effect bound to a client capability (11 sends, constructors and conversions) every path to it - through callers up to two levels - must carry the fact that the matching accessor answered true; each accessor of the client's capabilities must answer from its own field and be false when it is absent. The negotiated encoding must be one the client offered on that path, and the stated, stored and used encodings agree. Completions leave `ide_completion::completions` through the method that makes them plain whenever snippets are not allowed.''',
'D05': '''Worklist steps are cut at each `pop`; for every combination of facts (already seen, readable, resolve_deps, dependency found, git or local, name taken) the rule says what must be recorded, queued, skipped or reported. Collections that are not known are followed for 0..2 elements that keep one name wherever they are met, so loops and iterator chains look alike. Folder layout, watch indexes, local marks and file-set order are compared as values. Found one defect (fixed): a dependency with a broken manifest kept the graph of all packages from being built.''',
'L10': '''The configuration is made by the `config_data!` macro, so the declarations are obtained by expanding the repository's own `macro_rules` (engine/src/mac.rs) on the invocation; that gives each setting's name, type, default, reader and accessor. They are matched with package.json (name, default after JSON normalisation, type and enum values) and with every `config.get` of the TypeScript client. Then each function of `Config` that builds a feature's configuration is evaluated path by path with the accessors as symbols and every field compared, as a truth function, with the setting it must be; and each consumer (diagnostics, lenses, hints, runnables, client commands, movefmt, dap) is evaluated with the configuration as symbols: what it emits under which condition is the obligation. Three defects were found by it and repaired (see known_findings.txt).''',
'L11': '''`get_field_json` is evaluated on a concrete key, with and without an older name, over all combinations of absent/well-formed/ill-formed values; from there the result and the errors are followed through `from_json`, `apply_change`, the configuration answer and `current_status`; the answer's first item is applied unless the client reported an error, `update_configuration` always installs what it is given, and the section asked for is the one all keys of the client's package.json share. The oracle is the statement; the bound is one element per unknown list of errors (the operations are element-wise). One defect (ill-formed settings were never reported) was found and repaired.''',
'L17': '''`setup_client_file_watchers` is evaluated for up to two unknown packages with up to two source directories each and both client capabilities; the registration it sends is a value in which each `FileSystemWatcher` is looked up: every directory needs one whose pattern takes all .move files below it. Patterns are compared as globs after splitting the directory off, so `format!`, `join` and relative patterns are alike. `switch_workspaces` is evaluated for both kinds of watchers. What the scanner watches for a package is D08. One defect (a missing separator for clients without relative patterns) was found and repaired.''',
'D10': '''`item_search_scope` gives a table (kind of item, scope); a scope that is a part of a file must be the whole construct the name is bound in (no accessor of a part, read off the typed tree, on the way), one that is a module is allowed only for names that nothing outside refers to. `search` is evaluated over two files with two occurrences each, the tokens and classifications symbolic: each occurrence must reach `found_name`/`found_name_ref` until one says stop. The word-boundary filter is run on each ASCII neighbour. Found four defects (fixed): scopes too narrow for lemma parameters, loop variables, schema fields and struct fields; constants in patterns; and one at the cursor (shorthands, constants in patterns, parameters of item specs). `NameClass::classify`, `NameRefClass::classify` and `find_def_at_offset` are checked as tables (which facts a class must rest on), `SearchScope::intersect` likewise, and the locations and highlights sent to the client must be those found, each with its file. Not covered: name resolution itself.''',
'D04': '''Each path of `source_edit_from_references` for up to two uses is matched with the table (kind of use, literal or pattern, shorthand, what is renamed) -> edit; the same for the definition, for what is refused and for what `find_definition` returns. Found three defects (fixed).''',
'D09': '''Every path of `is_visible_in_context` is read as a set of known facts about the item and the place (kind, modifier, scope, module, script, package, friend declarations up to two, position); the reference rules, a decision tree evaluated three-valued on those facts, must leave exactly one outcome and the path must return it. `HasVisibility::vis` is evaluated on the token sets of the seven modifiers, `node_item_scope` on kinds and attributes, and `item_scopes` on every walk of up to three enter and leave events against a stack. Entries that are not visible must not reach completion, method calls or resolution.''',
'L12': '''The TypeScript sources of the client are read for their message objects (`new lc.RequestType<…>("name")` and the
notification forms) and for the types these mention; the Rust side for `impl Request/Notification` with its `METHOD`,
parameters and result. Per message: same kind; dispatched in main_loop or sent somewhere, whichever the direction asks for;
and the two types are compared structurally, with serde's `rename_all`/`rename`/`skip_serializing_if`/`default` applied: a
field the client reads must be a field the server writes, one it needs unconditionally may not be left out or null for any
value, one the server requires must always be sent, string unions equal the serialised enum. `Runnable` is compared the same
way, being an argument of commands. Commands: each name announced in client.ts is one of the commands registered in
extension.ts; `client_commands` gives each flag from the name that goes with it; every path of `code_lens` that pushes a lens
running command X has X's flag as a fact (the pair, for specifications; the debugger's availability, for debugging).
Oracle: each side is the other's. A message or a field whose type is from lsp-types is compared by name only (assumed).''',
'L15': '''Every path of handle_code_action_resolve, handle_inlay_hints_resolve and from_proto::annotation on which something is
filled in must carry, as facts or as arguments of the calls it makes: equality (not order, not only if present) of the
document's version with the one in the data; the document, range and limitation of the data; the settings handle_code_action
uses, obtained the same way; the element at the index read from the id; equality of id and kind (hash, position, kind). On the
listing side the data are followed back to the element's own place in the enumerated list (nothing dropped or reordered before
counting), the request's parameters, the version of the same document; to_proto::code_action's format string is matched part
by part against parse_action_id's split, AssistKind::name is run on each kind and from_str on the result; should_resolve is
run for each strategy; an assist is pushed whether or not it is worked out. Refusal of unsupported file operations must be
able to come from any change of the edit. Oracle: the listing itself. Not covered: completion resolving (it carries no
identity beyond a label), and an assist that is listed but turns out impossible when worked out (add_fix_fallible), which can
shift the places of those after it; the comparison of ids turns that into a refusal unless the next one has the same id.''',
'L16': '''Every sequence of up to three (four) changes of both kinds, symbolic ranges: which text each range is converted against and whether the line index is fresh.''',
'T01': '''Every entry in the table of tests/handlers: see technique.''',
'D01': '''Fixpoint over functions whose result may carry a cancellation; each call's result is followed to the construct that consumes it; swallowing constructs (ok(), unwrap_or, filter_map, if let Ok without else, flatten...) are violations. Found three (fixed).''',
'D02': '''(a) cancel-before-write and single writer; (b) order and exactness over every combination of the change's parts; (c) lookups in maps outside salsa must read an input that each refill sets (found one, fixed); (d) purity of memoised queries.''',
'D03': '''Symbolic evaluation of the edit list: sorted, disjoint, each applied once at the right offset. Found one defect (fixed).''',
'D07': '''The union-find operations are evaluated in terms of root(x) and val(x); all binding sites are traced from combine_types; each must be preceded on its path by a lookup showing the variable unbound and an occurs check on the fully resolved type. Trials must restore both tables. Found two defects (fixed).''',
'D08': '''Obligations come from the type definitions: each field (transitively) of a type that contains a Ty must be folded once and visited once by the TypeFoldable impl; folders and visitors must descend into every composite.''',
}
TAIL = '''
## Incidents

None that damaged the sandbox.
'''
