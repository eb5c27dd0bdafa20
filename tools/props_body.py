prop("V01", "Versions form one total order that equality, hashing and sorting agree on",
 "For any versions that parse, comparison is reflexive, antisymmetric, transitive and total, equal versions hash equally, and the order is the documented token-wise one (a more specific version sorts where the documentation says it does). Sorting or taking the maximum of a set of versions gives the same answer whatever order the versions arrive in, and re-parsing a version's printed text gives an equal version.",
 ["inputs"], "all version strings over a token alphabet (numeric, leading-zero, alphabetic, mixed, pre-release words, separators . - _ +) up to a bounded number of tokens, all pairs and all triples of them, all permutations of small sets",
 "Tests compare a few dozen hand-picked pairs; transitivity and Eq/Hash agreement are statements over all triples/pairs, and every sort, set and map in the resolver silently depends on them.",
 [C+"version/src/version.rs", C+"version/src/parser.rs"],
 [("token-wise comparison", C+"version/src/version.rs"), ("Eq/Hash", C+"version/src/version.rs"), ("parser", C+"version/src/parser.rs")])
prop("V02", "Version-range algebra agrees with membership on every version",
 "For every pair of parsable ranges and every version: a version is in the intersection iff it is in both ranges, in the union iff it is in at least one, in the difference iff it is in the first and not the second; the intersects and subset tests never contradict an actual version. Membership itself follows the documented meaning of each range syntax, and printing a range and parsing it back (or serialising and deserialising it) does not change which versions it contains.",
 ["inputs"], "all ranges generated by the documented syntax (exact, prefix, bounds, comma/space conjunction, | disjunction, .., ~=, !=, any) over a small version alphabet, all ordered pairs of ranges, all versions of a larger probe alphabet",
 "Tests check a handful of range pairs; an algebra law is quantified over all pairs of ranges and all versions, and one wrong corner (exclusive bound, empty range, disjunction) silently mis-resolves.",
 [C+"version/src/range/mod.rs", C+"version/src/range/parser.rs", C+"version/src/range/satisfiability.rs", C+"version/src/range/types.rs"],
 [("range parser", C+"version/src/range/parser.rs"), ("set operations", C+"version/src/range/mod.rs"), ("satisfiability test", C+"version/src/range/satisfiability.rs")])
prop("V03", "Requirements keep their meaning through parsing, printing and merging",
 "A requirement string accepted by the parser selects exactly the versions its documented syntax denotes, and printing it and parsing it again yields a requirement that selects the same versions with the same weak/conflict flags. No accepted constraint is silently dropped or widened on the way from the string a user typed to the test applied to a candidate package.",
 ["inputs"], "all requirement strings over the documented operator/separator alphabet and a small version alphabet, every probe version, every conversion path between requirement representations",
 "Tests cover typical strings one representation at a time; the guarantee is over the whole grammar and over all representation changes on the way to the resolver.",
 [C+"package/src/requirement/parser.rs", C+"package/src/requirement/types.rs", C+"package/src/requirement/display.rs", C+"package/src/package/requirement.rs"],
 [("parser", C+"package/src/requirement/parser.rs"), ("printer", C+"package/src/requirement/display.rs"), ("satisfaction test", C+"package/src/requirement/types.rs")])
prop("S01", "A successful strict resolve satisfies every requirement and conflict",
 "Whenever a resolve in strict mode reports success, every requested non-conflict, non-weak package is in the result, each family appears at most once, every requirement of every chosen package (and of its chosen variant) is satisfied by the chosen versions, no conflict or weak requirement is violated, and every chosen package really exists in the searched repositories.",
 ["inputs", "configurations"], "all small package universes (families x versions x dependency edges incl. weak, conflict, ranges, variants) and all request lists up to a bound",
 "Tests run a few dozen hand-made repositories; a missed re-check of a constraint learnt after a choice was made only shows for specific dependency shapes and request orders.",
 [C+"solver/src/dependency_resolver.rs", C+"solver/src/resolution_state.rs", C+"solver/src/solver.rs", C+"solver/src/dependency_conflicts.rs"],
 [("resolver loop", C+"solver/src/dependency_resolver.rs"), ("constraint merge", C+"solver/src/resolution_state.rs")])
prop("S02", "A resolve finds a solution whenever one exists, and says so only then",
 "If some assignment of existing versions and variants satisfies a request, the resolver reports success instead of failure; when the latest version of every involved family is jointly admissible that is what it returns. If no assignment exists the strict resolve reports failure rather than a partial result.",
 ["inputs", "configurations"], "all small package universes and request lists up to a bound, compared with brute-force enumeration of all assignments",
 "Completeness is a statement about every repository: tests only list a few backtracking scenarios known when they were written.",
 [C+"solver/src/dependency_resolver.rs", C+"solver/src/resolution_state.rs", C+"solver/src/solver.rs"],
 [("backtracking", C+"solver/src/dependency_resolver.rs")])
prop("S03", "Resolving is deterministic and independent of irrelevant input order",
 "Resolving the same request against the same repositories always gives the same packages in the same order, whatever order directories are listed or packages were registered in and however often it is repeated, including with a warm cache.",
 ["inputs", "schedules", "histories"], "all small universes, all permutations of package registration, repeated runs in one process and across hash seeds",
 "A test sees one hash seed and one registration order per run; nondeterminism needs the same request repeated over all orders.",
 [C+"solver/src/dependency_resolver.rs", C+"solver/src/solver.rs", C+"solver/src/cache.rs", C+"repository/src/simple_repository.rs"],
 [("candidate ordering", C+"solver/src/dependency_resolver.rs")])
prop("R01", "Repository lookups agree with what is on disk, whatever was asked before",
 "What a repository answers for families, versions and packages is a function of the package files on disk when it last scanned them and of search-path order alone: it does not depend on which lookups were made earlier or on directory-listing order, a rescan always shows the current files, and a lookup that finds nothing means nothing is there. A malformed package never affects other families and is treated the same way on every lookup, all lookup routes (by name, exact version, latest, listing) agree with each other, and over several repositories the latest version wins with the earlier repository preferred for equal versions.",
 ["histories", "configurations"], "all small repository trees (valid, malformed, empty, nested, both definition formats) times all lookup sequences up to a depth",
 "Tests make one lookup on a fresh repository object; lazily filled caches make answers depend on the history of earlier lookups.",
 [C+"repository/src/simple_repository.rs", C+"repository/src/repository.rs", C+"repository/src/filesystem.rs"],
 [("lazy family scan and cache", C+"repository/src/simple_repository.rs"), ("multi-repository merge", C+"repository/src/repository.rs")])
prop("R02", "Ignore, unignore, remove and purge act on exactly the named package",
 "Over any sequence of ignore, unignore, remove-package, remove-family, purge and lookup operations on a filesystem repository, the visible packages, ignored state and payload directories are exactly those a simple model predicts, a purge dry run reports what a purge would remove without changing anything, and names that could escape the repository are refused. An operation never touches anything outside the named package or family: if the process dies or an I/O error occurs at any point inside it, every other package is intact, a package that is still visible is complete, and repeating the operation completes it.",
 ["histories", "crash_points", "fault_sequences"], "all operation sequences up to a depth on a small repository, a crash and an error at every filesystem step of every operation",
 "Tests run single operations on a healthy filesystem; interrupted operations and long histories are never sampled.",
 [C+"repository/src/package_repository/filesystem.rs"],
 [("ignore markers", C+"repository/src/package_repository/filesystem.rs"), ("component validation", C+"repository/src/package_repository/filesystem.rs")])
prop("R03", "Copying or moving a package never loses the only copy of its payload",
 "A copy leaves the source byte-identical and on success produces a byte-identical destination; a move ends with exactly one complete copy, at the destination on success and still at the source when it fails; a removal deletes exactly the named version, and a removal of long-ignored packages touches only packages carrying an ignore marker. For every layout of source, destination and search path (including when they coincide or nest), with and without overwrite, and with an I/O failure or a crash at any step, at least one complete copy of the payload exists at every moment, a refused operation changes nothing, and a failed copy leaves no partial package behind at the destination.",
 ["inputs", "configurations", "fault_sequences"], "all source/destination/search-path layouts x options, an I/O error or crash at each filesystem step",
 "Tests copy between two distinct healthy directories; data loss needs coinciding paths, an existing destination, or a fault between the copy and the delete.",
 [C+"package/src/package_copy.rs", C+"package/src/package_move.rs", C+"package/src/package_remove.rs", "src/cli/commands/cp.rs", "src/cli/commands/mv.rs"],
 [("copy then remove", C+"package/src/package_move.rs"), ("overwrite handling", C+"package/src/package_copy.rs")])
prop("C01", "A cached variant payload is complete and belongs to that very variant",
 "Whenever the payload cache reports a variant as found, the returned path holds a complete byte-identical copy of that variant's payload and of no other variant's, however many variants share a bucket, whatever sequence of add, remove, clean and lookup calls preceded it - also by another process at the same time - and wherever an earlier copy was interrupted or failed. A variant whose add succeeded stays found until it is removed or cleaned, and an add that failed can simply be repeated.",
 ["histories", "crash_points", "fault_sequences"], "all operation sequences up to a depth over colliding variants, a crash or an I/O error at every filesystem step of an add, more than 26 entries per bucket",
 "Tests add one or two variants on a healthy filesystem; slot-name reuse and interrupted copies need long or faulty histories.",
 [C+"package/src/package_cache.rs", C+"util/src/base26.rs"],
 [("slot naming", C+"package/src/package_cache.rs"), ("copying marker", C+"package/src/package_cache.rs")])
prop("C02", "The two-level cache never returns a superseded or removed value",
 "A read returns the value most recently stored for that key or nothing: never a value that was overwritten, removed, cleared or expired before the read began, at any interleaving of concurrent readers and writers and any sequence of insertions, promotions and evictions. While everything stored fits the first level nothing is lost. Sizes and hit statistics stay consistent with the operations performed.",
 ["histories", "schedules"], "all operation sequences up to a depth on caches of capacity 1-2 and 2-3 keys; all interleavings of 2-3 concurrent tasks",
 "Tests do put-then-get on one key; stale copies in the lower level only appear after evict/overwrite/promote sequences or task interleavings.",
 [C+"cache/src/intelligent_manager.rs", C+"cache/src/unified_cache.rs"],
 [("L1/L2 promotion and eviction", C+"cache/src/intelligent_manager.rs")])
prop("C03", "Package-definition and repository caches never serve stale or torn entries",
 "The in-memory, on-disk and repository caches return exactly what was last stored for a key until it expires, is removed or the cache is cleared; a torn or corrupt cache file behaves as a miss, never as a wrong value or a lasting error, and entries of different keys are never mixed up, whatever the keys look like. Several tasks or processes may use one cache at once without errors, stale answers or blocking each other for ever.",
 ["histories", "crash_points", "schedules"], "all operation sequences up to a depth over 2 keys; every byte-prefix truncation of a cache file; a crash at every write step",
 "Tests store and read back one entry on a healthy filesystem.",
 [C+"package-cache/src/lib.rs", C+"repository/src/cache.rs"],
 [("TTL and capacity handling", C+"package-cache/src/lib.rs")])
prop("E01", "Environment commands compose exactly as their sequence says",
 "Applying a sequence of environment commands (set, set-if-unset, unset, prepend, append, alias, source, comment, expansion of references) yields exactly the environment a simple sequential interpretation yields: later commands see the effect of earlier ones, path lists keep their documented order with no entry lost or duplicated, and the result depends only on the command sequence and starting environment, never on iteration order.",
 ["programs", "histories"], "all command programs up to a length over 2-3 variables and small values, all starting environments over them",
 "Tests run a few typical package command blocks; order- and history-dependent composition needs all short programs.",
 [C+"rex/src/executor.rs", C+"rex/src/actions.rs", C+"rex/src/parser.rs", C+"context/src/environment.rs"],
 [("action application", C+"rex/src/executor.rs"), ("expansion", C+"rex/src/actions.rs")])
prop("E02", "Generated shell scripts reproduce the environment and run nothing else",
 "Sourcing the activation script generated for an environment (bash, zsh, sh, fish, PowerShell) in a clean shell leaves every variable with exactly the value of that environment, for any value made of printable characters including quotes, dollars, backslashes, backticks, semicolons and newlines. Nothing that came from a variable value, a variable name or a message is ever executed, and an unassignable name never keeps the other variables from being set.",
 ["inputs"], "all strings up to a length over the shell's special characters as values, run through the real shell",
 "Tests look for substrings in the generated text; whether a shell reads it back faithfully is a property of every value.",
 [C+"rex/src/shell.rs", C+"context/src/shell.rs", C+"context/src/environment.rs"],
 [("quoting", C+"rex/src/shell.rs"), ("quoting", C+"context/src/environment.rs")])
prop("X01", "Saved contexts load back identical and a torn file is never accepted",
 "Saving a resolved context and loading it again, in each supported format, gives back the same packages, requirements, environment, configuration and metadata. If saving is interrupted at any point the target holds either the complete old file or the complete new one or loading reports an error: never a context that silently lacks parts.",
 ["inputs", "crash_points"], "all small contexts over awkward field values, every format; crash at each filesystem step and every truncated prefix of the file",
 "Tests save and load one ordinary context on a healthy filesystem.",
 [C+"context/src/serialization.rs", C+"context/src/context.rs"],
 [("save/load", C+"context/src/serialization.rs")])
prop("U01", "Suites expose exactly the tools and contexts their operation history implies",
 "After any sequence of adding, removing, aliasing, hiding, unhiding, disabling, prefixing and prioritising contexts and tools, a suite exposes exactly the tool names (each bound to the right context and original tool) that the documented naming, priority and conflict rules imply, and refuses exactly the invalid operations without side effects. Saving then loading it reproduces the same contexts and tools, and an interrupted save leaves the old or the new suite, never a partial one.",
 ["histories"], "all operation sequences up to a depth over 2-3 contexts and 2 tools with colliding names, all conflict modes",
 "Tests run single operations; hidden/aliased/prefixed tools interacting over a history is a state-space question.",
 [C+"suites/src/suite.rs", C+"suites/src/suite_context.rs", C+"suites/src/suite_tool.rs", C+"suites/src/suite_manager.rs"],
 [("tool resolution", C+"suites/src/suite.rs")])
prop("P01", "Package definitions survive saving, loading and conversion unchanged",
 "Saving a package definition in any supported format and loading it back gives a package with the same name, version, requirements, variants, tools, commands and metadata, for any field values including quotes, backslashes, newlines and non-ASCII text; a definition that cannot be represented is refused, not altered.",
 ["inputs"], "all packages over a small alphabet of awkward values per field (all pairs of fields), all formats",
 "Tests round-trip one or two plain packages per format.",
 [C+"package/src/serialization/save.rs", C+"package/src/serialization/load.rs", C+"package/src/package/serialize.rs", C+"package/src/python_ast_parser/mod.rs", C+"serialise/src/package_serialise.rs"],
 [("writers", C+"package/src/serialization/save.rs"), ("loaders", C+"package/src/serialization/load.rs")])
prop("F01", "Package filters exclude exactly what their rules say",
 "A package is excluded iff it matches some exclusion rule and no inclusion rule, for every combination of rules; each rule kind matches exactly its documented set; and a filter written to its plain-data form and read back excludes exactly the same packages.",
 ["inputs"], "all rule lists up to a length from every rule kind, all packages of a small universe",
 "Tests check a rule at a time against one or two packages.",
 [C+"package/src/filter.rs", C+"package-filter/src/filter.rs", C+"package-filter/src/rule.rs"],
 [("rule matching", C+"package/src/filter.rs"), ("rule matching", C+"package-filter/src/rule.rs")])
prop("O01", "Package orderers permute without loss and give the documented order",
 "Every package orderer returns a permutation of its input, in the documented order, and the same result for every arrangement of the same packages (ties aside); an orderer written to its plain-data form and read back orders identically.",
 ["inputs"], "all small package multisets incl. packages without version, all permutations, every orderer configuration over a small alphabet",
 "Tests order one small list in one arrangement.",
 [C+"package/src/package_order.rs"],
 [("orderers", C+"package/src/package_order.rs")])
prop("G01", "Self-update installs only a complete, checksum-verified binary",
 "The installed executable is replaced only by a binary from an archive whose checksum matched the published one; when any download, verification, extraction or install step fails, at any point, the old executable is still in place, unchanged and runnable, and the command reports failure. No other file on the machine is changed.",
 ["fault_sequences", "configurations"], "all combinations of outcomes (success, failure, truncated, corrupt, missing) of every external step",
 "Tests cannot reach the network path and only test helpers; the guarantee is over every failure combination.",
 ["src/cli/commands/self_update.rs"],
 [("verify before replace", "src/cli/commands/self_update.rs")])
prop("G02", "A refused or failed release leaves no tag and a dry run changes nothing",
 "A release from a source tree with uncommitted changes, with an existing release tag or whose state cannot be determined is refused before anything is built, tagged or installed, unless the matching option allows it; if the build or any later step fails, the command reports failure and creates no tag. A reported success has the requested variants built, the payload at the release path and the tag in place, and a dry run changes neither the source tree, its tags nor the release path.",
 ["fault_sequences", "configurations"], "all combinations of repository state, options and per-step failures",
 "Tests exercise the happy path of single helpers.",
 ["src/cli/commands/release.rs", C+"build/src/release.rs", C+"build/src/vcs/git.rs"],
 [("release sequence", C+"build/src/release.rs")])
prop("K01", "Configuration layers apply in the documented precedence",
 "The effective configuration is the built-in default overridden by configuration files in their documented precedence and then by environment variables, field by field: a layer changes only the fields it sets, a missing layer changes nothing, and a malformed layer is skipped or refused but never discards another. The same inputs always give the same configuration.",
 ["configurations"], "all subsets of layers present/absent/malformed, each setting a chosen subset of fields",
 "Tests set one layer at a time.",
 [C+"common/src/config.rs", C+"config/src/lib.rs"],
 [("layered load", C+"common/src/config.rs")])
prop("Q01", "Package search returns exactly the matching packages, latest by version order",
 "A search returns exactly the families that match its pattern and constraints, lists their versions in version order, reports the true latest version, and applies a result limit to the sorted results, so repeating it always gives the same answer.",
 ["inputs", "configurations"], "all small repositories times all filters of a small alphabet, repeated",
 "Tests search one repository for one pattern.",
 [C+"search/src/searcher.rs", C+"search/src/filter.rs", C+"search/src/result.rs"],
 [("search", C+"search/src/searcher.rs")])
prop("B01", "Installing from an archive writes only inside the install directory",
 "Installing a package from a downloaded archive accepts only an archive whose checksum matches the declared one, and whatever names and links the archive contains, it writes only inside the package's install directory and installs nothing from outside the archive. When it reports success, the installed payload equals the archived one.",
 ["inputs", "fault_sequences"], "all archives of up to a few entries over an alphabet of hostile and ordinary names, every checksum form",
 "Tests unpack one benign archive.",
 [C+"build/src/systems/binary_archive.rs", C+"build/src/sources.rs"],
 [("checksum gate", C+"build/src/systems/binary_archive.rs"), ("entry-name filtering", C+"build/src/systems/binary_archive.rs")])
