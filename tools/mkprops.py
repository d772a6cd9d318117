#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the wording is reviewable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["AddPattern error result", "MatchesForEvent result"],
            hook_needed=hook)))

p("C01", "A match result is exactly the set of patterns the event satisfies",
  "For every set of valid patterns and every valid event, MatchesForEvent returns the identifier of a pattern if and only if every path the pattern names is satisfied by the event: some leaf value at that exact path equals (or is accepted by an extended pattern among) one of the values listed for the path. Values on one path are OR-ed, paths are AND-ed, members the pattern does not mention are irrelevant, JSON types never match one another (the string \"1\" is not the number 1, the string \"true\" is not true), and an empty value list never matches.",
  ["inputs", "configurations"],
  "for every finite pattern set (any mix of value kinds and paths, shared and nested prefixes) and every RFC 8259 event object",
  "The tests try hand-written pattern/event pairs; the automaton is built by merging patterns into shared states, so whether one pattern is reported can depend on every other pattern and on which members the flattener skipped. Only a search over pattern sets x events against an independent matcher covers that.",
  ["core_matcher.go", "field_matcher.go", "value_matcher.go", "nfa.go", "flatten_json.go", "segments_tree.go", "pattern.go"],
  [("sorted-field automaton walk", "core_matcher.go tryToMatch"), ("value automaton merge", "nfa.go mergeFAStates"), ("singleton to automaton conversion", "value_matcher.go addTransition"), ("path selection while flattening", "flatten_json.go / segments_tree.go")])

p("C02", "Fields in different elements of one array never combine into a match",
  "Arrays are invisible in paths, so a leaf inside any nesting of arrays is reachable at its member path; but a pattern naming several paths matches only if one leaf can be chosen per path such that no two chosen leaves lie in different elements of the same array. Whenever such a choice exists the pattern is reported, and whenever none exists it is not.",
  ["inputs"],
  "for every nesting of arrays and objects in the event, including arrays of arrays, empty arrays and objects, and mixed leaf and object elements, and for all pattern sets",
  "arrays_test.go checks a dozen fixed shapes; the bookkeeping of array numbers and positions interacts with skipping and early exit in the flattener and with the order in which fields are tried.",
  ["flatten_json.go", "core_matcher.go", "flattener.go"],
  [("array trail bookkeeping", "flatten_json.go readArray/enterArray"), ("conflict test", "core_matcher.go noArrayTrailConflict")])

p("C03", "exists:true and exists:false decide exactly on presence of a leaf at the path",
  "A path with exists:true is satisfied if and only if the event has at least one leaf value (string, number, true, false or null) at that path, and a path with exists:false if and only if it has none, where empty arrays, empty objects and non-leaf values do not count as present. This holds wherever the path sorts among the other paths, for any number of exists conditions in one pattern, for events none of whose members are mentioned, and alongside any other patterns.",
  ["inputs"],
  "for every combination of exists conditions with other conditions, every event, and every set of other patterns sharing or not sharing paths",
  "The automaton walks only fields that are present, so absence needs special-case continuation at each point of the walk; tests cover a few orders of paths with one or two conditions.",
  ["core_matcher.go", "field_matcher.go"],
  [("exists:false continuation", "core_matcher.go checkExistsFalse"), ("placeholder field for empty events", "core_matcher.go emptyFields")])

p("C04", "Numbers match by float64 value, whatever their spelling",
  "A number in a pattern matches a number in an event if and only if the two denote the same IEEE 754 binary64 value, regardless of spelling (integer, fraction, exponent in any legal form, trailing zeros, negative zero), over the whole finite float64 range. Adding other patterns of any kind on the same path does not change this, and a string or literal never matches a number.",
  ["inputs"],
  "for all pairs of finite float64 values, adjacent ones included, and all RFC 8259 spellings of them",
  "numbers_test.go samples a few values; equality must hold for 2^64 values and unboundedly many spellings, and only in the presence of automata shared with strings and other number patterns.",
  ["numbits.go", "numbers.go", "value_matcher.go", "flatten_json.go"],
  [("order-preserving number encoding", "numbits.go"), ("number detection in the flattener", "flatten_json.go readNumber"), ("choice of encoded or textual comparison", "value_matcher.go transitionOn")])

p("C05", "String equality, prefix and anything-but compare whole Unicode strings exactly",
  "A string value in a pattern matches exactly the equal string; a prefix matches exactly the strings that start with it (every string, for the empty prefix); an anything-but matches exactly the strings that equal none of those it lists. This holds for every valid Unicode content, including quotes, backslashes, control characters and supplementary characters, however it is escaped in pattern or event, and in the presence of any other patterns on the same path.",
  ["inputs"],
  "for all strings of Unicode scalar values, all lists, all combinations of value kinds on one path",
  "Values are compared as bytes including their closing quote inside merged automata; whether a value that itself contains a quote, or shares a prefix with others, is handled cannot be settled by samples.",
  ["value_matcher.go", "anything_but.go", "nfa.go", "pattern.go", "flatten_json.go"],
  [("string automaton", "value_matcher.go makeStringFA"), ("prefix automaton", "value_matcher.go makePrefixFA"), ("anything-but automaton", "anything_but.go makeMultiAnythingButFA"), ("escape decoding", "flatten_json.go readTextWithEscapes")])

p("C06", "Wildcard and shellstyle patterns match exactly their glob language",
  "A wildcard pattern matches a string value exactly when the string can be obtained by replacing each unescaped * with any, possibly empty, sequence of characters and each \\* or \\\\ with the character escaped; shellstyle is the same without escapes. This is so however many such patterns, and patterns of other kinds, are present on the same path, and in whichever order they were added.",
  ["inputs", "histories"],
  "for all glob patterns and subject strings over Unicode, all sets of patterns on one path, all orders of addition",
  "Globs are merged with special-cased loopback states; the tests check individual globs and a few pairs, and merging errors appear only for particular combinations.",
  ["wildcard.go", "shell_style.go", "nfa.go", "epsi_closure.go", "pattern.go"],
  [("loopback (spinner) merging", "nfa.go symmetricSpinnerMerge/asymmetricSpinnerMerge"), ("epsilon closures", "epsi_closure.go"), ("glob automata", "wildcard.go makeWildCardFA, shell_style.go makeShellStyleFA")])

p("C07", "equals-ignore-case matches the value up to Unicode simple case folding",
  "An equals-ignore-case pattern matches a string if and only if the two have the same length in characters and each pair of corresponding characters is equal or is related by the common (status C) mappings of Unicode's CaseFolding.txt, upper to lower, lower to upper, or through a shared target. This holds for every character of every script, in values and patterns alike, and in the presence of other patterns on the path.",
  ["inputs"],
  "for all Unicode scalar values and strings of them (pairs related only by the status S mappings are left open)",
  "monocase_test.go tries a handful of words; the mapping has some 1,400 pairs whose UTF-8 encodings may differ in length, and is spliced into shared automata.",
  ["monocase.go", "case_folding.go", "value_matcher.go"],
  [("case-pair automaton", "monocase.go makeMonocaseFA"), ("folding table", "case_folding.go")])

p("C08", "A regexp pattern matches exactly the strings in the language of the expression",
  "For every expression in the documented syntax (I-Regexp of RFC 9485 with ~ as the escape character) accepted by AddPattern, the pattern matches a string value if and only if the entire string belongs to the language the expression denotes: alternation, groups, ?, *, +, {n}, {n,}, {n,m}, ., classes and complemented classes, Unicode properties and escapes, nested and combined in any way. This holds in the presence of other patterns on the same path.",
  ["inputs"],
  "for all expressions and subject strings, in particular empty branches, nested quantifiers, overlapping class ranges, supplementary characters and characters that are special in JSON",
  "The bundled samples check single expressions against a few strings; combinations of constructs and combinations of patterns are unbounded, and no sample checks rejection of near-miss strings systematically.",
  ["regexp_reader.go", "regexp_parse.go", "regexp_nfa.go", "rune_range.go", "quantified_atom.go", "nfa.go"],
  [("expression to automaton", "regexp_nfa.go makeRegexpNFA"), ("class algebra", "rune_range.go"), ("quantifier expansion", "regexp_nfa.go / quantified_atom.go")])

p("C09", "Unicode classes in regexps partition the code space",
  "For every Unicode scalar value: . accepts it; exactly one of ~p{X} and ~P{X} accepts it for each supported general category X; a two-letter category is contained in its one-letter parent and the one-letter parent is exactly the union of its children; every assigned character is accepted by the category the Unicode database gives it; and a class and its complement [..] and [^..] accept complementary sets.",
  ["inputs"],
  "for all 1,112,064 scalar values and all supported categories, and for all classes built from ranges, single characters and categories",
  "The existing test samples characters per category; off-by-one errors sit at range ends, and complement construction must be right for every combination of ranges.",
  ["character_properties.go", "rune_range.go", "regexp_reader.go"],
  [("category tables", "character_properties.go"), ("inversion and simplification of ranges", "rune_range.go"), ("rune ranges to UTF-8 automata", "rune_range.go makeRuneRangeNFA")])

p("C10", "AddPattern accepts exactly the documented pattern language",
  "AddPattern returns an error for every pattern that is not valid JSON in valid UTF-8, is not an object, has a leaf that is not an array, or uses an extended pattern wrongly (unknown type, wrong value type, exists or anything-but mixed with other values, empty anything-but list, adjacent *, bad wildcard escape), and returns nil for every pattern that obeys the documented rules. It never panics, whatever the text. (Text after the pattern's closing brace is ignored by the current code, and existing tests rely on that; such texts are not judged, nor are repeated names, unpaired surrogates and numbers too large for a float64.)",
  ["inputs"],
  "for all pattern texts: grammar-generated valid ones, single-fault mutations of them, and arbitrary bytes",
  "pattern_test.go lists fixed good and bad texts; rules must hold at every position and nesting depth and in combination.",
  ["pattern.go", "wildcard.go", "anything_but.go", "shell_style.go", "monocase.go"],
  [("pattern reader", "pattern.go patternFromJSON"), ("wildcard reader", "wildcard.go")])

p("C11", "Regexp syntax errors are reported, and every well-formed regexp is accepted",
  "AddPattern with a regexp returns nil for every expression derivable from the documented grammar and an error for every expression that is not (unbalanced brackets, dangling quantifiers, bad escapes, reversed ranges, malformed {lo,hi} counts and counts above 1000, unknown properties, stray metacharacters). It never panics on any text.",
  ["inputs"],
  "for all expression texts, well-formed ones by construction, single-edit mutations of them decided by an independent recogniser of the grammar, and arbitrary text",
  "regexp_validity_test.go and the samples are a fixed list; the reader is hand-written with per-construct state, and errors at the ends of constructs appear only in combinations.",
  ["regexp_reader.go", "regexp_parse.go", "rune_range.go", "pattern.go"],
  [("recursive-descent reader", "regexp_reader.go"), ("escape and class readers", "regexp_reader.go")])

p("C12", "A rejected AddPattern leaves the instance unchanged",
  "When AddPattern returns an error, the instance afterwards behaves exactly as if the call had not been made: every event gets the same result as before, later additions and deletions work as they would have, and the statistics are unchanged. The rejected identifier is never reported on account of the rejected text.",
  ["histories", "inputs"],
  "for all histories of successful additions interleaved with rejected ones, with and without deletion support, in every build mode",
  "Tests check that an error is returned, not the state after it; the fault can sit anywhere in a multi-path pattern after earlier paths were read.",
  ["core_matcher.go", "pruner.go", "pattern.go"],
  [("parse before mutate", "core_matcher.go addPatternWithPrinter"), ("live set updated after success", "pruner.go addPattern")])

p("C13", "The result depends only on the data in the event, not on how it is written",
  "Two JSON texts denoting the same data give the same matches: insignificant whitespace, the order of members, the choice of string escapes (including \\u forms and surrogate pairs, in names and values) and equivalent pattern spellings make no difference. Adding members that no pattern mentions, at any depth, makes no difference either.",
  ["inputs"],
  "for all events, all equivalent spellings, all placements of unmentioned members of any size and shape, all pattern sets",
  "The flattener skips what it thinks irrelevant and stops early once it has seen enough; only varying layout around the relevant members over many pattern sets exercises those decisions.",
  ["flatten_json.go", "segments_tree.go", "pattern.go"],
  [("skipping and early exit", "flatten_json.go skipBlock/skipStringValue, readObject"), ("escape decoding", "flatten_json.go readTextWithEscapes/readHexUTF16")])

p("C14", "Every RFC 8259 object is accepted as an event; damaged events are reported",
  "MatchesForEvent returns no error for any RFC 8259 object in valid UTF-8. It returns an error, never a match list, for text whose first value is not a JSON object, for any proper prefix of an event that the patterns make it read to its end, for anything but white space after such an object, and for malformed values, raw control characters or bytes above 0xF4 in a part of the event that the patterns make it read. It never panics and never looks at bytes beyond the slice it was given. (Once every path the patterns name has been seen it may stop reading, and what no pattern names it may skip without checking it; unpaired surrogates are left open.)",
  ["inputs"],
  "for all events, all truncation points, all single-byte damages in a member that a pattern names, and arbitrary bytes",
  "flatten_json_test.go lists fixed bad texts; the reader is a hand-written state machine whose every state must cope with end of input and with every byte.",
  ["flatten_json.go"],
  [("flattener state machine", "flatten_json.go"), ("byte range checks", "flatten_json.go readStringValue/readMemberName")])

p("C15", "Patterns are independent: a set of patterns matches as the union of its members",
  "The result for an event is the union of the results of instances holding one pattern each: adding a pattern never removes or adds the report of another, the order of addition is irrelevant, adding the same pattern again changes nothing, and an identifier with several patterns is reported exactly when at least one of them matches. This includes large sets and any mix of value kinds on shared paths.",
  ["histories", "inputs"],
  "for all finite pattern sets and orders of addition, and all events, comparing with single-pattern instances of the same code and with permuted and partial sets",
  "Each AddPattern rebuilds and merges shared automata; interference between patterns is a property of the whole set, of which tests try very few.",
  ["nfa.go", "value_matcher.go", "field_matcher.go", "core_matcher.go", "epsi_closure.go"],
  [("automaton union", "nfa.go mergeFAStates"), ("copy-on-write of shared states", "field_matcher.go, value_matcher.go")])

p("C16", "The build mode changes performance, never results",
  "For every sequence of AddPattern calls, every assignment of build modes to those calls (BuiltForComfort or BuiltForSpeed, switched at any time) gives an instance that returns the same match set for every event. GetMatcherBuildMode returns the mode last set, BuiltForComfort on a new instance.",
  ["inputs", "configurations", "histories"],
  "for all pattern sequences containing wildcard, shellstyle and regexp patterns among others, all mode assignments, all events",
  "Conversion to a deterministic automaton happens after merging with whatever is already there; the tests convert single automata or run one mode throughout.",
  ["nfa.go", "state_lists.go", "value_matcher.go", "quamina.go", "epsi_closure.go"],
  [("subset construction", "nfa.go nfa2Dfa/n2dNode"), ("state-set interning", "state_lists.go intern"), ("mode passed to each addition", "quamina.go AddPattern")])

p("C17", "Deletion removes exactly the named identifiers, through any rebuild",
  "On an instance created with pattern deletion, after any history of additions, deletions and matches, the result for an event is exactly the set of identifiers having a matching pattern added since the identifier was last deleted. Automatic rebuilds, whenever they happen, and re-adding a deleted identifier with the same or another pattern never lose a live pattern and never resurrect a deleted one.",
  ["histories"],
  "for all histories, including those long enough to trigger the automatic rebuild, several patterns per identifier, deletion of unknown identifiers, and deletions through copies",
  "pruner_test.go runs a few scripted histories; the filter, the live set and the rebuild trigger form a state machine over unbounded histories.",
  ["pruner.go", "live_pattern_state.go", "rebuilding.go"],
  [("live set", "live_pattern_state.go memState"), ("result filter", "pruner.go matchesForFields"), ("rebuild trigger and rebuild", "pruner.go maybeRebuild/rebuild, rebuilding.go")],
  ["AddPattern/DeletePatterns error results", "MatchesForEvent result after every step"])

p("C18", "Copies share one pattern set and nothing else",
  "An instance and all its copies, and copies of copies, behave as views of one pattern set: an addition or deletion through any of them is visible through all of them at once, and a match through one never disturbs another, including results already returned. Each instance keeps its own build mode, which a copy starts with, and settings changed on one do not affect another.",
  ["histories"],
  "for all histories of copy, add, delete, match and mode changes over any tree of copies, with and without deletion and with custom flatteners",
  "Only a few tests use Copy, each with one shape of history.",
  ["quamina.go", "core_matcher.go", "flatten_json.go", "pruner.go"],
  [("shared matcher, private buffers", "quamina.go Copy"), ("flattener copy", "flatten_json.go Copy")])

p("C19", "Concurrent copies: every result is explained by the additions around it",
  "When copies are used in parallel, one goroutine each, every match result contains every matching pattern whose addition returned before the match began (and was not deleted), and contains no pattern that does not match, was never added, or whose deletion returned before the match began and was not re-added. After the goroutines finish the instance behaves as after the same additions and deletions in sequence, and there are no data races.",
  ["schedules", "histories"],
  "for all interleavings of AddPattern, DeletePatterns, MatchesForEvent, Copy, SetMatcherBuildMode and GetMatcherBuildMode on copies, including additions that land between the two phases of a match",
  "concurrency_test.go adds simple patterns while matching on one schedule; lost updates and torn reads need particular interleavings with particular pattern shapes, and exists:false makes results non-monotonic.",
  ["core_matcher.go", "field_matcher.go", "value_matcher.go", "pruner.go", "quamina.go", "regexp_nfa.go"],
  [("atomic publication of state", "core_matcher.go, field_matcher.go, value_matcher.go update"), ("single writer lock", "core_matcher.go addPattern"), ("pruner lock", "pruner.go")],
  ["MatchesForEvent results with invocation and response times", "race detector reports"])

p("C20", "Separately created instances do not influence each other",
  "Whatever is done with one instance created by New (patterns added, deleted, events matched, errors provoked, build modes set) has no effect on the results of another, whether they are used one after the other or at the same time from different goroutines. Using separate instances concurrently is free of data races and crashes.",
  ["histories", "schedules"],
  "for all pairs of histories on separate instances, interleaved sequentially or run in parallel, compared with each history run alone",
  "Package-level caches, pools and tables are shared by all instances; tests use one instance at a time.",
  ["regexp_nfa.go", "rune_range.go", "core_matcher.go", "flatten_json.go", "character_properties.go"],
  [("package-level caches and pools", "rune_range.go / regexp_nfa.go cached automata, core_matcher.go pools")])

p("C21", "Matching is repeatable, duplicate-free, and leaves inputs and results alone",
  "MatchesForEvent never modifies the event bytes, returns each identifier at most once, and gives the same set each time for the same event and patterns whatever was matched or failed in between. A result slice already returned, and the pattern text passed in, are not changed by any later call, and earlier failures (malformed events) have no effect on later matches.",
  ["histories", "inputs"],
  "for all histories of matches of valid and malformed events on one instance",
  "Buffers are reused between calls; stale content shows only for particular sequences of events.",
  ["quamina.go", "nfa.go", "flatten_json.go", "match_set.go", "core_matcher.go"],
  [("buffer reset", "flatten_json.go reset, nfa.go nfaBuffers"), ("match set", "match_set.go")])

p("C22", "A custom Flattener gets a truthful tracker, and its fields decide the matches",
  "A Flattener passed to New is given each event unchanged and a tracker that answers truthfully: a segment is used if and only if some pattern names a path through or ending at it, child levels, counts of children and of leaf fields, root status and path names agree with the patterns added. The fields it returns, in any order, alone decide the match: a pattern matches if and only if each of its fields has a field at its path with an acceptable value (or, for exists:false, no field) and no two of those are in different elements of one array, however arrays and elements are numbered. So a Flattener that reports all leaves, or only those the tracker asks for, gives the same results as the built-in one; its errors are returned unchanged.",
  ["inputs", "configurations"],
  "for all pattern sets and events, orders of returned fields, and Flattener errors, over instances and their copies",
  "Tests have one trivial custom flattener; the contract must hold for every set of paths.",
  ["flattener.go", "segments_tree.go", "segments_tree_tracker.go", "quamina.go", "core_matcher.go"],
  [("segments tree", "segments_tree.go"), ("field sorting", "core_matcher.go matchesForFields")],
  ["tracker answers seen by a custom Flattener", "MatchesForEvent result"])

p("C23", "Matcher statistics are a function of the additions made",
  "GetMatcherStats returns the documented metrics as finite non-negative numbers whose value depends only on the AddPattern calls made: equal additions on two instances give equal statistics, matching events, copying, reading them and rejected patterns do not change them, and every copy reports the same. The reported bytes grow without bound as ever more distinct values are added to a path.",
  ["histories", "inputs"],
  "for all pattern sequences in either build mode and all interleaved matches, copies and failed additions",
  "memory_cost_test.go checks a few totals; that matching and copying leave the figures alone is about histories.",
  ["stats.go", "memory_cost.go", "quamina.go"],
  [("state walk", "stats.go / memory_cost.go")],
  ["GetMatcherStats result"])

p("C24", "New accepts exactly the permitted option combinations",
  "New succeeds exactly when media type and flattener are each given at most once and not both, the media type is application/json, the flattener is not nil, pattern deletion is given at most once and no pattern storage is requested, in any order of options; otherwise it returns an error and no instance. Deletion works if and only if it was requested, and is refused with an error, without effect, otherwise; the deprecated memory-budget calls have no effect.",
  ["configurations", "inputs"],
  "for all sequences of options with valid and invalid arguments",
  "quamina_test.go tries some combinations; validity must not depend on order or repetition.",
  ["quamina.go"],
  [("option functions", "quamina.go With..."), ("defaults", "quamina.go New")],
  ["New result", "behaviour of the instance returned"])

p("C25", "Every call terminates in proportionate time and space, and never crashes",
  "For every pattern text and every event of moderate size, AddPattern in the default build mode and MatchesForEvent return, with a result or an error, without panicking and without time or memory explosion: cost stays within a fixed generous allowance for input of that size, including deep nesting, long strings, huge numbers, large counts, many patterns on one path, and expressions such as nested quantifiers, repeated dots or categories. Arbitrary bytes as pattern or event never crash the process.",
  ["inputs", "histories"],
  "for all inputs up to moderate size (tens of kilobytes of event, hundreds of patterns, expressions of a few dozen atoms), except three shapes whose cost is known to multiply: patterns with many fields that each list several values, events with many long arrays under a pattern that names all of them, and arrays nested thousands deep with values at every level",
  "Blow-up and unbounded recursion depend on shapes nobody wrote a test for.",
  ["regexp_nfa.go", "small_table.go", "flatten_json.go", "core_matcher.go", "epsi_closure.go", "nfa.go"],
  [("closure and merge memoisation", "nfa.go, epsi_closure.go"), ("iterative skipping", "flatten_json.go")])

p("C26", "Matching, copying and refused additions retain no memory; deletions give it up",
  "However long a process runs, memory is retained only for the patterns that have been added. Matching (good events, damaged events, events with names and values never seen before, on an instance, on its copies, before and after deletions) keeps nothing once it has settled; nor do copies that are dropped, refused additions, deletions of identifiers that are not there, or instances that are dropped. In an instance with pattern deletion, what deleted patterns take is given up by an automatic rebuild, once at least 1000 identifiers have been found since the last rebuild and those of deleted patterns come to more than a fifth of those reported; so rounds of adding, deleting and matching do not accumulate memory.",
  ["histories"],
  "for every set of patterns, and every number of repetitions of any of these calls",
  "A test makes a few calls and ends; what is kept for each call, or for each value seen, shows only as growth over thousands of repetitions, and whether deleted patterns are ever reclaimed depends on counts over the whole history.",
  ["pruner.go", "core_matcher.go", "nfa.go", "flatten_json.go", "quamina.go", "live_pattern_state.go", "rune_range.go"],
  [("rebuild policy and statistics", "pruner.go tooMuchFiltering, rebuildWhileLocked"), ("reused buffers", "nfa.go nfaBuffers, flatten_json.go reset"), ("caches shared between instances", "rune_range.go")],
  ["size of the reachable heap after garbage collection"])

p("C27", "Matching takes as long with thousands of patterns as with a few",
  "The time and the memory a match takes depend on the event and on what it matches, not on how many other patterns there are: when thousands of patterns are added which ask for other strings, numbers, prefixes or equals-ignore-case texts at the same path, or for other paths, alone, in long lists, or before or after a field they have in common, a match of an event that none of them matches takes no more than a small factor longer, with pattern deletion or without, and in either build mode. So does making a copy. Excepted are wildcard, shellstyle and regexp patterns at the same path in the default build mode, which are documented to slow down matching, and exists:false patterns.",
  ["performance"],
  "for every set of patterns of these kinds, however large, and every event",
  "The tests check results with few patterns, and the benchmarks measure without judging; a linear scan, or an allocation sized by the number of patterns, shows only when the same match is timed with few and with many.",
  ["core_matcher.go", "field_matcher.go", "value_matcher.go", "small_table.go", "segments_tree.go", "pruner.go", "live_pattern_state.go", "quamina.go"],
  [("one automaton for all the values at a path", "value_matcher.go transitionOn, nfa.go traverseDFA"), ("paths looked up by name", "field_matcher.go, segments_tree.go"), ("live patterns", "live_pattern_state.go Contains")],
  ["least time of many repetitions", "bytes allocated per match"])

p("C28", "A match never waits for an addition in progress",
  "While AddPattern is at work through one instance, however long it takes, matches through its copies and the making of copies go on: none of them waits for the addition to be finished, whether the pattern is for the paths the events have or for others, with pattern deletion or without, in either build mode; and matching doesn't keep an addition from being finished.",
  ["concurrency"],
  "for every set of patterns, every event, every addition in progress and every schedule",
  "The concurrency tests check for races and for results; with a lock that makes readers wait all results are right, and only matches that are late during a long addition give it away.",
  ["core_matcher.go", "value_matcher.go", "field_matcher.go", "pruner.go", "quamina.go"],
  [("updates by atomic pointer, additions serialised by a lock which matches don't take", "core_matcher.go, value_matcher.go, field_matcher.go"), ("updating lock and lock", "pruner.go")],
  ["time at which each match in each goroutine is finished"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
