"""Writes /verif/properties.jsonl (run by hand after editing the list below)."""
import json

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))

C = "src/reparsec/core/"
PUB = ["Parser.parse(...).unwrap()"]
BOTH = ["Parser.parse(recover=True).unwrap()", "Parser.parse(recover=True).unwrap(recover=True)"]
ps = [
P("C01", "Choice, maybe and attempt commit exactly on consumed input",
  "p | q yields p's result unless p fails without having consumed input, and then yields q's result; p.maybe() yields p's result, "
  "or None exactly when p fails without consuming; when p fails after consuming, the whole choice or option fails and later alternatives are not used. "
  "p.attempt() behaves as p, except that a failure counts as not having consumed anything. "
  "This holds for every parser built from the library's combinators, every input and every nesting.",
  ["programs", "inputs"], "every grammar built from the public combinators, every stream",
  "Tests run a dozen fixed grammars; commitment depends on the combination of consumption flags of all nested parsers, which only quantifying over grammars and inputs covers.",
  [C + "combinators.py", C + "result.py"],
  [("_alt_fast/_alt: second tried only after unconsumed failure", C + "combinators.py"), ("_maybe*, _attempt*", C + "combinators.py"),
   ("consumed propagation in prepend_expected", C + "result.py")],
  [("consumed", "whether a result was reached after consuming input", C + "result.py")], PUB),
P("C02", "Sequencing threads the position and composes the values",
  "A sequence (+, <<, >>, seq, seql, seqr, then, between, bind) runs its second parser exactly where the first one stopped, on the same stream, "
  "succeeds only if all parts succeed, and returns the documented combination of the parts' values (pair, left, right, flat tuple of 2..8, callback result); "
  "fmap and apply change the value and nothing else. Operator, method and function spellings of the same combinator are interchangeable.",
  ["programs", "inputs"], "every nesting of sequencing combinators with any parts, any values (including None, falsy and tuple values)",
  "The tests fix the parts to single symbols; values that are themselves tuples, None or falsy, and empty or multi-token parts, are not sampled.",
  ["src/reparsec/parser.py", C + "combinators.py"],
  [("_seq_h*, _bind*, tuple3..tuple8, _fmap*", C + "combinators.py"), ("then/apply/between/operators", "src/reparsec/parser.py")], (), PUB),
P("C03", "Repetition is greedy, complete and ordered; chains associate as named",
  "p.many() returns exactly the values of the longest run of successes of p, in order, for any length, and fails if the element that ends the run failed after consuming; "
  "p.sep_by(s) returns the items of a possibly empty s-separated list and fails on a dangling separator. "
  "chainl1 and chainr1 return the left- and right-nested application of the parsed operators to all parsed operands in order.",
  ["programs", "inputs"], "every item, separator and operator parser, every number of repetitions",
  "Tests use at most four repetitions of single symbols and one operator level.",
  ["src/reparsec/parser.py", C + "combinators.py"],
  [("_many_fast/_many loops", C + "combinators.py"), ("sep_by, chainl1, chainr1 reducers", "src/reparsec/parser.py")], (), PUB),
P("C04", "Turning recovery on never changes the parse of valid input",
  "If a parser accepts an input without recovery, then parsing the same input with recover=True, with any max_insertions, reports no error and returns an equal value, "
  "both from unwrap() and from unwrap(recover=True).",
  ["programs", "inputs", "configurations"], "every grammar, every accepted input, every max_insertions",
  "Every combinator is implemented twice, once for each mode; the tests compare the two on a handful of pairs.",
  [C + "combinators.py", C + "sequence.py", C + "scannerless.py", C + "layout.py", C + "primitive.py"],
  [("pairs X_fast / X for every combinator and primitive", C + "combinators.py")], (), PUB + BOTH),
P("C05", "Recovery never hides an error and keeps the first diagnosis",
  "If a parser rejects an input without recovery, then with recover=True unwrap() still raises ParseError, with at least one item; when no repair is found the error carries no edit and unwrap(recover=True) raises as well. "
  "For parsers that do not use attempt, the first item has the same location and the same expected descriptions as the error reported without recovery.",
  ["programs", "inputs", "configurations"], "every grammar in which repeated parsers do not accept the empty string, every rejected input, every max_insertions",
  "Tests list a few error texts of fixed grammars; the relation between the two modes is never stated.",
  [C + "combinators.py", C + "recovery.py", C + "repair.py", "src/reparsec/types.py"],
  [("expected/loc of Recovered and OpItem", C + "repair.py"), ("ResultWrapper.unwrap", "src/reparsec/types.py")], (), PUB + BOTH),
P("C06", "Reported repairs explain the recovered value",
  "When recovery succeeds, the reported edits are in stream order, do not overlap, stay inside the input, each skip removes at least one element, and each edit sits where it was applied. "
  "Applying them to the input gives a text that the grammar derives, and the value returned by unwrap(recover=True) is a value the grammar assigns to that text (an insertion by recover_with standing for its supplied value).",
  ["programs", "inputs", "configurations"], "every grammar, every rejected input, every max_insertions",
  "Tests compare the final value or the message of chosen examples, never the edits against the value.",
  [C + "recovery.py", C + "combinators.py", C + "sequence.py", C + "scannerless.py", C + "repair.py"],
  [("continue_parse, _join_ops", C + "recovery.py"), ("make_insert/make_skip positions and values", C + "repair.py")],
  [("Repair.ops/value/pos", "edits, resulting value and resume position of one repair", C + "repair.py")], BOTH),
P("C07", "Insertions in a row are bounded by max_insertions",
  "With recover=True, no reported repair contains more than max_insertions insertions without an input element being consumed or skipped in between (default 5), and with max_insertions=0 nothing is inserted at all. "
  "The allowance is available again in full after an element is consumed or skipped, so up to max_insertions insertions are found at each later error.",
  ["programs", "inputs", "configurations"], "every grammar, input and max_insertions value",
  "No test passes max_insertions; the budget is threaded through every combinator.",
  ["src/reparsec/parser.py", C + "combinators.py", C + "recovery.py", C + "repair.py"],
  [("ins/rem arguments", C + "combinators.py"), ("continue_parse budget reset", C + "recovery.py"), ("make_insert rem - 1", C + "repair.py")],
  [("rem", "insertions left at this position, None where recovery is off", C + "combinators.py")], BOTH),
P("C08", "The cheapest candidate repair is reported, ties broken as designed",
  "At a failed token the candidates are: insert that token (if it has a known value), and skip to the nearest later match, or to the end for eof; a failed choice also offers its later alternatives' candidates, except (when an earlier alternative has candidates) those starting with an automatic insertion that recover() did not permit. "
  "Each candidate is carried through the rest of the parse, and the one reported has the fewest inserted plus skipped elements, then the furthest end position, then an explicitly permitted start, then the earliest place in the grammar.",
  ["programs", "inputs", "configurations"], "every grammar, every rejected input, every max_insertions",
  "The tests fix about sixty grammar/input pairs; candidate generation and ordering depend on all nested choices and on everything after the error.",
  [C + "recovery.py", C + "sequence.py", C + "scannerless.py", C + "combinators.py", "src/reparsec/types.py"],
  [("join_repairs", C + "recovery.py"), ("min(key=...)", "src/reparsec/types.py"), ("_recover", C + "combinators.py")],
  [("cost, prio", "number of edited elements; automatic or permitted", C + "repair.py")], BOTH),
P("C09", "Error locations are the true locations",
  "Every location in a ParseError is the location of the stream position where the error or edit is: the offset by default, true line and column of the text under scannerless.parse, the start of the token (or end of the last one) under lexer.parse, and with a user-supplied incremental get_loc what that function yields when folded over the input from the start. "
  "loc_str is the location rendered by the formatter in use.",
  ["programs", "inputs", "configurations"], "every grammar, multi-line input, mode, and location function",
  "Locations are computed incrementally along the parse; tests cover single-line inputs almost exclusively.",
  [C + "types.py", C + "scannerless.py", "src/reparsec/lexer.py", C + "layout.py", "src/reparsec/scannerless.py"],
  [("Ctx.get_loc/update_loc", C + "types.py"), ("get_loc", C + "scannerless.py"), ("_loc_from_stream", "src/reparsec/lexer.py")],
  [("Ctx.loc", "last known location, moved forward", C + "types.py")], ["ErrorItem.loc", "ErrorItem.loc_str"]),
P("C10", "Expected lists name what could have come next, in grammar order",
  "The expected list of an error is the concatenation, in grammar order, of the descriptions of the parsers that could have continued at that point: alternatives that failed there without consuming, options and repetitions that could have continued there, then what follows them; a failure inside attempt contributes what it expected where it failed. "
  "label(x) replaces the list by [x] when its parser consumed nothing and leaves it alone otherwise; sym, literal, eof, unexpected and lexer.token contribute their own description, satisfy and regexp none.",
  ["programs", "inputs"], "every grammar and every rejected input, with and without recovery",
  "Tests check the expected list of about thirty errors.",
  [C + "result.py", C + "repair.py", C + "combinators.py", C + "chain.py"],
  [("set_expected/prepend_expected", C + "result.py"), ("Append", C + "chain.py"), ("ops_* helpers", C + "repair.py")], (), ["ErrorItem.expected"]),
P("C11", "Layout combinators enforce and scope the column mark",
  "block(p) runs p with the mark at the current column; aligned(p) runs p only if the current column equals the mark; indented(d, p) runs p only if the current column is the mark plus d, with the mark moved there; a failed check is a non-consuming error expecting 'indentation'. "
  "Whatever happens inside block or indented, the enclosing mark is back in force afterwards, in both modes, and for text as well as token streams.",
  ["programs", "inputs"], "every nesting of layout combinators with other combinators, every multi-line text or token stream",
  "Eight single-line layout cases are tested, none nested, none on a token stream.",
  [C + "layout.py", C + "types.py", C + "result.py"],
  [("_block/_aligned/_indented, set_ctx", C + "layout.py"), ("Ctx.update_loc", C + "types.py")],
  [("Ctx.mark", "column mark in force", C + "types.py")], PUB + BOTH),
P("C12", "The lexer splits the text faithfully and always terminates",
  "split_tokens matches the specification repeatedly from the start of the text; the tokens are the named matches in order, with the group's name and text, and start and end at the true offset, line and column of the match; unnamed matches are skipped. "
  "If at some point nothing (or only the empty string) matches, LexError carries the true location of that point; every call terminates.",
  ["inputs", "programs"], "every text and every lexer specification",
  "The tests lex a few one-line JSON texts and never look at token locations.",
  ["src/reparsec/lexer.py"], [("iter_tokens", "src/reparsec/lexer.py")], (), ["split_tokens", "Token.start/end", "LexError.loc"]),
P("C13", "Parsers and results are reusable: outcomes do not depend on history",
  "The outcome of a parse depends only on the parser, the contents of the stream and the options: earlier parses with the same or related parsers, in any mode, failed or interrupted by an exception, unwrapped or not, changed by the client afterwards, do not affect it. "
  "A result can be unwrapped any number of times, in any order and at any later time, always with the same outcome, and parsing never modifies the stream.",
  ["histories"], "every sequence of parse, unwrap, fmap, define and client-mutation steps on shared parsers",
  "Each test performs one parse per parser object and unwraps at most twice, immediately.",
  [C + "result.py", C + "repair.py", C + "recovery.py", "src/reparsec/types.py", C + "combinators.py"],
  [("re-iterable Append", C + "chain.py"), ("copying in _join_ops", C + "recovery.py"), ("list(expected) in unwrap", "src/reparsec/types.py")], (),
  PUB + BOTH),
P("C14", "Forward declarations behave as their definition",
  "A defined Delay behaves exactly as the parser it was defined with, wherever it is used, whether the use was built before or after the definition, and for recursive grammars of any depth. "
  "Reaching an undefined Delay raises RuntimeError, in both modes, and defining one a second time raises RuntimeError and leaves the first definition in force.",
  ["programs", "histories", "inputs"], "every order of building, defining and parsing; every recursive grammar and nesting depth",
  "One doctest covers undefined use; redefinition and building orders are untested.",
  ["src/reparsec/parser.py"], [("Delay.define/to_fns/parse_fn", "src/reparsec/parser.py")],
  [("_defined", "whether define has been called", "src/reparsec/parser.py")], PUB),
P("C15", "Parsing always ends, and empty repetition is refused",
  "For every grammar without left recursion, and inputs nested no deeper than the interpreter's recursion limit allows, parsing ends, in both modes, with a value, a ParseError or RuntimeError. "
  "RuntimeError is raised when, and only when, a repetition meets a success that consumed nothing (or an undefined Delay is reached); there is never an endless loop and never a silently dropped repetition.",
  ["programs", "inputs"], "every grammar without left recursion, every input, every max_insertions",
  "Two inputs test the guard; that recovery cannot loop is nowhere tested.",
  [C + "combinators.py", C + "recovery.py"], [("_many_fast/_many guard", C + "combinators.py"), ("rem bound", C + "combinators.py")], (), PUB + BOTH),
P("C16", "recover_with values appear only where recovery needs them",
  "recover_with(x), recover_with_fn(f) and token_ins affect a parse only with recover=True, where their parser failed without consuming: then x, or f(stream, position of the failure), is offered as an insertion at that position, described by the label (repr of the value if none was given), ahead of the parser's own candidates. "
  "The token offered by token_ins has the kind and value given and is located where the parse stood. f is never called otherwise.",
  ["programs", "inputs", "configurations"], "every grammar, input, mode and max_insertions",
  "A dozen examples with one-symbol parsers; calls of f are not observed.",
  [C + "combinators.py", "src/reparsec/lexer.py"], [("_recover_with, _recover_with_fn", C + "combinators.py"), ("token_ins", "src/reparsec/lexer.py")], (), BOTH),
P("C17", "Primitive parsers match exactly what they say, at the current position",
  "sym matches one element equal to its argument, satisfy one element accepted by the predicate, literal the text, regexp what the pattern matches starting at the current position (if the group took part), eof the end only, token one token of that kind; each returns the matched element or text and moves just past it, and on failure moves nothing. "
  "Pure and PureFn succeed without consuming, PureFn with a fresh call each time; unexpected always fails. Elements are only ever compared and tested, so any sequence type and falsy elements work.",
  ["inputs", "programs", "configurations"], "every stream (text, lists, tuples, tokens; empty, boundary positions), every primitive at every position",
  "Tests use text streams and a few characters; objects with their own equality and falsy elements are not tried.",
  [C + "sequence.py", C + "scannerless.py", C + "primitive.py", "src/reparsec/lexer.py", "src/reparsec/sequence.py"],
  [("_sym*, _satisfy*, _eof*", C + "sequence.py"), ("_literal*, _regexp*", C + "scannerless.py"), ("Pure, PureFn, unexpected", C + "primitive.py")], (), PUB + BOTH),
P("C18", "Result objects and error texts say what happened",
  "ParseResult.fmap applies the function to whatever value unwrap would have returned, in either mode of unwrap, and leaves errors and repairs unchanged. "
  "The text of a ParseError lists its items in order, each with location, 'unexpected input' or the expected descriptions joined with commas and 'or', and the edit applied with correct count and plural or inserted label.",
  ["inputs", "histories"], "every result of every parse, every chain of fmap and unwrap",
  "ParseResult.fmap is not tested at all; texts are compared for a few examples.",
  ["src/reparsec/types.py", C + "result.py"], [("ResultWrapper", "src/reparsec/types.py"), ("ErrorItem.msg, ParseError.__str__", "src/reparsec/types.py")], (),
  ["ParseResult.fmap", "str(ParseError)", "ErrorItem.msg"]),
P("C19", "Interleaved parses do not interfere",
  "Several parses running at the same time with the same parser objects, in different threads or re-entered from user callbacks, on the same or different streams and in any modes, each give the outcome they give when run alone, for every interleaving of their steps.",
  ["schedules"], "every interleaving of two or more parses at user-callback granularity, nested parses started from callbacks",
  "No test runs two parses at once.",
  [C + "combinators.py", C + "recovery.py", C + "types.py", "src/reparsec/parser.py"],
  [("no state outside the call stack; contexts are immutable", C + "types.py")], (), PUB + BOTH),
P("C20", "User functions are called exactly when evaluation reaches them",
  "In a parse without recovery, and in one with recovery of an input that needs none, the functions the user supplied (predicates of satisfy and token, functions of fmap, apply, chained operators, bind, PureFn) are called exactly as ordered evaluation of the grammar on the input prescribes: once for each time evaluation reaches them, in that order, with the values parsed so far, "
  "never for a branch that is not tried, a value that is never produced or an element past the end of the input. An exception a function raises ends the parse at that call: it reaches the caller and no later function is called.",
  ["programs", "inputs", "schedules"], "every grammar, every input; the whole sequence of calls with their arguments",
  "Tests look at results; pure callbacks hide repeated, missing, early or reordered calls, which side effects, counters and fresh objects expose.",
  [C + "combinators.py", C + "sequence.py", C + "primitive.py", "src/reparsec/parser.py", "src/reparsec/sequence.py"],
  [("_bind*, _fmap*, _alt_fast, _many_fast", C + "combinators.py"), ("Result.fmap", C + "result.py"), ("_satisfy*", C + "sequence.py"), ("PureFn", C + "primitive.py"), ("chainl1, chainr1", "src/reparsec/parser.py")], (), PUB + BOTH),
P("C21", "Rewriting a grammar by the laws of the combinators changes nothing",
  "Parsers that are equal by the laws users refactor by behave alike on every input, in plain and in recovery mode: same values, same errors with the same locations, expected lists and texts, same repairs. "
  "Laws: | and the sequencing operators are associative; attempt, maybe, recover and block are idempotent, the outermost label wins; Pure before or after a parser and bind from Pure add nothing; a defined Delay is its definition; "
  "maybe(p) is p | Pure(None), many, sep_by and between are their definitions; << and >> select from +, and >> is a bind that ignores the value; fmap goes inside |, <<, >>, label, attempt, recover and layout; block aligns its own content.",
  ["programs", "inputs", "configurations"], "every grammar, every place in it at which a law applies, every input, mode and max_insertions",
  "Tests never compare two grammars; that a law holds for errors and repairs depends on everything around the rewritten place.",
  [C + "combinators.py", C + "recovery.py", C + "result.py", C + "layout.py", "src/reparsec/parser.py"],
  [("_alt, join_repairs", C + "recovery.py"), ("_seq_h, _bind, _many, _maybe", C + "combinators.py"), ("sep_by, between, Delay", "src/reparsec/parser.py")], (), PUB + BOTH),
P("C22", "A text goes through lexer and parser without losing its places",
  "For every lexer specification, text and parser of tokens, lexer.parse over split_tokens(text) works on exactly the tokens of the text, in order, and every error it reports, in either mode, names the line and column of the text at which the offending token starts (or where the last token ends). "
  "Tokens inserted by token_ins carry the place they were inserted at, layout marks use the columns of the text, and a text that cannot be lexed raises LexError with the line and column where no token matches instead of being parsed.",
  ["inputs", "programs", "configurations"], "every text and lexer specification (skipped text, tokens spanning lines, end of input), every token grammar, both modes",
  "Tests lex and parse a handful of one-line texts; tokens that span lines, skipped text before the end and locations after a recovery are not tried together.",
  ["src/reparsec/lexer.py", "src/reparsec/core/layout.py", "src/reparsec/parser.py"],
  [("iter_tokens, split_tokens", "src/reparsec/lexer.py"), ("_loc_from_stream, parse, token_ins", "src/reparsec/lexer.py")], (), ["reparsec.lexer.split_tokens", "reparsec.lexer.parse", "reparsec.lexer.token_ins"]),
P("C23", "A parser is the same however it is spelled and whatever it is part of",
  "Operators, methods and functions that denote the same combinator (p + q and seq(p, q), p | q and alt(p, q), p.many() and many(p), and so on for every combinator, with default or explicit arguments) build parsers that behave alike on every input, in plain and in recovery mode: same values, errors, texts and repairs. "
  "Using a parser as a part of others, any number of times, does not change what it does on its own.",
  ["programs", "inputs", "configurations"], "every grammar in every mixture of spellings, every part of it, every input, mode and max_insertions",
  "Tests exercise each spelling in one or two examples, and few of them in recovery mode.",
  ["src/reparsec/parser.py", "src/reparsec/layout.py", "src/reparsec/sequence.py", C + "combinators.py"],
  [("Parser methods and operators", "src/reparsec/parser.py"), ("module-level functions", "src/reparsec/parser.py"), ("Tuple2..Tuple8", "src/reparsec/parser.py")], (), PUB + BOTH),
P("C24", "User-supplied location functions and streams are used only as promised",
  "During a parse get_loc is called only with the stream being parsed, a position from 0 to len(stream), and a previous location that is Loc(0, 0, 0) or that get_loc returned earlier in the same parse for a position not after the one asked for; fmt_loc is applied only to locations so obtained, and each reported location text is fmt_loc of the reported location. "
  "The parsers of reparsec.sequence read a stream only by len() and by indexing from 0 to len - 1. "
  "In a grammar without layout combinators, get_loc and fmt_loc influence nothing but the locations: values, expected descriptions and edits are the same whichever functions are given, in plain and in recovery mode.",
  ["programs", "inputs", "configurations"], "every grammar, stream (valid or damaged), get_loc and fmt_loc, both modes, every max_insertions",
  "Tests pass one get_loc, compute it from the whole prefix, and never look at how it is called; a call with a location that lies ahead or a position past the end shows only with an incremental user function on a particular input.",
  [C + "types.py", C + "sequence.py", C + "scannerless.py", C + "layout.py", "src/reparsec/parser.py", "src/reparsec/types.py"],
  [("Ctx.get_loc, Ctx.update_loc", C + "types.py"), ("ResultWrapper.unwrap", "src/reparsec/types.py"), ("_eof, _satisfy, _sym", C + "sequence.py")],
  [("loc", "the last location made in this parse, from which the next one is made", C + "types.py")],
  BOTH + ["arguments of get_loc and fmt_loc", "len() and indexing of the stream"]),
]
with open("/verif/properties.jsonl", "w") as f:
    for p in ps:
        f.write(json.dumps(p) + "\n")
