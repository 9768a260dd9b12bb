# executed by meta.py
CONVERSION = "src/lib.rs", "src/spl/parser.rs", "src/pyspark/ast.rs"

prop("P01", "Every input text gets a prompt, ordinary answer",
     "Parsing, rendering (with and without the runtime), converting and macro detection answer every text with a result or an ordinary, catchable exception. They never panic, abort the process or hang, whatever the text, including malformed, truncated and moderately nested (up to 200 levels) queries. The time needed stays practical: a short query never takes more than a few seconds.",
     ["inputs"], "every text: any command, any sequence of tokens, any characters, any truncation or corruption of a valid query, nesting to 200",
     "the tests parse a few hundred well-formed queries; totality quantifies over all texts, mostly malformed ones, and over nesting depth",
     ["src/lib.rs", "src/spl/parser.rs", "src/functions/eval_fns.rs", "src/commands", "src/pyspark/ast.rs"],
     [("parser combinators", "src/spl/parser.rs"), ("command parsers", "src/commands/cmd_*/spl.rs"), ("code generation and its error type", "src/commands/cmd_*/pyspark.rs"), ("macro scanner", "src/spl/macros.rs")],
     technique="exhaustive enumeration of token sequences, character strings, edits of valid queries and nesting families, run on the real code",
     note="Exhaustive within the stated alphabets and lengths; each call is run on the compiled library in a separate process, so aborts and hangs are seen. Trusts that the token alphabet covers the parser's vocabulary.")

prop("P03", "Operators group the way SPL defines",
     "In eval and where expressions and in search filters, every combination of comparison, arithmetic, concatenation, AND, OR, NOT, IN and implicit AND groups as SPL defines: * and / before + and -, then ., then comparisons, then NOT; AND before OR in eval and where, OR before AND in search; equal operators group to the left. Parentheses that merely repeat that grouping change nothing, neither in the syntax tree nor in the generated code, and keywords are recognised in any letter case but only as whole words.",
     ["inputs", "programs"], "every expression tree up to the stated number of operators, printed with minimal, full and redundant parentheses",
     "the tests pin a handful of expressions with one or two operators; grouping is a statement about every tree",
     ["src/spl/parser.rs", "src/spl/operators.rs", "src/commands/cmd_search/spl.rs"],
     [("precedence levels", "src/spl/parser.rs"), ("search expression folding", "src/commands/cmd_search/spl.rs"), ("operator keywords", "src/spl/operators.rs")],
     note="Exhaustive over operator trees up to 4 arithmetic / 3 boolean operators (thorough: 5 / 4); leaves rotate through names that begin with keywords. Trusts the printer in checks/p03.py.")

prop("P07", "search keeps exactly the events its condition is true for",
     "Running the code generated for a search, in either mode, keeps exactly the events for which the condition is true: comparisons (=, ==, !=, <, <=, >, >=) with numbers and words, quoted or not, * wildcards anywhere in a value, CIDR ranges, IN lists (including wildcards and ranges among the values) and free-text terms (case-insensitive substrings of _raw), combined with AND, OR, NOT, juxtaposition and parentheses. An event lacking a compared field satisfies neither the comparison nor its negation. The condition means the same as a leading search with an index, after a pipe, before or after the index, and both modes keep the same events in all their columns.",
     ["inputs", "programs"], "every condition up to the stated size over the listed comparisons, in every query form and mode, on events combining every field value",
     "the tests compare the generated text of single conditions; that a filter keeps the right events for every combination of operators needs execution over all combinations",
     ["src/commands/cmd_search/pyspark.rs", "src/commands/cmd_search/spl.rs", "src/pyspark/transpiler/expr.rs", "python/spl_transpiler/runtime/commands/search.py"],
     [("search conditions to column expressions", "src/commands/cmd_search/pyspark.rs"), ("wildcards and CIDR", "src/pyspark/transpiler/expr.rs"), ("runtime search", "python/spl_transpiler/runtime/commands/search.py")],
     technique="exhaustive enumeration of conditions; generated code executed on an explicit model of Spark and compared with an independent evaluator",
     note="Exhaustive over conditions of 1-3 comparisons (thorough: 4). Trusts lib/fakespark, which is checked against recorded runs of the real Spark. LIKE metacharacters %, _ and \\ in values are excluded.")

prop("P06", "eval computes, and where filters by, the value of its expression",
     "Running the code generated for eval, in either mode, gives every event the value of the expression under the assigned name and leaves all other columns alone: arithmetic (+ - * /), concatenation with ., comparisons, AND/OR/NOT with three-valued logic, IN lists, if/case/validate/coalesce with nested conditions, and absent values propagating as absence. where keeps exactly the events for which its condition is true, in unchanged form. Several assignments in one eval, or in consecutive evals, take effect from left to right, each seeing the results of those before it, including reassigning an existing field; new columns are added after the existing ones.",
     ["inputs", "programs"], "every expression up to the stated number of operators and every sequence of assignments up to the stated length, on events combining absent and present values",
     "the tests compare the generated text of a few expressions; what a generated expression computes, for every tree and every sequence of assignments, takes execution over all of them",
     ["src/pyspark/transpiler/expr.rs", "src/commands/cmd_eval", "src/commands/cmd_where", "src/spl/parser.rs", "python/spl_transpiler/runtime/commands/eval.py"],
     [("expressions to columns", "src/pyspark/transpiler/expr.rs"), ("eval", "src/commands/cmd_eval/pyspark.rs"), ("where", "src/commands/cmd_where/pyspark.rs"), ("conditional functions", "src/functions/eval_fns.rs")],
     technique="exhaustive enumeration of expressions and assignment sequences; generated code executed on an explicit model of Spark and compared with an independent evaluator",
     note="Exhaustive over trees of up to 3 operators (thorough: 4) and sequences of up to 3 assignments (thorough: 4). No division by zero and no implicit casts between strings and numbers. Trusts lib/fakespark.")

EXEC = "exhaustive enumeration of queries; generated code executed on an explicit model of Spark and compared with an independent reference interpreter"

prop("P08", "A query reads exactly the indexes and sources it names",
     "A leading search reads the table of each index it requires, each once and in order of first mention, main when it names none (without the runtime), and the comparison with index adds no filter of its own; all other conditions filter the union, wherever among them the indexes are written. An index under OR or compared with anything but = is refused. After the first pipe index is a field like any other. With the runtime, the table lookup function (the default one or the one that the setting table_lookup_function, TRANSPILER_TABLE_LOOKUP_FUNCTION in the environment, names as module:function; anything else in it is refused) is called once with exactly the selectors the query names (index, source, sourcetype, host, hosttag, eventtype, eventtypetag, savedsplunk, splunk_server), and the default lookup returns the events of the named index, or of the table named after source and sourcetype, that match every other selector, and refuses to guess when none of the three is given.",
     ["inputs", "configurations"], "every sequence and grouping of index terms and conditions up to the stated length; every subset of the runtime's selectors",
     "the tests pin a few texts with one or two indexes; which tables are read for every mixture, order and grouping of terms, and every combination of selectors, takes enumeration",
     ["src/commands/cmd_search/pyspark.rs", "src/pyspark/ast.rs", "python/spl_transpiler/runtime/config.py", "python/spl_transpiler/runtime/commands/search.py"],
     [("index extraction and selectors", "src/commands/cmd_search/pyspark.rs"), ("default table lookup", "python/spl_transpiler/runtime/config.py"), ("runtime search", "python/spl_transpiler/runtime/commands/search.py")],
     technique=EXEC,
     note="Exhaustive over sequences of up to 4 terms (thorough: 5) and all 512 selector sets. Index names are plain words. Trusts lib/fakespark.")

prop("P14", "Each eval function computes its documented value",
     "The supported eval functions compute the documented value for every argument of the documented type, written as a field or as a constant, in eval, where, if() and nested in one another, in both modes: bitwise (bit_and/or/xor/not, shifts), comparison and conditional (in, like, match, cidrmatch, nullif, isnull, isnotnull, coalesce), conversion (tostring, tonumber), cryptographic (md5, sha1, sha256, sha512), mathematical (abs, ceiling, floor, round, pow, sqrt, exp, ln, log, exact, pi, sum, avg, max, min), multivalue (split, mvcount, mvindex, mvappend, mvzip), text (len, lower, upper, substr, replace, ltrim, rtrim, trim, urldecode), JSON (json_keys, json_valid) and trigonometric functions. A function the transpiler does not implement is refused with an error, also inside larger expressions.",
     ["inputs", "programs"], "every combination of boundary values of the arguments of every supported function, and every composition of functions up to the stated depth",
     "the tests compare generated text for one call per function; argument order, edge values and nesting are statements about all calls",
     ["src/functions/eval_fns.rs", "src/functions/mod.rs", "python/spl_transpiler/runtime/functions/eval.py", "python/spl_transpiler/runtime/udfs/__init__.py"],
     [("function table", "src/functions/eval_fns.rs"), ("runtime function library", "python/spl_transpiler/runtime/functions/eval.py"), ("user-defined functions", "python/spl_transpiler/runtime/udfs/__init__.py")],
     technique=EXEC,
     note="Exhaustive over boundary values per argument and compositions of 2 levels (thorough: 3). Excludes mvindex(x, -n) with one index (pinned by the repository's tests, see DESIGN.md), time functions (P16) and arguments outside a function's domain. Trusts lib/fakespark.")

prop("P10", "stats groups events and aggregates each group",
     "`stats` returns one event per combination of values of its `by` fields (one event in all without `by`, also when there are no events), holding those fields and one column per aggregation, named by its `as` name (plain or in double quotes) or else after its function. Each column is the documented aggregate of the non-absent values its argument takes in that group, for an argument that is a field, an expression or eval(...): count (of events, of values, of events for which eval(condition) is true), sum, avg, mean, min, max, range, sumsq, var, varp, stdev, stdevp, median and percentileN and upperpercN (nearest rank), exactpercN (interpolated), mode, dc, distinct_count, estdc, values, list, first, last, and in time order earliest, latest, earliest_time, latest_time and rate. Several aggregations in one command do not affect each other. Both modes give these results; aggregations the transpiler does not implement (per_day, per_hour, per_minute, per_second, rate_avg, rate_sum, estdc_error) and wrong numbers of arguments are refused with an error.",
     ["inputs", "programs"], "every aggregation, argument, by clause and pair of aggregations, on every small table of events (absent values, ties, empty groups, every order of arrival)",
     "the tests pin the generated text of a few calls; what a group aggregates to depends on the data, the grouping and the other aggregations, which only execution over every small table shows",
     ["src/commands/cmd_stats", "src/commands/stats_utils.rs", "src/functions/stat_fns.rs", "python/spl_transpiler/runtime/commands/stats.py", "python/spl_transpiler/runtime/functions/stats.py"],
     [("aggregation table", "src/functions/stat_fns.rs"), ("grouping and labels", "src/commands/stats_utils.rs"), ("runtime aggregation library", "python/spl_transpiler/runtime/functions/stats.py")],
     technique=EXEC,
     note="Exhaustive over tables of up to 3 events (thorough: 4) of 6 kinds, ordered pairs (thorough: triples) of aggregations. By fields are present in every event; first, last and list are not combined with earliest and latest. Trusts lib/fakespark.")

prop("P11", "sort, head, tail, top and rare order and select events",
     "`sort` orders events by its signed keys from the first to the last (- descending, + or nothing ascending, `desc` reversing all), separated by commas, with plain, single- or double-quoted names, and keeps the first N (10000 by default, all with 0); no event is lost, invented or changed. `head N`, `head limit=N`, `head count<N`, `head N>count` keep the first N events and `tail N` the last N, in the order they arrive in, 10 when N is left out; with keeplast=true `head count<N` keeps one more. `top` and `rare` return the most and the least frequent combinations of their fields with their counts, in that order, limited by N or limit= (10 by default, all with 0), with countfield= naming and showcount=f removing the count. Negative limits, sort functions and malformed forms are refused with an error, in both modes.",
     ["inputs", "programs"], "every list of sort keys and limit, every order of arrival, every N against every table size, every small table for top and rare",
     "the tests pin a handful of generated texts; what comes first depends on the data and on the interplay of keys, signs, desc and limits",
     ["src/commands/cmd_sort", "src/commands/cmd_head", "src/commands/cmd_tail", "src/commands/cmd_top", "src/commands/cmd_rare", "src/spl/parser.rs"],
     [("sort keys", "src/commands/cmd_sort/pyspark.rs"), ("limits of head", "src/commands/cmd_head/pyspark.rs"), ("top", "src/commands/cmd_top/pyspark.rs"), ("rare", "src/commands/cmd_rare/pyspark.rs"), ("options", "src/spl/parser.rs")],
     technique=EXEC,
     note="Exhaustive over lists of up to 3 keys and tables of up to 5 events (thorough: 7). top and rare are judged with showperc=f, without by, and with the missing argument of F.count() supplied; those and tail before another command are known findings. Sort keys are never absent. Trusts lib/fakespark.")

prop("P12", "Column-shaping commands keep, name and fill exactly the columns they list",
     "`table` and `fields [+]` keep exactly the listed columns in the listed order and `fields -` exactly the others, for every event and in the order the events came in; `table *` keeps all. `rename a as b, c as d` gives each listed column its new name and changes nothing else. `fillnull [value=V] [fields]` gives the absent values of the listed fields (of all fields when none is listed) the value (0 by default) and leaves present values, other fields, and fields whose type cannot hold the value alone. `addtotals [fieldname=F] fields` adds the sum of the present values of the listed fields as Total or F; row=f adds nothing. `bin span=N field [as alias]` gives the field, or its alias, the start of the span the time falls into, for spans of seconds, minutes, hours and days. `makeresults [count=N] [annotate=t] [splunk_server=S]` makes N events (1 by default) with _time and, annotated, the documented extra fields. Names may be plain, in single or in double quotes, lists separated by commas or spaces, in any sequence of these commands, in both modes. Wildcards in names, a bin without a time span, addtotals without fields or with col=true, and empty lists are refused with an error.",
     ["inputs", "programs"], "every list of columns, rename, fill value, addend list, span, instant and sequence of these commands up to the stated size, over every pattern of absent values",
     "the tests pin one or two texts per command; lists of names in every order and quoting, option placement and sequences need enumeration, and only execution shows which columns and values result",
     ["src/commands/cmd_table", "src/commands/cmd_fields", "src/commands/cmd_rename", "src/commands/cmd_fill_null", "src/commands/cmd_add_totals", "src/commands/cmd_bin", "src/commands/cmd_make_results", "src/spl/parser.rs", "python/spl_transpiler/runtime/commands/fill_null.py"],
     [("table", "src/commands/cmd_table/pyspark.rs"), ("fields", "src/commands/cmd_fields/pyspark.rs"), ("rename", "src/commands/cmd_rename/pyspark.rs"), ("fillnull", "src/commands/cmd_fill_null/pyspark.rs"), ("addtotals", "src/commands/cmd_add_totals/pyspark.rs"), ("bin", "src/commands/cmd_bin/pyspark.rs"), ("makeresults", "src/commands/cmd_make_results/pyspark.rs")],
     technique=EXEC,
     note="Exhaustive over lists of up to 3 of 7 columns (thorough: 4), renames of up to 3 columns and sequences of up to 3 shaping commands (thorough: 4). Rename targets are new names; the extra id column of makeresults is allowed. Trusts lib/fakespark.")

prop("P13", "join, lookup and multisearch combine searches event by event",
     "`join [type=inner|left|outer] [usetime=t [earlier=t|f]] fields [subsearch]` pairs each event with the subsearch event that has the same present values in all listed fields (and, with usetime, is not later, or with earlier=f not earlier), with the columns of both; events without a partner are dropped by an inner join and kept with absent values by a left or outer join. `lookup table keys [OUTPUT fields]` keeps every event once and adds the listed fields (all but the keys without OUTPUT) of the row of the table whose key fields equal the event's, under their AS names, absent when no row matches, in place of fields of the same name; `key AS field` compares the table's key with the event's field. `multisearch [..] [..]` returns the events of all its searches in order, with absent values for fields a search lacks. The subsearches may be any pipelines, nested in one another and followed by further commands; both modes agree. Subsearches in a condition, OUTPUTNEW, join with max other than 1, without fields or of unknown type, a multisearch of fewer than two searches or after another command, and malformed brackets are refused with an error.",
     ["inputs", "programs"], "every join field list, option and lookup key and output form on every small pair of tables; every multisearch and nesting up to the stated size",
     "the tests pin one text each; which events pair up, what is kept and which columns result depends on the data, the options and the nesting",
     ["src/commands/cmd_join", "src/commands/cmd_lookup", "src/commands/cmd_multi_search", "src/spl/parser.rs", "src/pyspark/ast.rs"],
     [("join", "src/commands/cmd_join/pyspark.rs"), ("lookup", "src/commands/cmd_lookup/pyspark.rs"), ("multisearch", "src/commands/cmd_multi_search/pyspark.rs"), ("data frames", "src/pyspark/ast.rs"), ("subsearches", "src/spl/parser.rs")],
     technique=EXEC,
     note="Exhaustive over tables of up to 2 x 3 events (thorough: 4 on the right) and multisearches of up to 3 searches (thorough: 4). At most one match per event; later commands do not name fields both sides of a join have: both are known findings. Trusts lib/fakespark.")

prop("P16", "Times are formatted, parsed, shifted and snapped as SPL defines",
     "strftime, and convert ctime with timeformat=, write an instant with each SPL time variable replaced by its documented text (%Y %y %m %b %B %d %e %j %A %a %F %T %H %k %I %p %M %S %f, %N and %Q with 3, 6 or 9 digits, %z %:z %::z %:::z %Z, %%) and all other text unchanged, whatever letters, quotes or brackets it contains and however the variables are combined (%e and %k without padding). strptime reads such a text back to the same instant, as far as the format holds it, including its time zone. relative_time adds the signed amount (in every spelling of seconds, minutes, hours, days, weeks and months), then snaps down to the unit after @ (weeks begin on Sunday), then adds the offset after the snap, for times, epoch seconds, now() and nested calls. An absent time gives an absent result. Both modes agree. Unknown or untranslatable variables, malformed specifiers, unknown units, and spans of months in bin and stats are refused with an error.",
     ["inputs"], "every combination of up to 3 time variables and literal texts, every date, time and zone layout, every amount, unit spelling, snap and offset, at boundary instants",
     "the tests pin two formats and one specifier; adjacent variables, literal letters, month ends, week starts and zones need every combination and an evaluation of the result",
     ["src/pyspark/transpiler/utils.rs", "src/functions/eval_fns.rs", "src/functions/shared.rs", "src/spl/parser.rs", "src/commands/cmd_convert", "src/commands/cmd_bin"],
     [("time formats", "src/pyspark/transpiler/utils.rs"), ("relative_time, strftime, strptime", "src/functions/eval_fns.rs"), ("units and specifiers", "src/spl/parser.rs"), ("spans", "src/commands/stats_utils.rs")],
     technique=EXEC,
     note="Exhaustive over pairs of 32 variables and 15 literal texts, triples around a literal (thorough: all triples of variables), 960 parsing layouts and 2,600 specifiers, at 12 instants. Session time zone UTC. A format without any variable is passed on as it is (pinned by the repository's tests). Trusts lib/fakespark.")

prop("P09", "A pipeline does what its commands do, one after the other",
     "The result of a pipeline is the composition of its commands: each command sees exactly the events and columns the commands before it produced, whatever they are. This holds for pipelines of search, where, eval, stats, sort, head, tail, fields, table, rename, fillnull, addtotals, rex, lookup and join (with pipelines as subsearches) after a search, a filtered search or a multisearch, in any order, including commands that reuse, overwrite, drop, rename or aggregate fields made earlier, and in both modes, where runtime commands and plain data frame operations alternate.",
     ["programs"], "every sequence of up to 3 (thorough: 4) of 35 commands after 4 sources, in both modes",
     "the tests check single commands and a few fixed pipelines; a wrong frame passed on, a reordered step or a stale column only shows in particular sequences",
     ["src/pyspark/transpiler/mod.rs", "src/pyspark/ast.rs", "src/pyspark/base.rs", "src/lib.rs", "src/commands", "python/spl_transpiler/runtime/commands"],
     [("pipeline state", "src/pyspark/transpiler/mod.rs"), ("data frames and numbered intermediate results", "src/pyspark/ast.rs"), ("the commands", "src/commands/cmd_*/pyspark.rs"), ("runtime commands", "python/spl_transpiler/runtime/commands")],
     technique=EXEC,
     note="Exhaustive over the menu in checks/p09.py. tail stands last and sort keys and by fields are present in every event. Trusts lib/fakespark.")

prop("P20", "Macro calls are found exactly and expand to exactly their definitions",
     "detect_macros finds every macro call of a query, in order: its name, its arguments (positional or named) as they are written, and the text before, between and after the calls, unchanged. substitute_macros replaces each call by the macro's definition with every $argument$ replaced by the value given for it, by position or by name in any order, leaving all other text, dollar signs and backslashes as they are and not substituting inside the values; macros in definitions are expanded in turn, to any depth. Blanks and pipes left at the end of the query are dropped. parse_with_macros parses exactly that text. Unknown macros, missing, surplus, unknown, repeated or mixed named and positional arguments, macros defined in terms of themselves, and unbalanced or malformed calls are refused with an error.",
     ["inputs"], "every call with up to 3 arguments in every surrounding, every definition of up to 3 pieces with every argument values, every chain and cycle of macros up to the stated size",
     "the tests expand four calls; that expansion is exact for any values, any nesting and any order of arguments is a statement about all of them",
     ["python/spl_transpiler/macros.py", "src/spl/macros.rs", "src/lib.rs"],
     [("finding calls", "src/spl/macros.rs"), ("substitution", "python/spl_transpiler/macros.py")],
     technique="exhaustive enumeration of macro sets and calls, run on the real code and compared with an independent textual expander",
     note="Exhaustive within the stated pieces, values and lengths. Argument values are single SPL expressions, names are words that are not SPL operators.")

prop("P21", "Macro loaders find the one definition a name has",
     "FolderMacroLoader returns the definition in the only file of exactly that name, whatever characters it holds (with its suffix and format), anywhere below its folder, reports a name without such a file as missing (KeyError) and refuses a name with several files (ValueError), also when asked again. RegistryMacroLoader returns what it was created with or last registered under a name and is not affected by other registries or by later changes of the mapping it was created from. CombinedMacroLoader returns the definition of the first of its loaders that has one, passes on a refusal, asks its fallback only for names no loader has, and reports other names as missing, also when nested. substitute_macros works with all of them and with plain dictionaries, and refuses malformed definitions.",
     ["configurations"], "every placement of definitions in a folder tree, every sequence of up to 3 loaders of every kind, with and without fallback",
     "the tests use one dictionary; precedence, ambiguity and absence depend on how definitions are spread over folders and loaders",
     ["python/spl_transpiler/macros.py"],
     [("loaders", "python/spl_transpiler/macros.py")],
     technique="exhaustive enumeration of folder layouts and loader combinations, run on the real code and compared with an independent model of the lookup",
     note="Exhaustive over the stated layouts and combinations. A folder that holds both a file and a directory of the same name is not judged.")


prop("P24", "tstats and datamodel read the dataset they name and summarise it",
     "tstats <aggregations> from datamodel=<model>[.<dataset>] [where [nodename=<dataset>] <condition>] [by <fields>] returns, in either mode, for each combination of the group-by fields among the events of that dataset that satisfy the condition, the aggregations count, sum, min, max, avg, dc, values, list and first under the names the query gives them; datamodel <model> [<dataset>] search returns the events of the dataset; further commands apply to that result. The dataset is the table of that name (for example Endpoint.Processes), the most specific one that from and nodename together name. In runtime mode fillnull_value replaces absent group-by fields. Both are refused when the node does not belong to the dataset, when no data model is named, when they are not the first command, and for prestats, local, append, include_reduced_buckets, PREFIX() and malformed forms.",
     ["inputs", "programs"], "every list of up to 2 (thorough: 3) of 13 aggregations x 10 datasets x 9 conditions x 4 by clauses with cycling options, 12 datamodel commands with continuations, 27 refused forms, in both modes",
     "the tests pin some texts; which table is read and which events are counted depends on how dataset, node, condition and options combine",
     ["src/commands/cmd_t_stats", "src/commands/cmd_data_model", "python/spl_transpiler/runtime/commands/tstats.py", "python/spl_transpiler/runtime/commands/data_model.py"],
     [("tstats", "src/commands/cmd_t_stats"), ("tstats in the runtime", "python/spl_transpiler/runtime/commands/tstats.py"), ("datamodel", "src/commands/cmd_data_model"), ("datamodel in the runtime", "python/spl_transpiler/runtime/commands/data_model.py")],
     technique=EXEC)


prop("P05", "Generated code is closed, well-formed PySpark code",
     "Whatever query converts, in either mode, the generated text is valid Python: assignments of data frames to df_1, df_2, ... (each once, each used, each before its use; in standalone mode none) and one final expression that is the resulting data frame. It uses no names but F, spark, those frames and, in runtime mode, commands and functions; every function and method it calls exists in PySpark or in the runtime library and is given arguments that fit its signature, with no keyword given twice; operators stand between columns. Names and texts of the query, whatever characters, quotes, backslashes, line breaks or Python keywords they hold, only appear inside Python literals.",
     ["inputs", "programs"], "every pair of the queries of the corpus (all commands, options and functions), every sequence of 3 (thorough: 4) of 24 commands, every place for a name or text in 78 query forms filled with each of 57 hostile names and texts, in both modes",
     "the tests compare the text for benign names; escaping, frame numbering and call signatures can go wrong in any combination of commands, names and texts",
     ["src/pyspark/ast.rs", "src/pyspark/base.rs", "src/pyspark/transpiler", "src/commands", "src/functions", "python/spl_transpiler/runtime"],
     [("rendering of literals, names and calls", "src/pyspark/base.rs"), ("data frames and numbered intermediate results", "src/pyspark/ast.rs"), ("calls of runtime commands", "src/commands/cmd_*/pyspark.rs"), ("runtime signatures", "python/spl_transpiler/runtime")],
     technique="exhaustive enumeration of queries, run on the real code; every generated program is checked against a typed grammar and the recorded interface of PySpark",
     note="Exhaustive over the stated queries. Functions of SPL the transpiler does not know are passed on under their own name and are allowed when the query names them; top and rare's F.count() and tail before another command are known findings of P11.")

prop("P17", "rex, regex, spath and convert extract and convert what SPL says",
     "rex adds, for every named group of its pattern, a column with the text the group matches in the field (_raw by default; the field itself and other fields included among the names), in either notation of named groups and with any group names, nested, unnamed and non-capturing groups not shifting the others; an absent field gives an absent value. regex keeps the events whose field (or _raw) matches, or with != does not match, the pattern. spath adds the value at its location path (steps separated by dots, {N} indexing an array) in the JSON text of its input field, under the path or the output name, absent where there is none or the text is no JSON. convert memk, rmunit, rmcomma and ctime replace the field by the converted value, or with AS add it, one after the other. Options and conversions that are not supported (mode=sed, max_match other than 1, offset_field, wildcard or attribute paths, unknown conversions) are refused with an error.",
     ["inputs"], "every regular expression up to the stated size on every short text, every location path on every listed document, every list of up to 2 (thorough: 3) conversions, in both modes",
     "the tests compare the generated text of a few patterns and paths; group numbering, name collisions and paths need every nesting and an evaluation of the result",
     ["src/commands/cmd_rex", "src/commands/cmd_regex", "src/commands/regex_utils.rs", "src/commands/cmd_s_path", "src/commands/cmd_convert", "src/functions/convert_fns.rs", "src/functions/shared.rs"],
     [("groups of a pattern", "src/commands/regex_utils.rs"), ("rex", "src/commands/cmd_rex/pyspark.rs"), ("spath", "src/commands/cmd_s_path/pyspark.rs"), ("conversions", "src/functions/convert_fns.rs")],
     technique=EXEC,
     note="Exhaustive within the stated bounds. A group that takes no part gives an empty text (pinned by the repository's tests); columns of unnamed groups are not judged; rmunit, rmcomma and memk on texts they describe. Trusts lib/fakespark.")

prop("P04", "Texts, names and numbers of a query reach the data unchanged",
     "A quoted text of a query stands for exactly its characters (\\\" for a quote, \\\\ for a backslash, any other character, including single quotes, braces, #, $, brackets, pipes, commas, =, line breaks, tabs and non-ASCII characters, for itself, also at either end and when the text is empty or looks like a number, a time span, an address, an operator, a function call or a comment), wherever it is used: assigned, concatenated, compared in eval, where and search, in IN lists, conditionals and aggregations, as a fillnull value, and as a free-text term. A quoted name (double quotes in commands and as a target of eval, single quotes in expressions) names the field with exactly those characters in eval, where, table, fields, rename, stats, sort, fillnull, addtotals and lookup. Numbers keep their value: integers up to 64 bits exactly, decimals and larger numbers as floating point, with their sign and whatever leading or trailing zeros. Both modes agree.",
     ["inputs"], "every text of up to 2 of 38 characters, 3 of 9 (thorough: 3 of 38, 4 of 15) and 100 texts that look like something else, in each of 14 places for a text and 18 for a name; every pair of 38 numbers in 12 places; both modes",
     "the tests use benign words; escaping and tokenising fail on particular characters in particular places, which only an enumeration of both finds",
     ["src/spl/parser.rs", "src/pyspark/ast.rs", "src/pyspark/base.rs", "src/pyspark/transpiler/expr.rs", "src/commands"],
     [("quoted texts, names and numbers", "src/spl/parser.rs"), ("Python literals", "src/pyspark/ast.rs"), ("free text", "src/pyspark/transpiler/expr.rs")],
     technique=EXEC,
     note="Exhaustive over the stated texts, names and numbers. Texts with * (wildcards) are left to P07; texts searched as free text hold no %, _ or backslash; names hold no dot, backtick or *. Trusts lib/fakespark.")


prop("P15", "A pipeline is the composition of its commands; both modes agree",
     "The result of a query is obtained by applying its commands in order: for commands A | B, running the code of A | B gives what running B on the result of A (as a table) gives, whatever the commands are, in either mode; a subsearch in join or multisearch contributes the result it has as a query of its own and does not disturb the fields, names or options of the query around it. Where both modes support a query they give the same result.",
     ["programs", "inputs"], "every ordered pair (thorough: pairs of a larger menu in more contexts, and triples) of commands of every kind and option, with every subsearch, over data with absent values, in both modes",
     "the tests compare the text of single commands; state leaking from one command or subsearch to another only shows in particular sequences",
     ["src/pyspark/transpiler", "src/pyspark/ast.rs", "src/commands", "src/functions", "python/spl_transpiler/runtime"],
     [("pipeline state", "src/pyspark/transpiler/mod.rs"), ("the commands", "src/commands/cmd_*/pyspark.rs"), ("subsearches", "src/commands/cmd_join/pyspark.rs, src/commands/cmd_multi_search/pyspark.rs"), ("runtime commands", "python/spl_transpiler/runtime/commands")],
     technique=EXEC,
     note="Exhaustive over the menu in checks/p15.py. No two fields of a result share a name; tail stands last. cidrmatch on absent or malformed addresses is not judged outside if(). Trusts lib/fakespark.")

prop("P22", "No part of a query is dropped: what cannot be expressed is refused",
     "Every command, name, value, option and subsearch of a query that converts has an effect on the code: changing it or leaving it out gives other code or an error (except options that only tune the computation or belong to a feature switched off). Unknown commands after a pipe, unknown options, values an option does not take, trailing text, and commands, options and functions that are not implemented are refused with an error in either mode, wherever they stand (also in subsearches), and never skipped. Options that are implemented are accepted in any order and combination; booleans may be written t, true, 1, f, false, 0 in any case with the same meaning.",
     ["inputs"], "every token of every query of the corpus (thorough: of every pair of commands) changed and left out in up to 6 contexts; 120 unknown commands x 15 argument forms in up to 7 places, 52 unimplemented commands in 7 places, 22 commands x all option names x right and wrong values and pairs of options, 31 endings after every query; both modes",
     "the tests check queries that are understood; a part that is silently skipped changes results without any error and only shows for the particular command, option and place",
     ["src/spl/parser.rs", "src/commands", "src/pyspark/transpiler", "src/functions", "python/spl_transpiler/runtime"],
     [("options", "src/commands/spl.rs"), ("parsers of the commands", "src/commands/cmd_*/spl.rs"), ("conversion of the commands", "src/commands/cmd_*/pyspark.rs"), ("functions", "src/functions")],
     technique="exhaustive enumeration of queries and single-token mutations, run on the real code; the codes are compared with each other and with the declared set of supported commands and options",
     note="Exhaustive over the stated queries, tokens and options. A query that begins without a pipe and is no readable command is a search for its words, as in SPL. Tuning options listed in EFFECTLESS of checks/p22.py are exempt; top and rare with by forget their fields (known finding of P11).")


prop("P02", "Layout and the case of keywords do not change a query",
     "Queries that differ only in layout - which and how many blanks, tabs and line breaks stand between words, blanks around pipes, commas, parentheses, brackets, comparison signs and the equals sign of options, margins - or in the case of command names and of AND, OR, NOT, IN, AS, BY, FROM, WHERE, OUTPUT and the like are read as the same syntax tree and become the same code in either mode, or are both refused.",
     ["inputs"], "every query of the corpus (all commands, options and functions) with every form of white space, blanks and case at every site alone, at every two sites (thorough: three) and everywhere",
     "the tests use one layout; a parser that trips over a line break, a tab or a lower-case keyword in one place reads another query without an error",
     ["src/spl/parser.rs", "src/spl/operators.rs", "src/commands"],
     [("white space and lists", "src/spl/parser.rs"), ("operators", "src/spl/operators.rs"), ("parsers of the commands", "src/commands/cmd_*/spl.rs")],
     technique="exhaustive enumeration of the layouts of every query at one, two and three sites, run on the real code; trees and codes are compared",
     note="Exhaustive over the stated queries, sites and forms. Names, texts, functions and option names are case-sensitive; no blank before the parenthesis of a call.")

prop("P18", "A conversion depends on its query and options alone",
     "parse, render_pyspark and convert_spl_to_pyspark give the same result (code or error) for the same query and options whatever was converted before in the process, including failing, nearly equal and repeated queries in either mode, whatever the environment (time zone, locale, hash seed, working directory); rendering does not change the syntax tree and one tree may be rendered any number of times, in any modes and in turn with others.",
     ["histories"], "every ordered pair of 250 queries in both modes, every sequence of 3 (thorough: 4 of half) of 32 queries in both modes, every query with all its single-token variants in two orders, every sequence of 4 (thorough: 6) renderings of a tree; each result compared with that of a new process",
     "each test converts in isolation; state left behind - a counter, a cache, a consumed tree - only shows for particular histories",
     ["src/lib.rs", "src/pyspark", "src/spl", "src/commands", "python/spl_transpiler/utils.py"],
     [("entry points", "src/lib.rs"), ("names of intermediate results", "src/pyspark/base.rs"), ("convert_spl_to_pyspark", "python/spl_transpiler/utils.py")],
     technique="exhaustive enumeration of sequences of conversions (histories) up to the stated length, run on the real code and compared with conversions in new processes",
     note="Exhaustive over the stated sequences. What conversions in several threads do to each other is judged by P26.")

prop("P19", "The syntax tree is an immutable value with its structure open to Python",
     "The nodes that parse returns are equal (and hash alike) exactly if they have the same structure, cannot be changed (not through the lists they hand out either), are instances of the classes in spl_transpiler.ast, and can be made anew from their attributes: the result is equal and renders the same code. Literals made in Python equal those read from a query exactly if their value is the same. The tree of A | B holds the commands of A and of B; a Pipeline made of the commands of several queries is the one that is written so.",
     ["inputs"], "every node of the trees of the corpus (all commands and options); every two nodes of a kind among the trees of every 8 (thorough: 25) queries and all their single-token variants; every pair of a query and a command put together",
     "the tests compare trees of single queries; a comparison that forgets an attribute or a constructor that mixes two up only shows for particular pairs",
     ["src/spl/ast.rs", "src/spl/python.rs", "src/commands", "python/spl_transpiler/__init__.py"],
     [("nodes", "src/spl/ast.rs"), ("constructors and the ast module", "src/spl/python.rs"), ("nodes of the commands", "src/commands/cmd_*/spl.rs")],
     technique="exhaustive enumeration of syntax trees, pairs of nodes and compositions of pipelines, run on the real code and compared with the structure read from the attributes",
     note="Exhaustive over the stated queries. Nodes without attributes (names and literals) are compared by their text.")

prop("P23", "Formatting changes only the layout of the code, and never fails",
     "With format_code, in either mode, a query converts exactly if it converts without, and the code is the same program (the same syntax tree of Python, with the same constants), without blanks at its ends; formatting is the default and the same through render_pyspark and convert_spl_to_pyspark. When the formatter is not installed or fails in any way, the plain code is returned, and the next conversion with a working formatter is formatted.",
     ["inputs", "fault_sequences"], "every query of the corpus and a ring (thorough: every pair) of its commands, texts of up to 2 of 20 characters in 10 places, names of every length up to 96 (thorough: 120) so that lines break in every place, 22 ways the formatter may be missing or fail; both modes",
     "the tests format one line; that no text, escape or line break is touched, and that a missing formatter is survived, are statements about all codes and faults",
     ["src/format_python.rs", "src/lib.rs", "python/spl_transpiler/utils.py"],
     [("formatting", "src/format_python.rs"), ("entry points", "src/lib.rs")],
     technique="exhaustive enumeration of queries, texts, line lengths and formatter faults, run on the real code; the formatted program is compared with the plain one as a Python syntax tree",
     note="Exhaustive within the stated bounds. Faults are injected through a stand-in for the module black.")

prop("P25", "%%spl runs its cell's query and changes one name; exec_with_return runs its code",
     "A cell %%spl [options] in IPython converts the query of the cell (in runtime mode unless --no-use-runtime, formatted unless --no-format-code), shows the code unless --no-print-code, and unless --dry-run runs it and assigns the result to df or the name given by --var-name; no other name of the user is changed, and names of the user (also df_1, F, spark, commands) do not disturb it. If the conversion or the run fails, an error is raised and no name is changed. Cells do not influence each other. exec_with_return runs each statement of its code once, in order, in the given namespaces, and returns the value of the last one (an expression or an assignment), passing on errors.",
     ["inputs", "histories"], "every combination of the options x 24 cells x initial namespaces, every sequence of 2 (thorough: 3) cells, every program of up to 2 (thorough: 3, half of those of 4) of 38 kinds of statements, names in globals, locals or both",
     "there is no test of the notebook command; which name changes, what is run and what is shown depends on how options, namespaces and failures combine",
     ["python/spl_transpiler/runtime/magic.py", "python/spl_transpiler/runtime/utils.py"],
     [("%%spl", "python/spl_transpiler/runtime/magic.py"), ("exec_with_return", "python/spl_transpiler/runtime/utils.py")],
     technique="exhaustive enumeration of cells, options, namespaces and programs, run on the real code (in IPython, on a model of Spark) and compared with an independent model",
     note="Exhaustive over the stated cells, options and statements. Lines longer than the terminal are cut when shown (by rich); the check uses a wide one. Trusts lib/fakespark.")

prop("P26", "Threads: conversions, macro expansions and runs give what each gives alone",
     "Several threads may convert (formatted or not, in either mode - also the first conversions of a process, while the formatter is still being imported or its import fails once), expand macros with shared loaders, or run converted code with the runtime library at once: each gets exactly the result (code, error, expanded text, columns and rows) it gets alone, none waits for ever, and afterwards conversions work as usual.",
     ["schedules"], "the first two conversions of a process, one interrupted by the other at every import of the formatter (and with an import failing once); every interleaving of 2 conversions of 12 at the calls of the formatter; pairs of runs and of macro expansions, one interrupted by the other after every line of the runtime library and of macros.py",
     "whether a result of one thread depends on another only shows under particular schedules, which tests in one thread never produce",
     ["src/lib.rs", "src/format_python.rs", "python/spl_transpiler/macros.py", "python/spl_transpiler/runtime", "python/spl_transpiler/utils.py"],
     [("conversion and formatting", "src/lib.rs"), ("import of the formatter", "src/format_python.rs"), ("macro expansion", "python/spl_transpiler/macros.py"), ("runtime library", "python/spl_transpiler/runtime")],
     technique="exhaustive enumeration of schedules (up to the stated number of preemptions) of real threads running the real code under a controlled scheduler, each compared with the results of the conversions alone",
     note="Exhaustive over the stated schedules. Switches happen between lines of Python code and at imports, where Python's global lock can be given away; the extension itself keeps it elsewhere. Trusts lib/fakespark.")

prop("P27", "The tree of every command records its options and arguments as they are written",
     "The node that parse returns for a command has each option that is written, in any order, with or without blanks around the equals sign, at its value, every other option at its default, and the arguments (fields, aggregations, expressions, searches, texts) as written - wherever in the pipeline the command stands and whatever commands are around it. An option that the command does not have, or a value an option does not take, is refused. This holds for the commands that cannot be converted (collect, dedup, format, map, mvexpand, inputlookup...) as for the others.",
     ["inputs"], "39 forms of 35 commands with 95 options: every sequence of up to 4 (thorough: 5) different options with their values, all forms of arguments, 5 places; every option with values it does not take; every sequence of 2 (thorough: 3) of the commands",
     "tests read a few option combinations per command; a swapped, dropped or misread option shows for some combination only, and for commands without conversion nothing else shows it",
     ["src/commands/cmd_*/spl.rs", "src/commands/spl.rs", "src/spl/ast.rs", "src/spl/parser.rs"],
     [("commands", "src/commands"), ("options", "src/spl/ast.rs"), ("lists and options", "src/spl/parser.rs")],
     technique="exhaustive enumeration of the options, values and arguments of every command up to the stated size, the real parser's trees compared with an independent table",
     note="Exhaustive over the stated texts. The value of an option given twice is not judged, nor the defaults of strict_fields and summariesonly of datamodel.")

prop("P28", "A runtime function called from Python computes what its SPL function does",
     "functions.eval.<name> and functions.stats.<name> of the runtime library - also those the converter never calls by itself - called with names, columns, plain values or Exprs as arguments give columns and aggregates that compute what SPL defines for the function, and what the converted code for the same call computes: absent values, negative positions, special characters in delimiters, replacements and characters to trim, integers beyond 32 bits, formats of times and numbers, masks, shifts and snaps of times included. A function that is not implemented raises NotImplementedError; a time format that cannot be converted is refused.",
     ["inputs"], "70 functions on every combination of boundary values of their arguments in every spelling; strftime/strptime with 25 formats, relative_time with every combination of shift, snap and shift; 27 aggregations of every table of 3 (thorough: 4) rows over 5 values",
     "tests call a handful of the 140 functions with one value each; what an argument means (a column, a literal, a regular expression) only shows for particular values",
     ["python/spl_transpiler/runtime/functions", "python/spl_transpiler/runtime/udfs", "python/spl_transpiler/runtime/base.py"],
     [("functions of columns", "python/spl_transpiler/runtime/functions/eval.py"), ("aggregations", "python/spl_transpiler/runtime/functions/stats.py"), ("times", "python/spl_transpiler/runtime/functions/utils.py"), ("functions of values", "python/spl_transpiler/runtime/udfs/__init__.py")],
     technique="exhaustive enumeration of calls over boundary values of their arguments, run on the real library over a model of Spark and compared with an independent reference and with converted code",
     note="Exhaustive over the stated values. random, now, time and the rate functions are not judged, nor tostring(x, \"duration\") beyond a day. Trusts lib/fakespark.")

prop("P29", "The live translator shows its query's code and tree, or why there is none",
     "After every history of edits of the query, switching of the runtime and of the imports (also by their keys) and copying, the live translator is still running and shows: the formatted code of the current query in the current mode, after the imports it needs if these are on; or, if the query cannot be parsed or converted, the whole message of the error, with the tree or the code marked, and the last code that could be made. Copying copies the code shown. The tree distinguishes queries with different syntax trees, and texts of the query (in brackets, say) are shown as they are.",
     ["histories"], "every history of 3 events of 10 texts and 3 keys, of 4 with 6 of the texts (thorough: 5 events of all); 1052 more texts - with brackets and backslashes in 13 places, every command with every option - under all settings, alone and after others",
     "there is no test of the live translator; what it shows depends on the order of edits and switches, and on texts that are markup by chance",
     ["python/spl_transpiler/live_translator.py", "python/spl_transpiler/live_translator.tcss"],
     [("SPLApp", "python/spl_transpiler/live_translator.py"), ("ASTTree", "python/spl_transpiler/live_translator.py")],
     technique="exhaustive enumeration of histories of events up to the stated length, run on the real application over a model of Textual and compared with an independent model of its panes",
     note="Exhaustive over the stated histories. Textual is not installed: lib/faketextual models the widgets and messages the application uses, with markup read by the real rich.")

prop("P30", "Runtime commands called from Python do, in sequence, what their SPL commands do",
     "commands.search, eval, fill_null, stats, tstats and data_model of the runtime library, called from Python one after the other, give the events that the SPL commands of their names give: search keeps the events for which all its conditions, positional and by keyword, are true; eval assigns from left to right, each value seeing the ones before; fill_null fills the absent values of the listed fields (of all by default) whose type holds the value; stats and tstats group and aggregate, tstats after its condition and after filling absent group-by fields only; data_model and tstats read the dataset that the data model and the node together name. Arguments may be names, columns, plain values and Exprs. The frames they are called on stay as they are. Calls without what they need - a source, a data model, known fields, aggregations of the library - or with two sources are refused.",
     ["inputs", "histories"], "every sequence of 3 of 130 calls (thorough: of 770) on a table, and every call after 14 ways to begin; tstats from 11 datasets with every combination of 7 conditions, 3 values for absent fields, 5 groupings and 8 aggregations; 38 calls to be refused",
     "tests call a command or two with one argument each; what a command gives after others have reshaped, emptied or retyped the events is not tested",
     ["python/spl_transpiler/runtime/commands", "python/spl_transpiler/runtime/base.py"],
     [("search", "python/spl_transpiler/runtime/commands/search.py"), ("stats", "python/spl_transpiler/runtime/commands/stats.py"), ("tstats", "python/spl_transpiler/runtime/commands/tstats.py"), ("data_model", "python/spl_transpiler/runtime/commands/data_model.py"), ("fill_null", "python/spl_transpiler/runtime/commands/fill_null.py")],
     technique="exhaustive enumeration of sequences of calls up to the stated length, run on the real library over a model of Spark and compared with an independent reference after every call",
     note="Exhaustive over the stated sequences. Trusts lib/fakespark.")
