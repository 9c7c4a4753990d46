"""Source of properties.jsonl (run: python3 lib/gen_properties.py)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or ["spl_transpiler.convert_spl_to_pyspark"], hook_needed=hook)))


prop("C01", "Any text gets an answer or an ordinary exception",
     "For every input text, parsing it, detecting its macros and transpiling it (standalone or runtime mode, formatted or not) either returns a result or raises an ordinary Python exception (ValueError for text that is not SPL, RuntimeError for SPL that cannot be translated), within seconds for texts of up to some tens of kilobytes and expressions, brackets or subsearches nested up to some hundreds deep. It never panics, aborts the process or hangs.",
     ["inputs"], "every text: SPL, mutated SPL, token soup, arbitrary Unicode, extreme numbers, unbalanced quotes",
     "The tests feed a few hundred hand-written, mostly well-formed queries; panics (integer overflow, slicing inside a character, unwrap on a failed sub-parse) sit on inputs nobody wrote down.",
     ["src/lib.rs", "src/spl/parser.rs", "src/spl/operators.rs", "src/pyspark/ast.rs", "src/commands/"],
     [("nom parsers return Err for what they do not recognise", "src/spl/parser.rs"),
      ("entry points map parse errors to ValueError, anyhow errors to RuntimeError", "src/lib.rs")],
     ["spl_transpiler.parse", "spl_transpiler.spl_transpiler.detect_macros", "spl_transpiler.render_pyspark"])

prop("C02", "Generated code is valid, self-contained PySpark",
     "Whenever a query is transpiled successfully, in either mode, the output is syntactically valid Python that refers only to spark, F and (in runtime mode) commands, functions and names it assigned itself, calls only PySpark functions and methods that exist with argument lists they accept, and ends in one expression that denotes the result dataframe. (Names of eval and stats functions that SPL does not document are passed through; counts and limits are below 2^31 and nesting below what the Python parser takes.)",
     ["inputs", "programs"], "every pipeline of supported commands, with any mix of expressions, functions, names and options",
     "The tests compare fixed outputs textually with fixed expectations and never execute most of them; a combination of two constructs that each look right can still render text Python or PySpark rejects.",
     ["src/pyspark/ast.rs", "src/pyspark/transpiler/", "src/functions/", "src/commands/"],
     [("rendering of dataframe and column trees to text, incl. parenthesisation", "src/pyspark/ast.rs"),
      ("column_like! builders in each command and function", "src/functions/eval_fns.rs")])

prop("C03", "Formatting changes layout only",
     "For every query and mode, transpiling with formatting on and with formatting off either both fail with the same kind of error or both give programs with identical Python syntax trees; formatting never loses, reorders or alters any code or literal.",
     ["inputs", "programs"], "every pipeline, both modes, including long lines, long strings and non-ASCII text",
     "Tests compare formatted text with itself through the same formatter; they cannot notice content that the formatter or its fallback changes.",
     ["src/format_python.rs", "src/lib.rs", "python/spl_transpiler/utils.py"],
     [("black called through Python, with fallback to the unformatted text", "src/format_python.rs")])

prop("C04", "Transpiling is deterministic and has no side effects",
     "The same query always yields the same syntax tree and the same code: on repetition, after any other calls, from concurrent threads, and in a fresh process with a different hash seed. Rendering never changes the parsed query it is given.",
     ["inputs", "histories", "schedules"], "every query, every sequence of preceding calls, every process",
     "Each test transpiles once in one process; ordering that depends on a per-process hash seed or state left by an earlier call passes most single runs.",
     ["src/pyspark/base.rs", "src/commands/cmd_search/pyspark.rs", "src/lib.rs", "python/spl_transpiler/utils.py"],
     [("per-render counter for dataframe names", "src/pyspark/base.rs"),
      ("collection of index names from a search expression", "src/commands/cmd_search/pyspark.rs")])

prop("C05", "Names and literal values survive unchanged",
     "Every field name, string, number, regular expression, table name and alias written in a query reaches the generated program as exactly that value, whatever characters it contains. No content of a name or literal can end it early, change another part of the program, or add code. (In eval and search comparisons a string with * is a wildcard pattern; integers beyond 64 bits are kept as text.)",
     ["inputs"], "every name and literal value in every position of every supported command: quotes, backslashes, newlines, braces, Unicode, huge and tiny numbers",
     "Tests use a handful of tame literals; the quantifier is over all strings and numbers in all positions.",
     ["src/pyspark/ast.rs", "src/pyspark/transpiler/expr.rs", "src/spl/parser.rs", "src/commands/cmd_rex/pyspark.rs"],
     [("quoting of literals and names when rendering", "src/pyspark/ast.rs"),
      ("literal and name parsers", "src/spl/parser.rs")])

prop("C06", "Operators mean and group as SPL defines",
     "In eval, where and search expressions every operator (arithmetic, string concatenation, comparison, IN, NOT, AND, OR) is translated to the Spark operation with the same meaning, binds as SPL defines (multiplication before addition before concatenation before comparison before NOT, left to right within a level; AND before OR in eval and where, OR before AND in search, adjacency is AND), and explicit parentheses always win. Evaluating the generated expression on any row gives the value the SPL expression has.",
     ["inputs", "programs"], "every expression tree over every operator, every placement of parentheses and spelling of operators, every row",
     "A few fixed two- or three-operator expressions are tested; grouping errors show only for particular operator sequences and particular values.",
     ["src/spl/parser.rs", "src/spl/operators.rs", "src/pyspark/transpiler/expr.rs", "src/pyspark/ast.rs"],
     [("operator precedence ladder", "src/spl/parser.rs"), ("boolean expression parser of where", "src/spl/operators.rs"),
      ("operator translation", "src/pyspark/transpiler/expr.rs"), ("parenthesisation on rendering", "src/pyspark/ast.rs")])

prop("C07", "search and where keep exactly the matching rows",
     "The filter generated for a search or where command is true on exactly the rows, among those in which the compared fields are present, that the SPL condition matches: field comparisons against numbers, strings and other values, wildcard patterns, IN lists with any mix of items, CIDR ranges compared with =, bare terms as case-insensitive substring matches on the raw event, and any nesting of NOT, AND, OR and parentheses. No condition is dropped, duplicated or moved under a different connective.",
     ["inputs", "programs"], "every search/where condition and every row",
     "Tests compare the text for a few conditions; nothing evaluates a filter on rows.",
     ["src/commands/cmd_search/", "src/commands/cmd_where/", "src/pyspark/transpiler/expr.rs"],
     [("search expression rewriting to filters on _raw", "src/pyspark/transpiler/expr.rs"),
      ("splitting index selectors from conditions", "src/commands/cmd_search/pyspark.rs")])

prop("C08", "search reads exactly the indexes it names",
     "A leading search reads the union of all indexes it names with index=..., each once and in an order fixed by the query, or the default table when it names none; the index selectors do not appear in the row filter and every other condition does. An index selector where it cannot be honoured (under OR or NOT, or with a comparison other than equality) is refused with an error or kept as an ordinary condition, never silently dropped.",
     ["inputs", "programs"], "every placement and number of index selectors among other conditions",
     "Two or three fixed searches are tested; the set of indexes and the rest of the condition can be combined in unboundedly many ways.",
     ["src/commands/cmd_search/pyspark.rs"],
     [("split of index selectors and residual condition", "src/commands/cmd_search/pyspark.rs")])

prop("C09", "Pipelines compose left to right",
     "The program for 'A | B' is the program for B applied to the result of A: every command consumes exactly the output of the command before it, in the order written, none skipped, repeated or reordered, for pipelines of any length. The first command alone decides the data source, and later commands never introduce one of their own except through an explicit nested search or lookup.",
     ["programs", "histories"], "every sequence of supported commands of any length, both modes",
     "Tests run fixed pipelines of at most a handful of commands; composition must hold for every pair and position.",
     ["src/pyspark/transpiler/mod.rs", "src/pyspark/ast.rs", "src/commands/"],
     [("fold of the pipeline state over commands", "src/pyspark/transpiler/mod.rs"),
      ("each command builds on the incoming dataframe", "src/commands/*/pyspark.rs")])

prop("C10", "Spelling variants of a query mean the same",
     "Changing only insignificant spelling - letter case of command names and keywords (by, as, AND, OR, NOT, IN), amount of whitespace and line breaks between tokens, optional leading pipe, optional 'search' keyword, comma versus space in lists, order of named options, quoting a string that does not need quotes - gives the same program.",
     ["inputs", "programs"], "every query and every combination of such respellings",
     "Tests write each query one way; equivalence relates unbounded families of spellings.",
     ["src/spl/parser.rs", "src/commands/"],
     [("case-insensitive command and keyword matching, whitespace skipping", "src/spl/parser.rs"),
      ("unordered option parsing", "src/commands/spl.rs")],
     ["spl_transpiler.parse", "spl_transpiler.convert_spl_to_pyspark"])

prop("C11", "Commands and options are read as written",
     "For every supported command, parsing yields a syntax tree holding exactly the options, fields, aliases, numbers and clauses written in the query, with the documented default for each documented option not written, for any subset and any value of the options. Text that no clause of the command consumes is an error, never ignored (named options that SPL does not document for the command are outside this).",
     ["inputs", "programs"], "every command, every subset and order of its options and clauses, every option value",
     "Each command has a few fixed examples; option subsets multiply.",
     ["src/commands/*/spl.rs", "src/spl/parser.rs", "src/commands/spl.rs"],
     [("per-command parsers and option extraction with defaults", "src/commands/*/spl.rs")],
     ["spl_transpiler.parse", "spl_transpiler.ast"])

prop("C12", "Row and column commands do what they say",
     "eval, fields, table, rename, head, sort, regex, rex, spath, fillnull, bin, addtotals, convert and makeresults, and pipelines of them, generate programs that apply exactly the named operation to exactly the named columns with the given limits, directions, patterns and values, leaving other columns and rows alone. Multiple assignments or renames take effect in the order written. (Field names are written out; options that only tune Splunk's execution have no effect.)",
     ["inputs", "programs"], "every such command with any arguments, on every input table",
     "Fixed examples only; field lists, directions, limits and assignments are unbounded.",
     ["src/commands/cmd_eval/", "src/commands/cmd_fields/", "src/commands/cmd_table/", "src/commands/cmd_rename/", "src/commands/cmd_head/", "src/commands/cmd_sort/", "src/commands/cmd_regex/", "src/commands/cmd_rex/", "src/commands/cmd_s_path/", "src/commands/cmd_fill_null/", "src/commands/cmd_bin/", "src/commands/cmd_add_totals/", "src/commands/cmd_convert/", "src/commands/cmd_make_results/"],
     [("per-command translation", "src/commands/*/pyspark.rs")])

prop("C13", "Aggregations group and name as written",
     "stats, top and rare (and tstats in its supported forms) generate programs that group by exactly the named fields, compute every requested aggregation once on its own argument, and name each result with its alias or, without one, a name fixed by the function and its argument, in the order written, with the given limits and options.",
     ["inputs", "programs"], "every list of aggregations, aliases, by-fields and options",
     "Fixed examples with one to three aggregations; lists and alias patterns are unbounded.",
     ["src/commands/cmd_stats/", "src/commands/cmd_top/", "src/commands/cmd_rare/", "src/commands/cmd_t_stats/", "src/pyspark/alias.rs", "src/functions/stat_fns.rs"],
     [("grouping and aggregation translation", "src/commands/cmd_stats/pyspark.rs"), ("aliasing", "src/pyspark/alias.rs")])

prop("C14", "Eval functions translate to their Spark equivalent",
     "Every eval function the transpiler supports, called with any admissible arguments at any nesting depth, becomes the Spark expression that computes it, with each argument in the right place and order; a wrong number of arguments is an error rather than a silently different call, and so is a documented function that is not supported.",
     ["inputs", "programs"], "every function, every argument count and kind, every nesting",
     "Each function has at most one or two examples; nesting and argument kinds are unbounded.",
     ["src/functions/eval_fns.rs", "src/functions/mod.rs", "src/functions/shared.rs"],
     [("function table", "src/functions/eval_fns.rs"), ("argument mapping and arity checks", "src/functions/mod.rs")])

prop("C15", "Stats functions translate to their Spark aggregate",
     "Every supported stats function (including the percentile family with any number, and eval(...) arguments) becomes the Spark aggregate that computes it over exactly its argument; a documented one that is not supported, or a wrong number of arguments, is an error.",
     ["inputs", "programs"], "every stats function, argument and percentile",
     "One example per function at most.",
     ["src/functions/stat_fns.rs", "src/commands/cmd_stats/pyspark.rs"],
     [("aggregate table", "src/functions/stat_fns.rs")])

prop("C16", "Time spans, snaps and formats keep their meaning",
     "Every relative time (amount, unit, snap), time span and strftime/strptime format is translated so that it denotes the same instant, interval or text layout: all unit spellings, all amounts, both signs, snaps with offsets, and formats made of any sequence of supported directives and literal text. An unsupported directive is an error. (A week snap is to the start of Spark's week.)",
     ["inputs"], "every combination of sign, amount, unit spelling, snap and offset; every sequence of format directives and text",
     "Tests list a few spellings; the combinations multiply and format strings are arbitrary.",
     ["src/spl/parser.rs", "src/functions/eval_fns.rs", "src/pyspark/transpiler/utils.rs", "src/commands/cmd_bin/", "src/commands/cmd_t_stats/"],
     [("time unit and relative time parsers", "src/spl/parser.rs"), ("format conversion table", "src/pyspark/transpiler/utils.rs")])

prop("C17", "Nested searches keep their own scope",
     "A search nested in join, multisearch or another command is translated exactly as it would be on its own and used only where it was written: on the given keys, with the given join type, combined in the given order, at any nesting depth and in both modes. It neither sees nor alters the outer pipeline.",
     ["programs"], "every nested pipeline at every depth, every join type and key list, both modes",
     "One fixed join and one multisearch are tested, never nested or in runtime mode.",
     ["src/commands/cmd_join/", "src/commands/cmd_multi_search/", "src/commands/cmd_lookup/", "src/spl/parser.rs", "src/pyspark/ast.rs"],
     [("recursive pipeline transformation", "src/commands/cmd_join/pyspark.rs"), ("emission of helper statements", "src/pyspark/ast.rs")])

prop("C18", "lookup, data models and table sources",
     "lookup joins the named lookup table on exactly the given field pairs and contributes exactly the requested output fields under their aliases; datamodel, tstats and makeresults read exactly the source named, filtered and grouped as written.",
     ["inputs", "programs"], "every list of key and output fields with and without aliases, every model/dataset name, every where and by clause",
     "One or two fixed examples each.",
     ["src/commands/cmd_lookup/", "src/commands/cmd_data_model/", "src/commands/cmd_t_stats/", "src/commands/cmd_input_lookup/"],
     [("lookup join translation", "src/commands/cmd_lookup/pyspark.rs"), ("tstats translation", "src/commands/cmd_t_stats/pyspark.rs")])

prop("C19", "Macro calls are found exactly",
     "Macro detection splits any query into plain text and macro calls so that the pieces, put back together, are the query; it reports each back-quoted call's name and arguments exactly as written, positional or named, in order, including arguments containing quoted commas, parentheses or equals signs, and reports no call in a query without back-quotes.",
     ["inputs"], "every placement, count and spelling of macro calls in arbitrary surrounding text",
     "A handful of fixed strings are tested.",
     ["src/spl/macros.rs", "python/spl_transpiler/macros.py"],
     [("macro call parser", "src/spl/macros.rs")],
     ["spl_transpiler.spl_transpiler.detect_macros"])

prop("C20", "Macro substitution replaces calls by their definitions",
     "Substituting macros yields the query with every call replaced by its definition with each $arg$ replaced by exactly the supplied argument text - arbitrary text, including backslashes and regex metacharacters - repeatedly until no call remains; nothing outside the calls changes except blanks at either end and a trailing pipe. Parsing with macros equals parsing the substituted text; wrong argument counts, mixed styles, unknown macros and argument names are errors.",
     ["inputs", "programs"], "every set of macro definitions (nested to any depth), every call and argument text",
     "Tests use a few fixed macros with tame arguments.",
     ["python/spl_transpiler/macros.py", "src/spl/macros.rs"],
     [("substitution to fixpoint", "python/spl_transpiler/macros.py")],
     ["spl_transpiler.macros.substitute_macros", "spl_transpiler.macros.parse_with_macros"])

prop("C21", "Macro loaders resolve names predictably",
     "A registry loader returns the latest definition registered; a folder loader returns the definition in the single file of that name anywhere below its root and refuses missing or ambiguous names; a combined loader tries its loaders in order, then its fallback, and only a missing name moves it on. Repeated lookups give the same answer.",
     ["histories", "configurations"], "every sequence of registrations and lookups, every folder layout and loader combination",
     "Only one fixed folder and registry are used in tests.",
     ["python/spl_transpiler/macros.py"],
     [("RegistryMacroLoader, FolderMacroLoader, CombinedMacroLoader", "python/spl_transpiler/macros.py")],
     ["spl_transpiler.macros"])

prop("C22", "Runtime-mode code drives the runtime library correctly",
     "With the runtime allowed, each command the library supports becomes one library call, accepted by the library's signature, carrying every argument of the command exactly once and consuming the previous dataframe; each command it does not support is translated as in standalone mode; helper statements come before their use, each name is assigned once, and the last expression is the final dataframe.",
     ["programs"], "every pipeline mixing runtime-supported and unsupported commands in any order and nesting",
     "A few fixed pipelines are compared as text; calls are never bound against the library.",
     ["src/pyspark/ast.rs", "src/pyspark/transpiler/mod.rs", "src/commands/*/pyspark.rs", "python/spl_transpiler/runtime/commands/"],
     [("runtime dataframe rendering and naming", "src/pyspark/ast.rs"), ("fallback per command", "src/pyspark/transpiler/mod.rs")])

prop("C23", "Runtime and standalone programs give the same result",
     "For queries both modes can translate and whose meaning does not depend on the runtime's configuration, executing the runtime-mode program and the standalone program on the same tables gives the same rows, and both equal the result SPL defines. (Grouping fields are present in every row; fillnull is given string fields.)",
     ["programs", "inputs"], "every such query and every table content",
     "No test executes both programs on the same data.",
     ["python/spl_transpiler/runtime/", "src/commands/*/pyspark.rs", "src/functions/"],
     [("runtime command library", "python/spl_transpiler/runtime/commands/"), ("standalone translation", "src/commands/")])

prop("C24", "Runtime eval functions compute SPL results",
     "Each function of the runtime eval library, applied to any columns, numbers or strings it accepts, computes the value SPL defines for it row by row, including null, boundary, negative and Unicode inputs.",
     ["inputs"], "every function and every combination of argument kinds and row values",
     "One example per function at most, a few functions none.",
     ["python/spl_transpiler/runtime/functions/eval.py", "python/spl_transpiler/runtime/functions/utils.py", "python/spl_transpiler/runtime/udfs/"],
     [("eval function library", "python/spl_transpiler/runtime/functions/eval.py"), ("user-defined functions", "python/spl_transpiler/runtime/udfs/__init__.py")],
     ["spl_transpiler.runtime.functions.eval"])

prop("C25", "Runtime stats functions and commands compute SPL results",
     "Each aggregate of the runtime stats library, and the runtime commands search, eval, fillnull, stats, tstats and data model, produce on any table exactly the rows and columns SPL defines: filters combine all given conditions, selectors (index, source, host, ...) read the table and rows they name, fillnull touches only the given (or all) columns, and grouping uses the given keys.",
     ["inputs", "programs"], "every aggregate/command argument combination and table content",
     "A few fixed tables and calls.",
     ["python/spl_transpiler/runtime/functions/stats.py", "python/spl_transpiler/runtime/commands/", "python/spl_transpiler/runtime/base.py", "python/spl_transpiler/runtime/config.py"],
     [("stats library", "python/spl_transpiler/runtime/functions/stats.py"), ("command library", "python/spl_transpiler/runtime/commands/")],
     ["spl_transpiler.runtime.commands", "spl_transpiler.runtime.functions.stats"])

prop("C26", "Syntax trees are faithful, immutable values",
     "A parsed query's tree can be read back through its Python attributes, rebuilt with the public constructors into a tree that equals it, hashes the same and renders to the same code; trees of queries that differ in any value, name, option or command differ; no attribute can be assigned. Rendering depends only on the tree's value.",
     ["inputs", "programs"], "every parsed query and every node kind",
     "Tests inspect a handful of nodes; constructors are almost never called.",
     ["src/spl/ast.rs", "src/spl/python.rs", "src/spl/ast_impls.rs", "src/commands/*/spl.rs"],
     [("frozen pyclasses with derived equality and hash", "src/spl/ast.rs"), ("Python conversions of expression enums", "src/spl/python.rs")],
     ["spl_transpiler.ast", "spl_transpiler.parse", "spl_transpiler.render_pyspark"])

prop("C27", "What cannot be translated is refused, never dropped",
     "If a query contains a command, function, operator, option value or clause that the chosen mode cannot translate - anywhere in the pipeline, in a nested search or deep inside an expression - transpiling raises an error; it never returns code that leaves the construct out. (Options that only tune Splunk's execution, and names SPL does not document, are outside this.) A query accepted by the parser is consumed completely, so appending text that is not SPL is an error.",
     ["inputs", "programs"], "every unsupported construct at every position of every otherwise valid query",
     "Tests check one or two unsupported commands alone.",
     ["src/pyspark/transpiler/mod.rs", "src/pyspark/transpiler/expr.rs", "src/functions/", "src/lib.rs", "src/commands/"],
     [("default translation that fails", "src/pyspark/transpiler/mod.rs"), ("bail on unsupported expressions", "src/pyspark/transpiler/expr.rs")])

prop("C28", "A notebook cell runs exactly the program it shows",
     "A %%spl notebook cell transpiles its text with the mode and formatting asked for in its options, shows exactly that program unless told not to, and unless it is a dry run executes it on the current Spark session and binds the dataframe it computes - the one the program gives when run by itself - to the requested variable (df by default). No name the user has defined changes what is computed, and no other variable of the user is changed; when the text cannot be transpiled or the program fails, an error is raised and nothing is bound. Running a program and returning its last value (exec_with_return) gives the value of its last expression or assignment, each statement executed once, in order, with every name given to the program visible everywhere in it, functions included.",
     ["inputs", "programs", "histories"], "every cell text, option combination, user namespace and sequence of cells",
     "Nothing in the suite runs the notebook command; its behaviour depends on the user's namespace and on earlier cells, which no fixed test enumerates.",
     ["python/spl_transpiler/runtime/magic.py", "python/spl_transpiler/runtime/utils.py"],
     [("option parsing, display and binding of the result", "python/spl_transpiler/runtime/magic.py"), ("execution with the last value returned", "python/spl_transpiler/runtime/utils.py")],
     ["IPython run_cell_magic('spl', ...)", "spl_transpiler.runtime.utils.exec_with_return"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P))
