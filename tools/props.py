"""The properties: single source of properties.jsonl and MANIFEST.json (see gen_meta.py)."""

P = "conda_recipe_manager/parser/"
PBT = "property-based testing (Hypothesis): "

PROPS = [
    dict(
        id="C01",
        title="A selector picks exactly the platforms its boolean expression picks",
        statement=(
            "For every well-formed selector over platform, operating-system and architecture names combined with not, and "
            "and or, in any letter case and spacing, the set of selected platforms is the one Python's own precedence gives "
            "(not over and over or), where a name that is not a platform keyword selects nothing. Asking whether the "
            "selector applies to a platform agrees with that set, a query without a platform always applies, and "
            "evaluating is repeatable."
        ),
        over=["inputs"],
        for_all="all selector expressions over the known keywords, unknown words, and/or/not, both schemas",
        why="The tests list a few dozen expressions with few operators; precedence and nesting errors only show for mixed ones.",
        files=[P + "selector_parser.py", P + "_selector_info.py", P + "platform_types.py", P + "selector_query.py"],
        mech=[
            ("selector tokenizer and expression tree", P + "selector_parser.py"),
            ("platform sets per keyword", P + "platform_types.py"),
        ],
        technique=PBT + "differential against a truth-table evaluator, plus exhaustive small expressions",
        note="Exhaustive for expressions of up to two binary operators over representative operands, sampled beyond.",
    ),
    dict(
        id="C02",
        title="Platform look-ups by OS or architecture name are exact and isolated",
        statement=(
            "Looking up platforms by operating system or by architecture returns exactly the conda subdirs of that name, "
            "whatever the letter case or surrounding white space, and nothing for an unknown name. What a caller does with "
            "a returned set never changes the outcome of a later look-up or selector."
        ),
        over=["inputs", "histories"],
        for_all="all sequences of look-ups with arbitrary names, with callers that edit what they get",
        why="The tests look up single names; they never edit a result and look up again.",
        files=[P + "platform_types.py"],
        mech=[("look-up tables", P + "platform_types.py")],
        technique=PBT + "histories against a fixed reference table",
        note="The reference table of subdirs is written out in lib/selmodel.py.",
    ),
    dict(
        id="C03",
        title="Rendering, re-parsing and comparing selectors agree",
        statement=(
            "Rendering a parsed selector gives the selector text back (in brackets for the old format, as written for the "
            "new one), and parsing that again gives an equal selector with the same platforms. Two selectors are equal "
            "exactly if they have the same schema and the same expression up to letter case of keywords and spacing, and "
            "a selector never equals another type of object."
        ),
        over=["inputs"],
        for_all="all pairs of selector expressions, both schemas, any spacing and letter case",
        why="Equality and rendering are tested on a handful of pairs; a comparison that looks at a part of the tree passes them.",
        files=[P + "selector_parser.py"],
        mech=[("render and equality of selectors", P + "selector_parser.py")],
        technique=PBT + "round trip and metamorphic pairs",
        note="Pairs are built equal, nearly equal and unrelated, so both outcomes are frequent.",
    ),
    dict(
        id="C04",
        title="Reading a recipe and writing it back loses and changes nothing",
        statement=(
            "A recipe in the project's format (either schema version) is rendered back character for character: every key, "
            "list, value and its type, quoting, Jinja expression, variable, multi-line string, selector and comment stays in "
            "its place and order. Formatting without meaning in YAML (spacing, quotes, blank lines) only ever normalises to that "
            "format, and rendering is stable: re-reading rendered text gives an equal recipe that renders the same."
        ),
        over=["inputs"],
        for_all="all recipes of the generator: nested maps and lists, block scalars, Jinja, tricky strings, comments anywhere",
        why="The tests round-trip about thirty recipe files; they never met the combinations that lose text.",
        files=[P + "recipe_reader.py", P + "_utils.py", P + "_node.py", P + "_types.py"],
        mech=[
            ("line-based parser", P + "recipe_reader.py"),
            ("tree rendering", P + "recipe_reader.py"),
            ("quoting of strings", P + "_utils.py"),
        ],
        technique=PBT + "round trip of generated recipes against their models",
        note="The reference renderer in lib/recipegen.py knows the canonical format; PyYAML decides what strings mean.",
    ),
    dict(
        id="C05",
        title="Values, paths and value searches agree with what the recipe file says",
        statement=(
            "The list of terminal paths names every value of the file once and in order; every path in the file is found and "
            "yields the value with the type the file gives it, be it a primitive or a whole collection, the object form equals "
            "the whole file, and a path that is not in the file is never found and yields the given default or a KeyError. "
            "Searching for a primitive returns exactly the paths that hold a value of that type and value. The recipe's name, "
            "outputs and package paths are those of the file, and none of this changes the recipe."
        ),
        over=["inputs"],
        for_all="all generated recipes, all their paths, absent paths derived from them and arbitrary searched values",
        why="The tests read selected paths of fixed files.",
        files=[P + "recipe_reader.py", P + "_traverse.py", P + "_utils.py"],
        mech=[("path traversal", P + "_traverse.py"), ("value access", P + "recipe_reader.py")],
        technique=PBT + "generated recipes against their models",
        note="Trailing line breaks of multi-line strings and the value of a key without one are set aside (see DESIGN.md).",
    ),
    dict(
        id="C06",
        title="A JSON patch has the effect RFC 6902 gives it, or none at all",
        statement=(
            "Every add, replace, remove, move, copy or test patch returns True and leaves the recipe, as an object and "
            "as re-read from its rendering, as RFC 6902 describes, or returns False and leaves the text and the modified flag "
            "as they were if its location does not exist or does not fit. A test never changes anything, a malformed patch is "
            "rejected with an exception and without effect, and the patch given is never edited. This holds at "
            "every step of a history of patches, for nested values, lists, empty collections and multi-line strings alike."
        ),
        over=["inputs", "histories"],
        for_all="all generated recipes and histories of patches at existing, new, deep, out-of-range and impossible locations",
        why="The tests apply fixed patches to fixed files; wrong places and histories of patches were untested, and broken.",
        files=[P + "recipe_parser.py", P + "_traverse.py", P + "_utils.py", P + "_node.py"],
        mech=[("patch operations", P + "recipe_parser.py"), ("node construction from values", P + "_utils.py")],
        technique=PBT + "stateful, against a model of RFC 6902 on plain data",
        note="Nested lists, list elements without keys and an emptied recipe are set aside: the format has no notation for them.",
    ),
    dict(
        id="C07",
        title="A patch leaves everything it does not name exactly as it was",
        statement=(
            "After a successful JSON patch, every line of the rendered recipe that does not belong to the value added, "
            "replaced, removed or moved is what it was, in the same order: other values, comments, selectors, quoting, Jinja "
            "variables, multi-line strings and blank lines between sections. A comment on the line of a removed value goes with it, and "
            "new values are written in the project's format at the place the patch gives, at any depth."
        ),
        over=["inputs", "histories"],
        for_all="all generated recipes with comments and selectors everywhere, and histories of patches on them",
        why="The tests compare a few patched files; lost comments or reordered lines elsewhere need other shapes.",
        files=[P + "recipe_parser.py", P + "_traverse.py", P + "_node.py", P + "_utils.py"],
        mech=[("patch operations on the tree", P + "recipe_parser.py"), ("virtual and physical indices", P + "_traverse.py")],
        technique=PBT + "rendered text after histories of patches against a line model",
        note="The comment on the line of a replaced value may stay or go: existing tests pin both.",
    ),
    dict(
        id="C08",
        title="Jinja variables are substituted by their current values, nothing else is",
        statement=(
            "Reading a value or the whole recipe with substitution replaces each Jinja expression by what it means for the "
            "variables as they are now: a variable, one of its characters by index, lower or upper case, and the sum of two "
            "variables, strings or numbers. Unknown variables and functions are left as they are, the result has the type of "
            "the text that comes out, and without substitution the text stays as written. Setting or deleting a variable "
            "counts at once, and reading changes nothing."
        ),
        over=["inputs", "histories"],
        for_all="all recipes with variables of any type, expressions in any place, in either schema, and histories of edits of variables",
        why="The tests substitute in one file per schema; wrong precedence of similar names or stale values needs other recipes.",
        files=[P + "recipe_reader.py", P + "_types.py", P + "_utils.py"],
        mech=[("evaluation of Jinja expressions", P + "recipe_reader.py")],
        technique=PBT + "differential against a reference evaluator",
        note="Substitution in whole collections re-types quoted strings (DESIGN.md); the oracle allows for it.",
    ),
    dict(
        id="C09",
        title="Variables form one ordered table through edits, and the file follows it",
        statement=(
            "Listing, asking for, reading, setting and deleting Jinja variables behaves as one ordered table with the values and "
            "types the file gives: a missing variable yields the given default or a KeyError, a new one goes to the end, a "
            "failed deletion has no effect, and every edit marks the recipe as modified. References to a variable are exactly "
            "the paths whose values use that very name, in order. In the old format the rendered file has the table's values "
            "and reads back the same."
        ),
        over=["inputs", "histories"],
        for_all="all recipes and histories of set, delete and queries with similar and unknown names",
        why="The tests query single variables; similar names and histories were untested, and references were wrong.",
        files=[P + "recipe_reader.py", P + "recipe_parser.py", P + "_types.py"],
        mech=[("variable table", P + "recipe_reader.py"), ("variable edits", P + "recipe_parser.py")],
        technique=PBT + "stateful, against an ordered dictionary",
        note="Two known findings: quotes in values, and edits in the new format which do not reach the file.",
    ),
    dict(
        id="C10",
        title="Selectors and comments are found and edited where they are, and only there",
        statement=(
            "Listing, finding and asking for selectors, their paths and the table of comments gives exactly what the lines of "
            "the file say, however often one asks. Adding a selector replaces or extends the one on that path's line as the "
            "mode says, removing one returns it and leaves the rest of the comment, adding a comment keeps the selector, and "
            "no other line of the recipe changes. A path that is not there or text that is not a selector is refused with no effect."
        ),
        over=["inputs", "histories"],
        for_all="all generated recipes in the old format and histories of edits of selectors and comments on any of their paths",
        why="The tests edit a few paths; lists with lone elements and objects in lists were broken.",
        files=[P + "recipe_reader.py", P + "recipe_parser.py", P + "_node.py", P + "_traverse.py"],
        mech=[("selector and comment edits", P + "recipe_parser.py"), ("selector and comment look-ups", P + "recipe_reader.py")],
        technique=PBT + "stateful, against a line model of the recipe",
        note="What happens to a comment next to a selector that is added is pinned by existing tests and taken from them.",
    ),
    dict(
        id="C11",
        title="Search finds the matching values, and search-and-patch patches just these",
        statement=(
            "Searching by a regular expression, given as text or compiled with flags, returns the paths of exactly those values whose "
            "text matches, in order, with the comment of the line taken into account only if asked for. Search-and-patch "
            "applies the given patch, with the path of each match filled in, to every match and nothing else, reports success "
            "only if every patch succeeded, is not stopped by a failed one, and leaves the given patch as it was."
        ),
        over=["inputs"],
        for_all="all generated recipes and regular expressions made from their values, comments and selectors",
        why="The tests search a few fixed strings; several matches with failures among them were untested, and broken.",
        files=[P + "recipe_reader.py", P + "recipe_parser.py"],
        mech=[("search", P + "recipe_reader.py"), ("search-and-patch", P + "recipe_parser.py")],
        technique=PBT + "generated recipes against Python's re on their models",
        note="Line breaks at the end of values, comments on the key of a string with several lines and keys without a value are set aside.",
    ),
    dict(
        id="C12",
        title="Dependency look-ups report every requirement of every package, once",
        statement=(
            "The packages of a recipe are its name (top level) and the name of each output, variables replaced, with their paths; a "
            "missing name gives a KeyError and a repeated one a ValueError. The dependencies of a package are exactly the strings "
            "in the known sections of its requirements, in the order of the file, each with its path, section, text with "
            "variables replaced, and (old format) selector; outputs also have those at the top level, after their own; "
            "elements that are no strings, empty ones and unknown sections are skipped, and text with Jinja left, or that is no "
            "valid match specification, is kept as a variable. The dependency paths name every element of the build, host, run and "
            "run-constraint sections, top level first, and asking changes nothing."
        ),
        over=["inputs"],
        for_all="all recipes of both formats with up to four packages and any spelling of sections, specifications and selectors",
        why="The tests read a few recipe files; empty sections, conditions and duplicates were untested, and some of them crashed.",
        files=[P + "recipe_reader_deps.py", P + "dependency.py"],
        mech=[("dependency map", P + "recipe_reader_deps.py"), ("dependency data", P + "dependency.py")],
        technique=PBT + "generated recipes against the map computed from their models",
        note="conda's MatchSpec is a stand-in (conda is not installed here). Lone strings in place of lists are set aside.",
    ),
    dict(
        id="C13",
        title="Adding or removing a dependency changes that dependency only",
        statement=(
            "Adding a dependency puts it at the end of its section, creating the section if need be, or, if the section has "
            "one of the same name, replaces that one or has no effect, or adds both, or overwrites the exact position, as the conflict mode "
            "says; its selector replaces, joins (and, or) or leaves the old one as the selector mode says. Removing a dependency takes away "
            "its line only. Success is reported exactly if the recipe changed, paths that do not name a dependency of a "
            "requirements section are refused with no effect, no other line changes, and the dependency map follows."
        ),
        over=["inputs", "histories"],
        for_all="all recipes of both formats with up to four packages and histories of edits in every combination of modes",
        why="The tests make single edits to fixed recipes; empty sections and histories were untested.",
        files=[P + "recipe_parser_deps.py", P + "recipe_reader_deps.py", P + "recipe_parser.py"],
        mech=[("dependency edits", P + "recipe_parser_deps.py")],
        technique=PBT + "stateful, against a model of the recipe's lines",
        note="Old selectors with `or` joined by `and` are set aside (a known finding of C10).",
    ),
    dict(
        id="C14",
        title="Converting a recipe to the new format keeps what it says",
        statement=(
            "Converting an old-format recipe gives text in the new format (schema version first, known sections and fields in their canonical order) "
            "that reads back stably and holds every value of the recipe: Jinja statements in the new notation, variables in the "
            "context, selectors on list elements as conditions with the same platforms, Python versions as match() calls, on flags as "
            "inline conditions, fields that were renamed or moved at their new place, tests split up, licenses corrected to SPDX. "
            "What can't be kept (deprecated fields, selectors on other values, unsupported syntax) is named in a message. "
            "The recipe converted is not changed, and converting it twice gives the same."
        ),
        over=["inputs"],
        for_all="all generated old-format recipes of the sections and fields the conversion knows, and some it does not",
        why="The tests compare a dozen converted files; combinations of fields, selectors and outputs are countless.",
        files=[P + "recipe_parser_convert.py", P + "_utils.py", P + "recipe_reader.py"],
        mech=[("conversion", P + "recipe_parser_convert.py")],
        technique=PBT + "differential against a reference conversion of the recipe's model",
        note="Comments are not compared (the conversion may drop them, with a message). The pre-processing of text is another property.",
    ),
    dict(
        id="C15",
        title="Modified flag, hash, equality and diff of a recipe follow its text",
        statement=(
            "A recipe is marked as modified from the first successful edit on, and never by a query, test or refused edit. Its SHA-256 hash is that "
            "of the text it renders to, two recipes are equal exactly if they have the same schema version and render to the same text "
            "(comparing with anything else is a TypeError), and the diff, applied to the original file, gives the current text; it is "
            "empty without modifications. Values given in patches and lists and objects returned stay the caller's: editing them never "
            "changes the recipe, nor does editing one recipe change another."
        ),
        over=["inputs", "histories"],
        for_all="all generated recipes and histories of successful, refused and undone edits",
        why="The tests compare fixed files after single edits; drifting state needs histories, and sharing needs callers that edit.",
        files=[P + "recipe_reader.py", P + "recipe_parser.py", P + "_is_modifiable.py", P + "_node.py"],
        mech=[
            ("hash and equality", P + "recipe_reader.py"),
            ("diff", P + "recipe_parser.py"),
            ("modified flag", P + "_is_modifiable.py"),
        ],
        technique=PBT + "stateful invariants against hashlib and a diff applier",
        note="Lists and objects held by Jinja variables are set aside: the table hands them out as they are.",
    ),
    dict(
        id="C16",
        title="Pre-processing rewrites the constructs it is meant for and no other text",
        statement=(
            "Pre-processing the text of an old-format recipe before conversion turns function calls with a dot in set statements and "
            "substitutions into pipes (empty parentheses of lower and upper dropped), min_pin and max_pin into lower_bound and upper_bound, environ[] "
            "into env.get(), quoted strings with an escaped line break into strings with two lines, and hash types as keys into sha256, with the "
            "quotes, indentation, selectors and comments they had. Everything else, such as dots in strings, os.environ[] and variables of "
            "similar names, stays as it was, and doing it twice changes nothing more (but for env.get)."
        ),
        over=["inputs"],
        for_all="all texts of statements and lines of these constructs and look-alikes, one of each kind per line",
        why="The tests pre-process a few files with one construct each; look-alikes and mixtures were untested, and some were damaged.",
        files=[P + "recipe_parser_convert.py", P + "recipe_parser.py", P + "_types.py"],
        mech=[("pre-processing", P + "recipe_parser_convert.py"), ("hash types", P + "recipe_parser.py"), ("expressions", P + "_types.py")],
        technique=PBT + "texts built together with what they shall become",
        note="Several dot calls on a line, several escaped line breaks and a blank line before such a string are set aside (DESIGN.md).",
    ),
    dict(
        id="C17",
        title="The convert command writes the converted recipes and reports how that went",
        statement=(
            "Converting one file (or the only meta.yaml below a directory) writes the converted text to standard output or to the file named, and changes no other file. "
            "The exit code tells success, warnings, errors, a recipe that can't be read, parsed or rendered, one already in the new format, or an output that can't be written, "
            "and the messages go to standard error. With several recipes below a directory each result is written next to its recipe if an output name is given, "
            "a recipe that fails never stops the others, the JSON statistics, histograms and lists of recipes count exactly the recipes, messages "
            "and exceptions there were, and the exit code says whether the minimum success rate was reached."
        ),
        over=["inputs"],
        for_all="all files and directories of generated recipes (clean, with warnings, errors, unreadable) and all options",
        why="The tests run the command on a few files; the statistics of mixed directories were never compared with the files.",
        files=["conda_recipe_manager/commands/convert.py", P + "recipe_parser_convert.py", "conda_recipe_manager/types.py"],
        mech=[("command", "conda_recipe_manager/commands/convert.py"), ("message table", "conda_recipe_manager/types.py")],
        technique=PBT + "differential against the library call per file, in scratch directories",
        note="Timings and the text of exceptions are not compared.",
    ),
    dict(
        id="C18",
        title="The patch command applies the patches up to the first failure and reports it",
        statement=(
            "Given a file of JSON patches (a list, or a lone patch) the patch command leaves the recipe file as the patches before the first "
            "failing or malformed one do, exits with zero if all were applied and otherwise with the code of the failure: "
            "patches that are not JSON or malformed, refused ones, or files that can't be read or parsed. It changes no other file; missing files are usage errors."
        ),
        over=["inputs", "histories"],
        for_all="all generated recipe files and files of patches, well-formed and not",
        why="The tests apply three fixed files of patches; what is left in the file after a failure half-way was untested.",
        files=["conda_recipe_manager/commands/patch.py", P + "recipe_parser.py"],
        mech=[("command", "conda_recipe_manager/commands/patch.py"), ("patches", P + "recipe_parser.py")],
        technique=PBT + "reference model of JSON patches and a differential against the library, in scratch directories",
        note="The same shapes of patches are set aside as in C06.",
    ),
    dict(
        id="C19",
        title="bump-recipe changes the version, build number and hashes and nothing else",
        statement=(
            "Bumping a recipe to a version sets the variable named version, or /package/version without one, resets the build number to zero (adding it if missing), "
            "and sets the SHA-256 of every HTTP source (adding it if missing) to that of what its URL serves for the new version: in the variable of a common hash name if it is "
            "the only one and the only source refers to it, else in the source. Bumping just the build number adds one, and every other line stays as it was. "
            "Downloads that fail or aren't archives are tried five times; unusable build numbers, missing sections, unreadable or unparsable "
            "recipes, failed downloads and wrong options have their own exit codes and, like a dry run (which prints the result), leave the file unchanged."
        ),
        over=["inputs", "fault_sequences"],
        for_all="all generated recipes, options and sequences of failed and successful downloads",
        why="The tests bump fixed files with canned downloads; which source gets which hash when downloads fail and interleave needs generated servers.",
        files=["conda_recipe_manager/commands/bump_recipe.py", "conda_recipe_manager/fetcher/http_artifact_fetcher.py", "conda_recipe_manager/fetcher/artifact_fetcher.py"],
        mech=[("command", "conda_recipe_manager/commands/bump_recipe.py"), ("download", "conda_recipe_manager/fetcher/http_artifact_fetcher.py")],
        technique=PBT + "line-by-line reference model and a scripted server on the loopback address",
        note="Comments on changed lines, variables in new-format recipes (see C09) and lists of mirrors are set aside.",
    ),
    dict(
        id="C20",
        title="HTTP sources are fetched whole and into their own directory, or not at all",
        statement=(
            "Fetching an archive over HTTP gives a directory with exactly the files, directories and links of the archive, the SHA-256 of the bytes served, and the archive's "
            "type by its content whatever its name. Any failure (connections, truncated or damaged data, content that is no archive, members outside of the directory) is a "
            "FetchError, after which fetching may be tried again, with nothing left of former attempts; unless the last fetch succeeded everything else raises FetchRequiredError. No archive, however "
            "malicious, makes a file appear or change outside of the fetcher's temporary directory, which no other fetcher shares and which vanishes with it."
        ),
        over=["inputs", "fault_sequences"],
        for_all="all archives of the supported kinds, sequences of failed responses, damage at any byte and members that point outside",
        why="The tests serve three good archives through mocks; damage and hostile members were never tried.",
        files=["conda_recipe_manager/fetcher/http_artifact_fetcher.py", "conda_recipe_manager/fetcher/base_artifact_fetcher.py", "conda_recipe_manager/utils/cryptography/hashing.py"],
        mech=[("fetcher", "conda_recipe_manager/fetcher/http_artifact_fetcher.py"), ("temporary directory", "conda_recipe_manager/fetcher/base_artifact_fetcher.py")],
        technique=PBT + "model of the archive, fault injection by a server on the loopback address, and an unprivileged process for hostile archives",
        note="A response with an error status but an archive as its body, and URLs without a file name, are set aside.",
    ),
    dict(
        id="C21",
        title="Recipe sources become the right fetchers, git sources at the right commit",
        statement=(
            "For each source of a recipe, in either format, with variables substituted, there is an HTTP fetcher for its URL, or else a git fetcher for its repository and target, "
            "under the path of the source and named after the recipe (numbered if there are several); other kinds of sources are refused with FetchUnsupportedError or, "
            "if asked to, left out; nothing is fetched and the recipe isn't changed by this. Fetching a git source, remote or local, gives the files of the commit of its "
            "tag, else its revision, else its branch, whatever was modified in a local repository, else the default branch, or a local repository as it is; the repository stays "
            "as it was. A repository or target that does not exist is a FetchError and leaves nothing to get."
        ),
        over=["inputs", "configurations"],
        for_all="all generated repositories, targets and ways to name them, and all recipes with sources of any kind",
        why="The tests never fetch a git source, and compare just the kinds of the fetchers of a few recipes.",
        files=["conda_recipe_manager/fetcher/artifact_fetcher.py", "conda_recipe_manager/fetcher/git_artifact_fetcher.py", "conda_recipe_manager/fetcher/base_artifact_fetcher.py"],
        mech=[("factory", "conda_recipe_manager/fetcher/artifact_fetcher.py"), ("git", "conda_recipe_manager/fetcher/git_artifact_fetcher.py")],
        technique=PBT + "model of the repository's history, with real git repositories and a server on the loopback address",
        note="Names that are both a branch and a file or tag, bare local repositories, submodules and recipe names with a slash are set aside.",
    ),
    dict(
        id="C22",
        title="A build configuration file gives the first value that applies to a platform",
        statement=(
            "The variables of a conda build configuration file are its top-level lists, in their order (zip_keys and entries that aren't lists are none). "
            "Looking up a variable for a platform gives the first value in the list without a selector or with one whose expression holds on that platform, with the value's "
            "type; without a platform every selector holds. A variable that is missing is a KeyError, one without a value for the platform a ValueError, and "
            "in both cases a default, even None, is given instead if there is one; look-ups change nothing."
        ),
        over=["inputs", "configurations"],
        for_all="all generated files and all platforms",
        why="The tests look up a handful of variables of one file on three platforms.",
        files=[P + "cbc_parser.py", P + "selector_parser.py", P + "selector_query.py"],
        mech=[("look-up", P + "cbc_parser.py"), ("selectors", P + "selector_parser.py")],
        technique=PBT + "reference model of the file and its selectors",
        note="Quoted whole numbers lose their quotes (pinned by tests), and selectors with parentheses are not supported.",
    ),
    dict(
        id="C23",
        title="The dependency graph holds the packages and dependencies of its recipes",
        statement=(
            "The graph of a directory has every package of every recipe file (meta.yaml or recipe.yaml, at any depth), and as dependencies for building those in build and host, for testing those in run "
            "and tests; recipes that can't be read, recipes whose dependencies can't, and duplicate names are counted and listed, and never stop the others. Plots draw exactly these: all "
            "of them, or the packages reachable from one, in either direction. The interactive command reports these numbers, answers each line typed, and ends when told to."
        ),
        over=["inputs", "histories"],
        for_all="all generated directories of recipes, good and broken, and sessions of the command",
        why="The tests build the graph of five recipes and look up their names; edges, plots and failures were untested.",
        files=["conda_recipe_manager/grapher/recipe_graph.py", "conda_recipe_manager/grapher/recipe_graph_from_disk.py", "conda_recipe_manager/grapher/types.py", "conda_recipe_manager/commands/graph.py", P + "recipe_reader_deps.py"],
        mech=[("graph", "conda_recipe_manager/grapher/recipe_graph.py"), ("from disk", "conda_recipe_manager/grapher/recipe_graph_from_disk.py"), ("command", "conda_recipe_manager/commands/graph.py")],
        technique=PBT + "reference model of the recipes; drawing replaced by a recorder",
        note="Of packages with the same name either one may win (that depends on the file system). Recipes with the same text count once.",
    ),
    dict(
        id="C24",
        title="Scanning a Python project finds what its code imports from elsewhere",
        statement=(
            "The dependencies found in a directory of Python files are the first parts of all modules imported, anywhere in any file at any depth, under their package names, without "
            "the standard library, relative imports and the modules and packages at the top of the directory, plus python for host and run. What only test files (test_*.py, *_test.py) import "
            "is a test dependency, everything else is for run, never both; text that just looks like an import counts for nothing. A file that can't be read or "
            "parsed gives one message that names it and stops no other; encoding declarations are respected."
        ),
        over=["inputs", "programs"],
        for_all="all generated directories of Python files with imports at any place of a program",
        why="The tests scan two fixed projects; the places and forms of imports, broken files and encodings are countless.",
        files=["conda_recipe_manager/scanner/dependency/py_dep_scanner.py", "conda_recipe_manager/scanner/dependency/base_dep_scanner.py"],
        mech=[("scanner", "conda_recipe_manager/scanner/dependency/py_dep_scanner.py")],
        technique=PBT + "programs generated together with their imports",
        note="Imports made by calls and namespace packages at the top of the directory are set aside.",
    ),
    dict(
        id="C25",
        title="Scanning a pyproject file finds the dependencies it declares",
        statement=(
            "The dependencies found in a pyproject file are exactly those of its project section, for run, and those of all its extras, as run constraints, each with the text it has "
            "in the file, whatever the notation and the other sections. A file that is missing or can't be parsed gives an exception message, and one without "
            "a project section an error message; either names the file, and there are no dependencies then. Otherwise there are no messages."
        ),
        over=["inputs"],
        for_all="all generated pyproject files, well-formed and not, of any name",
        why="The tests scan seven fixed files.",
        files=["conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py", "conda_recipe_manager/scanner/dependency/base_dep_scanner.py", P + "dependency.py"],
        mech=[("scanner", "conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py")],
        technique=PBT + "files generated together with their dependencies",
        note="Values of other types than the specification demands are set aside.",
    ),
    dict(
        id="C26",
        title="A license text becomes the SPDX identifier it means, expressions are left",
        statement=(
            "The text of a license field that is an SPDX identifier or the full name of a license, in any letter case and with any surrounding white space, is matched to that license's "
            "identifier, known mistakes to their correction, and expressions (and, or, with) and lists with commas to none. Any other text is matched to the identifier of the license whose "
            "identifier or name is most similar to it, or to none if no license is similar enough. Nothing but SPDX identifiers (and NOASSERTION for an unlimited license) ever results, the same text always gives "
            "the same, and an identifier gives itself."
        ),
        over=["inputs"],
        for_all="all SPDX identifiers and names (exhaustively), generated misspellings, expressions and arbitrary texts",
        why="The tests match fourteen texts; that `APACHE-2.0` was taken for another license went unnoticed.",
        files=["conda_recipe_manager/licenses/spdx_utils.py"],
        mech=[("matching", "conda_recipe_manager/licenses/spdx_utils.py")],
        technique=PBT + "exhaustive over the SPDX list, differential against a reference search beyond it",
        note="The list of licenses is taken from the package; a word such as `or` inside another word may count as an expression.",
    ),
    dict(
        id="C27",
        title="A recipe that was copied or pickled is the same, with a life of its own",
        statement=(
            "A recipe that was deep-copied, pickled with any protocol, or sent to another process and back, at any point of a history of edits, is equal to the original and answers every question as "
            "it does: text, values, null values, variables, selectors, comments, modified flag, hash and diff. The same edits have the same effect on both, in this process or another, the same conversion gives the "
            "same text and messages, and editing one never changes the other. The same holds for selectors, dependencies and the marker for unset values, which stays a single object."
        ),
        over=["histories", "inputs"],
        for_all="all generated recipes, points of a history of edits, and ways to copy",
        why="No test copies or pickles a recipe, though the bulk commands hand them to other processes.",
        files=[P + "recipe_reader.py", P + "recipe_parser.py", P + "_node.py", P + "recipe_parser_convert.py", P + "selector_parser.py", "conda_recipe_manager/types.py"],
        mech=[("nodes", P + "_node.py"), ("marker for unset values", "conda_recipe_manager/types.py"), ("recipe", P + "recipe_reader.py")],
        technique=PBT + "metamorphic: the same history with and without a copy in between",
        note="Copies with copy.copy(), which share their contents by definition, are left out.",
    ),
    dict(
        id="C28",
        title="Hashes are those of the bytes; messages and statistics what was put in",
        statement=(
            "The hash of a file is that of its bytes at that time, whatever their number and kind, and the hash of a text that of its bytes in the given encoding (UTF-8 by default), for every algorithm, by name or "
            "constructor. A table of messages gives the messages of each kind in the order they were added, their number, and a sentence with the numbers of errors and warnings that is empty if there are no "
            "messages; clearing it empties it, tables are independent, and printing writes each message with its kind to standard error. Package statistics are written as JSON with sorted sets, "
            "and a value as a string unless it is none."
        ),
        over=["inputs", "histories"],
        for_all="all files, texts, encodings and algorithms, and all histories of messages",
        why="The tests hash two small files and add at most three messages.",
        files=["conda_recipe_manager/utils/cryptography/hashing.py", "conda_recipe_manager/types.py", "conda_recipe_manager/commands/utils/print.py", "conda_recipe_manager/grapher/types.py", "conda_recipe_manager/utils/typing.py"],
        mech=[("hashing", "conda_recipe_manager/utils/cryptography/hashing.py"), ("message table", "conda_recipe_manager/types.py")],
        technique=PBT + "differential against hashlib and a list model",
        note="Files up to about a megabyte.",
    ),
    dict(
        id="C29",
        title="The bulk build runs rattler-build on each recipe and counts the outcomes",
        statement=(
            "For every recipe.yaml file in a directory, at any depth and whatever the paths, rattler-build is run once with `build -r`, the file and all further arguments as they were given, and no recipe's failure, "
            "time-out or missing program stops the others. The JSON printed, and the debug log if asked for, count exactly the recipes, non-zero exit codes and lines with `Error: ...` on standard "
            "error (with the recipes that had each, most frequent first; the list of failed recipes is left out if truncated). The exit code says whether the rounded success rate reached the minimum, that there were no recipes, or that the "
            "options are wrong."
        ),
        over=["inputs", "fault_sequences"],
        for_all="all generated directories, outcomes of the program, options and arguments",
        why="The only test asks for the command's help.",
        files=["conda_recipe_manager/commands/rattler_bulk_build.py", "conda_recipe_manager/commands/conda_recipe_manager.py"],
        mech=[("command", "conda_recipe_manager/commands/rattler_bulk_build.py")],
        technique=PBT + "a stand-in for rattler-build that records its calls and ends as the case says",
        note="rattler-build's output is UTF-8; the stand-in is a shell script, so POSIX only.",
    ),
    dict(
        id="C30",
        title="CI scripts sum up the results in logs exactly and select recipes as asked",
        statement=(
            "The summary of a directory of CI logs, with or without time stamps, adds up the numbers of all JSON results of each phase (averaging percentages) and counts and reports the results of each test, in "
            "order of the names; text and sub-directories are skipped and broken or unknown JSON is reported on standard error, without stopping the rest. Selecting recipes asks for as many of the repositories listed and "
            "not excluded as requested (all if there are fewer), stores what the main branch, or else the master branch, serves under the repository's name and nothing else, survives failed "
            "connections, and reports the numbers selected and fetched."
        ),
        over=["inputs", "fault_sequences"],
        for_all="all generated logs, lists of repositories, exclusions and answers of the server",
        why="The scripts have no tests.",
        files=["scripts/parse_ci_output.py", "scripts/randomly_select_recipes.py"],
        mech=[("summary", "scripts/parse_ci_output.py"), ("selection", "scripts/randomly_select_recipes.py")],
        technique=PBT + "logs generated together with their results; a stand-in for the server",
        note="Which of several results of one test and phase is reported depends on the file system; such logs are not generated.",
    ),
    dict(
        id="C31",
        title="Section names, dependency texts and paths convert exactly, and back",
        statement=(
            "Every dependency section has its name in each schema version, which converts back to that section in any letter case and with any white space around it, and any other name converts to none. Any text becomes "
            "a dependency that renders as that very text: one with a substitution in it or that is no match specification is a variable of that name, equal to variables of the same text only (with the same hash, also "
            "after pickling). Joining a path and an extension gives the path of both, with one slash in between, whatever slashes they had there."
        ),
        over=["inputs"],
        for_all="all names, texts of dependencies, and splits of the paths of generated recipes",
        why="The tests convert the six names as they are and a handful of texts and paths.",
        files=[P + "dependency.py", P + "recipe_reader.py"],
        mech=[("sections and texts", P + "dependency.py"), ("paths", P + "recipe_reader.py")],
        technique=PBT + "round trips and tables of names",
        note="conda's MatchSpec is a stand-in.",
    ),
]
