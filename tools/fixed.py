"""Defects repaired in /repo: (property, commit, what failed). Written to known_findings.json by gen_meta.py."""

FIXED = [
    ("C01", "a868124", "`a or b and c` was evaluated from left to right"),
    ("C04", "c6dd8c6", "a block scalar at the end of the file raised IndexError"),
    ("C04", "551e859", "sections that end with a blank line got one more blank line on every round trip"),
    ("C04", "b79a625", "the indentation inside of a block scalar was lost"),
    ("C04", "b60f778", "`- script: |` as the first key of a list item lost the key"),
    ("C04", "3aedf5e", "a comment that ends in `|` or `>` swallowed the lines below it"),
    ("C04", "8240df4", "a comment line with an odd indentation changed the structure of the recipe"),
    ("C05", "8f133fb", "nested lists of objects and top-level lists were missing from the object form"),
    ("C04", "ac1ed55", "keys without a value in list items and in the object form were lost or moved"),
    ("C04", "58fc6a0", "a lone key without a value was rendered as the value of its parent"),
    ("C04", "527bc16", "strings that only mean themselves in quotes (`\"true\"`, `\"x: y\"`) lost the quotes"),
    ("C04", "bdd4e91", "a number sign in a quoted string was taken for a comment"),
    ("C05", "7f558ab", "strings such as `\"true\"` or `\"x: y\"` were read as other types"),
    ("C04", "ed7182c", "`\"1.10\"` was rendered as the number 1.1"),
    ("C12", "f22e7ed", "an empty requirements section crashed the dependency look-ups"),
    ("C05", "0b55a67", "a path through a value (`/build/number/0`) was found"),
    ("C06", "807468e", "adding an object by an index replaced another element; a bad index raised IndexError"),
    ("C06", "feb36f2", "adding at the index one past the end of a list failed"),
    ("C11", "68e3735", "search-and-patch stopped at the first failure and edited the patch it was given"),
    ("C05", "4a8922a", "a list with one number, flag or null was returned without the list"),
    ("C05", "33b3e69", "strings with quotes next to a Jinja statement were returned with another pair of quotes"),
    ("C04", "938b197", "`\"foo: | #tag\"` was taken for the start of a block scalar and lost"),
    ("C05", "c92d4c4", "the value of a list element that is an object raised a YAML error"),
    ("C06", "d176390", "patch-add replaced or nested values below primitives"),
    ("C06", "a4bbef4", "a patch-move to an impossible place lost the value"),
    ("C06", "23e0e29", "empty lists and objects were refused or lost as patch values"),
    ("C06", "da44ac3", "strings with several lines and objects used twice in a patch value were mangled"),
    ("C06", "8e5ac5f", "patch-add below a primitive list element was accepted"),
    ("C06", "688dbed", "moved strings with several lines or Jinja statements were rendered unreadably"),
    ("C06", "4771583", "patch-add at `/-` of a list in a list element edited the outer list"),
    ("C09", "d687db9", "references to a variable included those of variables whose name contains it"),
    ("C09", "1ec9aea", "references to variables in strings with several lines were missing"),
    ("C10", "3631fb1", "removing a selector or listing comments changed number signs and spaces inside of the comment"),
    ("C10", "1657f3e", "comments added to a list element and to its first key, which share a line, got lost"),
    ("C10", "5f876a4", "the selector of a list was applied to its lone element and the other way round"),
    ("C10", "849ef48", "asking for the paths of a selector a second time gave an empty path"),
    ("C07", "c988e9d", "removing the first key of an object in a list left a broken line or lost a comment"),
    ("C12", "27f4fd2", "dependency look-ups raised an error for list elements that are not strings"),
    ("C13", "30c1a7e", "a dependency added to an empty section was compared with the name of the section"),
    ("C14", "8fb2922", "a second conversion repeated messages and started from the first one's result"),
    ("C14", "a6cd2c9", "`foo: false  # [win]` was converted to a condition on true"),
    ("C06", "305d93e", "a patch-move renaming the only key of an object in a list broke the list"),
    ("C06", "d692f64", "a string with a quoted Jinja argument that ends in a colon was written without quotes"),
    ("C16", "4a1c13b", "the dots of a string in front of a piped function became pipes in a set statement"),
    ("C16", "fdb30b8", "`os.environ[]` was rewritten in place of a later `environ[]` of the same name"),
    ("C11", "1dcdc34", "strings with several lines were searched in the notation of Python, so Jinja in them was missed by conversions"),
    ("C17", "3366b80", "recipes in the new format (and failed pre-processing) were missing from the exceptions of the bulk statistics"),
    ("C19", "42d707f", "with --build-num and --target-version the build number was incremented instead of reset"),
    ("C20", "02e8ec0", "truncated and corrupted archives raised the errors of the decompression libraries instead of FetchError"),
    ("C19", "02e8ec0", "a truncated or corrupted archive ended the command with a traceback and without another try"),
    ("C21", "8855672", "the tag or revision of a git source was ignored: its branch, or None, was checked out"),
    ("C20", "bdbe903", "files of a former fetch (a failed one, too) stayed among those of the next one, and a failed fetch after a good one still gave files and a hash"),
    ("C17", "2dc0e87", "an output file that can't be written ended the command with a traceback, and all other recipes of the directory were left unconverted"),
    ("C19", "3a0ec22", "a recipe that is not UTF-8 ended the command with a traceback"),
    ("C18", "bd23e53", "recipes and patches that are not UTF-8, or a directory for the patches, ended the command with a traceback"),
    ("C17", "46f004b", "a recipe with errors whose output can't be written was subtracted twice from the recipes that could have succeeded"),
    ("C21", "858a1cc", "an empty source section, or a source that is no object, raised AttributeError instead of being unsupported"),
    ("C21", "515fde7", "a local git repository could never be fetched, since its copy went to a directory that existed"),
    ("C23", "4e8296d", "plotting the dependencies of a package without any ended the command with a traceback"),
    ("C24", "e57bd43", "`from .foo import bar` was reported as a dependency on foo"),
    ("C24", "950f4f1", "files with an encoding declaration or a byte-order mark could not be scanned"),
    ("C25", "1641fad", "a pyproject file that is not UTF-8 was a UnicodeDecodeError instead of a message"),
    ("C26", "093c6d8", "`APACHE-2.0` was matched to APSL-2.0, and full names of licenses with `or` in them to none"),
    ("C27", "1991b34", "a recipe pickled with protocol 0 or 1 lost track of which values are unset"),
    ("C29", "44beff9", "paths and arguments with spaces were split before they reached rattler-build"),
    ("C06", "22ead41", "a patch-test of `true` against 1 (or the reverse) succeeded"),
    ("C06", "62844d8", "a patch-move of a path that does not exist to itself succeeded"),
    ("C06", "8d65668", "a patch-move from a list into an element that it shifts was refused, although RFC 6902 finds the target after the removal"),
    ("C06", "b3739fb", "moving, copying or testing a key without a value used its name as the value"),
    ("C16", "29bd043", "only the last substitution with a dot function of a line was converted"),
    ("C12", "6af1dcf", "empty `outputs:`, `context:` and `name:` were read as their names: seven outputs, a crash, a package called name"),
    ("C14", "aef7944", "fields without a value were converted by their names: an empty license became Unlicense, an empty test `- test`"),
    ("C06", "c4d4acf", "patch-add at index 0 of an empty list was refused"),
    ("C15", "c3192be", "editing a list or object given to, or returned for, a variable or an empty collection changed the recipe"),
    ("C13", "9a1afc7", "removing a dependency whose path names something else removed that instead"),
    ("C21", "b4385dd", "a tag with the name of a branch gave the files of the branch, or the branch those of the tag"),
    ("C29", "2d6951a", "output of rattler-build that is not UTF-8 ended the bulk build with a traceback"),
]
