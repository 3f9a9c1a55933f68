"""The checks: which programs decide each property, and what they cover."""

E2E = ("Every case is compiled by the real derive and rustc from /repo's tree and executed; the reference model "
       "(harness/kit/src/model.rs) predicts its output.")


def kit(b, **kw):
    return dict(crate="kit", bin=b, e2e=True, **kw)


def gen(b, **kw):
    return dict(crate="gen", bin=b, **kw)


def direct(b, **kw):
    return dict(crate="direct", bin=b, **kw)


HOOKS = {
    "guard": "rustc cfg `askama_verif`",
    "enable": "harness/gen compiles /repo/askama_derive/src/lib.rs as an ordinary library; its build.rs prints cargo:rustc-cfg=askama_verif",
    "source_commits": ["323a46b"],
}

NOT_APPLICABLE = {}

CHECKS = {
    "C02": dict(
        level="model_checking",
        technique="exhaustive enumeration of output forms x enclosing constructs x escaper selections against a reference interpreter",
        parts=[kit("c02")],
        note="bounded-exhaustive over 33 output forms, 27 constructs (and their pairs) and every extension/attribute/configuration combination of a set; model traces replayed on the compiled templates",
        bounds="33 output forms in each of 21 nestable and 6 outermost constructs, all ordered pairs of constructs (thorough: triples) around all forms, all ordered pairs of forms next to each other; 41 file names x 14 escape attributes x 5 escaper configurations (quick: a quarter of the attribute combinations); values of 5 types printed whole, by character and in pieces",
        assumptions=["a parenthesised `(x|safe)` is an ordinary expression and is escaped", "included and inherited files use the escaper of the template being derived"],
    ),
    "C04": dict(
        level="model_checking",
        technique="exhaustive enumeration of token sequences as text, raw bodies and comments in every construct against a reference interpreter",
        parts=[kit("c04")],
        note="bounded-exhaustive over token sequences; every generated template is compiled by the real derive and run",
        bounds="texts of <=2 (thorough 3) of 40 tokens as whole templates; of <=3 tokens (quick: half of those longer than 3 characters) and of <=4 (thorough 5) of 10 characters between tags; texts in all pairs of constructs; raw bodies of <=3 of 29 tokens (quick: a third of the long ones); all comments of <=4 (thorough 5) of 19 tokens; 11x11 file endings",
        assumptions=["only a final line feed is dropped from a file, a carriage return before it stays"],
    ),
    "C05": dict(
        level="model_checking",
        technique="exhaustive enumeration of typed operator chains and expression forms, model and rustc as oracles",
        parts=[kit("c05")],
        note="bounded-exhaustive over the stated grammar; trusts rustc's own evaluation of the same expression as one oracle and the reference model as the other",
        bounds="all well-typed chains of <=3 (thorough 4) binary operators; all prefix/filter/group decorations on chains of 1, one decorated operand on chains of 2; all boolean assignments of traced &&/|| chains of <=3 (thorough 4); suffix chains of <=3 (thorough 4) steps in 10 operator contexts; 3 spacing styles",
        assumptions=["operand values are chosen from 8 assignments per chain, preferring those that tell Rust's grouping from every other grouping",
                     "forms askama does not compile (comparison of an indexed element with a number) are outside the property"],
    ),
    "C06": dict(
        level="model_checking",
        technique="exhaustive enumeration of markers and whitespace per span for every pair of adjoining tags against a reference interpreter",
        parts=[kit("c06")],
        note="every span between two tags takes all 224 combinations of right marker, left marker and text; spans cover every ordered pair of tag kinds, adjacent and nested",
        bounds="14 tag kinds pairwise adjacent and nested, plus macro, import, inheritance and include files; per span 4x4 markers x 14 texts; all texts of <=4 (thorough 5) of 5 characters and <=2 (thorough 3) of 12 others between two tags under every pair of markers; 3 default modes (quick: rotating over the variants), from attribute, configuration or both",
        assumptions=["whitespace is space, tab, carriage return and line feed; other Unicode spaces are text"],
    ),
    "C07": dict(
        level="model_checking",
        technique="exhaustive enumeration of loop programs over all small input sequences against a reference interpreter",
        parts=[kit("c07")],
        note="bounded-exhaustive: all loop shapes of the grammar run on all item sequences up to a length; the model's traces are replayed on the compiled templates",
        bounds="see other_counts: all loop bodies of the grammar (outputs of the loop variables, cycle, break/continue under every condition, else, if conditions, nested loops) over all item sequences up to length 4, several iterables; sequences of up to 65537 items, loops nested 8 deep",
        assumptions=["loop variables are references, so conditions call methods on them"],
    ),
    "C08": dict(
        level="model_checking",
        technique="exhaustive enumeration of branch chains and matches over all assignments of their inputs against a reference interpreter",
        parts=[kit("c08")],
        note="bounded-exhaustive: every chain of the grammar runs on every assignment of its inputs; traced conditions show what was evaluated",
        bounds="chains of <=4 branches (expression conditions and if-let over every pattern form), matches of <=3 arms over every pattern form with every value of the domain; nesting depth 2; up to 12 branches and arms, many alternatives of an or-pattern, empty bodies at every position",
        assumptions=["match on binary expressions and if-let chains are outside the grammar"],
    ),
    "C09": dict(
        level="model_checking",
        technique="exhaustive enumeration of scoping programs against a reference interpreter",
        parts=[kit("c09")],
        note="bounded-exhaustive over statement sequences and scope containers; every state of the model is compared through the outputs placed after each statement",
        bounds="all sequences of <=2 (thorough 3, restricted 4) statements over 5 statement kinds and 12 scope containers; declare-then-assign in all branch shapes of depth 1 (thorough 2); all pairs (thorough triples) of 21 output expressions x 8 separators; includes/blocks/parents with <=2 (thorough 3) statements",
        assumptions=["free variables of macro bodies are outside the property", "a let directly inside a filter block is outside the property"],
    ),
    "C10": dict(
        level="model_checking",
        technique="exhaustive enumeration of macro signatures, argument orders and call sites against a reference interpreter",
        parts=[kit("c10"), gen("verdicts", args=["c10"])],
        note="bounded-exhaustive over signatures and calls with names chosen to collide",
        bounds="macros of <=3 parameters (5 to 16 at every argument order of a set), arguments evaluated once each, all positional/named argument splits and orders, all argument forms of a set with colliding names, nested macro calls, imported macros, repeated calls; every call that does not fit its macro (missing, unknown, surplus, repeated, misplaced arguments) must be rejected",
        assumptions=["free variables of a macro body are outside the property"],
    ),
    "C11": dict(
        level="model_checking",
        technique="exhaustive enumeration of inheritance chains against a reference interpreter",
        parts=[kit("c11")],
        note="bounded-exhaustive over chains of up to 3 levels (4-level chains by a fixed stride over the product), every block definition form, 5 layouts",
        bounds="all 2-level chains; half (thorough all) of the 3-level and a fixed fraction of the 4-level product; chains of 5 and 8 levels and 6-fold nested blocks separately",
        assumptions=["duplicate block names within a level are outside the property"],
    ),
    "C12": dict(
        level="model_checking",
        technique="exhaustive enumeration of inheritance chains x blocks against the block texts of a reference interpreter's full rendering",
        parts=[kit("c11", args=["c12"]), gen("verdicts", args=["c12"])],
        note="bounded-exhaustive: every block of every chain is rendered as a fragment and compared with what it contributes to the model's full rendering, which C11 compares with the implementation's",
        bounds="every third (thorough every) chain of C11 x every block of it; every node kind before, behind, around and within a fragment at every level; every name that is no block of the chain must be rejected",
        assumptions=["a fragment block inside a filter block is outside the property"],
    ),
    "C13": dict(
        level="model_checking",
        technique="exhaustive enumeration of file layouts, reference paths and scopes at inclusion against a path-lookup model and a reference interpreter",
        parts=[kit("c13"), gen("verdicts", args=["c13"])],
        note="bounded-exhaustive: every layout of same-named files over a directory tree, every reference and every scope; the compiled template prints which file was found",
        bounds="all subsets of same-named files over 4 directories x 3 search-path configurations x reference paths x kinds of tag, chained references through included, imported and inherited files, every kind of binding and macro visible at an inclusion; a file referred to from a single place only, for every pair of constructs around that place; missing files and names must be rejected",
        assumptions=["which scope an includer's macro sees when it is called from an included file is outside the property", "an included file assigning an uninitialized variable of its includer is outside the property"],
    ),
    "C03": dict(
        level="model_checking",
        technique="exhaustive enumeration of token sequences, delimiter sets and nesting families run through the real parser under a watchdog",
        parts=[gen("c03")],
        note="bounded-exhaustive over token sequences; each run is watched for panics, hangs, stack overflow and memory, in subprocesses with an 8 MB stack",
        bounds="see other_counts: all sequences of a tag, expression, raw-text, number, string and Rust-token alphabet up to the stated lengths in several contexts; nesting families (every recursive construct, closed and unclosed) at depths up to tens of thousands with a time bound growing with the length; chains of up to 20000 suffixes, filters and operators and one huge expression per kind",
        assumptions=["termination is judged by a time limit per input that is orders of magnitude above what the parser needs"],
    ),
    "C14": dict(
        level="model_checking",
        technique="exhaustive fault injection: every failing value and every failing or short write position of the sink, for every entry point, against a reference interpreter",
        parts=[kit("c14")],
        note="every fault position of every rendering is enumerated (sink runs in other_counts) on templates compiled from the tree",
        bounds="60 failing expressions (values, filters, filter arguments, `?`) x 9..17 places; bodies with two failures in every construct and pairs of constructs; per rendering all entry points (render, render_into, write_into, Display, render's dynamic versions, through references and Box) and a sink that fails, writes short or is interrupted at every byte position",
        assumptions=["`to_string` and `format!` of the standard library panic on a Display that fails, by their contract", "a Display of the user that ignores the errors of its formatter is the user's"],
    ),
    "C19": dict(
        level="model_checking",
        technique="exhaustive enumeration of template dependency graphs and macro call graphs derived in-process under a watchdog, reachability model as oracle",
        parts=[gen("c19")],
        note="bounded-exhaustive over labelled directed graphs; the derive of the tree runs as a function on every graph, the model says which must be rejected and which accepted",
        bounds="all graphs over <=3 templates (thorough 4) with extends/import/include edges in every position, all macro call graphs over <=3 macros in one and two files, chains and cycles up to hundreds of templates",
        assumptions=["termination is judged by a time limit per graph"],
    ),
    "C20": dict(
        level="model_checking",
        technique="exhaustive enumeration of fragment sequences and node nestings derived in-process, Rust's grammar (syn) as oracle",
        parts=[gen("c20")],
        note="bounded-exhaustive; every template is derived twice and the code parsed; workers are watched for panics, aborts and hangs",
        bounds="all sequences of tag/expression/Rust-token alphabets up to the stated lengths, all ordered nestings and neighbourhoods of constructs, repetition families up to thousands of copies, all attribute combinations of a set",
        assumptions=["raw paths and Rust macro tokens are handed to rustc as they are, so the syntax oracle applies to templates combined from constructs that are valid on their own"],
    ),
    "C22": dict(
        level="model_checking",
        technique="exhaustive enumeration of prefix x broken construct pairs through the real parser against a position model",
        parts=[gen("c22")],
        note="bounded-exhaustive over prefixes and broken constructs; the reported position must be the place of the excerpt and move by exactly the prefix",
        bounds="see other_counts: every broken construct of the alphabet after every prefix of <=N tokens (newlines, CRLF, multi-byte characters, tags, comments)",
        assumptions=[],
    ),
    "C01": dict(
        level="model_checking",
        technique="exhaustive enumeration of strings x chunkings x entry points against an escaping model",
        parts=[direct("c01")],
        note="bounded-exhaustive: all strings up to a length, all ways to print them in pieces, every Unicode character, every position in long strings",
        bounds="all strings of <=4 characters over 22 and of 5..6 over 6 (thorough 7, restricted 14) in every split and 4 ways of writing; every Unicode scalar value in 5 contexts; one and two special characters at every position of strings up to 140 (thorough 400) characters; strings up to 96 KB",
        assumptions=["a value prints the same text every time it is displayed"],
    ),
    "C15": dict(
        level="model_checking",
        technique="exhaustive enumeration of strings x chunkings x arguments against reference implementations of the filters",
        parts=[direct("c15")],
        note="bounded-exhaustive over strings, splits and arguments, called directly and through templates; JSON output is parsed back",
        bounds="all strings of <=3 characters over 20 (4 over 8, thorough 20), longer ones over smaller alphabets, in every split; every Unicode scalar value in 5 contexts; arguments 0..12, around the length and 10000; JSON strings of <=4 characters and nested values; all 16-bit numbers at every position of wider types; sizes around every power of ten and two",
        assumptions=["abs of the smallest integer of a type has no value and is outside", "the argument limit of 10000 for center and indent is as documented in the code"],
    ),
    "C21": dict(
        level="model_checking",
        technique="exhaustive enumeration of MIME types x value outcomes (fault injection at every value) x response entry points of the four integrations",
        parts=[dict(crate="integ", bin="c21")],
        note="bounded-exhaustive: every assignment of succeeding and failing values; responses are produced by the real integration crates and frameworks",
        bounds="13 extensions x all assignments of 7 outcomes to the values of a template with a loop of <=2 (thorough 3) items; all bodies of <=3 characters over 6 and sizes around powers of two up to 64 KB; 22 forms of struct definitions (generics, where clauses, defaults, shadowed names); 21 ways to make a response",
        assumptions=["responses are taken from the conversion, not from a socket"],
    ),
    "C17": dict(
        level="model_checking",
        technique="exhaustive enumeration of delimiter sets x templates, comparing the real parser's and generator's result with that for the default spelling",
        parts=[gen("c17"), kit("c17")],
        note="bounded-exhaustive over delimiter sets and template token sequences; both spellings are derived in-process and the generated code compared; a second part compiles and runs templates under custom syntaxes against the reference interpreter",
        bounds="see other_counts; end to end: delimiter sets of every shape x every construct and pair of constructs, custom syntax in including, included, imported and inherited files",
        assumptions=["delimiter sets whose end is also a prefix of what may stand before it in an expression are ambiguous by nature and outside the property (listed in DESIGN.md)"],
    ),
    "C18": dict(
        level="model_checking",
        technique="exhaustive enumeration of configurations x attributes against a resolution model",
        parts=[gen("verdicts", args=["c18"]), kit("c18")],
        note="bounded-exhaustive over attribute and configuration values; verdicts in-process, and the selected escaper, syntax, whitespace mode, directories, EXTENSION, MIME_TYPE and SIZE_HINT observed on compiled templates",
        bounds="see other_counts; end to end: all combinations of the attributes with the entries of a configuration file, extensions of up to three parts, every attribute order",
        assumptions=["unknown configuration keys and repeated attributes are unspecified"],
    ),
    "C23": dict(
        level="model_checking",
        technique="exhaustive enumeration of names (keywords, raw identifiers, generator-internal names, non-ASCII) x places a name may stand at against a reference interpreter",
        parts=[kit("c23")],
        note="bounded-exhaustive: every name at every place, alone and in pairs; every template is compiled by the real derive and run",
        bounds="all strict, reserved and weak keywords of Rust and names the generated code uses x every place of a name (fields, let, loop, match and if-let bindings, parameters, macro, scope and block names, methods, attributes, named arguments), pairs of names and places (thorough: more pairs), editions 2021 and 2024",
        assumptions=["self, Self, super and crate cannot be raw identifiers and are no variable names"],
    ),
    "C16": dict(
        level="model_checking",
        technique="exhaustive enumeration of filter chains and filter-block bodies against a reference interpreter",
        parts=[kit("c16")],
        note="bounded-exhaustive over chains x operands and chains x bodies x surroundings; model traces replayed on the compiled templates",
        bounds="all chains of 1 and 2 of 30 filters and 3 of 12 (thorough: 3 of 30, 4 of 6), each repeated and next to others; 10 operand forms and 13 x 13 argument forms; every chain of 1 (and 2) over 25 bodies of every node kind, all ordered pairs of bodies in one block, in neighbouring and nested blocks, 3 nested blocks of every filter, in all constructs and pairs of constructs; 3 assignments each",
        assumptions=["a `let` directly inside a filter block is outside the property", "expressions that borrow a temporary value do not compile in `let` and `call`, as in Rust"],
    ),
    "C24": dict(
        level="model_checking",
        technique="exhaustive enumeration of sets of template files and of edits to each file; derived in-process before and after each edit, and rustc's dependency information for the compiled crates",
        parts=[gen("c24"), kit("c24")],
        note="bounded-exhaustive; an edit that changes what is derived must be to a file the derived code names, and every file that is part of the output must be in the dep-info file rustc writes for Cargo",
        bounds="rows of up to 3 (thorough: all 15 constructs at every link) and of 4-33 references of every kind (extends, import, include), each from 15 constructs, 4 ways to give the root, 4 layouts of the files; all graphs over <=4 files and <=3 (thorough 4) references in every position; 6 edits of every file",
        assumptions=["Cargo rebuilds when a file in rustc's dep-info changes", "the configuration file is not a template file"],
    ),
    "C25": dict(
        level="model_checking",
        technique="exhaustive enumeration of template features x surroundings and features x forms of struct definition; compiled and run against the model",
        parts=[kit("c25")],
        note="bounded-exhaustive; every pair is compiled with the derive and its rendering compared with the model's",
        bounds="37 template features x 302 surroundings (structs, traits, type aliases, modules, functions and macros named as what generated code uses) and x 67 forms of definitions (generics, bounds, where clauses, names, visibility, attributes, places); 13 kinds of types without named fields x templates on `self` x values; all features under deny(warnings) and forbid(unsafe_code)",
        assumptions=["surroundings do not define values with the names of the generator's local variables, nor methods on foreign types by blanket traits"],
    ),
}
