#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
D = "src/patch/device.rs"; P = "src/patch/peripheral.rs"; R = "src/patch/register.rs"; M = "src/patch/mod.rs"; Y = "src/patch/yaml_ext.rs"; C = "src/cli.rs"
props = []
def p(id, title, statement, over, text, why, files, mech):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Patching changes only what the rules select",
  "`svdtools patch` leaves every element and attribute that no rule selects, creates or removes with unchanged content and unchanged relative order, whatever mixture of rules the patch contains and wherever it applies them. A patch with no rules reproduces the content of the input SVD exactly, and patching its output again with an empty patch is byte-for-byte idempotent (but for carriage returns and white space around texts, which reading XML normalises).",
  ["inputs", "programs"], "every well-formed SVD description and every accepted patch over it",
  "The fixture tests compare ~25 hand-written patches on devices with one or two registers; a rule leaking into a neighbour that no fixture contains is invisible to them.",
  [D, P, R, M], [("rule dispatch at device, peripheral, cluster and register level", D + "," + P + "," + R), ("SVD parse / encode round trip", M)])

p("C02", "Rule names select exactly the elements their pattern matches",
  "A rule name selects exactly those elements whose whole name matches it, where `?` is any one character, `*` any run, `[..]` one of a set or range, `{a,b}` alternatives, a `,` outside braces separates alternative patterns, and everything else is literal and case-sensitive. This holds identically for peripherals, interrupts, clusters, registers and fields, and in every section that accepts patterns.",
  ["inputs"], "every pattern of the documented language, every set of names, at every level",
  "Fixtures use a handful of patterns, each of which matches only intended names; over- and under-matching neighbours are absent.",
  [M, "src/patch/iterators.rs", D, P, R], [("pattern matching", M), ("matched-element iteration", "src/patch/iterators.rs")])

p("C03", "Mandatory rules must match; optional `?~` rules may not",
  "A rule that addresses a peripheral, cluster, register or field that does not exist makes the patch fail (for processing, register and field array, cluster, derive, enumeration, range, split and expand-cluster rules, and for `_modify` rules inside peripherals, clusters and registers), while the same rule prefixed with `?~` is then skipped without any effect. When the target exists, a `?~` rule has exactly the effect of the same rule without the prefix.",
  ["inputs", "programs"], "every rule kind that supports the prefix, every device, targets present or absent, of every element kind",
  "Tests hardly exercise `?~` at all, and never compare the prefixed with the unprefixed rule.",
  [D, P, R, M], [("optional marker parsing", M), ("unmatched-target errors", D + "," + P + "," + R)])

p("C04", "Deletion removes exactly the matched elements",
  "`_delete` removes exactly the elements of the addressed kind (peripherals; registers and clusters; only registers; only clusters; interrupts; fields) whose name matches, together with their contents. All the others keep their content and order.",
  ["inputs", "programs"], "every device, every set of patterns, every level and kind selector, derived peripherals included",
  "Two fixtures delete one peripheral / one register; kind selectors, clusters and interrupts next to same-named elements are not reached.",
  [D, P, R], [("peripheral deletion", D), ("register / cluster / interrupt deletion", P), ("field deletion", R)])

p("C05", "Modification sets exactly the given attributes on all matches",
  "`_modify` gives every matched device, cpu, peripheral, interrupt, cluster, register, address block or field exactly the attribute values written in the rule and leaves their other attributes and children alone. Renaming a peripheral also redirects every peripheral derived from it, and an empty string removes an optional attribute.",
  ["inputs", "programs"], "every element kind, every attribute combination, every number of matches",
  "Fixtures modify single elements with one or two attributes each.",
  [D, P, R, M], [("device, cpu and peripheral modification", D), ("register, cluster, interrupt modification", P), ("field modification", R)])

p("C06", "Additions create the described element once, in address order",
  "`_add` creates exactly one new peripheral, cluster, register, interrupt or field carrying exactly the given attributes, children and dimensions, placed among its siblings according to its address (fields and interrupts at the end). Adding a name that already exists among siblings of that kind is refused.",
  ["inputs", "programs"], "every element kind and attribute combination, every sibling list (sorted or not, empty, duplicate addresses)",
  "Fixtures add one element to a nearly empty parent.",
  [D, P, R, M], [("element construction from YAML", M), ("insertion position", M)])

p("C07", "Copying duplicates the source and keeps the target's identity",
  "`_copy` makes the target equal to the source - same file or another file for peripherals, with the rule's attribute overrides for registers - except for its name and, when the target already exists, its own base address and interrupts (peripherals) or address offset (registers). The source and everything else stay unchanged, a same-file peripheral copy brings no interrupts along, a copy of a derived peripheral has the contents it inherits, and an unknown source, or a register derived from the one it would replace, is refused.",
  ["inputs", "programs"], "every device pair, every source / target combination",
  "One fixture copies one peripheral over another.",
  [D, P], [("peripheral copy", D), ("register copy", P)])

p("C08", "Deriving marks the target, drops its contents, keeps references valid",
  "`_derive` makes the target (created if absent) derive from the named source, dropping the contents it now inherits and applying the rule's own attributes and dimensions; whatever was derived from the target is redirected to the same source. For peripherals the source is placed before all its derived peripherals, and a source that cannot be found, or that is the target or derived from it, is refused.",
  ["inputs", "programs"], "every device, every derive graph, peripherals, registers (also inside clusters and through cluster paths) and fields",
  "Three fixtures, each with a single derive and no pre-existing dependents.",
  [D, P, R], [("peripheral derive", D), ("register derive", P), ("field derive", R)])

p("C09", "Rebasing swaps base and derived roles without losing contents",
  "`_rebase NEW: OLD` moves all of OLD's contents to NEW, which keeps its own name, base address and interrupts, leaves OLD with its name, base address and interrupts and derived from NEW, and redirects every peripheral derived from OLD to NEW. NEW ends up before all peripherals derived from it; nothing else changes. An OLD that is itself derived from NEW is refused.",
  ["inputs", "programs"], "every device, every position and set of derived peripherals",
  "A single fixture with two peripherals.",
  [D], [("peripheral rebase", D)])

p("C10", "Collecting registers into an array preserves the address map",
  "A register `_array` rule either is refused without producing output or yields one array whose expansion covers exactly the collected registers: same count, same addresses, and, unless renumbering or renaming is requested, same names. Registers with irregular address spacing, different bit usage or unrelated descriptions are refused rather than collected, and all other registers stay as they were.",
  ["inputs", "programs"], "every register layout and pattern, regular or irregular, any document order, in peripherals and clusters",
  "One fixture set with a single, perfectly regular layout.",
  [P, M], [("array collection", P), ("spacing and description checks", M)])

p("C11", "Collecting fields into an array preserves the bit layout",
  "A field `_array` rule either is refused or yields one field array whose expansion gives back the same number of fields at the same bit offsets, with the same width and, unless renumbering or renaming is requested, the same names. Fields with irregular spacing, different widths or unrelated descriptions are refused and all other fields stay as they were.",
  ["inputs", "programs"], "every field layout, document order and pattern",
  "One fixture with one regular layout.",
  [R, M], [("field array collection", R)])

p("C12", "Collecting registers into clusters preserves every address",
  "A `_cluster` rule either is refused or yields one cluster (array) whose expansion puts each collected register of every listed group at exactly the address it had before, with the group's properties and fields. Groups with different sizes, indices or address spacing, or that do not fit in the cluster stride, are refused and all other elements stay as they were.",
  ["inputs", "programs"], "every set of register groups, regular or irregular, any order, single and array clusters",
  "One fixture with two perfectly regular groups.",
  [P], [("cluster collection", P)])

p("C13", "Expanding arrays and clusters keeps every register at its address",
  "`_expand_array` and `_expand_cluster` replace an array by its individual elements so that every register that existed before - counted with multiplicity - exists afterwards at the same absolute address with the same properties, under the documented names, with no placeholder left. Nothing outside the matched arrays is changed or lost, and nothing to expand is an error unless the rule is optional.",
  ["inputs", "programs"], "every array / cluster shape (bracketed and plain names, explicit indices, one element, nested clusters) and every naming option",
  "One fixture per rule with one shape.",
  [P], [("register array expansion", P), ("cluster expansion", P)])

p("C14", "Merging and splitting fields preserves the covered bits",
  "`_merge` replaces the matched adjacent fields by a single field spanning exactly the bits they covered, with the requested or common-prefix name, the description and position of the first field and the access they share. `_split` replaces one field by one-bit fields that cover exactly the same bits in order, named and described from the given pattern. No match is refused (for `_split` skipped if optional) and other fields stay untouched.",
  ["inputs", "programs"], "every register layout and every merge / split form",
  "One fixture each.",
  [R], [("field merge", R), ("field split", R)])

p("C15", "Prefix, suffix and strip rules rename exactly as specified",
  "`_strip` / `_strip_end` remove the matched prefix / suffix from the names (and display and alternate names) that carry it and touch no other name; `_prefix` / `_suffix` put the text on every register or field name of the block. No rule makes the tool crash, and nothing other than names changes.",
  ["inputs", "programs"], "every set of names, literal and wildcard affixes, in peripherals, clusters and registers",
  "Fixtures strip one literal prefix present on every register.",
  [P, R], [("register and cluster names", P), ("field names", R)])

p("C16", "Enumerated values end up as written, whatever the derive mode",
  "After an enumeration rule each selected field has exactly the given names, values and descriptions for the given usage (read, write or both, default entry included); with `--enum-derive` enum, field or none the result is the same once derivations are resolved, and every derivation points to an existing definition in the same register. Duplicate values, names starting with a digit, usage incompatible with the access, mismatched widths, and redefinition without replacement are refused.",
  ["inputs", "configurations", "programs"], "every set of fields, accesses, existing enumerations, usages and derive modes",
  "Fixtures cover one shape per mode and never compare the modes with each other.",
  [R, M], [("enumeration insertion", R), ("enumeration construction", M)])

p("C17", "Write constraints, read actions and modified-write values are exact",
  "A `[min, max]` rule, a write-constraint attribute (`none`, `enum` or range), a read-action and a modified-write-values rule give every matched field exactly the named constraint or behaviour, and no other field or property changes. Unmatched non-optional range rules and unknown constraint forms are refused.",
  ["inputs", "programs"], "every field set, all constraint forms, all action names, alone and combined with enumerations",
  "Fixtures set one constraint on one field; most action names are never used.",
  [R, M], [("range rules", R), ("action tables", R)])

p("C18", "Clearing removes enumerations and constraints only",
  "`_clear` and `_clear_fields` remove all enumerated values and write constraints from exactly the fields in scope that are not derived, at device, peripheral, cluster (nested clusters included) and register level. Everything else about these fields, and every other field, is unchanged.",
  ["inputs", "programs"], "every device and pattern, each level",
  "One fixture.",
  [D, P, R], [("clearing", D + "," + P + "," + R)])

p("C19", "Included patch files merge with the including file winning",
  "Includes, at file or peripheral level, nested and relative to the including file, merge recursively: mappings are united, values set in the including file win over included ones, lists are concatenated including-file first (a text that meets a list counts as one more entry unless already there). What `expand-patch` writes is one YAML document that equals that merge and contains no include directive at file or peripheral level, and `patch` applies exactly the merged rules. Missing files, include directives of another kind and files that include themselves are refused.",
  ["inputs", "configurations"], "every tree of include files and every mixture of rule shapes",
  "One fixture directory with a fixed include tree.",
  [M, C], [("include loading and merging", M), ("patch expansion", C)])

p("C20", "Dependency files name exactly the files a patch reads",
  "The dependency list written by `makedeps` (both implementations) names, after the requested target, exactly the files included directly or transitively, at file or peripheral level, that patching opens besides the patch and SVD themselves, each as an existing path. Without any one of the listed files the patch cannot be loaded, and no unlisted patch file has an influence.",
  ["inputs", "configurations"], "every include tree: nested, diamond, peripheral-level, across directories",
  "The example test only checks that a run succeeds.",
  ["src/makedeps/makedeps_cli.rs", M, "svdtools/makedeps.py"], [("dependency writer", "src/makedeps/makedeps_cli.rs"), ("include tracking", M)])

p("C21", "Rule sections apply in the documented order, not the written order",
  "The result of a patch does not depend on the textual order of the sections inside a device, peripheral, cluster or register block: deletions, copies, renamings, modifications, clearings, additions, derivations, then inner rules, then expansions and collections. The outcome equals applying those phases one after another as separate patches.",
  ["programs", "inputs"], "every permutation of the sections of every patch",
  "Fixtures contain one order only.",
  [D, P, R], [("phase sequencing", D + "," + P + "," + R)])

p("C22", "Failed runs say so and leave no damage; successful runs are complete",
  "A `patch`, `expand-patch`, `makedeps`, `convert`, `mmap`, `interrupts`, `html` or `htmlcompare` run that cannot do its work - bad rule, bad YAML or SVD, missing file, unwritable or full output - exits with a non-zero status, and a `patch` or `convert` run that was refused for its input leaves an existing output file as it was and creates none. Exit status zero means that the output was written completely, and a run without faults is complete whatever an earlier failed or interrupted run left behind. Input files are never modified.",
  ["inputs", "fault_sequences"], "every malformed or unsatisfiable input and every output-side fault at any write",
  "No test runs the tool with failing I/O or checks what a failed run leaves behind.",
  [M, C, "src/main.rs", "src/convert/convert_cli.rs"], [("process_file ordering of patching and output creation", M), ("exit status", "src/main.rs")])

p("C23", "Equal inputs give equal outputs for every thread schedule",
  "Running any command twice on the same inputs gives byte-identical outputs, in any working directory and environment, and for devices with different names in files of different names the HTML generator's set of files and their contents do not depend on the number of worker threads, on scheduling or on the order or number of other devices processed in the same run.",
  ["schedules", "configurations"], "every number of worker threads and interleaving, repeated runs",
  "Each test runs once on one schedule.",
  ["src/html/html_cli.rs", C, M], [("parallel page generation", "src/html/html_cli.rs")])

p("C24", "Converting between XML, JSON and YAML loses nothing",
  "`convert` between any two of XML, JSON and YAML keeps the whole device description (apart from the schema version and location in the XML header, white space around texts, and empty texts): any chain of conversions ending in XML equals direct XML re-encoding, and the content equals that of the source. The format is taken from the file name (`.svd`, `.xml`, `.json`, `.yaml`, `.yml`) unless given explicitly, and a name without such an extension, or content of another format, is refused.",
  ["inputs", "configurations"], "every well-formed device, every chain of formats",
  "No test converts anything.",
  ["src/convert/convert_cli.rs"], [("format selection and encoding", "src/convert/convert_cli.rs")])

p("C25", "Convert options expand, propagate and drop exactly what they say",
  "For devices whose sibling names stay unambiguous, `--expand` replaces every array, cluster and derivation by explicit elements so that every (peripheral, absolute address, register, field, enumeration) fact is kept; `--expand-properties` writes inherited size, access, protection and reset values into every register that lacks them and changes nothing else; `--ignore-enums` drops exactly the enumerations and write constraints of fields (XML input only). Options can be combined, and each then has the effect it has alone.",
  ["inputs", "configurations"], "every device with arrays, clusters, derivations at every level; every option combination",
  "No test uses these options.",
  ["src/convert/convert_cli.rs"], [("option handling", "src/convert/convert_cli.rs")])

p("C26", "The memory map lists every register and field exactly once",
  "`mmap` lists every peripheral at its base address, every interrupt, every cluster and register - those inherited by derived peripherals, array elements and contents of (nested) clusters included - at its absolute address, and every field with its bit position, width, access and description, exactly once and sorted; registers, clusters and fields that are derived are marked with their source. Nothing is listed that the device does not have. The Python implementation lists the same for devices without peripheral arrays, nested clusters and arrays in clusters that have unique names and interrupt numbers and describe every element.",
  ["inputs"], "every device: derived peripherals, nested clusters, arrays, holes",
  "One small expected file.",
  ["src/mmap/mmap_cli.rs", "svdtools/mmap.py"], [("map construction", "src/mmap/mmap_cli.rs")])

p("C27", "The interrupt list is complete, sorted, with exact gaps",
  "`interrupts` lists every interrupt declared in a peripheral once, with its number (decimal, hexadecimal or binary in the file), name, description (line ends as spaces) and peripheral, in ascending numeric order (those of the same number in the order of the file), and then, unless told not to, exactly the unused numbers below the highest one. The Python implementation does the same for devices whose interrupt numbers are unique.",
  ["inputs"], "every device and every set of interrupt numbers",
  "One fixture with a handful of interrupts.",
  ["src/interrupts/interrupts_cli.rs", "src/interrupts/interrupt_list.rs", "svdtools/interrupts.py"], [("list building and gaps", "src/interrupts")])

p("C28", "Generated HTML pages account for every register, field and percentage",
  "The HTML page of a device shows every peripheral, register (cluster and array elements and derived contents included) and field with its offset, size, access, reset value, bit range, description and allowed values, in the register map, bit tables and lists alike, and its coverage figures are the fields that are read-only or have enumerated values or a write constraint over all fields. The index lists each device once with the same figures and links to its page; texts are escaped. A page is rewritten, with a copy of the SVD file, exactly if it is missing or older than the SVD file.",
  ["inputs"], "every device",
  "No test generates HTML.",
  ["src/html/html_cli.rs", "src/html/template.html"], [("page model construction", "src/html/html_cli.rs")])

p("C29", "The HTML comparison covers every cell of the matrix",
  "`htmlcompare` writes an index with one row per (peripheral, base address) of any part, a page per such peripheral with one row per (offset, register), and a page per such register with one row per (bit offset, width, field), each sorted and linked. A row's mark for a part is positive exactly if that part's fully expanded device has the element; no part's marks depend on the other parts or on file names.",
  ["inputs", "configurations"], "every set of parts",
  "No test runs it.",
  ["src/html/htmlcompare_cli.rs"], [("who-has-what tables", "src/html/htmlcompare_cli.rs")])

p("C30", "All number notations denote the same value",
  "In patches, every numeric attribute accepts decimal, `0x`/`0X` hexadecimal, `0b` and `#` binary with `x` as zero, with optional `_` separators, quoted or not, and all notations of one number (up to 2^63-1) have the same effect; anything else, and numbers that do not fit the attribute, is refused instead of being read as another number. The same holds for numbers in SVD files.",
  ["inputs"], "every numeric position, every value, every notation",
  "No test varies the notation.",
  [Y, M], [("number parsing", Y)])

p("C31", "Formatting configuration changes only the format",
  "A format configuration changes number notation, letter case of names and sibling order in XML output exactly as it says and nothing else: normalising those away, the output is the same as without the configuration, for `patch` and `convert` alike, and without a configuration the default format applies. Unknown settings are ignored, bad values and unreadable configurations refused.",
  ["inputs", "configurations"], "every configuration over every device",
  "No test uses a format configuration.",
  ["src/lib.rs", M, "src/convert/convert_cli.rs"], [("configuration loading", "src/lib.rs")])

p("C32", "Post-validation rejects exactly the invalid results",
  "With `--post-validate` a patch whose result violates the SVD rules of the strict level (illegal names, empty containers, zero-width fields, enumerated values or ranges that do not fit their field, reset values that do not fit) is refused without writing output, and a valid result is written unchanged. Without it the same patch is written.",
  ["inputs", "configurations"], "every device and patch, every validation level",
  "No test enables post-validation.",
  [M, C], [("post validation", M)])

p("C33", "Description placeholders expand to the element's own path",
  "In added, modified, copied and derived descriptions, each placeholder for peripheral, block path, register, register path (and their use inside clusters) is replaced by the name or path of the element the rule is applied to, every occurrence, and all other text is left alone.",
  ["inputs", "programs"], "every nesting of peripheral and cluster, every combination and repetition of placeholders",
  "One fixture with one placeholder.",
  [M], [("interpolation", M)])

p("C34", "The legacy Python patcher and the Rust patcher agree",
  "For patches in the language that both implementations support, the Python `svd patch` command and the Rust `svdtools patch` command produce devices of equal content (usage and order of siblings and ways of writing numbers and texts aside), or both refuse the patch. Outside this language, and of this property, are: `_add` of clusters, `_modify` of clusters and cluster arrays by `_cluster`, expansions, attributes of derived peripherals, clearing of fields inside clusters, enumerations by `_derivedFrom`, arrays of a single element, lists given as a single text, texts of arrays for which no description is given, and the additional checks of the Rust tool (patterns in `_modify` and `_delete` that match nothing, values out of range).",
  ["inputs", "programs"], "every device and patch in the common language",
  "The two test suites use separate fixtures and never compare the tools.",
  ["svdtools/patch.py", D, P, R], [("Python patch interpreter", "svdtools/patch.py"), ("Rust patch interpreter", D + "," + P + "," + R)])

p("C35", "Malformed patches are refused, never applied in part",
  "A patch with a malformed part is refused as a whole, wherever the part is: a value of the wrong kind, an unknown word or a number out of range for a documented attribute (`access`, `size`, `bitRange`, `writeConstraint`, enumerated values, `dim...` and the others), a section or rule body of the wrong kind, pattern lists with other things than names, sources and files that do not exist, YAML that cannot be read, is not a mapping, repeats a key or has several documents, files that include themselves, a missing or unusable `_svd`. The run ends by itself with a non-zero status and a message (a panic with its message and status 101 counts as a refusal, death by a signal does not), and leaves outputs as they were. The same holds for `expand-patch` and `makedeps` as far as they read the patch.",
  ["inputs"], "every documented attribute and section, every kind of wrong value, every kind of damage to the files of a patch",
  "No test feeds a malformed patch; a value that is silently dropped leaves a patch that looks applied.",
  [M, Y, D, P, R, "src/makedeps/makedeps_cli.rs"], [("typed access to rule values", Y), ("rule parsing", M), ("include resolution", M)])

p("C36", "A patched file can be read back by svdtools",
  "Whatever `svdtools patch` writes is a description that svdtools reads again: an empty patch applied to it is accepted and reproduces it byte for byte (but for carriage returns and white space around texts, which reading XML normalises), with the same `--format-config` and `--enum-derive` options, and its content is that of the first result. A patch whose result could not be read again (an element without a name, an array whose name has no `%s` or whose indices are fewer than its `dim` or other than a series of numbers more, a text with characters XML cannot hold) is refused, and nothing is written.",
  ["inputs", "programs", "configurations"], "every device, every accepted patch, every format configuration",
  "The tests compare results with stored files but never feed them back, and no fixture makes a result that is unreadable.",
  [M, D, P, R, C], [("encoding and reading back of the result", M), ("construction of arrays and names from rules", D + "," + P + "," + R)])

p("C37", "Malformed device descriptions are refused by every command",
  "A device description in which a required element is missing, a number is not a number or does not fit, a word is none of the defined ones, an array has no `%s` in its name or impossible indices, is refused by every command of the Rust tool that reads that part (`patch`, `convert` with every option, `mmap`, `interrupts`, `html`, `htmlcompare`, `info`), in whichever of several given files it is. References (`derivedFrom`) to elements that do not exist, or in a circle, are refused by the commands that follow them (`convert --expand`, `html`, `htmlcompare` except for enumerations), and values that do not fit their field or register by `convert`, `mmap` and `html`; `patch` reads those, so that it can repair them. Refused means: non-zero status, a message, no listing printed and no output file written or changed. The same goes for JSON and YAML descriptions given to `convert`, apart from `dim...`.",
  ["inputs"], "every device, every kind of damage at every place, every command, every position among several files",
  "The tests read well-formed descriptions only; a damaged part read as absent or zero yields a plausible wrong result.",
  [C, "src/convert/convert_cli.rs", "src/mmap/mmap_cli.rs", "src/interrupts/interrupts_cli.rs", "src/html/html_cli.rs", "src/html/htmlcompare_cli.rs", M],
  [("reading of descriptions", "src/convert/convert_cli.rs"), ("validation levels", M + ",src/mmap/mmap_cli.rs"), ("interrupt reading", "src/interrupts/interrupts_cli.rs")])

p("C38", "Large devices, patches and file trees are handled as completely as small ones",
  "What the other properties say holds whatever the size of the work: thousands of registers, fields, peripherals, interrupts, enumerated values or array elements, texts of hundreds of kilobytes, hundreds of rules of a kind, names or patterns in one rule, hundreds of included files side by side or in each other, long chains of `derivedFrom`, `_copy` or `_derive`, clusters in clusters in clusters. A rule for many elements gives each of them what it gives a single one; many copies of a rule give what each gives alone; `mmap` and `interrupts` list every element, `html` shows every one, `convert` (with and without `--expand`) loses none. Nothing is cut off, skipped or merged, and the result is written whole.",
  ["inputs", "programs"], "every number of elements, rules, files and levels (run time and memory aside)",
  "Fixtures hold a handful of elements; buffers, limits, index ranges and recursion show only at size.",
  [M, D, P, R, C, "src/convert/convert_cli.rs", "src/mmap/mmap_cli.rs", "src/interrupts/interrupts_cli.rs", "src/html/html_cli.rs"],
  [("rule application over many elements", M + "," + P + "," + R), ("listings", "src/mmap/mmap_cli.rs,src/interrupts/interrupts_cli.rs"), ("writing of results", M)])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(props))
