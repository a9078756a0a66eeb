#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = [
 ("C12", "fc09b33", "_cluster checked the address offsets of the first register group only: irregular further groups were collected and moved"),
 ("C03", "e63e484", "`?~` rules on registers/clusters: only registers were considered, an existing cluster was skipped"),
 ("C16", "3739594", "_derived enumeration rules on optional or unmatched fields: failed or were silently dropped"),
 ("C16", "c455bef", "a field of read-only or write-only access could not derive enumerations that have no explicit usage"),
 ("C13", "dad1a1c", "_expand_cluster deleted single (non-array) clusters that matched"),
 ("C13", "f564682", "_expand_cluster left %s in the names of registers"),
 ("C13", "9aef55a", "_expand_cluster lost size/access/reset properties inherited from the cluster and left dangling derivedFrom paths"),
 ("C10", "3ec0536", "register _array compared bit usage without the further elements of field arrays"),
 ("C11", "2e6fbc8", "field _array collected fields with different widths"),
 ("C14", "638d396", "_merge dropped the access that all merged fields share"),
 ("C15", "a3af7af", "_strip/_strip_end with wildcards removed as many characters as the pattern is long (and could panic)"),
 ("C08", "8cf70e2", "_derive of a register redirected its dependents to a path that does not exist"),
 ("C11", "2ec6b72", "field _array rules in registers without fields were silently skipped although mandatory"),
 ("C13", "348131f", "optional expansion rules were never applied; optional rules failed in peripherals without registers"),
 ("C30", "3f78628", "numbers that do not fit the attribute were silently truncated"),
 ("C24", "614ebc3", "arrays without dimIndex were read from JSON and YAML as single elements"),
 ("C26", "1239c37", "addresses were not padded, so that low addresses were listed out of order"),
 ("C26", "049b0ff", "chains of derived peripherals were not followed, own registers of derived peripherals were not listed"),
 ("C26", "c6ea44f", "register arrays inside cluster arrays were listed without the cluster index"),
 ("C27", "d0cefd8", "hexadecimal and binary interrupt numbers made the listing fail"),
 ("C26", "9b8af53", "Python: registers with equal names from different clusters were dropped"),
 ("C26", "c994dc4", "Python: chains of derived peripherals were not followed, clusters of derived peripherals not listed"),
 ("C26", "50f364d", "Python: fields with lsb/msb ranges made the memory map fail"),
 ("C27", "70baace", "Python: empty descriptions made the interrupts listing fail"),
 ("C28", "fc77510", "default enumerated values of 64-bit fields made html fail"),
 ("C28", "1f473a6", "html with an SVD file located in the html directory emptied that file"),
 ("C28", "5050e10", "registers of nested clusters were missing from the html pages"),
 ("C29", "f177722", "parts whose file names have the same stem were given each other's marks"),
 ("C19", "29d1bc4", "messages about ignored rules were printed into the YAML of expand-patch"),
 ("C20", "afccdf3", "included files without rules were not listed as dependencies"),
 ("C22", "919f741", "info ended with status 0 although its output could not be written"),
 ("C22", "3ca18ee", "a page or SVD copy that an interrupted html run left incomplete was taken as up to date by the next run"),
 ("C34", "962b034", "Python: merging, splitting and modifying fields given by lsb and msb failed"),
 ("C05", "4570b0d", "protection, dataType, modifiedWriteValues and readAction of registers, alternateCluster, headerStructName, alternatePeripheral, prependToName, appendToName in _modify/_add rules were accepted and had no effect"),
 ("C34", "6e96d48", "Python: a new peripheral got no address blocks from addressBlocks"),
 ("C34", "2adc1de", "Python: device attributes that the file lacks could not be set"),
 ("C34", "43dd84f", "Python: a peripheral copied over another one had two base addresses"),
 ("C34", "8a14886", "Python: a rebased peripheral had two descriptions"),
 ("C34", "15094d4", "Python: the description of a newly derived register was dropped"),
 ("C34", "e502018", "Python: descriptions of registers collected in a cluster were not set"),
 ("C34", "9d1acda", "Python: optional field rules with read or write actions failed"),
 ("C34", "9de4fbf", "Python: _add of a register to a peripheral without registers failed"),
 ("C34", "19deab9", "Python: _derive of a new peripheral failed"),
 ("C16", "eb387a8", "_read/_write enumerations shared by fields of different access: the deriving field lost the usage, so that write-only values became valid for reading"),
 ("C23", "d89f3cc", "the order of devices in the html index whose names differ only in case depended on the arguments"),
 ("C35", "128f5e1", "rules with unknown words (access, protection, modifiedWriteValues, readAction, dataType, usage, endian), impossible bit ranges or writeConstraint lists of other lengths were applied without them"),
 ("C35", "46193d7", "only the first document of a YAML file with several was applied"),
 ("C35", "d637602", "files that include themselves: the stack overflowed"),
 ("C35", "78c1398", "elements of an enumerated value's list after value and description were dropped (e.g. a description with an unquoted comma)"),
 ("C06", "3c5f6f6", "dimArrayIndex in rules was always refused because its values got no name; values that are not lists were dropped"),
 ("C08", "0720a87", "dimensions, interrupts and address blocks of peripheral _derive rules and dimensions of register _copy rules were accepted and had no effect"),
 ("C35", "72be28c", "field rules that are plain texts or numbers, and sections of derived peripherals of the wrong kind, were skipped without a word"),
 ("C08", "4cdee57", "_derive and _rebase rules made elements their own source (directly or over several steps), which lost their contents"),
 ("C35", "54cdc7e", "sections of rules that are not mappings were skipped without a word"),
 ("C36", "26274cc", "arrays without %s, elements with an empty name and dimIndex lists of another length than dim were written to files that svdtools refuses to read; an empty enumerated value name panicked"),
 ("C07", "e44c79c", "a copy of a derived peripheral lost derivedFrom and had no registers at all"),
 ("C07", "a84f012", "a register copied over the one it is derived from became its own source and lost its fields"),
]
FINDINGS = [
 ("C24", "C24-octal-text", "a text of the form 0o17 or 0b11 is written to YAML without quotes (serde_yaml 0.8) and cannot be read back: convert a.svd (peripheral description 0o17) to a.yaml, then a.yaml to b.svd, is refused"),
]
json.dump({"findings": [dict(property=p, id=i, what=w) for p, i, w in FINDINGS],
           "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
