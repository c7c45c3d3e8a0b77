"""Per property: what is not claimed, or is excluded from generation, and why."""
N = {
"C06": "Positions past the end are a documented precondition (assertions).",
"C07": "Objects shared between threads by Reference are part of C19 (TSan). DualRefCounted (WeakRef) is claimed on one thread only.",
"C09": "Autodetection is judged only where the bytes identify the format (BOM, or statistics far from a tie).",
"C11": "Printing of doubles keeps a few digits by design; only that precision is required of the round trip.",
"C20": "CRT realloc(p, 0) frees the block and is not generated for that heap.",
"C21": "The time zone fields are not used by the conversions. The last, partial day of the 64-bit range is excluded: "
       "its day number overflows before the subtraction.",
"C23": "Columns count tabs the way the code documents it (next multiple of four, first column 1).",
"C25": "derivativeCubic's factor, negate(Axis2), Box::clamp and clampLength(Float3) are not claimed (undocumented or "
       "not instantiable).",
"C26": "Zero-width images assert. Half conversion truncates and flushes below 2^-14 to 0; exponents of 16 and more "
       "are not claimed.",
"C27": "Levels and volumes beyond unity, buffers over 4 GB and Format compare through misaligned pointers are not claimed.",
"C28": "Malformed persisted data asserts by design. Synthesised types of AnySavedObject, RawPtr in skip() and "
       "TypeConverter (unused) are not covered. An enum's format key is not checked by the reader.",
"C29": "Parsed nodes view the source text, which must outlive them. Nesting is limited to 400 levels, because the "
       "recursive parser has no limit of its own.",
"C30": "Members of another type than the data assert by design. Strings, structs, arrays, switches, bools, enums and "
       "owned objects can be exported; others can't.",
"C31": "Arbitrary damaged token sequences still reach parser assertions (documented FIXMEs), so the statement is "
       "narrowed to supported declarations and to stray tokens between declarations. The expression grammar is the "
       "one the parser supports; the order of parenthesised declarators is not claimed.",
"C32": "Line comments continued by a backslash, LR and u8R prefixes, #if branches, substitution of macro arguments, "
       "and strings inside macro arguments (FIXMEs) are not claimed.",
"C33": "Unbounded recursion, loops and nesting can't be guarded against. String multiplication that runs out of "
       "memory is not generated. && and || evaluate both sides, `\\n` in a literal is the letter n, an unclosed "
       "C-style comment ends silently, assigning another type is an error: all modelled as they are.",
"C34": "No lazy continuation, no backslash escapes in text, no thematic breaks or closing #s: modelled as they are.",
"C35": "splitByte skips empty tokens. Header size is unlimited (documented FIXME). A white unterminated last line is "
       "not specified. A reset that the client's own send reports is a reset (an early false alarm of this check).",
"C36": "Symbolic links are followed by design; titles and page contents are trusted HTML; empty pages are 404; "
       "changes are seen at the granularity of modification times.",
"C37": "Static and typedef members of a reflected section are emitted (the compiler then refuses them, loudly) and not "
       "generated. Function pointers, bit fields, members of anonymous unions, `namespace a::b`, anonymous "
       "namespaces and 'private virtual' bases are not claimed. Sources are rewritten in the workspace's newline format "
       "and UTF-8 by design. Outputs of sources with errors are not settled, and the exit code stays 0. Clean-up "
       "replaces the whole leading comment block up to the first blank line by design.",
"C38": "Dependency loops crash by design (FIXME instantiatorError). File names with quotes, semicolons and dollars "
       "are not generated.",
"C39": "A shared root that depends on targets outside its container asserts (documented FIXME), so only the first root "
       "is shared. Two targets of the same name in one folder are not settled (FIXME). --add and --auto stay in effect if the "
       "build is then refused. Folder names that are special to make are not generated with cmake.",
}
