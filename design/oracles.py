O={
'C01':'`==`, `Hash`, `Ord` and set membership of `Identifier`, `NamespaceID`, `ShapeID` against case-insensitive comparison of the bytes; reflexive, symmetric, transitive, and equal implies equal hash (hashed with the default hasher).',
'C02':'A hand-written recogniser of the Smithy ABNF over bytes, against `from_str`, `is_valid` and the constructors; accepted text prints back as it was; `new_unchecked`/panicking constructors agree with it.',
'C03':'Parts are generated first; each derivation (`make_member`, `make_shape`, `to_shape`, `split`, ...) must give the parts with exactly one changed.',
'C04':'A model of the merge rules of the Smithy specification on descriptions (equal values merge, arrays concatenate, all else is a conflict that leaves the metadata unchanged).',
'C05':'The trait conflict rules of Smithy on descriptions: annotation and equal values are idempotent, arrays concatenate, other values are an error and change nothing.',
'C06':'Equal definitions and unresolved shapes reconcile, traits merge by C05, everything else is an error that leaves the model unchanged; both directions of a merge.',
'C07':'A history of additions and removals on a description; every `has_*`, getter, iterator, setter and count after it.',
'C08':'Sets of IDs by kind from the description, against `is_complete`, `shape_names`, `unresolved`, `namespaces`, `resolved` and so on.',
'C09':'Smithy precedence (absolute, defined in the namespace, imported, prelude, else the namespace) computed on names, against the target in the built model.',
'C10':'The description from which the builder was driven, against every field of the built model.',
'C11':'ID, value form, keys and numbers written out per constructor from the prelude of the specification.',
'C12':'A table of the kinds that each of the 21 roles accepts; the multiset of (shape, role, target) of the issues reported.',
'C13':'Scripted actions that record their calls; issues in order, stops after the first error issue only in fail-fast mode, failures abort.',
'C14':'The set of unresolved IDs from the description, against the issues.',
'C15':'Camel case as defined by heck (documented by the lint), applied to each name in the role it has; the multiset of issues.',
'C16':'Splitting each name in words and searching each term, on bytes; the multiset of issues.',
'C17':'The list of calls that a walk must make, from the description; an error injected at the n-th call ends the walk there.',
'C18':'Tables of the keywords; for other text, absence from the table.',
'C19':'`From`, `as_*`, `is_*`, `to_string`, `==` of values against the value given.',
'C20':'The lines written out from the description according to the documented format; multiset, sorted order, and independence of insertion and hash order.',
'C21':'The bytes given, the file system before and after; faults injected in the virtual file system.',
'J01':'No panic: any outcome of `read` is accepted.',
'J02':'The description, through writer and reader.',
'J03':'Value written down as JSON text by the harness, against the value read; and back.',
'J04':'The text of two runs with different insertion and hash orders.',
'S01':'No panic: any outcome of `read` is accepted.',
'S02':'IDL text is spelt by the harness from a description; the description, against the model read.',
'S03':'The description, through writer and reader; what the reader is known to lose is looked for in the text.',
'S04':'Selector text is spelt from an abstract expression; the expression, against the one parsed, and again after `Display`.',
'S05':'No panic: any outcome is accepted.',
'S06':'Abstract expressions as in S04, against what each builder call adds.',
'R01':'URN spelt from the parts; the recogniser of C02 for other text.',
'R02':'The statements that the book (`book/src/reference/rdf-*.md`) prescribes, consumed one by one from the graph returned; none may be left.',
'D01':'The lines of each class, package, note and aggregation from the description; the diagram is split in packages and classes first.',
'D02':'A small XML parser in the harness (tags, attributes, entities, nesting, declared keys); nodes and edges as multisets against the description.',
'D03':'The lines of the Markdown rendering from the description.',
'A01':'A list of (extension, type) pairs maintained by the harness, lower-cased by bytes.',
'A02':'The files of a virtual directory tree, each read once and merged; faults injected.',
'Q01':'The table of types and kinds of the selector specification.',
'X01':'The text of the writers for the model assembled from the same files, against the output file; the issues of the four actions run separately.',
'X03':'The blocks of the report in the documented format, one per issue in order, with the level, the shape id and the message of each; colours are stripped by a small parser; the issues themselves are read back from what the program printed.',
'C22':'The text that the same writer gives a plain buffer; descriptions for what is read. The streams are implemented by the harness: they fail at a symbolic position, take or give few bytes at a time, and interrupt.',
}
