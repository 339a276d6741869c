#!/usr/bin/env python3
"""Writes spec/checks.json: the entries and bounds of every property."""
import json, os
C = {}
def prop(pid, outside='', assumptions=(), **kw):
    C[pid] = dict(entries=[], outside=outside, assumptions=list(assumptions), **kw)
    def e(entry, bounds, **k):
        C[pid]['entries'].append(dict(entry=entry, bounds=bounds, **k))
    return e
def T(**k):
    return dict(tier='thorough', **k)

e = prop('C01', 'identifiers longer than the bound, non-ASCII text (not accepted by the grammar)')
e('h_c01_ident', 'two identifiers of 1..3 bytes')
e('h_c01_ident_t', 'two identifiers of 1..5 bytes', tier='thorough', replaces='h_c01_ident')
e('h_c01_trans', 'three identifiers of 1..2 bytes')
e('h_c01_long', 'two identifiers, namespaces or shape IDs of 70 characters or more that differ in any of three places', sample_every=40)
e('h_c01_sets', 'two identifiers of 1..2 bytes as keys of HashSet and BTreeSet')
e('h_c01_ns', 'two namespaces of 1..2 segments of 1 byte')
e('h_c01_ns_t', 'two namespaces of 1..2 segments of 1..2 bytes', tier='thorough', replaces='h_c01_ns')
e('h_c01_ns_trans', 'three namespaces of 1..2 bytes')
e('h_c01_shape', 'two shape IDs, parts of 1 byte, with and without member')
e('h_c01_shape_t', 'two shape IDs, parts of 1..2 bytes', tier='thorough', replaces='h_c01_shape')
e('h_c01_shape_sets', 'two shape IDs as keys')
e('h_c01_shape_trans', 'three shape IDs, parts of 1 byte')

e = prop('C02', 'texts longer than the bound other than one- or two-byte edits of a 19-byte ID')
e('h_c02_ident', 'every UTF-8 text of 0..4 bytes')
e('h_c02_ident_t', 'every UTF-8 text of 0..6 bytes', tier='thorough', replaces='h_c02_ident')
e('h_c02_ns', 'every UTF-8 text of 0..4 bytes')
e('h_c02_ns_t', 'every UTF-8 text of 0..6 bytes', tier='thorough', replaces='h_c02_ns')
e('h_c02_shape', 'every UTF-8 text of 0..5 bytes')
e('h_c02_shape_t', 'every UTF-8 text of 0..6 bytes', tier='thorough', replaces='h_c02_shape')
e('h_c02_window', 'any byte inserted or replaced at any position of a 19-byte ID')
e('h_c02_long', 'texts of 64, 129 and 256 characters, and 11 segments, with any ASCII character at one of four places', sample_every=40)
e('h_c02_window_t', 'any two bytes inserted or replaced at any position of a 19-byte ID', tier='thorough', replaces='h_c02_window')
e('h_c02_panicking', 'parts of 1..2 bytes')

e = prop('C03', 'parts longer than the bound')
e('h_c03_derive', 'parts of 1..2 bytes')
e('h_c03_long', 'shape IDs of eight segments and names of 40 characters, three of them any', sample_every=20)
e('h_c03_derive_t', 'parts of 1..3 bytes', tier='thorough', replaces='h_c03_derive')
e('h_c03_related', 'two shape IDs, parts of 1 byte')
e('h_c03_related_t', 'two shape IDs, parts of 1..2 bytes', tier='thorough', replaces='h_c03_related')
e('h_c03_split', '1..3 segments of 1..2 bytes')
e('h_c03_identity', 'parts of 1 byte')

e = prop('C04', 'more than three successive additions, keys and texts longer than one byte, arrays longer than two elements')
e('h_c04_add', 'two additions; key any ASCII byte; value any string of 1 byte, integer, boolean, array of 0..1, object of 1')
e('h_c04_add_t', 'three additions, as h_c04_add', tier='thorough', replaces='h_c04_add')
e('h_c04_merge', 'two models of one entry each')
e('h_c04_merge2', 'two models of two entries each, strings and arrays, three iteration-order modes')
e('h_c04_many', 'seven keys on either side, arrays of six, one conflict at any place or none, six iteration-order modes', sample_every=20)
e('h_c04_remove', 'two entries, one removal')

e = prop('C05', 'more than three successive applications, trait names longer than one byte')
e('h_c05_shape', 'two applications after a first, by apply, apply_with_value or append_traits, any value', sample_every=40)
e('h_c05_member', 'as h_c05_shape on a member', sample_every=40)
e('h_c05_shape_t', 'three applications', tier='thorough', replaces='h_c05_shape', sample_every=400)
e('h_c05_append', 'two traits appended to two, three iteration-order modes')
e('h_c05_many', 'seven traits on either side, arrays of six, one conflict at any place or none, six iteration-order modes', sample_every=20)
e('h_c05_named', '23 prelude trait queries against names differing in any one byte and one namespace byte')

e = prop('C06', 'more than two members, more than two shapes per model, names longer than one byte')
e('h_c06_kinds', 'two definitions of any kind with symbolic names, targets and properties', sample_every=80)
e('h_c06_merge', 'two one-shape models, any kinds, any traits', sample_every=80)
e('h_c06_one', 'two definitions of any kinds of one ID, whose targets and traits may be the shape itself', sample_every=80)
e('h_c06_member_traits', 'equal definitions with one trait on a member of each')
e('h_c06_member_id', 'a member ID with a body of any kind')
e('h_c06_union', 'two models of two shapes, three iteration-order modes', sample_every=40)
e('h_c06_many', 'two models of nine shapes, six in both, one conflict at any place or none, three iteration-order modes', sample_every=20)

e = prop('C07', 'longer histories, more than two elements per collection')
for n, b in [('model', 'two shapes, one removal'), ('structure', 'two members, one removal'), ('toplevel', 'every kind, member name differing in one byte from a role name'),
             ('service', 'two elements, one removal; shape setters with every kind'), ('operation', 'each slot; shape setters with every kind'),
             ('resource', 'each slot; one identifier, one removal'), ('resource_shapes', 'shape setters with every kind'), ('traits', 'two traits, one removal')]:
    e('h_c07_' + n, b, sample_every=20)

e = prop('C08', 'more than three shapes')
e('h_c08_two', 'two shapes, any IDs of two 1-byte parts')
e('h_c08_three', 'three shapes, any IDs of two 1-byte parts', sample_every=40)
e('h_c08_many', 'eight shapes of which any seven may be unresolved', sample_every=40)
e('h_c08_empty', 'no shape; one shape resolved and unresolved again')

e = prop('C19', 'texts longer than three bytes, values nested deeper than two; f32 widening is checked on eight values only (the executor does not convert symbolic floats)')
e('h_c19_ints', 'every i8, i16, i32, i64')
e('h_c19_floats', 'every f64 bit pattern; eight f32 values')
e('h_c19_text', 'every UTF-8 text of 0..3 bytes; shape IDs of 1-byte parts; booleans')
e('h_c19_composite', 'arrays of two and objects of one value')
e('h_c19_many', 'arrays of nine and objects of five values that may differ in one place', sample_every=20)
e('h_c19_eq', 'two values of depth 1', sample_every=20)

e = prop('C12', 'more than three references in one shape, names longer than two bytes')
e('h_c12_slots', 'one reference in each of 21 roles, target of each of 10 kinds, absent or in a namespace one byte away from the prelude', sample_every=60)
e('h_c12_two', 'two references (symbolic names) in one shape: each list of operations, services and resources, members, identifiers', sample_every=40)
e('h_c12_wide', 'shapes with six of everything in which any one reference may be wrong or absent', sample_every=40)
e('h_c12_across', 'two shapes of 3 kinds, a symbolic reference in each', sample_every=40)

e = prop('C13', 'more than three actions, more than two issues per action')
e('h_c13_validators', 'two validators, 0..2 issues of any level or a failure, either mode', sample_every=40)
e('h_c13_linters', 'two linters, as h_c13_validators', sample_every=40)
e('h_c13_validators_3', 'three validators, 0..1 issues each, run twice', sample_every=40)
e('h_c13_linters_3', 'three linters, 0..1 issues each, run twice', sample_every=40)
e('h_c13_many', 'six actions of five issues, errors in any two of them, any one failing', sample_every=40)
e('h_c13_t', 'three actions, 0..2 issues each', tier='thorough', sample_every=400)

e = prop('C14', 'more than three shapes')
e('h_c14_two', 'two shapes, any IDs of two 1-byte parts')
e('h_c14_three', 'three shapes, any IDs of two 1-byte parts')
e('h_c14_many', 'nine shapes of which any seven may be unresolved', sample_every=40)
e('h_c14_member', 'one unresolved member ID')

e = prop('C15', 'names longer than three bytes; the conventions are those of the heck crate, which the code under test documents')
e('h_c15_shape', 'one shape of each kind, name of 2 bytes, defining a trait or not', sample_every=20)
e('h_c15_name3', 'one shape, name of 3 bytes', sample_every=40)
e('h_c15_members', 'a structure or union of two members: one name, target or trait of 1..2 symbolic bytes, others fixed', sample_every=40)
e('h_c15_several', 'any of the names of a shape of six kinds misnamed at once', sample_every=40)
e('h_c15_wide', 'a structure or union of six members, any one of its 34 names misnamed', sample_every=20)

e = prop('C16', 'names longer than a term with two more letters')
e('h_c16_found', 'each term as a word in eight styles with two symbolic letters, in nine roles', sample_every=40)
e('h_c16_absent', 'each term extended by a letter or misspelt at one place, in nine roles', sample_every=40)
e('h_c16_two', 'two members with terms, two iteration-order modes', sample_every=20)
e('h_c16_wide', 'a structure or union of six members, a term in any one of its 34 names', sample_every=40)
e('h_c16_case', 'two names that differ only in case, two iteration-order modes')

e = prop('C17', 'more than two shapes, more than two elements per collection')
e('h_c17_one', 'one shape of each kind with every slot filled', sample_every=10)
e('h_c17_one_target', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_c17_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_c17_two', 'two shapes of any kinds and one metadata entry', sample_every=80)
e('h_c17_stop', 'an error injected at every callback of a walk over two shapes', sample_every=80)

e = prop('C09', 'relative names longer than 4 characters other than those of the prelude; a definition that has the name of an import (invalid Smithy); names equal to a prelude name only when case is ignored')
e('h_c09_target', 'a member target of 4 characters, the outer two symbolic, 0..1 imports and 0..1 definitions likewise', sample_every=20)
e('h_c09_imports', 'a list target of 4 characters, the outer two symbolic, 0..2 imports likewise from two namespaces', sample_every=20)
e('h_c09_trait', 'a trait of 4 characters, the outer two symbolic, on a shape or member, 0..1 imports, 0..1 definitions', sample_every=20)
e('h_c09_slots', 'each of 22 reference slots, 4 characters, the outer two symbolic: defined, imported, of the prelude or unknown', sample_every=20)
e('h_c09_prelude', 'each of 20 shapes and 57 traits of the prelude, with any last character', sample_every=40)
e('h_c09_absolute', 'an absolute ID (1+2 characters) in each slot, with an import or definition of the same name', sample_every=40)
e('h_c09_qualified_def', 'a shape defined under its absolute ID, in each slot')
e('h_c09_apply_scope', 'a trait applied to a shape of another namespace before or after an import, in each slot', sample_every=20)

e = prop('C10', 'more than two shapes, names longer than 2 characters; an empty service version, which the builder documents as a panic')
e('h_c10_kinds', 'one shape of each kind with every slot filled, symbolic names, targets and trait values', sample_every=80)
e('h_c10_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_c10_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_c10_two', 'two shapes of any kinds in either order', sample_every=160)
e('h_c10_simple', 'the constructor of each simple shape and of each simple member')
e('h_c10_meta', 'two metadata entries of any values')
e('h_c10_apply', 'a trait applied to a shape, a member or an absent shape, for a shape of each kind', sample_every=40)
e('h_c10_traits', 'two values of one trait on one element, by builder or apply', sample_every=40)
e('h_c10_same_id', 'a relative and an absolute definition of one ID')

e = prop('C11', 'texts longer than 2 characters')
e('h_c11_annotations', 'every constructor without a value, and error')
e('h_c11_strings', 'constructors from text, all texts of 1..2 bytes')
e('h_c11_options', 'deprecated and paginated, each argument absent or any text of 1 byte')
e('h_c11_numbers', 'length and range, every pair of sizes below 2^63')
e('h_c11_wide', 'length and range, every size from 2^63', panic_only=True)
e('h_c11_values', 'array, object and scalar value builders, all 64-bit numbers and floats')

e = prop('C18', 'texts longer than 12 bytes; non-ASCII text longer than 3 bytes')
e('h_c18_inverse', 'every variant of Simple, ShapeType, Comparator, ErrorSource, Version')
e('h_c18_near', 'every text one byte replaced, inserted or removed from a keyword of each enumeration', sample_every=40)
e('h_c18_short', 'every UTF-8 text of up to 3 bytes (4 for Version)', sample_every=20)
e('h_c18_long', 'every ASCII text of up to 12 bytes (6 for Comparator and Version, 8 for ErrorSource)', sample_every=20)
e('h_c18_name', 'every ASCII text of up to 3 bytes as a ShapeName', sample_every=40)
e('h_c18_name_t', 'a shape ID of 8 bytes with any two of its bytes replaced', sample_every=100, tier='thorough')
e('h_c18_distinct', 'issue levels and neighbor selectors of one identifier')

e = prop('C20', 'metadata and object keys that are not identifiers; numbers other than -42, 0, 1, 7 and 1.5; more than two shapes')
e('h_c20_kinds', 'a shape of each kind with every slot filled, symbolic names, one target, trait with any scalar', sample_every=40)
e('h_c20_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_c20_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_c20_values', 'trait and metadata values nested up to two levels, text of 1 byte', sample_every=40)
e('h_c20_order', 'two shapes, two metadata entries, two members, renames or identifiers with symbolic names, in two insertion and iteration orders', sample_every=40)
e('h_c20_wide_order', 'a model of a shape of each kind with six of everything, built in two orders, four iteration-order modes')
e('h_c20_text', 'the writer, for a shape of each kind', sample_every=40)

e = prop('C21', 'texts longer than 3 bytes; faults other than those listed (no space, partial writes)')
e('h_c21_write', 'any text of 0..3 bytes over an absent, longer or shorter file, read back', sample_every=20)
e('h_c21_large', 'a text of 24001 bytes')
e('h_c21_read', 'any text of 0..3 bytes, read at once or in steps of 1 or 2', sample_every=20)
e('h_c21_faults', 'absent, unreadable or unwritable file, directory, no directory, failing writer')
e('h_c21_formats', 'the line, debug and JSON writers, a shape of each of nine kinds', sample_every=20)

e = prop('A01', 'extensions of more than one symbolic letter (six for the default registry), non-ASCII text, more than three operations')
e('h_a01_two', 'two operations of any kind over two symbolic extensions', sample_every=20)
e('h_a01_three', 'three operations of any kind over two symbolic extensions', sample_every=80)
e('h_a01_mime', 'two types with symbolic MIME types registered in three ways', sample_every=20)
e('h_a01_default', 'every ASCII extension of 3, 4 or 6 bytes against the default registry', sample_every=20)

e = prop('A02', 'symbolic links and other spellings of one path; more than three files, contents of more than one letter (other than JSON and Smithy documents of one shape); the search-path environment variable')
e('h_a02_tree', 'three supported files in three directories, symbolic contents, seven sets of paths', sample_every=20)
e('h_a02_once', 'a file reached in two ways', sample_every=20)
e('h_a02_deep', '12 files in six nested directories, four ways to name them, four iteration-order modes')
e('h_a02_order', 'three fixed files, two orders of adding paths, eight pairs of hash orders', sample_every=20)
e('h_a02_faults', 'unreadable file or directory, failing reader, conflicting shapes')
e('h_a02_formats', 'a JSON and a Smithy file of one shape each with a symbolic letter', sample_every=20)

e = prop('Q01', 'selectors other than sequences of up to two shape types (the others are unimplemented!() in the code under test)')
e('h_q01_kinds', 'each of 26 types against a shape of each of 22 kinds (unresolved included), any name', sample_every=80)
e('h_q01_all', 'each type against a model of all kinds')
e('h_q01_two', 'each pair of types against two shapes', sample_every=400)
e('h_q01_empty', 'no expression, 0..2 shapes')

e = prop('R01', 'components of more than two symbolic characters')
e('h_r01_round', 'any namespace of 1..2 characters or two parts, member or not', sample_every=40)
e('h_r01_round_name', 'any shape name of 1..2 characters, any member of 1', sample_every=40)
e('h_r01_long', 'names of 61 characters, namespaces of eight segments')
e('h_r01_near', 'every text one byte from the URN of a member', sample_every=40)
e('h_r01_any', 'every ASCII path of up to 3 bytes after smithy:', sample_every=40)
e('h_r01_other', 'URNs with another scheme or a query, fragment or authority', sample_every=40)

e = prop('J01', 'documents outside the templates; more than two symbolic bytes in a template')
e('h_j01_bytes', 'every document of up to 3 bytes', sample_every=20, panic_only=True)
e('h_j01_holes', 'any byte or none at one place of each of 14 documents', sample_every=40, panic_only=True)
e('h_j01_holes_t', 'any two bytes at one place of each of 14 documents', tier='thorough', sample_every=400, panic_only=True)
e('h_j01_types', '13 values in 34 places of shapes of every type', sample_every=200, panic_only=True)
e('h_j01_inner', '13 values in 40 places inside the properties of shapes', sample_every=200, panic_only=True)
e('h_j01_pairs', 'two values of 13 in a map, structure or model', sample_every=100, panic_only=True)
e('h_j01_top', '13 values in nine places of the document', sample_every=40, panic_only=True)

e = prop('J02', 'more than two shapes, names of more than two characters; NaN and infinite floats; an annotation trait may come back as an empty object, which is how JSON writes it')
e('h_j02_kinds', 'a shape of each kind with every slot filled, symbolic names and one target', sample_every=40)
e('h_j02_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_j02_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_j02_names', 'a name of any one character, or q and any, of a shape, a member or a namespace', sample_every=40)
e('h_j02_values', 'trait and metadata values nested one level, text of 1 byte', sample_every=20)
e('h_j02_values_t', 'trait and metadata values nested up to two levels, text of 1 byte', tier='thorough', replaces='h_j02_values', sample_every=400)
e('h_j02_two', 'two shapes of any kinds', sample_every=100)
e('h_j02_traits', 'several traits on members and shapes', sample_every=40)

e = prop('J03', 'integers beyond the 64-bit ranges (which serde_json reads as floats), floats other than those listed, strings longer than 2 bytes')
e('h_j03_int', 'every integer of up to two digits', sample_every=40)
e('h_j03_edge', 'every last digit at the ends of the 64-bit ranges')
e('h_j03_float', 'floats of one symbolic digit in four forms')
e('h_j03_string', 'every string of up to two UTF-8 bytes, every escape', sample_every=40)
e('h_j03_nested', 'arrays and objects nested up to two levels', sample_every=40)
e('h_j03_write', 'seven integers to the ends of the 64-bit range')

e = prop('J04', 'more than two shapes')
e('h_j04_order', 'two shapes, two metadata entries, traits, members, renames or identifiers with symbolic names, in two insertion and iteration orders', sample_every=20)
e('h_j04_wide', 'a model of a shape of each kind with six of everything, built in two orders, four iteration-order modes')
e('h_j04_once', 'two shapes of any kinds with a symbolic letter each', sample_every=100)

e = prop('S01', 'documents outside the templates; more than two symbolic bytes at a place')
e('h_s01_bytes', 'every document of up to 2 bytes', sample_every=20, panic_only=True)
e('h_s01_holes', 'any byte or none at one place of each of 22 documents', sample_every=40, panic_only=True)
e('h_s01_types', '39 values in 22 properties of services, operations and resources', sample_every=200, panic_only=True)

e = prop('S02', 'names of more than three symbolic characters; text blocks of more than one line (their leading white space and comments are dropped); documentation comments on anything but shapes and members; numbers beyond the ranges of the 64-bit types')
e('h_s02_kinds', 'a statement of each kind with every property, symbolic names and one target', sample_every=40)
e('h_s02_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_s02_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_s02_two', 'two statements of any kinds', sample_every=80)
e('h_s02_style', 'four documents, seven separators (white space, comma, comment), keys quoted or not', sample_every=20)
e('h_s02_names', 'a name of any one or two characters, underscore and any two, or keyword and any one, in nine places', sample_every=80)
e('h_s02_bare', 'a shape ID that starts with true, false or null, any next character', sample_every=20)
e('h_s02_text', 'a text of up to two characters other than controls, quote and backslash, in four places', sample_every=20)
e('h_s02_escapes', 'each escape in each place of text (known finding idl-escapes)', sample_every=20)
e('h_s02_quoted', 'a quoted key of an object (known finding idl-quoted-keys)', sample_every=20)
e('h_s02_member_traits', 'a trait on the member of a list, set or map (known finding idl-member-traits)', sample_every=20)
e('h_s02_values', '13 forms of value, nested once, as metadata and in a trait', sample_every=20)
e('h_s02_digits', 'every integer of up to three digits', sample_every=80)
e('h_s02_resolve', 'a name of four characters, the last symbolic, against an import, a definition and the prelude, in four places', sample_every=20)
e('h_s02_apply', 'six forms of target, before or after the definition', sample_every=20)
e('h_s02_docs', 'one or two lines on a shape or a member', sample_every=20)
e('h_s02_sections', 'every combination of absent sections, comments at the end', sample_every=20)

e = prop('S03', 'text that needs escapes and object keys that are not identifiers (known findings of S02), NaN and infinite floats, traits of the members of lists, sets and maps (written, but lost by the reader: known finding of S02), an undefined shape without traits that has the name of a defined one; more than three shapes')
e('h_s03_kinds', 'a shape of each kind with every slot filled, symbolic names and one target', sample_every=40)
e('h_s03_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_s03_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_s03_two', 'two shapes of any kinds', sample_every=80)
e('h_s03_member_traits', 'a trait on the member of a list, set or map is in the text')
e('h_s03_names', 'names of four characters, the last symbolic: defined, undefined, imported or of the prelude, in five kinds of place', sample_every=80)
e('h_s03_values', 'values of 29 forms, nested up to two levels, as metadata and in two traits', sample_every=80)
e('h_s03_integers', 'every integer of up to three digits', sample_every=80)
e('h_s03_text', 'a text of up to two characters other than controls, quote and backslash, in four places', sample_every=20)
e('h_s03_unresolved', 'traits of undefined shapes of either namespace, symbolic names', sample_every=20)
e('h_s03_scope', 'two namespaces, either written', sample_every=20)

e = prop('S04', 'names of more than three characters (one in most forms), numbers other than those listed, more than three expressions in a sequence, nesting deeper than three')
e('h_s04_types', 'the name of every type with any one of its characters replaced', sample_every=40)
e('h_s04_seq', 'each pair of twelve forms of expression, symbolic names', sample_every=100)
e('h_s04_three', 'each triple of five forms, alone and nested in functions and variables', sample_every=200)
e('h_s04_many', 'eight expressions in a row, lists of up to seven values, paths of up to six segments, five assertions')
e('h_s04_attr', '14 comparators, three forms of key, one or two values, case or not', sample_every=100)
e('h_s04_values', 'seven forms of value in four places, five kinds of white space', sample_every=40)
e('h_s04_scoped', '14 comparators, three forms of key, one or two assertions, case or not', sample_every=100)
e('h_s04_text', 'every printable ASCII text of one or two characters in either quote', sample_every=20)
e('h_s04_utf8', 'four characters beyond ASCII')
e('h_s04_number', 'every integer of two digits, its float forms', sample_every=60)
e('h_s04_names', 'every identifier of up to three characters in five places', sample_every=40)

e = prop('S05', 'texts outside the templates; more than two symbolic bytes at a place (three in the thorough check)')
e('h_s05_bytes', 'every text of up to 3 bytes', sample_every=100, panic_only=True)
e('h_s05_bytes4', 'every text of 4 bytes', sample_every=1000, tier='thorough', panic_only=True)
e('h_s05_holes', 'up to any two bytes at one place of each of 34 selectors', sample_every=100, panic_only=True)
e('h_s05_holes3', 'any three bytes at one place of each of 34 selectors', sample_every=1000, tier='thorough', panic_only=True)
e('h_s05_numbers', 'eight numbers at the ends of the ranges with any last digit', panic_only=True)

e = prop('S06', 'names of more than two characters; nesting deeper than two; sequences of more than three expressions; more than two assertions')
e('h_s06_types', 'the constructor and the method of each of 26 types, in pairs', sample_every=40)
e('h_s06_expressions', 'functions, neighbors and variables with a symbolic name, first or after another expression', sample_every=40)
e('h_s06_attribute', '14 comparisons, five forms of key, every form of value, case or not', sample_every=100)
e('h_s06_path', 'paths of up to two segments of every form', sample_every=100)
e('h_s06_scoped', '14 assertions, six forms of key, by builder and by constructor', sample_every=100)
e('h_s06_comparison', 'the constructors of 14 comparisons with every form of value', sample_every=100)

e = prop('D01', 'more than two shapes; names of more than one symbolic character; trait values that contain a line break; associations for the members of lists, sets and maps (not drawn: fields of the class only)')
e('h_d01_kinds', 'a shape of each kind with every slot filled and a trait, symbolic name, either option', sample_every=40)
e('h_d01_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_d01_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_d01_two', 'two shapes of any kinds in one or two namespaces', sample_every=80)
e('h_d01_traits', 'nine forms of value; the traits that become stereotypes and notes', sample_every=40)
e('h_d01_operations', 'an operation in nine roles, input and output of any kind, symbolic name', sample_every=80)

e = prop('D02', 'more than two shapes; text of more than two symbolic characters')
e('h_d02_kinds', 'a shape of each kind with every slot filled and two traits, symbolic name', sample_every=40)
e('h_d02_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_d02_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_d02_two', 'two shapes of any kinds of one name in two namespaces', sample_every=80)
e('h_d02_version', 'any one or two printable characters as the version of a service', sample_every=40)

e = prop('D03', 'more than two shapes; values nested deeper than two; the rendering of the document by somedoc beyond its XWiki and Markdown subset used here; member traits and resource identifiers (not written)')
e('h_d03_kinds', 'a shape of each kind with every slot filled and a trait, symbolic name, defined in either namespace', sample_every=40)
e('h_d03_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_d03_wide', 'a model of a shape of each kind with six of everything and seven traits on every element')
e('h_d03_two', 'two shapes of any kinds in one or two namespaces', sample_every=80)
e('h_d03_traits', 'values of nine forms nested up to two levels in three arrangements of traits', sample_every=100)
e('h_d03_documentation', 'documentation and links of any form of value, of shapes and members', sample_every=40)
e('h_d03_metadata', 'metadata of nine forms nested up to two levels', sample_every=40)

e = prop('R02', 'more than two shapes; names of more than one symbolic character; text of more than one; arrays and objects of more than three and two elements; floats other than 1.5')
e('h_r02_kinds', 'a shape of each kind with every slot filled and a trait, the model a blank node or not', sample_every=40)
e('h_r02_one', 'one shape in every slot and as a trait: itself, one that refers back, or one not defined, for shapes of each kind', sample_every=40)
e('h_r02_wide', 'a model of a shape of each kind with six of everything and seven traits on every element', max_insts=2_000_000_000)
e('h_r02_two', 'two shapes of any kinds in one or two namespaces', sample_every=40)
e('h_r02_names', 'any first character of a name in each of eight places')
e('h_r02_traits', 'values of ten forms, nested once, of shapes and members of five kinds', sample_every=40)
e('h_r02_traits2', 'values of ten forms, nested twice, of shapes and members of five kinds', sample_every=400, tier='thorough')
e('h_r02_metadata', 'values of ten forms, nested once, as metadata', sample_every=40)
e('h_r02_many', 'up to three operations, resources, renames, identifiers and errors')

e = prop('X01', 'the parsing of the command line and the exit status; search paths; more than two input files of one shape each')
e('h_x01_convert', 'two files of one or two namespaces with symbolic shape names, three formats, no namespace, one of the model, any text of one character or of a letter, a dot and a character; an output file that exists or not', sample_every=80)
e('h_x01_document', 'two files, two document formats')
e('h_x01_lint', 'four models with a symbolic name')
e('h_x01_validate', 'four models with a symbolic name')
e('h_x01_faults', 'input that is no model in two formats, an output that is a directory, four commands')
e('h_x01_format', 'every ASCII text of up to 7 characters as the name of a format')
e('h_x01_stdout', 'two files with symbolic shape names, three formats and two document formats, to standard output')

e = prop('X03', 'texts of more than one symbolic character in a message; messages that hold terminal escapes; the exit status of the process')
e('h_x03_report', 'no issue, one or two, of any level, with no place, a shape or a member; with and without color')
e('h_x03_text', 'a message with any one ASCII character but escape in it, two levels; with and without color')
e('h_x03_many', '3 to 12 issues with the error at any place among them; with and without color')

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({'checks': C}, open(os.path.join(here, 'spec', 'checks.json'), 'w'), indent=1)
