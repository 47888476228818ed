"""Per property: oracle, generator and bounds, why tests cannot settle it"""
TEXT = {
'C01': ('the numeric part of the reference model: conversion by value (fractions, decimals, numpy and subclass scalars), 1e-9 tolerance decided with exact rational arithmetic, inclusive bounds, nan and overflow rules; and the JSON round trip',
        'declarations with any bounds and cast; values from the whole numeric tower, borders of the tolerance and of the bounds (one ulp apart), numeric text and junk',
        'tests try a dozen numbers; the faults live at tolerance borders, huge integers, nan and foreign number types'),
'C02': ('the text part of the model: strip/case/regex/choice lookup, an independent table of the CSS color names, own hex, date and URL canonicalisation',
        'texts built to be valid, borderline (spaces, signs, near names) or invalid for the drawn declaration; all 148 color names and all URLs part combinations (enumerated or drawn)',
        'the accepted set is infinite; a test samples a few spellings'),
'C03': ('an invariant over histories: the deep description of every object before a refused operation equals the one after it, the observer log is unchanged, the argument is unchanged, and a following good assignment works',
        'up to three classes, nested, with vetoing validators and observers on all properties; assignments, deletions, resets, container mutations, keyword constructions',
        'a refusal half way through a multi-step operation leaves traces only for particular histories'),
'C04': ('idempotence: validating or assigning what is stored gives an equal value of the same type and no change notification',
        'every property type, nested; cast, coerce, case and strip options',
        'a metamorphic law over all declarations and values'),
'C05': ('the container part of the model (element-wise verdicts and conversions), aliasing probes (mutating the given and the stored container), limits by validate()',
        'nested tuples, lists, sets, dictionaries with any element property, one bad element anywhere, lengths beside the limits, shared and default containers, named tuples and other subclasses',
        'aliasing and positions of bad elements need systematic search'),
'C06': ('a builtin container run in lock-step with the observed one (results, errors, contents), a notification count per operation, detached references compared with plain copies',
        'histories of up to twelve operations out of every mutator, operator and reader of list, set and dict, also through stale references and container subclasses of the caller',
        'model-based histories; tests call each mutator once'),
'C07': ('the model applied member by member in declaration order; validity, equality and JSON judged by the member that owns the value; defaults',
        'one to four members of any type, values for any member or none, wrong containers',
        'interactions of members are quadratic in types'),
'C08': ('identity for instances, construction in lock-step for dictionaries and constructor arguments, cause named in the error; class of the result',
        'families of classes with inheritance and nesting, dictionaries with unknown and non-text keys, constructors with any signature and side effects, constructors that give an object of another class (registered singletons)',
        'needs generated class families'),
'C09': ('the set of failing properties computed by the model over the whole graph compared with the error tuples; deep description unchanged; verdict of class validators',
        'object graphs with missing values and in-place damage anywhere, validators that agree, return False or raise',
        'the number and place of simultaneous problems is unbounded'),
'C10': ('the model of JSON forms, json.dumps with strict flags, equality and identical re-serialization after loading',
        'random class families and graphs of every type with custom (de)serializers at any level',
        'round trip law over all graphs'),
'C11': ('a small interpreter of the documented loading rules (class lookup, unknown keys, strictness, validity) on the modified document; deep comparison of the input before and after',
        'documents with class names, keys and values changed, dropped or added at any depth times all option combinations; separate class registries',
        'combinatorial: options x damage x depth'),
'C12': ('equality of model descriptions; independence by changing every mutable place of copy and original; equality of separately built pairs differing in exactly one place',
        'graphs of every type including arrays, plain containers, subclass instances, classes of the same name, arrays at the tolerance limit in both orders',
        'one missing case at depth is enough to break it'),
'C13': ('a model of the documented order of validators, change and set observers with class and instance listeners; the complete log is compared',
        'up to ten listeners of all kinds, that log, veto, replace, assign other properties (re-entrancy) or raise; histories over several objects',
        'orders and re-entrant notifications are histories'),
'C14': ('after every step three probe listeners per kind tell what is active; compared with a stack model; library operations must leave the state as it was',
        'programs of nested, reused and re-entered blocks, left normally or by errors (also BaseException), with failing operations inside; the given container of types changed meanwhile',
        'nesting and error exits are unbounded'),
'C15': ('a model of default precedence along the resolution order; call counts of callables; independence of containers; a silent observer log',
        'class hierarchies with chains, diamonds and mixins, defaults at every level, resets of one or all names, private names',
        'precedence over hierarchies'),
'C16': ('plain Python classes of the same shape: `getattr` on them is the definition of "nearest"; then behaviour of listeners and properties of an instance',
        'class graphs of up to six classes, each name bound to property, observer, validator, function, constant or None at some of them',
        'differential against Python itself over all shapes'),
'C17': ('the docstring parsed back into (group, name, doc, default) and compared with the declaration and the order',
        'every property kind, private ones, orders that fit or not, several bases',
        'all combinations of kinds and orders'),
'C18': ('a model of link propagation over a forest of links; every value compared after every step',
        'up to six ends, properties and traits, directional and mutual, transforms, refusals, unlink/relink of parts',
        'histories of cuts and refusals'),
'C19': ('graph isomorphism between the built and the loaded graph; the expected flat dictionary; a model of the registry',
        'graphs with sharing and cycles, broken, partial and clashing documents, histories of constructions and renames, dynamic values saved too',
        'graphs and failure points'),
'C20': ('a model of the registries keyed by identifying name; values, identity and registry compared after every step',
        'eight kinds of singleton classes, histories of construction, renaming, loading, copying; nested singletons; trusted loading of foreign classes',
        'histories over a global registry'),
'C21': ('immutable: a set of forbidden attempts must fail and change nothing; dynamic: getter call in lock-step with the model of the type; renamed: two objects driven by the same operations must agree',
        'any property type, getters that fail or give wrong types, chains of renames',
        'differential over operation histories'),
'C22': ('an independent shape and type matcher; memory sharing probes; JSON round trip bit for bit; tolerance computed exactly',
        'arrays up to four dimensions, thirteen types, strided, read-only, subclasses, ragged lists',
        'shapes x types x memory layouts'),
'C23': ('exact direction table, own normalisation within rounding, shape rules',
        'all names in random case, near misses, every shape near the right one, with and without length, components over the whole range of floats',
        'continuous inputs'),
'C24': ('a model of the call protocol: input verdict, one run, output verdict, processed output',
        'random input and output classes, damaged keywords, bodies with every kind of outcome, statuses of every kind',
        'order of refusals and effects'),
'C25': ('the model gives the set of failures; error tuples, message parts and hook calls are compared',
        'any number of simultaneous failures in constructions, assignments and validations, hooks that raise or repair',
        'numbers and kinds of simultaneous failures'),
'C26': ('reachability of cycles computed on the generated graph decides which error is due; twin objects detect leftovers; time limit detects hangs',
        'directed graphs of up to nine objects through all container kinds, planted errors, edges added and removed between operations',
        'graphs and fault points'),
'C27': ('a table of open modes; identity, position and closed state of files; byte comparison of PNG data',
        'all modes enumerated times sources, histories of assignments and deletions, random images',
        'modes x sources x positions x histories'),
'C28': ('a table of options per property type with valid and invalid values and the documented error; what was declared is read back',
        'combinations of options in any order, defaults of random types, class bodies with renames, observed names and defaults',
        'every option of every type'),
'C29': ('a model of the UID lookup through each class kind; pointer contents and JSON compared after every step',
        'classes with every combination of uid property, validate_uid and load; histories',
        'class combinations x histories'),
'C30': ('soundness of the result: the error is one of the documented kinds, or every value passes its own property again; listeners, input, registries and globals unchanged',
        'arbitrary JSON aimed at the schema and structural mutations of valid documents (fuzzing), all options',
        'the input space of a loader'),
'C31': ('an independent computation of the written form under the effective options; call logs of the custom functions (arguments and counts); classes and values after loading',
        'trees of plain, singleton or UID objects through every container kind, five signatures of custom functions, every subset of options and further keywords, entry through the object, one property or a copy',
        'options x nesting x signatures'),
'C32': ('a model of the generated custom type (conversion, equality by remainder, JSON form) applied to every place it is used; its values raise when compared with == instead of the equal method',
        'custom types with own options, fixed or computed descriptions, class defaults, derivation; eleven places of use; histories of assignments, refusals, deletions, in-place damage, copies, loads, comparisons',
        'extension points meet every feature: types x places x histories'),
'C33': ('differential: the complete trace of a case (documentation, values, JSON, errors with messages, notifications) in nine processes with different environments must be the same; the public names are the full set minus those of the missing package',
        'random class hierarchies and histories of assignments, refusals, loads, copies, comparisons; programs over UIDs, singletons, tasks, links, files and every text type; environments: each optional package hidden and all, -O, -OO, six hash seeds, C locale, time zone, working directory, order of imports',
        'the suite runs in one environment only; -O removes assertions, hash seeds reorder sets'),
'C34': ('metamorphic: a complete picture of every class of a family (options of all properties, documentation, listeners, defaults, a fresh object, the outcome of fixed probes with notifications and errors) is the same before and after each use; a tagged class equals its untagged twin',
        'random class families with inherited and own members, histories of 21 kinds of use, tags with names the library itself uses, before and after the class is made',
        'shared class state shows only after some other use'),
}
