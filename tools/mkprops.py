"""Writes properties.jsonl (the list of properties) from the table below."""
import json
import os

ALL = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=None,
         observe=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        anchors['observe_at'] = observe
    ALL.append({'id': pid, 'title': title, 'statement': statement,
                'quantifier': {'over': over, 'text': text},
                'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Numeric and boolean properties accept and convert exactly as documented',
     'Assigning to an integer, float, complex or boolean property stores the documented conversion of the value, as exactly that Python type, whenever the value is a number within 1e-9 of its conversion (any convertible value if cast is on) and inside the inclusive bounds. '
     'Everything else - including nan with bounds, numbers too big to convert, text without cast - is refused with a validation error. '
     'Accepted numbers survive JSON, including nan, infinities and complex values.',
     ['inputs', 'configurations'], 'every declaration (bounds, cast) and every value of any type, by assignment, constructor keyword or direct validation',
     'tests try about forty values on a handful of declarations; the accepted set is infinite and its borders (bounds, tolerance, nan/inf, numpy and subclass scalars, numeric text) are where mistakes hide',
     ['properties/basic.py'],
     [('Boolean/Integer/Float/Complex.validate', 'properties/basic.py'), ('_in_bounds', 'properties/basic.py'), ('to_json/from_json', 'properties/basic.py')])
prop('C02', 'Text, choice, color, date and URL properties accept and convert as documented',
     'String, string-choice, color, datetime, UUID and URL properties store exactly the documented canonical form of each accepted input: stripped and case-changed text, the choice key for any of its spellings, the RGB triple of each web color name or 3/6-digit hex, the parsed date, the URL with the requested parts removed. '
     'Every input outside the documented set is refused with a validation error.',
     ['inputs', 'configurations'], 'every declaration of these types and every input; all 148 web color names enumerated',
     'tests sample a few strings per type; the declarations (strip, case, regex, choice tables) multiply with an infinite input set, and the color table has 148 entries of which tests read very few',
     ['properties/basic.py', 'properties/extras/web.py'],
     [('String/StringChoice/Color/DateTime/Uuid.validate', 'properties/basic.py'), ('URL.validate', 'properties/extras/web.py')])
prop('C03', 'A refused operation leaves everything as it was',
     'When an assignment, deletion, reset, container mutation or keyword is refused - by a property or by a change validator - the object keeps every previous value, no change observer runs for it, and the object continues to work normally. '
     'The value passed in is not modified either.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of valid and refused operations on objects of any property mix',
     'tests check that an error is raised, rarely what is left behind, and never after a sequence of operations',
     ['properties/basic.py', 'properties/base/base.py', 'properties/base/containers.py'],
     [('validate before set', 'properties/basic.py'), ('validators before storing', 'properties/base/base.py'), ('copy-validate-set mutators', 'properties/base/containers.py')])
prop('C04', 'Stored values are stable: validating them again changes nothing',
     'Any value a property has accepted is accepted again by the same property, comes back equal and of the same type, and an object that only holds accepted values of allowed lengths passes validation. '
     'Setting a property to its own current value reports no change.',
     ['inputs', 'configurations'], 'every property type and nesting, every accepted value',
     'the documentation demands it of all coercions; tests never feed stored values back except in a few spots',
     ['properties/basic.py', 'properties/base/containers.py', 'properties/math.py'],
     [('validate', 'properties/basic.py'), ('equal', 'properties/basic.py'), ('assert_valid', 'properties/basic.py')])
prop('C05', 'Containers validate every element and keep their own copy',
     'Tuple, list, set and dictionary properties accept a value exactly when its type is right (or coerce is on) and each element, key and value is accepted by its element property, and store a new container of the same class holding the converted elements in order. '
     'The caller\'s container and the stored one never share changes. Length limits are enforced by object validation, inclusive on both ends.',
     ['inputs', 'configurations'], 'every element property, nesting, size, coerce and length setting, and container class',
     'tests use short literal lists of a few element types; errors can depend on position, size, nesting, subclass or coerced duplicates',
     ['properties/base/containers.py'],
     [('Tuple/List/Set/Dictionary.validate and assert_valid', 'properties/base/containers.py')])
prop('C06', 'Observed containers behave like builtins and notify every change',
     'A container with mutation observing gives the same results, errors and contents as the builtin container for every sequence of operations, with every new element validated, and every in-place mutation through the object fires the property\'s listeners once with the old and new contents. '
     'A refused mutation changes nothing, and references to containers that were replaced behave as plain detached copies.',
     ['histories', 'inputs'], 'every sequence of list/set/dict operations, through the object, old aliases and operators, with valid and invalid elements',
     'tests call each method once; the defects live in sequences (aliases, replaced containers, failed mutations followed by good ones)',
     ['properties/base/containers.py'],
     [('properties_mutator/properties_operator/observable_copy', 'properties/base/containers.py')],
     state=[('_instance/_name on the container', 'which object and property the container belongs to')])
prop('C07', 'A union behaves as its first member that accepts the value',
     'A union property accepts a value exactly when some member does, stores what the first accepting member in declaration order stores, and refuses otherwise with one validation error. '
     'Validity, equality, serialization and loading of the stored value are those of a member it belongs to, and the union default is its own or else the first member default.',
     ['inputs', 'configurations'], 'every list of member properties (nested, overlapping, instances) and every value',
     'tests use two or three fixed unions; order and overlap of members matter',
     ['properties/base/union.py'],
     [('Union._try_prop_method, serialize, deserialize, default', 'properties/base/union.py')])
prop('C08', 'Instance properties keep instances and build them from keywords',
     'An instance property stores an instance of its class (or a subclass) as the very same object, builds a new instance from a dictionary of valid keywords or a valid constructor argument, and refuses everything else with a validation error that names the cause. '
     'Nested objects built this way hold exactly the converted keyword values.',
     ['inputs', 'configurations'], 'every class, subclass, keyword dictionary and other value, at any nesting depth',
     'tests use one or two small classes with fixed keywords',
     ['properties/base/instance.py', 'properties/base/base.py'],
     [('Instance.validate/assert_valid', 'properties/base/instance.py')])
prop('C09', 'Object validation finds every problem and changes nothing',
     'Validating an object succeeds exactly when every required property is set, every value (also in nested objects and containers, also after in-place changes) is valid, lengths fit, and every class validator agrees. '
     'When it fails, one error lists all failing properties, and validation never alters any value.',
     ['inputs', 'histories', 'configurations'], 'every class with nested objects, every fill, in-place corruption and set of class validators',
     'tests check single missing or wrong values; completeness (all errors, all depths) and absence of side effects need many combinations',
     ['properties/base/base.py', 'properties/basic.py', 'properties/base/containers.py', 'properties/base/instance.py'],
     [('HasProperties.validate/_validate_props', 'properties/base/base.py'), ('assert_valid', 'properties/basic.py')])
prop('C10', 'Serializing and loading an object gives an equal object',
     'For any valid object graph without self references, the serialized form is pure JSON, contains exactly the set properties with the documented JSON form of each value, and loading it (also after a trip through JSON text) yields an equal object of the same classes, whose serialized form is identical. '
     'Undefined properties are left out and stay undefined; custom serializers and deserializers are used when given.',
     ['inputs', 'configurations'], 'every class schema, nesting and valid value, with and without class names',
     'tests round-trip a few literal objects per type',
     ['properties/base/base.py', 'properties/basic.py', 'properties/base/containers.py', 'properties/base/union.py', 'properties/base/instance.py', 'properties/math.py'],
     [('serialize/deserialize', 'properties/base/base.py'), ('to_json/from_json', 'properties/basic.py')])
prop('C11', 'Loading options are obeyed and the input is left alone',
     'Loading builds only the class it was called on (and the declared classes of its properties) unless trusted, in which case the named registered class is used; strict refuses mismatched class names and unknown keys, otherwise unknown keys are ignored; assert_valid refuses incomplete objects. '
     'The input data is never modified, and splitting a dictionary by properties partitions it exactly.',
     ['inputs', 'configurations'], 'every combination of trusted/strict/assert_valid, class names (own, registered, unknown, at any depth), unknown keys and registries',
     'tests check each flag once on flat dictionaries; combinations and nesting are not covered',
     ['properties/base/base.py', 'properties/utils.py'],
     [('HasProperties.deserialize/_deserialize_class', 'properties/base/base.py'), ('filter_props', 'properties/utils.py')])
prop('C12', 'Copies are equal and independent; equality sees every difference',
     'A copy of an object is equal to it, of the same class, and shares no mutable state with it at any depth. '
     'Equality is reflexive and symmetric, holds for separately built objects with equal values, and fails as soon as one value at any depth, one missing value or the class differs.',
     ['inputs', 'histories'], 'every object graph without self references and every single change to one side',
     'tests compare a few literal objects; sensitivity to each single change at each depth needs generation',
     ['properties/base/base.py', 'properties/basic.py', 'properties/base/containers.py'],
     [('copy/equal', 'properties/base/base.py'), ('Property.equal', 'properties/basic.py')])
prop('C13', 'Every change notifies exactly the right listeners, in order',
     'Each assignment or deletion runs the matching validators first, then - once the value is stored - the change observers only if the value differs, then the set observers, each in registration order with class listeners first, exactly once, with the true name, previous and new value. '
     'Listeners for several or all properties fire for each of them, instance listeners only for their instance, and a validator may veto or replace the value.',
     ['histories', 'configurations'], 'every set of class and instance listeners (single, several, everything) and every sequence of operations',
     'tests register one or two listeners and make one or two changes',
     ['properties/handlers.py', 'properties/base/base.py'],
     [('_set/_notify', 'properties/base/base.py'), ('observer/validator/_get_listeners', 'properties/handlers.py')])
prop('C14', 'Disabling listeners affects exactly its block and always ends',
     'Inside a disabling block exactly the chosen kinds of listeners stay silent, property validation still applies, blocks nest in any combination and can be reused or re-entered, and after leaving a block - normally or through any error - exactly the listeners active before are active again. '
     'No library operation, failed or not, leaves listeners disabled.',
     ['histories', 'fault_sequences'], 'every nesting of disabling blocks (all kinds, reused objects), operations and errors inside',
     'tests nest two blocks without errors; leaks show only after failing operations or unusual nesting',
     ['properties/handlers.py', 'properties/base/base.py'],
     [('listeners_disabled', 'properties/handlers.py')],
     state=[('disabled kinds', 'process-wide set of listener kinds that are off')])
prop('C15', 'Defaults follow their precedence, are fresh, and can be restored',
     'A new object holds, for each property, the class-level default of the nearest class that gives one, else the property\'s own default, else nothing; callable defaults are called for each object, container defaults are never shared between objects, and no change listener runs. '
     'Resetting restores the default of one or all properties, and an invalid or unknown default is refused when the class is defined.',
     ['inputs', 'configurations', 'histories'], 'every chain of classes giving or overriding defaults (values, callables, undefined) for every property type',
     'tests use one or two levels and a few types',
     ['properties/base/base.py', 'properties/basic.py', 'properties/base/union.py'],
     [('_defaults, _reset, PropertyMetaclass.__call__', 'properties/base/base.py')])
prop('C16', 'Inheritance follows the standard Python resolution order',
     'A class has exactly the properties, observers and validators that Python attribute lookup would resolve for it: the nearest definition in the method resolution order wins, overriding by a non-property removes it, and nothing else is lost or added. '
     'Each object then validates and notifies by those definitions.',
     ['programs', 'configurations'], 'every class hierarchy (chains, diamonds, mixins) defining and overriding properties, observers and validators',
     'tests have a few fixed hierarchies',
     ['properties/base/base.py'],
     [('build_from_bases, PropertyMetaclass.__new__', 'properties/base/base.py')])
prop('C17', 'Class documentation lists every property once, in the right group and order',
     'The generated class documentation keeps the written docstring and lists every public property exactly once under required, optional or other, with its doc, description and default, in alphabetical or the declared order; private ones appear only when asked for. '
     'An order that does not name exactly the documented properties is refused.',
     ['programs', 'configurations'], 'every class with any mix of required, optional, immutable, dynamic, renamed and private properties and orders, inherited or not',
     'tests compare the text of a few classes',
     ['properties/base/base.py', 'properties/basic.py'],
     [('PropertyMetaclass.__new__', 'properties/base/base.py'), ('sphinx/info', 'properties/basic.py')])
prop('C18', 'Links keep their ends in sync, only while linked and only in their direction',
     'After any change of a linked source, the target holds the (transformed) source value; a mutual link of several items leaves all of them equal; an unlinked link transmits nothing until relinked, and a directional link never writes to its source. '
     'A refused update reaches the caller and leaves the link working.',
     ['histories', 'configurations'], 'every topology of links among property objects and traits objects, and every sequence of changes, unlinks and relinks',
     'tests make one or two links and a few assignments',
     ['properties/link.py'],
     [('directional_link/link', 'properties/link.py')])
prop('C19', 'Objects with UIDs survive loading as the same graph',
     'Serializing an object with a UID gives one flat entry per reachable object, and loading it into an empty registry rebuilds an isomorphic graph: same classes, values, UIDs, sharing and cycles. '
     'UIDs are unique among live objects, lookup by UID finds the object that has it, and a failed construction, change or load (also one whose result has to be valid and is not) reserves nothing.',
     ['inputs', 'histories'], 'every graph of UID objects (trees, shared nodes, cycles, self references, in lists and dictionaries) and every sequence of UID changes',
     'tests use three or four nodes in fixed shapes',
     ['properties/extras/uid.py'],
     [('HasUID.serialize/deserialize/_ensure_unique', 'properties/extras/uid.py')],
     state=[('_INSTANCES', 'UID to object registry')])
prop('C20', 'A singleton name always means the same object',
     'Constructing or loading a singleton whose identifying name is taken returns the existing object unchanged; otherwise a new object is created, registered under that name for good, even if its name value later changes. '
     'Separate registries are independent, serialized singletons carry their identifying name, loading leaves its input alone, and a failed construction or load registers nothing.',
     ['histories', 'inputs'], 'every sequence of constructions, renames, serializations and loads over several classes and registries',
     'tests check two or three steps',
     ['properties/extras/singleton.py'],
     [('SingletonMetaclass.__call__, Singleton.deserialize', 'properties/extras/singleton.py')],
     state=[('_SINGLETONS', 'name to object registry')])
prop('C21', 'Immutable, dynamic and renamed properties keep their promises',
     'Immutable properties keep the value given at construction against every assignment; dynamic properties are recomputed and validated on every access, are never stored, and go through their setter and deleter only; a renamed property reads, writes, deletes, loads and warns exactly as the property it stands for.',
     ['histories', 'inputs', 'configurations'], 'every operation sequence on objects mixing these kinds, with values of any type',
     'tests do one get and one set of each kind',
     ['properties/basic.py', 'properties/base/base.py'],
     [('GettableProperty/DynamicProperty/Renamed', 'properties/basic.py'), ('serialize/deserialize', 'properties/base/base.py')])
prop('C22', 'Array properties enforce shape and type and survive JSON',
     'An array property accepts a list, tuple or array exactly when its type is allowed and its shape matches one allowed shape (fixed sizes and wildcards), stores an array that no later change of the input can reach (without coercion it takes arrays only, as they are), and never modifies its input. '
     'Arrays with nan and infinities serialize to JSON and load back with the same shape, values and type, and equality allows only the documented tolerance.',
     ['inputs', 'configurations'], 'every shape and type declaration up to four dimensions, every input array, list or tuple',
     'tests use a few literal arrays of one or two shapes',
     ['properties/math.py'],
     [('Array.validate/equal/to_json/deserialize', 'properties/math.py')])
prop('C23', 'Vector properties accept directions, shapes and lengths as documented',
     'Vector properties turn every documented direction name (any case) into the right unit vector, accept exactly the right shapes, scale every vector to the declared length keeping its direction, and refuse zero or infinite vectors when a length is declared, bad names and bad shapes. '
     'Vectors survive JSON and inputs are never modified.',
     ['inputs', 'configurations'], 'all direction names enumerated; every vector, list of vectors and declared length',
     'tests check some names and a few vectors',
     ['properties/math.py'],
     [('BaseVector/Vector2/Vector3/Vector2Array/Vector3Array.validate', 'properties/math.py')])
prop('C24', 'A task runs only on valid input and returns only valid output',
     'Calling a task builds its input from the keywords, refuses invalid or incomplete input before running, refuses output that is of the wrong kind or invalid, and otherwise returns the processed output, by default its serialized form. '
     'Errors raised while running reach the caller, and status reports accept exactly valid statuses.',
     ['inputs', 'fault_sequences'], 'every input/output schema and every keyword set, output and failure of the task body',
     'tests run one or two small tasks',
     ['properties/extras/task.py'],
     [('BaseTask.__call__/report_status', 'properties/extras/task.py')])
prop('C25', 'Errors report what failed, on what, and reach the error hook',
     'Every validation error carries the name of the failing property, the object and a reason (missing or invalid), its message names the property, its class, what is allowed and a bounded print of the value, and construction or validation with several failures reports all of them in one error and calls the error hook once with all of them. '
     'Successful operations never call the hook.',
     ['inputs', 'fault_sequences'], 'every set of simultaneous failures over every property type, by constructor, assignment and validation',
     'tests check one or two failures at a time',
     ['properties/utils.py', 'properties/base/base.py', 'properties/basic.py'],
     [('ValidationError', 'properties/utils.py'), ('error', 'properties/basic.py'), ('HasProperties.__init__/validate', 'properties/base/base.py')])
prop('C26', 'Self-referencing objects never hang and leave no trace',
     'For object graphs with cycles, validation and equality end with an answer, validation still finds invalid members anywhere in the graph, serialization and copying raise the documented self-reference error, and afterwards every object works as if the call had not happened. '
     'The same operations on graphs that merely share objects succeed.',
     ['inputs', 'fault_sequences'], 'every directed graph of objects up to nine nodes, references through instances, lists and dictionaries, errors at any node',
     'tests use two or three hand-made cycles',
     ['properties/base/base.py', 'properties/utils.py'],
     [('recursion guards in validate/serialize/equal', 'properties/base/base.py'), ('stop_recursion_with', 'properties/utils.py')])
prop('C27', 'File and image properties accept open files of the right mode only',
     'A file property opens a named file in its mode, keeps the very same open file object, refuses closed files, other modes, missing files and other values, and closes the file when deleted. '
     'A PNG property stores a rewound private copy of the whole image whatever the source, refuses other data, and the image survives JSON byte for byte.',
     ['inputs', 'configurations', 'histories'], 'all file modes enumerated; every image, read position, source kind and operation order',
     'tests open one file per mode group and one image',
     ['properties/basic.py', 'properties/images.py'],
     [('File.validate/fdel', 'properties/basic.py'), ('ImagePNG.validate/to_json/from_json', 'properties/images.py')])
prop('C28', 'Impossible declarations are refused when they are made',
     'Declaring a property with an option of the wrong type, contradictory limits, an invalid default, an unknown or private option, or a class with unknown observed names, unknown rename targets or unknown defaults raises the documented error at once. '
     'Every consistent declaration is accepted and reads back as declared.',
     ['inputs', 'configurations', 'programs'], 'every option of every property type with valid and invalid values, and every class body',
     'tests try one wrong value per option',
     ['properties/basic.py', 'properties/base/base.py', 'properties/base/containers.py', 'properties/base/union.py', 'properties/math.py', 'properties/handlers.py'],
     [('option setters', 'properties/basic.py'), ('PropertyMetaclass.__new__', 'properties/base/base.py')])
prop('C29', 'Pointer properties hold an instance or a valid UID',
     'A pointer accepts an instance, keywords for one, or a UID that the class accepts; when loading is on it holds the instance with that UID if there is one and the UID otherwise. '
     'Everything else is refused, and pointers serialize and load in either form.',
     ['inputs', 'configurations'], 'every class with UID checks and lookup, every UID, instance or other value, loading on or off',
     'tests check a few fixed UIDs',
     ['properties/extras/uid.py'],
     [('Pointer.validate/deserialize', 'properties/extras/uid.py')])
prop('C30', 'Loading arbitrary data gives a sound object or a clean error',
     'Loading any JSON value into any class either raises a plain value, type, key, attribute or self-reference error or returns an object of that class whose every value is one its property accepts, never with listeners left disabled, the input changed, or the process state altered. '
     'Without trust no class outside the declared ones is ever created.',
     ['inputs', 'fault_sequences'], 'every JSON document (arbitrary, or a mutated valid one) and every class schema',
     'tests load well-formed dictionaries only',
     ['properties/base/base.py', 'properties/base/instance.py', 'properties/base/union.py', 'properties/base/containers.py', 'properties/basic.py'],
     [('deserialize', 'properties/base/base.py'), ('from_json', 'properties/basic.py')])
prop('C31', 'Serialization and loading options reach every nested object',
     'The options and further keywords given to serializing, loading or copying apply to every object, property and custom serializer or deserializer in the graph - through instances, containers, unions, singletons and UID entries at any depth - and an omitted option means its documented default: class names written, dynamic values not, loading neither trusted nor strict (copying trusted). '
     'Custom functions that take only the value get only the value, and each runs once per value; an error that one raises is the error of the call.',
     ['inputs', 'configurations'], 'every subset of options and extra keywords, every nesting of objects in containers, every signature of custom functions',
     'tests pass an option to one level of one container',
     ['properties/base/base.py', 'properties/base/containers.py', 'properties/base/instance.py', 'properties/base/union.py', 'properties/basic.py', 'properties/extras/uid.py', 'properties/extras/singleton.py'],
     [('serialize/deserialize', 'properties/base/base.py'), ('accept_kwargs', 'properties/basic.py'), ('Tuple/Dictionary.serialize', 'properties/base/containers.py')])
prop('C32', 'User-defined property types work wherever built-in ones do',
     'A property type defined as documented - own validate, equal, to_json and from_json, class_info or info, options and class default, directly or derived from another custom type - is used with exactly these everywhere: on assignment, inside every container, union and nested instance, as dynamic, renamed or immutable property, in change detection, validation, equality, copies, JSON, error messages and class documentation. '
     'Values are compared only through its equal method.',
     ['inputs', 'programs', 'histories'], 'every custom type in the documented form, every place a property can stand, histories of assignments, refusals, damage, copies and loads',
     'tests define two trivial custom types',
     ['properties/basic.py', 'properties/base/base.py', 'properties/base/containers.py', 'properties/base/union.py', 'properties/base/instance.py'],
     [('GettableProperty/Property extension methods', 'properties/basic.py'), ('HasProperties._set/equal', 'properties/base/base.py')])
prop('C33', 'The same program behaves the same in every environment',
     'With any optional package (numpy, vectormath, pypng, traitlets) missing the library imports with exactly the names that need it left out, and everything else - values stored, refusals with their messages, notifications, JSON, copies, class documentation - is the same as with all packages; it is also the same with optimized bytecode (python -O, -OO), any hash seed, locale, time zone or working directory, and whichever module of the library is imported first.',
     ['inputs', 'configurations', 'histories'], 'every program on the core types, in every combination of missing packages, interpreter options and hash seeds',
     'tests run in one environment, with all packages and unoptimized',
     ['properties/__init__.py', 'properties/basic.py', 'properties/link.py', 'properties/base/base.py', 'properties/base/containers.py', 'properties/extras'],
     [('optional imports', 'properties/__init__.py'), ('optional traitlets', 'properties/link.py'), ('class documentation', 'properties/basic.py')])
prop('C34', 'Use never changes a declaration',
     'Nothing done with a class or its objects changes what was declared: making, loading, saving, copying and comparing objects, assignments accepted or refused, listeners and links on objects, subclasses that override or drop members, other classes of the same name, reading documentation. '
     'Options, documentation, class listeners, defaults, what a fresh object is like, and what is accepted, refused and reported stay as declared. Tags are kept by their own property only, returned as given, and mean nothing to the library.',
     ['inputs', 'programs', 'histories'], 'every class family and history of uses; every sequence of tags on every kind of property',
     'tests use each class once, in a fixed way',
     ['properties/basic.py', 'properties/base/base.py', 'properties/handlers.py'],
     [('PropertyMetaclass', 'properties/base/base.py'), ('GettableProperty.tag/meta/terms', 'properties/basic.py'), ('HasProperties class attributes', 'properties/base/base.py')])

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'properties.jsonl')
with open(PATH, 'w') as fid:
    for item in ALL:
        assert len(item['title']) <= 80, item['id']
        fid.write(json.dumps(item) + '\n')
print(len(ALL))
