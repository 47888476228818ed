"""Writes known_findings.json (never run by a check)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C01', '0482721', 'OverflowError instead of a validation error for numbers too large to convert'),
    ('C01', '3321e10', 'numpy booleans were stored as numpy.bool_ and could not be written as JSON'),
    ('C02', '18d5131', 'web color firebrick was misspelled and so refused'),
    ('C02', 'ceda40d', 'hex colors with signs, blanks or underscores were accepted'),
    ('C23', 'd0d0356', 'vector direction names modified the input list and failed in tuples'),
    ('C02', '69a6ed3', 'datetimes before year 1000 could not be loaded from their own JSON'),
    ('C04', '50449b3', 'strip before change_case could leave text that changes when validated again'),
    ('C04', 'b001780', 'infinite and nan floats and complexes were never equal to themselves'),
    ('C01', 'de51969', 'nan passed numeric bounds'),
    ('C06', '9e062e3', 'in-place operators on an alias stopped the property from observing its container'),
    ('C14', 'f0ce98b', 're-entering one listeners_disabled object left listeners disabled for good'),
    ('C19', '4a9caa2', 'HasUID structures sharing one instance could not be loaded'),
    ('C19', 'bb84867', 'UIDs of failed constructions and failed or replaced uid changes stayed reserved'),
    ('C20', '1b86ff4', 'Singleton.deserialize removed keys from its input'),
    ('C21', '405bd19', 'equality with renamed properties compared values with =='),
    ('C21', '97ed21e', 'renamed properties were (de)serialized without the new property'),
    ('C21', 'efb6250', 'loading stored values of dynamic properties'),
    ('C27', '66e05d1', 'PNG images were serialized only from their current read position'),
    ('C24', '1685fa7', 'reporting a status without progress failed'),
    ('C22', 'aea2359', 'loading arrays truncated fractions and failed on nan'),
    ('C22', '8d5a7dc', 'loading arrays changed the type although it was allowed'),
    ('C22', '8b6b69b', 'zero-dimensional arrays could not be serialized'),
    ('C16', 'eb22c92', 'properties and listeners were not inherited in resolution order'),
    ('C07', 'e5e3ccc', 'comparing union values failed with the error of the first member'),
    ('C07', '482fb74', 'a union with a float or complex member raised OverflowError for numbers above the float range'),
    ('C07', '8d4365f', 'declaring a union whose defaults are arrays (or overflow when compared) raised ValueError'),
    ('C07', '8f2d7cb', 'container equality mixed kinds: [1, 2] equal to [2, 1] for a union with a set, [0] equal to {0: 0} or IndexError with a dictionary'),
    ('C15', '0e0c4b0', 'in a diamond the class default of the common base overrode that of the nearer class'),
    ('C10', '595105a', 'vectors with nan or infinite values serialized but could not be loaded'),
    ('C19', '91a1770', 'a failed load left the UIDs of the instances it had made reserved'),
    ('C19', 'eeedbe7', 'HasUID.deserialize ignored assert_valid'),
    ('C19', '12fa957', 'deleting a uid reserved "undefined", so a second deletion was refused'),
    ('C20', '39c8b1f', 'loading a singleton of a trusted class with its own registry changed the existing object'),
    ('C20', '98fb093', 'a failed load left a half-made singleton registered'),
    ('C20', 'a7fe3de', "an empty name ('', 0) of a singleton was lost when loading"),
    ('C20', '0c5e125', 'singletons of classes without a name property could not be loaded'),
    ('C21', '5306a0b', 'with save_dynamic, dynamic values were written unconverted (no JSON)'),
    ('C22', '6c9e516', 'values that make no array or vector raised bare errors (TypeError for a number array given to Vector3), which construction did not report with the others'),
    ('C23', 'ecc65f8', 'without coercion, scaling to a length modified the assigned vector'),
    ('C08', 'f4d070d', 'an instance property took a singleton of another class built from its name'),
    ('C25', 'e608952', 'the error hook was called for unions, lists and numbers that tried alternatives: on successful assignments, and twice per failure'),
    ('C27', '0b55792', 'file names that open() refuses with a ValueError (a null byte, for one) raised plain errors'),
    ('C27', 'c8432b6', "File(mode='wb+') refused every file name, because such files report mode 'rb+'"),
    ('C27', '470d5ec', 'PNG sources that were partly read, and all files opened ab+, were refused; empty ones raised EOFError'),
    ('C27', 'd562a66', 'an image stream closed after it was stored still passed validate()'),
    ('C28', '6bf5635', 'the description of URL properties was None ("must be None" in every error)'),
    ('C33', 'e5a2911', 'with python -O the class documentation lost the types of all properties, because an assert decided whether to show them'),
    ('C29', '45f6548', 'an object whose loading pointer holds a UID failed validate() once the instance existed'),
    ('C05', 'f62349e', 'validating a named tuple raised TypeError, or put the list of its items inside it when it had one field'),
    ('C12', '978726c', 'array equality at the limit of the tolerance depended on the order of the operands'),
    ('C23', 'f246e7c', 'vectors of numbers beyond 1e154 or below 1e-162 were scaled to zero, or refused as zero vectors'),
    ('C02', '262ba6c', 'datetimes with a time zone were written with their local time and a Z, another instant'),
    ('C13', '7a65e68', 'setting an array (of two dimensions or another shape) over another one in a generic or instance property raised a bare ValueError after the value was stored'),
]
KNOWN = []
known_path = os.path.join(VERIF, 'tools', 'known.json')
if os.path.exists(known_path):
    KNOWN = json.load(open(known_path))
out = {'findings': KNOWN + [
    {'property': p, 'status': 'fixed', 'commit': c, 'what': w,
     'line': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIXED]}
with open(os.path.join(VERIF, 'known_findings.json'), 'w') as fid:
    json.dump(out, fid, indent=1)
    fid.write('\n')
