#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

A property is claimed if it has a harness.
"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
SF = 'sangfroid/'


def P(id, title, statement, over, qtext, why, files, mech):
    return dict(id=id, title=title, statement=statement,
                quantifier={'over': over, 'text': qtext},
                why_tests_cant=why,
                anchors={'files': files,
                         'mechanism': [{'name': n, 'where': w}
                                       for n, w in mech]})


PROPS = [
 P('C01', 'A time specification denotes exactly the instant it spells out',
   'A time given as text, made of hours, minutes, seconds and frames in '
   'that order (each at most once, with any spacing), denotes '
   '(3600h+60m+s) x FPS + f frames, a minus sign in front making all of it '
   'negative; a bare 0 is zero. Text with anything else in it, with a part '
   'given twice, with '
   'a malformed number or with negative frames after seconds is refused '
   'with ValueError, and never silently read as some other instant. '
   'Seconds, minutes and hours need a known FPS, except that zero seconds '
   'alone do not.',
   ['inputs', 'configurations'],
   'every text, every number in it, every FPS',
   'the tests try a few dozen fixed strings, nearly all of them at 24 FPS '
   'and with small whole numbers',
   [SF + 't.py'],
   [('T.__init__', SF + 't.py'), ('T._parse_time_spec', SF + 't.py'),
    ('TIMESPEC_RE', SF + 't.py')]),
 P('C02', 'Writing an instant as text and reading it back gives it again',
   'For every instant, at every frame rate or none, including instants '
   'before the start and between frames, the text form of the instant, '
   'read back at the same frame rate, is the same instant.',
   ['inputs', 'configurations'],
   'every frame count and every FPS',
   'round trip over an unbounded set of numbers; the tests compare a few '
   'printed strings',
   [SF + 't.py'],
   [('T.__str__', SF + 't.py'), ('T._parse_time_spec', SF + 't.py')]),
 P('C03', 'Instants are compared, ordered and hashed as numbers of frames',
   'Two instants of one frame rate (or where either has no frame rate) '
   'compare exactly as their frame counts do, under all six operators, and '
   'so do an instant and a plain number; equal instants have equal hashes, '
   'so they find one another in dicts and sets. Instants of two different '
   'frame rates are refused with ValueError unless one of them is zero; an '
   'instant is unequal to anything else. The number of seconds is the '
   'frame count divided by the FPS, and is refused if that is unknown and '
   'the time is not zero.',
   ['inputs'],
   'every pair and triple of instants',
   'an order is a statement about all pairs and triples; the tests compare '
   'a handful',
   [SF + 't.py'],
   [('T._compare', SF + 't.py'), ('T.__lt__, T.__eq__', SF + 't.py'),
    ('T.__hash__', SF + 't.py'), ('T.seconds', SF + 't.py')]),
 P('C04', 'Negative frame numbers count back from the last frame',
   'In an animation which runs from B to E, the instant numbered -n is the '
   'n-th from the end: it is frame (E-B)+1-n whatever the units B and E '
   'are written in, and whichever tag or layer of the document is used as '
   'the reference; without a document it is refused with ValueError. The '
   'frame count of an animation is one more than its last frame. Making an '
   'instant from another instant copies it unchanged, even if it is '
   'negative.',
   ['inputs', 'configurations'],
   'every begin time, end time, FPS and index',
   'the tests use three fixed documents of one length each',
   [SF + 't.py', SF + 'animation.py'],
   [('T.__init__', SF + 't.py'), ('_canvas_root', SF + 't.py'),
    ('Animation.framecount', SF + 'animation.py')]),
 P('C05', 'Real, Angle, Integer, Bool, String and Time values read as written',
   'A number, truth value, text or time, or another value of the type, '
   'given to a value of the matching type, at construction, by assignment, through a layer field, or by '
   'assignment to an animated value (which stops being animated), is what '
   'is read from it, at once and after the XML has been written out and '
   'parsed again. Values equal other values and plain Python values '
   'exactly when their contents are equal.',
   ['inputs', 'histories'],
   'every number, text and time; every way of giving it',
   'the tests assign a few round numbers and short words',
   [SF + 'value/simple.py', SF + 'value/string.py', SF + 'value/value.py'],
   [('value setters and getters', SF + 'value/simple.py'),
    ('String', SF + 'value/string.py'),
    ('ParamTagField', SF + 'field.py')]),
 P('C06', 'A colour reads as it was given, as channels or as hex',
   'A colour given as three or four channels between 0 and 1 (alpha 1 if '
   'left out) keeps them to six decimals, in the right order, at once and '
   'after reloading; one given as six or eight hex digits of either case, '
   'with or without #, has channels NN/255 in the order red, green, blue, '
   'alpha, and its hex form is that of its channels rounded to the nearest '
   '1/255. Text which is not exactly that is refused with ValueError and '
   'leaves the old colour. Colours are equal exactly when their channels '
   'are.',
   ['inputs'],
   'every colour and every text',
   'the tests name about ten colours',
   [SF + 'value/color.py'],
   [('Color.value', SF + 'value/color.py'),
    ('Color.as_tuple', SF + 'value/color.py')]),
 P('C07', 'Vectors and transformations keep each part where it was put',
   'A vector given as a pair, as two numbers, as a dict or as another '
   'vector has those x and y under every way of reading it (attribute, '
   'name, index, iteration, tuple), at once and after reloading, and '
   'replaces whatever was there before. A transformation keeps its offset, '
   'angle, skew angle and scale; assigning one of them, through the '
   "transformation or through the group's shortcut of the same name, "
   'changes that one and no other. Two vectors, or two transformations, are '
   'equal exactly when all their parts are.',
   ['inputs', 'histories'],
   'every number, every part, every pair of successive assignments',
   'the tests read fixed values from files and assign one part once',
   [SF + 'value/vector.py', SF + 'value/transformation.py', SF + 'field.py'],
   [('Vector', SF + 'value/vector.py'),
    ('Transformation', SF + 'value/transformation.py'),
    ('ShortcutField', SF + 'field.py')]),
 P('C08', 'A gradient is the map from position to colour it was given',
   'A gradient given as a map of two or more positions to colours contains '
   'exactly those positions with those colours, whatever order they came '
   'in, and stores them in order of position; so does its reloaded XML. '
   'Setting the colour at one position leaves the others. A gradient with '
   'fewer than two colours is refused with ValueError. Gradients are equal '
   'exactly when their positions and colours are.',
   ['inputs', 'histories'],
   'every set of positions, in every order, with every colour',
   'the tests build two gradients with the same two positions',
   [SF + 'value/gradient.py'],
   [('Gradient', SF + 'value/gradient.py')]),
 P('C09', 'A timeline is a map from instants to waypoints, in time order',
   'After any sequence of setting, adding, merging and deleting waypoints, '
   "iterating a value's timeline gives exactly the waypoints a map from "
   'instants would hold, in order of time, and looking up an instant (as '
   'a number, text or T; negative counts from the end) gives the waypoint '
   'set there or KeyError. Adding a waypoint where there is one already is '
   'refused with ValueError and merging replaces it; deleting the last '
   'waypoint leaves an unanimated value with the contents that waypoint '
   'had. Waypoints of another type of value are refused with TypeError. A '
   'file may list waypoints in any order.',
   ['inputs', 'histories'],
   'every sequence of operations at every set of instants',
   'histories: the tests perform single operations at fixed frames',
   [SF + 'value/value.py'],
   [('Timeline', SF + 'value/value.py'),
    ('Value._waypoints, Value._set_waypoints', SF + 'value/value.py')]),
 P('C10', 'Animating and de-animating a value keeps its contents',
   'Making a value animated gives it one waypoint, at time zero, with the '
   'contents it had; making it unanimated gives it the contents of its '
   'earliest waypoint, and no timeline. Doing either twice is the same as '
   'doing it once, in or out of a document, for every type of value (of a '
   'transformation, its parts), and nothing else in the layer changes.',
   ['inputs', 'histories'],
   'every type of value, every contents, every history of toggling',
   'the tests toggle three values once each',
   [SF + 'value/value.py'],
   [('Value._set_animated', SF + 'value/value.py')]),
 P('C11', 'A waypoint keeps its time, value and interpolations',
   'The interpolations of a waypoint can be given by their own names or by '
   'the names the Synfig interface uses (auto is tcb, halt is ease), and '
   'are read and saved under their own names; "undefined" and any other '
   'text is refused with ValueError, leaving the old one. A waypoint '
   'stored in a timeline and read again, also after saving, has the same '
   'time, value, and interpolations, each on its own side. Waypoints are '
   'ordered by time.',
   ['inputs', 'configurations'],
   'every pair of interpolations, every text, time and value',
   'the tests cover some of the names on one side at one time',
   [SF + 'value/value.py'],
   [('Waypoint', SF + 'value/value.py'),
    ('INTERPOLATION_TYPES', SF + 'value/value.py')]),
 P('C12', 'Layers stay in the order in which they were put',
   'Appending a layer to a group or an animation puts it after all the '
   'others, inserting one at an index puts it immediately before the '
   'layer which was there, and no other layer moves; indexing, iterating, '
   'children and length agree with one another, and saving and reloading keeps '
   'the order. Every layer knows the group it is in and how deep it is. '
   'Anything but a layer is refused with TypeError, and layers which '
   'are not groups refuse to hold others.',
   ['inputs', 'histories'],
   'every sequence of appends and inserts',
   'histories: the tests append once or twice to one group',
   [SF + 'layer/group.py', SF + 'layer/layer.py', SF + 'value/canvas.py'],
   [('Group.append, Group.insert', SF + 'layer/group.py'),
    ('Group._get_children', SF + 'layer/group.py'),
    ('Layer.parent, Layer.tag_depth', SF + 'layer/layer.py')]),
 P('C13', 'Searching finds exactly the matching layers, in document order',
   'find_all returns, each once, exactly the layers inside a group which '
   'match: those of the named type (as a name in any case and with or '
   'without underscores, or as a class), those whose field has the given '
   'value, all for True, none for False, those a function accepts; only '
   'immediate children if it is not recursive. find returns the first of '
   'them or None. Layers without the field, or where it is animated, do '
   'not match, and searching changes nothing.',
   ['inputs', 'configurations'],
   'every tree of layers, every criterion',
   'the tests search two fixed files for a few descriptions',
   [SF + 'layer/layer.py', SF + 'util.py'],
   [('Layer.find_all', SF + 'layer/layer.py'),
    ('Layer.find', SF + 'layer/layer.py')]),
 P('C14', 'Setting one field of a layer changes that field and nothing else',
   'For every type of layer, a field which is set, by attribute or by '
   'name, reads back as it was set, by attribute and by name; every other '
   'field of the layer, every other layer of the document, and the layer '
   "a value was copied from, are unchanged. A group's own parameters are "
   'distinct from those of the layers inside it. An unknown name is '
   'refused with KeyError, and so is a value of another type, with '
   'TypeError.',
   ['inputs', 'histories', 'configurations'],
   'every type of layer, every field, every value',
   'the tests set a few fields of a few layers and look only at those',
   [SF + 'layer/layer.py', SF + 'field.py', SF + 'layer/'],
   [('Layer.__getitem__, Layer.__setitem__', SF + 'layer/layer.py'),
    ('ParamTagField, TagAttrField, DescField', SF + 'field.py')]),
 P('C15', 'A type name finds its own class, whatever its case or underscores',
   'The class which handles a type of layer or value is found by its name '
   'in any mixture of case and underscores, is always the same one, and '
   'different types never share one; an unknown name is refused with '
   'KeyError. A tag is read as the class for its type, and a new object '
   'of each class makes a tag which is read as that class again.',
   ['inputs', 'configurations'],
   'every spelling of every name',
   'the tests look up a few names in one spelling',
   [SF + 'registry.py', SF + 'util.py', SF + 'layer/', SF + 'value/'],
   [('Registry', SF + 'registry.py'),
    ('normalise_synfig_layer_type_name', SF + 'util.py'),
    ('Layer.from_tag', SF + 'layer/layer.py'),
    ('Value.from_tag', SF + 'value/value.py')]),
 P('C16', 'Saving and loading again gives the same animation',
   'An animation which is saved, in either file format, and loaded from '
   'there has the same layers, fields, timelines and attributes with the '
   'same contents; the extension of the name given decides the format of '
   'a saved file, and the contents alone the format of a loaded one. A '
   'save which is refused or fails leaves an existing file and the '
   'animation as they were, and later saves with no name go where the '
   'last successful load or save was, in the same format.',
   ['inputs', 'histories', 'fault_sequences'],
   'every contents, every name, every sequence of saves, a failure of any '
   'of them',
   'the tests save one unmodified animation per format',
   [SF + 'animation.py', SF + 'format.py'],
   [('Animation.save', SF + 'animation.py'),
    ('Format.from_filename', SF + 'format.py'),
    ('Sif, Sifz', SF + 'format.py')]),
 P('C17', 'A refused assignment leaves the document exactly as it was',
   'When assigning to a value, a field, a timeline or an interpolation '
   'raises an exception, the document afterwards is exactly what it was '
   'before, for every type of value and whatever was assigned.',
   ['inputs', 'configurations'],
   'every type of value, animated or not, every unsuitable object',
   'the tests check that errors are raised and not what is left behind',
   [SF + 'value/', SF + 'field.py', SF + 'layer/layer.py'],
   [('value setters', SF + 'value/'), ('fields', SF + 'field.py')]),
 P('C18', 'bywords shows every word at its own time, in order',
   'A subtitle whose text is that of the text layers of a group called '
   'bywords (letter case and punctuation apart) makes each of its words '
   'appear exactly once and in order, none before the subtitle begins or '
   'after it ends, with times which never go backwards; its words share '
   'its time in proportion to their letters. Each step shows one word '
   'more of the text layer, or in letters mode one letter more, and keeps '
   'showing what it showed until then; before the first, the layer shows '
   'nothing. Other subtitles, layers and groups are left alone. The '
   'bywords program does this to the file it is given, in place, with '
   'the subtitles it is given or those of the same name.',
   ['inputs'],
   'every text of subtitles, every start and end time',
   'the tests run one subtitle file',
   ['bywords/bywords.py', 'bywords/adjust.py'],
   [('bywords', 'bywords/bywords.py'), ('adjust', 'bywords/adjust.py')]),
 P('C19', 'The keyframes of an animation are those in its file',
   "An animation's keyframes are exactly those in the file, in that order, "
   'each with its time, name and whether it is active; their number is the '
   'number of them; and they follow the document if it is changed.',
   ['inputs'],
   'every number of keyframes, times, names and flags',
   'the tests read one file with three keyframes',
   [SF + 'keyframe.py', SF + 'animation.py'],
   [('Keyframe, Keyframes', SF + 'keyframe.py')]),
 P('C20', 'Attributes of an animation read back as they were set',
   'Every attribute of an animation which is set (size, resolution, '
   'gamma, frame rate, end time, view box, background, description and so '
   'on) reads back as that value, at once and after saving and reloading, '
   'is stored under the name Synfig uses for it, and leaves all the '
   'others as they were.',
   ['inputs', 'histories'],
   'every attribute and every value',
   'the tests read attributes of fixed files and set two',
   [SF + 'animation.py', SF + 'field.py'],
   [('TagAttrField, NamedChildField', SF + 'field.py'),
    ('TagTimeAttrField', SF + 'animation.py'),
    ('Animation', SF + 'animation.py')]),
 P('C21', 'A new layer of any type is complete, readable and independent',
   'A new layer of every type has the name and version Synfig uses for '
   'it, has every one of its parameters exactly once and with its default '
   'value, and can be put into an animation, saved and loaded again with '
   'the same contents. Two new layers share nothing: changing one does '
   'not change the other, nor the defaults of later ones.',
   ['configurations', 'histories'],
   'every type of layer, every field, every change',
   'the tests construct a handful of types',
   [SF + 'layer/', SF + 'field.py'],
   [('Layer._construct_empty_tag', SF + 'layer/layer.py')]),
 P('C22', 'The template replacer rewrites the named blocks and nothing else',
   'Given replacement texts, every block of a source file which is named, '
   'or which is unnamed and follows a class of that name, has exactly that '
   'text, indented as the block is and without spaces at the ends of lines; '
   'every other line of the file is unchanged (but the end of a block is '
   'lined up with its beginning), and doing it again changes nothing; a '
   'file with nothing to replace is not changed at all. A file with an '
   'unfinished, nested, unopened or unnameable block is refused with '
   'ValueError '
   'and not changed at all. Handling all files does this to every Python '
   'file of the package, and to no other file.',
   ['inputs', 'histories'],
   'every file, every arrangement of blocks, every text',
   'there are no tests of it at all',
   [SF + 'template/replacer.py'],
   [('Replacer.handle', SF + 'template/replacer.py')]),
 P('C23', 'Looking at a document changes nothing in it',
   'Reading anything of a document (layers, fields, values, timelines, '
   'waypoints, keyframes, attributes, times which refer to it), comparing, '
   'printing, counting, iterating or searching it, and looking for what '
   'is not there, leaves the document exactly as it was: the same tags '
   'with the same contents; loading a file does not change the file.',
   ['inputs', 'configurations'],
   'every type of layer, every field and contents, every way of reading',
   'the tests look at what reading returns and not at what it leaves',
   [SF + 'layer/', SF + 'value/', SF + 'field.py', SF + 'animation.py',
    SF + 'keyframe.py', SF + 't.py'],
   [('fields', SF + 'field.py'), ('Value, Timeline', SF + 'value/value.py'),
    ('Layer.find_all', SF + 'layer/layer.py'),
    ('Animation', SF + 'animation.py')]),
 P('C24', 'However a layer or value is reached, it is the same one',
   'A layer reached in any way (kept from when it was made, by index, '
   'iteration or children, by searching, as the parent of another) and a '
   'value reached in any way (by attribute, by name, among the items, '
   'through a shortcut) are views of the same thing in the document: a '
   'change made through one of them is seen through all of the others at '
   'once, whether they were reached before the change or after it, and '
   'however often they were looked at.',
   ['inputs', 'histories', 'configurations'],
   'every two ways of reaching it, every change, in every order',
   'the tests read through the object they changed, once',
   [SF + 'layer/', SF + 'value/', SF + 'field.py'],
   [('Layer.from_tag, Layer.parent', SF + 'layer/layer.py'),
    ('Group.children', SF + 'layer/group.py'),
    ('ParamTagField, ShortcutField', SF + 'field.py'),
    ('Value.from_tag', SF + 'value/value.py')]),
 P('C25', 'The Python expression for a value recreates it',
   'as_python_expression() of a value which is not animated (and, for a '
   'time, is not in seconds) is a Python '
   'expression which, given to the constructor of its class, makes a value '
   'equal in every part to it: numbers to the last digit, texts with '
   'quotes, backslashes and newlines, vectors, colours, gradients, '
   'transformations; blend methods by their names if they have one. '
   'Asking for it again gives the same.',
   ['inputs'],
   'every type of value, with all numbers and texts of a range',
   'the tests never evaluate an expression',
   [SF + 'value/'],
   [('as_python_expression', SF + 'value/')]),
]

NOTE = ('All paths of the real functions (rewritten from /repo\'s current '
        'source at every run) are explored with the inputs as symbolic '
        'variables; z3 decides every assertion on every path for all values '
        'within the bounds in evidence/{id}.json, which also lists what was '
        'left out. Every path is also run natively with a model of its '
        'condition. Trusts: z3, the models of str, int, float, re, dict and '
        'set operations in symex (validated by running the repository\'s '
        'tests on the rewritten code, and on every path), and bs4/lxml, '
        'which run concretely or on symbolic attribute texts. Floats are '
        'exact reals on a binary grid, so rounding is decided only where '
        'it is modelled (formatting and parsing of decimals).')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
            checks.append({
                'property': i,
                'quick_cmd': f'python3-vt check.py {i}',
                'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
                'evidence_file': f'evidence/{i}.json',
                'technique': 'symbolic execution of the real Python code '
                             '(AST rewriting), assertions decided by z3',
                'level': 'model_checking',
                'level_note': NOTE.format(id=i)})
        else:
            na.append({'property': i, 'reason': 'not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
