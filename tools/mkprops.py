"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "sangfroid/t.py"; V = "sangfroid/value/value.py"; L = "sangfroid/layer/layer.py"
G = "sangfroid/layer/group.py"; F = "sangfroid/field.py"; A = "sangfroid/animation.py"

p("C01", "Time specifications denote exactly the documented instant",
  "A text specification with at most one part each in hours, minutes, seconds and frames (in any order, with or without spaces, whole or fractional) denotes (3600h+60m+s) times the document's frame rate plus f frames, a minus sign on its largest non-zero unit reversing the whole; a plain number n>=0 denotes n frames, and n<0 denotes end minus begin plus 1 plus n frames; a time made from another time is that same time. "
  "Everything else is refused with ValueError: empty text, unknown or repeated units, text that is not a finite number, a minus on a part below a larger non-zero part, a document frame rate that is not positive, and (when no document is given) negative numbers or any hours, minutes or seconds part unless the whole is zero. "
  "The time also reports the same instant in seconds (frames divided by frame rate) and as an integer (frames truncated).",
  ["inputs"], "every text, number and frame rate, with or without a document",
  "test_t samples about fifty specifications at 24 fps; the claim is over every number, order, sign, spacing and frame rate, and over every malformed text.",
  [T], [("T.__init__", T), ("T._parse_time_spec", T), ("TIMESPEC_RE", T), ("_canvas_root", T)],
  observe=["T(...).frames", "T(...).seconds", "int(T(...))"])
p("C02", "Writing a time as text and reading it back gives the same time",
  "For every time, with or without a known frame rate, before or after the start, parsing its text at the same frame rate gives a time within one millionth of a frame of it, and exactly it when its frame count and frame rate are whole numbers. "
  "The text never needs more than hours, minutes, seconds and frames parts, and is accepted wherever a time specification is.",
  ["inputs"], "every frame count and every positive frame rate",
  "test_t checks the text of about forty times; round-tripping must hold for every magnitude, sign, fraction and frame rate.",
  [T], [("T.__str__", T), ("T._format_frames", T), ("T._parse_time_spec", T)], observe=["str(T)", "T(str(t), ref)"])
p("C03", "Times are totally ordered and hash consistently",
  "Any two times whose frame rates agree (equal, or at least one unknown, or at least one of the times is zero) compare exactly as their frame counts do under <, <=, >, >=, == and !=, equal times have equal hashes, and times compare with plain numbers as their frame counts do. "
  "Ordering or equating two non-zero times with different known frame rates raises ValueError.",
  ["inputs"], "every pair of times and every time/number pair",
  "Tests compare a time with its neighbours one frame away at one frame rate; they never mix known and unknown frame rates in sets or dicts.",
  [T], [("T._compare", T), ("T.__lt__/__eq__ + total_ordering", T), ("T.__hash__", T)], observe=["comparison operators", "hash()", "use as dict keys"])
p("C04", "A timeline is a time-sorted map from instants to waypoints",
  "Setting a timeline entry makes exactly that instant map to the given value (replacing what was there, and animating the value if it was not animated), leaves every other entry's instant, value and interpolations unchanged, and stores the entries in time order; looking an entry up by any notation for its instant (number, text, time object) finds it, and a missing instant raises KeyError. "
  "Deleting an entry removes exactly that one, and deleting the last one leaves the value un-animated and equal to the deleted entry's value. "
  "Length, iteration, keys, values and items always agree with that map.",
  ["inputs", "histories"], "every animated value of any supported type, any number of waypoints, every instant, every sequence of set/get/delete operations",
  "test_waypoint runs one fixed history of five colour waypoints in ascending order at 24 fps.",
  [V, T], [("Timeline.__setitem__/__getitem__/__delitem__/_ensure_fps/__iter__", V), ("Value._set_waypoints/_waypoints/_waypoint_tags", V)],
  state=[("animated tag contents", "the waypoints of the value, in document order", V)], observe=["value.timeline", "the <animated> tag"])
p("C05", "Bulk timeline updates are all-or-nothing",
  "Adding waypoints without overwriting either adds them all or, if any shares an instant with an existing waypoint, raises ValueError; adding with overwriting (or +=) replaces exactly the clashing ones; assigning a list, dict or another value's timeline makes the timeline hold exactly those waypoints; of several waypoints given for one instant the last counts; in each case all other waypoints are kept as they were and the result is in time order. "
  "Anything that is not a waypoint, or a waypoint holding a different type of value, is refused with TypeError. "
  "Whenever an update is refused the value is left exactly as it was.",
  ["inputs", "histories"], "every timeline, every list of waypoints, every position of a bad one",
  "Tests clash once on one fixed timeline, and never look at the value after a refused update.",
  [V], [("Timeline.add/__iadd__", V), ("Value.timeline setter", V), ("Value._set_waypoints", V)], observe=["value.timeline", "the value's tag after an exception"])
p("C06", "Turning animation on and off preserves the value",
  "Making an un-animated value animated gives it exactly one waypoint, at frame zero, holding the value it had, with no loss of precision; making an animated value un-animated leaves it holding the value of its first waypoint; doing either when it is already so changes nothing. "
  "This holds for numbers, booleans, angles, times, strings, colours, vectors and gradients, whether or not the value is part of a document, and nothing else in the document changes.",
  ["inputs", "histories"], "every value of those types, attached or not, every timeline",
  "Tests toggle one vector and one angle inside one document.",
  [V], [("Value._set_animated", V), ("Value.is_animated", V)], observe=["value.is_animated", "value.timeline", "value.value"])
p("C07", "Waypoints keep their time, value and canonical interpolations",
  "A waypoint accepts exactly the documented interpolation names, reports auto as tcb and halt as ease, and keeps all others as given; undefined or unknown names are refused with ValueError, values that are not library values with TypeError, animated values with ValueError. "
  "Writing a waypoint to XML and reading it back gives the same instant, interpolations and value, and changing the copy does not change the original. "
  "Waypoint XML with the wrong tag name, no value, several values, an animated value, a value of another type than its timeline's, or a bad time or interpolation is refused with ValueError.",
  ["inputs"], "every interpolation name, time, value and malformed waypoint tag",
  "Tests construct a handful of waypoints, and never a malformed waypoint tag.",
  [V], [("Waypoint.__init__/_check_interpolation_type/tag/from_tag", V), ("INTERPOLATION_TYPES", V)], observe=["Waypoint attributes", "Waypoint.tag"])
p("C08", "Scalar values read back as they were set",
  "A real, integer, boolean, angle, string or time value reads back what it was last set or constructed with (reals to ten decimal places, times to a millionth of a frame, everything else exactly), also when it was animated before and after the document is saved and reloaded, and setting it leaves it un-animated under its own type's tag. "
  "A value that cannot be converted to the type is refused with an exception and changes nothing.",
  ["inputs"], "every number, boolean, text and instant, on fresh, document-owned and animated values",
  "Tests set one boolean, one real, one string; no negative, large, tiny, empty or non-ASCII values, and never on an animated value.",
  ["sangfroid/value/simple.py", "sangfroid/value/string.py", V], [("Simple.value", "sangfroid/value/simple.py"), ("String.value", "sangfroid/value/string.py")], observe=["value.value", "value.tag"])
p("C09", "Colours and gradients read back as they were set",
  "A colour set from three or four numbers keeps each component to six decimal places (alpha defaulting to one), and one set from six or eight hex digits, with or without #, in either case, reads back as exactly those hex digits in lower case, with ff alpha omitted; other lengths are refused with ValueError leaving the colour as it was. "
  "A gradient set from a map of at least two positions to colours reads back as those colours at those positions (to six significant digits), in position order, setting one position changes only that one, and fewer than two positions are refused with ValueError leaving it as it was.",
  ["inputs"], "every component value, every hex string, every gradient map",
  "Tests use a few named colours and one three-stop gradient; all 2^32 hex strings and all component values must survive the rounding.",
  ["sangfroid/value/color.py", "sangfroid/value/gradient.py"], [("Color.value/as_tuple/__eq__", "sangfroid/value/color.py"), ("Gradient.value/__setitem__", "sangfroid/value/gradient.py")], observe=["Color.value", "Color.as_tuple()", "Gradient.value"])
p("C10", "Vectors and transformations read back as they were set",
  "A vector set from two numbers or a map reads back exactly those components (floats to ten decimal places) and no others, whatever it held before. "
  "Setting some parts of a transformation (offset, angle, skew angle, scale), through the transformation or through a group's shortcuts, changes exactly those parts and keeps the others, animated or not; unknown parts are refused with KeyError and nothing changes.",
  ["inputs", "histories"], "every pair of numbers, every subset of parts, every prior state",
  "Tests only read transformations, and construct three vectors; no test sets either on an existing document.",
  ["sangfroid/value/vector.py", "sangfroid/value/transformation.py", F], [("Vector.value", "sangfroid/value/vector.py"), ("Composite.value", "sangfroid/value/transformation.py"), ("ShortcutField", F)], observe=["X_Y.x/.y/as_tuple", "Transformation.get", "group.offset"])
p("C11", "A layer's parameters are its own",
  "Reading, testing or setting a parameter a layer has, by subscript or by attribute, acts on that layer's own parameter even when layers nested inside it have one of the same name, and changes nothing else in the document; listing a layer's parameters gives exactly its own. "
  "Setting a parameter to a value that belongs to another layer copies it and leaves the other layer intact, setting it to a value of another type is refused with TypeError, and an absent parameter raises KeyError (or AttributeError as an attribute).",
  ["inputs"], "every layer tree, parameter name and value",
  "The test files happen to have few nested duplicates and no test looks at anything but the parameter it set.",
  [L, F], [("Layer.__getitem__/__setitem__/__contains__/_find_param/_as_dict", L), ("ParamTagField", F)], observe=["layer[name]", "layer.name", "layer.keys()", "the document tree"])
p("C12", "Groups keep their layers in stacking order",
  "A group's children are its direct sublayers in the reverse of document order, its length is their number, and subscripting by integer picks from that sequence. "
  "Appending a layer makes it the last child, and inserting at an existing index puts it at that index; both keep the other children in order, move the very layer given (which then reports the group as its parent), and leave metadata and non-layer content in place.",
  ["inputs", "histories"], "every group, empty or not, nested or not, and every sequence of appends and inserts",
  "Tests append or insert into one document and check one resulting order.",
  [G, L], [("Group._get_children/children/append/insert/__getitem__/canvas_tag", G), ("Layer.__len__/parent", L)], observe=["group.children", "len(group)", "group[i]"])
p("C13", "Searching finds exactly the matching layers",
  "Searching a group returns, in document order and once each, exactly the sublayers (all descendants, or only direct children when asked not to recurse) that satisfy every criterion given: type by name ignoring case and underscores, type by class including subclasses, any field by equality, all, none, or an arbitrary predicate. "
  "Finding one returns the first of them or None; asking for more than one positional criterion, or for the same field twice, raises ValueError; searching changes nothing.",
  ["inputs"], "every layer tree and every combination of criteria",
  "Tests use one criterion at a time on two documents.",
  [L, G], [("Layer.find_all/find", L), ("Group._find_all_root", G)], observe=["find_all()", "find()"])
p("C14", "Names map to the right classes, and new layers are complete",
  "Looking a layer or value type up by name gives the class registered under that name whatever the case and underscores, and an unknown name raises KeyError. "
  "Creating a layer of any constructible type gives a layer with that type and version, active, rendered and without description, holding each of its type's parameters exactly once with its default value, and its XML is read back as a layer of the same class with the same parameters.",
  ["inputs", "configurations"], "every registered layer and value class, every spelling of its name",
  "Tests check one circle in full, and otherwise only that construction does not raise.",
  ["sangfroid/registry.py", "sangfroid/util.py", L, V], [("Registry", "sangfroid/registry.py"), ("normalise_synfig_layer_type_name", "sangfroid/util.py"), ("Layer._construct_empty_tag/from_tag", L), ("Value.from_tag", V)], observe=["Layer.from_tag", "Value.from_tag", "new layers' tags"])
p("C15", "Saving and reloading preserves the document in every format",
  "Saving an animation under a .sif name writes XML and under a .sifz name writes gzip-compressed XML, whatever the case of the extension, and reloading it (the format being recognised by content, not by name) gives an identical document, including non-ASCII text and regardless of locale; saving without a name uses the name last loaded from or saved to. "
  "Unknown extensions, unknown or empty contents, and saving a new animation without a name raise ValueError, and a refused save leaves the files, and the name that a save without one uses, as they were.",
  ["inputs", "configurations"], "every document, name, extension and prior format",
  "Tests save two small documents under two names each and compare only descriptions.",
  ["sangfroid/format.py", A], [("Format.from_filename", "sangfroid/format.py"), ("Sif/Sifz/Blank.save/main_file", "sangfroid/format.py"), ("Animation.save/__init__", A)], observe=["files on disk", "Animation(filename)"])
p("C16", "Layer and animation attributes mirror the document",
  "Reading a layer's active, exclude-from-rendering, description, type and version, or an animation's sizes, resolutions, gammas, view box, frame rate, begin and end times, background colour, name and description, gives the document's own value, or the documented default if it has none, and setting one makes it read back, changes nothing else, and survives saving; a layer's type cannot be set. "
  "An animation's frame count is the whole number of frames from begin to end plus one, and its keyframes are listed in document order with the document's times, names and activity.",
  ["inputs"], "every attribute, every value, present or absent",
  "Tests read most attributes of one document, where several coincide with the defaults.",
  [F, A, "sangfroid/keyframe.py"], [("TagAttrField/DescField/NamedChildField/TypeNameField/SynfigVersionField", F), ("Animation properties, TagTimeAttrField", A), ("Keyframe/Keyframes", "sangfroid/keyframe.py")], observe=["attribute access", "tag attributes", "animation.keyframes"])
p("C17", "Bywords reveals each word at its proportional time",
  "For a subtitle line matching a bywords group, the words (or letters) of its text layers appear cumulatively, layer by layer in the order the group lists its sublayers, the first at the line's start and each next one later by the line's duration times the share of letters in the one before it, so that all appear within the line's duration. "
  "Each affected text starts empty at frame zero unless its first word is due then, only text layers of matching groups are changed, lines that match no group are reported and change nothing, and running it again gives the same result.",
  ["inputs"], "every subtitle line, group and text",
  "The test checks the strings of one song, and no times at all.",
  ["bywords/bywords.py", "bywords/adjust.py"], [("BywordsGroup.matches", "bywords/bywords.py"), ("Bywords.__init__", "bywords/bywords.py"), ("adjust", "bywords/adjust.py")], observe=["text timelines after adjust()", "Bywords.words"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
