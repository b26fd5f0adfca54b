#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

prop("C01", "Rendering an untransformed template reproduces the document",
 "Rendering a template loaded from markup and not transformed gives back the same document: the same tags, names (letter case kept), attributes in order with their exact value or lack of one, text, comments, doctype, and raw contents of script, style, title and textarea, character for character, with whatever formatting options it is written. Only spelling that carries no information may differ: white space between the parts of a tag, a space before the slash of a self-closed tag, the dropped slash of a void tag, and the case of the doctype keyword.",
 ["inputs"], "every input the parser accepts",
 "The unit tests round-trip three tiny documents; attribute values, raw text, comments, unusual spelling, non-ASCII text and large documents are never compared.",
 ["src/parse.rs", "src/input.rs", "src/event.rs", "src/template.rs", "src/text/encoded.rs"],
 [("event-by-event parser that stores source slices verbatim", "src/parse.rs Iter/parse"), ("Display of events and attributes", "src/event.rs"), ("raw text mode", "src/parse.rs parse_raw_data, mode_for_tag")],
 ["Template::from_str", "Display of Template"])

prop("C02", "Rendered output is accepted again and means the same document",
 "The rendering of any template - loaded from markup, created from a valid element name, or produced by a successful transformation that leaves the raw contents of script, style, title and textarea elements in place, unrepeated, and adds only text to them - is accepted by the parser. Loading it yields a template that renders to exactly the same output, and for a template loaded from markup it compares equal to that template.",
 ["inputs", "programs"], "every template obtainable through the public API (loading, creation, transformation), under that restriction on raw text elements",
 "No test ever parses what was rendered; the names, values and texts that can be put into a template through the API are unbounded.",
 ["src/event.rs", "src/parse.rs", "src/text/encoded.rs", "src/text/identifier.rs", "src/template.rs"],
 [("name validation", "src/text/identifier.rs validate"), ("encoding of text", "src/text/encoded.rs"), ("balanced output of every modifier", "src/modifier")],
 ["Template::from_str on Display output", "Template ==" ])

prop("C03", "Exactly the well-formed documents are accepted",
 "Loading succeeds exactly when every tag, comment and doctype is complete, the doctype is html, tag and attribute names are valid, attribute values are double-quoted, and each opened element that is neither void nor self-closed is closed, properly nested, by a closing tag of the same name ignoring ASCII case; inside script, style, title and textarea only the matching closing tag ends the text. Any other input is rejected with the error kind, names and reason describing the first problem met when reading from the start.",
 ["inputs"], "every UTF-8 string",
 "The parser has no tests of rejection except one stack limit; malformed inputs form an unbounded set.",
 ["src/parse.rs", "src/input.rs", "src/text/identifier.rs", "src/template.rs"],
 [("recursive parser functions", "src/parse.rs try_parse_*"), ("stack of open elements", "src/parse.rs Iter::next")],
 ["Template::from_str result"],
 state=[("stack", "open elements with their locations", "src/parse.rs Iter")])

prop("C04", "Parse errors point at the offending place",
 "Every parse error carries the true position of what it documents: 1-based line, 1-based column counted in characters, and 0-based byte offset, consistent with each other and with the input. For unfinished tags, comments and doctypes this is where they start, for bad or missing names and values where those stand, and for mismatched, unexpected or missing closing tags the places of the tags involved, each paired with its own name; the error message tells the same names and positions.",
 ["inputs"], "every rejected input, of any length, line structure and alphabet",
 "Locations are only tested for three direct calls of an internal function; no test looks at the location in an error, or at its message.",
 ["src/location.rs", "src/input.rs", "src/parse.rs"],
 [("Location::with_consumed", "src/location.rs"), ("location choice per error", "src/parse.rs"), ("Display of Error", "src/parse.rs")],
 ["fields of parse::Error", "Display of parse::Error"])

prop("C05", "Configured input limits are enforced exactly",
 "With a maximum input length, an input is refused for its length exactly when it has more bytes than the limit, whether given as a string or a file; with a maximum stack depth, parsing is refused exactly at the first opening tag that would make more elements open at once than the limit, naming that tag, its place and the limit. Inputs within the limits, and any input when no limit is set, load exactly as without limits.",
 ["inputs", "configurations"], "all inputs x all limit values, including 0, the exact boundary and unlimited",
 "One test case per limit kind exists; boundaries, zero, void/self-closed tags, and the file path are untested.",
 ["src/parse.rs", "src/template.rs"],
 [("length check", "src/template.rs from_str, from_file"), ("depth check on opening tags", "src/parse.rs Iter::next"), ("Options builder", "src/parse.rs Options")],
 ["Template::from_str, Template::from_file results"])

prop("C06", "Loading a file is the same as loading its text",
 "Loading a template from a file gives exactly the result - equal template or same error - that loading the file's whole content as a string gives, regardless of file size and of where characters fall in the read buffer. A file that is not valid UTF-8 gives a decoding error, one that cannot be opened or read the corresponding error, and every file error names the path given.",
 ["inputs", "fault_sequences"], "all file contents (valid and invalid UTF-8, any length), missing files, unreadable ones, directories",
 "No test loads a file at all; the interplay of buffer boundaries with multi-byte characters needs files larger than the buffer.",
 ["src/template.rs"],
 [("chunked reading and UTF-8 decoding", "src/template.rs from_file")],
 ["Template::from_file result, compared with Template::from_str"])

prop("C07", "Plain text can never turn into markup",
 "Text given as unencoded - static or dynamic, as content or as an attribute value, directly, as a content or value object, or joined to an existing attribute value - appears in the output so that an HTML reader decodes it to exactly the given characters, and it never adds, ends or alters any tag, attribute, comment or entity. Text is encoded exactly once on every path, all ways of supplying the same text produce the same output, and numbers appear in plain decimal. (Not covered: text put inside script or style, where HTML knows no encoding, and text put right behind a character reference that the template itself leaves unfinished.)",
 ["inputs", "programs"], "all Unicode strings and integers x every way of supplying them x every operation that inserts them",
 "Tests insert only letters and digits; no test contains a character that needs encoding.",
 ["src/text/encoded.rs", "src/text/data.rs", "src/text/value.rs", "src/content.rs", "src/event.rs", "src/text/deferred.rs"],
 [("encode_str_optional", "src/text/encoded.rs"), ("Data/Value constructors", "src/text/data.rs, src/text/value.rs"), ("IntoStream / IntoValue", "src/content.rs, src/text/value.rs")],
 ["Display of Data, Value, EncodedStr and of transformed templates"])

prop("C08", "Names are validated by one rule and compared ignoring ASCII case",
 "A name is accepted, by every way of supplying one, exactly when it is non-empty ASCII without white space and without any of = \" ' / > < & , ; (an element name also must not begin with !); a refusal tells the first reason that applies in the order empty, non-ASCII, white space, forbidden character, with the first such character. An accepted name is rendered verbatim and is read back as that same name, and two names are equal exactly when they differ at most in ASCII letter case.",
 ["inputs"], "all strings as names of elements, attributes, classes and ids",
 "Tests try the empty name and '/' only.",
 ["src/text/identifier.rs", "src/input.rs", "src/parse.rs", "src/template.rs", "src/select.rs"],
 [("validate", "src/text/identifier.rs"), ("identifier_eq", "src/text/identifier.rs"), ("take_word terminators", "src/input.rs")],
 ["Identifier constructors, ==, Display; Template::with_element; attribute operations; re-parsing"])

prop("C09", "Selectors match exactly the elements they describe",
 "A selector matches an element exactly when the element has the required tag name, an id attribute with exactly that value, and every required class among the white-space separated values of its class attributes, all ignoring ASCII letter case; a static selector tag#id.class... is the conjunction of its parts, and no selector matches text, comments, doctypes or closing tags. An empty or ill-formed selector yields an error naming the invalid part (and class index) and its reason instead of matching anything.",
 ["inputs"], "all elements x all selectors of every kind",
 "A dozen fixed examples; no duplicate attributes, partial names, unusual separators, odd characters, or events other than tags.",
 ["src/select.rs", "src/event.rs", "src/text/identifier.rs"],
 [("Selector impls", "src/select.rs"), ("has_id / has_class", "src/event.rs"), ("static selector parsing", "src/select.rs into_selector")],
 ["Selector::matches on events of a template stream", "IntoSelector results", "select transforms"])

prop("C10", "A selection transforms exactly the elements in its scope",
 "select visits, in document order, every matching element that is not inside another one it visited; select_direct only those at the top level of its stream; the subselect forms do the same within the contents of the current element, and the once forms stop after the first. Each visited element is handed over whole and as a single element, is replaced by what the transformation makes of it, and everything else in the stream comes out unchanged and in its place.",
 ["inputs", "programs"], "all documents x all selectors x all eight selection forms, nested and chained in any way",
 "Tests cover a handful of two-level documents; nesting of same-named elements, selections inside selections and what follows a visited element are unbounded.",
 ["src/modifier/select/mod.rs", "src/modifier/select/element.rs", "src/modifier/select/select_contents.rs", "src/modifier/select/select_any.rs", "src/modifier/select/select_direct.rs", "src/modifier/select/subselect_any.rs", "src/modifier/select/subselect_direct.rs", "src/modifier/mod.rs"],
 [("Select / SelectOnce state machines", "src/modifier/select/mod.rs"), ("SingleElement nesting level", "src/modifier/select/element.rs"), ("CurrentContent end detection", "src/modifier/select/select_contents.rs"), ("Level", "src/modifier/mod.rs")],
 ["output of Template::transform"],
 state=[("level", "depth of the scan", "src/modifier/mod.rs Level"), ("source", "stream shared between scan and visited element", "src/modifier/select/mod.rs Shared")])

prop("C11", "Content operations change exactly what they name",
 "append, prepend, replace and remove put the given content after, before or in place of the current stream, and their _contents forms do so inside the current element, keeping its tag and attributes; all other content stays as it was and in order. A self-closed element whose contents are transformed becomes an opening and a closing tag around the result; a void element has no contents, so a contents operation leaves it as it is.",
 ["inputs", "programs"], "all documents x all content (templates, text, numbers, created elements, results) x all sequences of operations",
 "Tests insert one short string into one fixed element per operation; void and self-closed elements appear once.",
 ["src/modifier/append.rs", "src/modifier/prepend.rs", "src/modifier/replace.rs", "src/modifier/remove.rs", "src/modifier/mod.rs", "src/modifier/select/select_contents.rs", "src/content.rs"],
 [("Combine", "src/modifier/mod.rs"), ("Expand", "src/modifier/mod.rs"), ("SelectContent", "src/modifier/select/select_contents.rs")],
 ["output of Template::transform"])

prop("C12", "Attribute and class operations edit only what they name",
 "Attribute, class and id operations change only attributes with the given name (ignoring ASCII case), and leave the tag, the order and exact values of all other attributes, and the contents alone. Add appends a further attribute; set leaves exactly one of that name, at the end; replace-if-exists does the same only if one was there; remove deletes all; add-to joins separator and value to the first one, or creates it; remove-class drops just that class from every class attribute and drops an attribute left without classes.",
 ["inputs", "programs"], "all elements (any attributes, duplicates, missing values, void/self-closed/normal) x all sequences of operations",
 "Tests use at most three attributes and one operation at a time; duplicates, letter case, repeated and combined operations are unbounded.",
 ["src/event.rs", "src/modifier/attribute.rs", "src/transform.rs"],
 [("Attributes methods", "src/event.rs"), ("attribute_step", "src/modifier/attribute.rs")],
 ["output of Template::transform"])

prop("C13", "Repetition emits one transformed copy per item, in order",
 "repeat emits, for each item of the iterator and in its order, one copy of the original stream transformed with that item, and repeat_contents does so inside the element; no item is skipped, duplicated or taken from the iterator before or after its turn is due, and no copy influences another. An empty iterator yields nothing (an empty element for repeat_contents); the or_else forms then apply the fallback once to the original stream instead, and never otherwise.",
 ["inputs", "programs"], "all streams x all finite iterators x all per-item and fallback transformations, nested repetition included",
 "Tests repeat over two integers and over an empty range, and never the or_else forms except in one doc example.",
 ["src/modifier/repeat.rs", "src/template.rs"],
 [("Collect/Next/Emit state machine", "src/modifier/repeat.rs"), ("template re-emission", "src/template.rs TemplateStream")],
 ["output of Template::transform", "calls of iterators and builders"],
 state=[("template", "collected original, re-emitted per item", "src/modifier/repeat.rs State")])

prop("C14", "Conditional and wrapping combinators add nothing of their own",
 "apply_if, apply_if_else, apply_with_option and apply_with_result run exactly the one branch the condition calls for, once, with the value given, and the result is as if that branch (or, without one, nothing) had been written directly. apply, boxing in all forms, apply_as_template, and passing content or selectors by value, reference, shared pointer or successful result do not change the outcome of a transformation.",
 ["inputs", "programs"], "all transformations x all ways of wrapping them",
 "Each combinator is tested on one element with one transformation.",
 ["src/transform.rs", "src/modifier/apply.rs", "src/modifier/mod.rs", "src/content.rs", "src/select.rs", "src/event.rs"],
 [("ApplyEither", "src/modifier/apply.rs"), ("TemplateApply", "src/modifier/apply.rs"), ("Fallible", "src/modifier/mod.rs"), ("Stream for Box/Rc", "src/event.rs")],
 ["output of Template::transform", "calls of builders"])

prop("C15", "Chaining transformations equals applying them one after another",
 "Chaining transformations within one transform call gives the same result as performing each in its own transform call on the previous result, and as doing each to the rendered and re-loaded output where rendering is faithful. A transformation that does nothing, or selects nothing, leaves a template equal to the original.",
 ["programs", "inputs"], "all pairs and sequences of transformations x all documents",
 "No test compares chained with separate transformations; laziness makes the chained form interleave the steps event by event.",
 ["src/transform.rs", "src/template.rs", "src/modifier"],
 [("pull-based stream composition", "src/modifier"), ("Template::from_stream", "src/template.rs")],
 ["Template::transform results and equality"])

prop("C16", "Transforming never changes its inputs",
 "A template, and every template, text or value inserted into another, renders and compares the same before and after any number of transformations in which it took part, successful, failed or abandoned by a panic in user code, and however often it was inserted. The same transformation of the same template always gives the same result.",
 ["programs", "histories"], "all sequences of transformations over a set of templates and values that share storage",
 "Tests use each template once and never look at the source afterwards; storage is shared between copies, so an in-place edit would show only in later uses.",
 ["src/template.rs", "src/event.rs", "src/text/deferred.rs", "src/text/encoded.rs", "src/modifier/repeat.rs"],
 [("Rc-shared event vector", "src/template.rs"), ("Rc-shared attributes", "src/event.rs Attributes"), ("copy-on-write text buffers", "src/text/deferred.rs")],
 ["Display and == of all inputs before and after"],
 state=[("events", "shared vector of events", "src/template.rs Template"), ("items", "shared vector of attributes", "src/event.rs Attributes")])

prop("C17", "Errors stop the transformation and reach the caller unchanged",
 "When a transformation meets an invalid name or selector, failing content, a failing nested transformation or a malformed stream, it returns that very error - same kind, same details, still reachable as the underlying cause - and never a template with part of the output; of several erroneous parts it is the one whose place in the output comes first. An erroneous part that is never used (its element does not occur, its branch or item is not taken) does not make the transformation fail, and templates stay usable after a failure.",
 ["programs", "fault_sequences"], "all transformations x every position at which one error is placed x every kind of error",
 "Tests check one invalid empty name per operation, directly at the matched element; no nesting, no failing content, no errors after partial output.",
 ["src/modifier/mod.rs", "src/event.rs", "src/content.rs", "src/transform.rs", "src/select.rs", "src/template.rs"],
 [("Fallible", "src/modifier/mod.rs"), ("State::step", "src/modifier/mod.rs"), ("From impls and cause()", "src/event.rs, src/select.rs, src/template.rs")],
 ["result of Template::transform", "cause chain of the error"])

prop("C18", "Equality follows content, not history",
 "Two texts, values or templates are equal exactly when they consist of the same content: for templates the same sequence of markup items with equal names (ignoring ASCII case), attributes and texts. How they came to be - parsed, static, dynamic, encoded, copied, transformed - makes no difference, and clones equal their originals.",
 ["inputs", "histories"], "all pairs of texts, values and templates, built in any way",
 "Tests compare events only within one test of an internal stream and always built the same way.",
 ["src/text/deferred.rs", "src/text/encoded.rs", "src/text/data.rs", "src/text/value.rs", "src/text/identifier.rs", "src/event.rs", "src/template.rs"],
 [("PartialEq of the text types", "src/text"), ("PartialEq of events and templates", "src/event.rs, src/template.rs")],
 ["== on Data, Value, Template, Event"])

prop("C19", "No input or transformation crashes, hangs, leaks or corrupts memory",
 "Loading any string and running any finite transformation, including with user-supplied selectors and streams that are wrong in any way and with user code that panics, terminates with a result or an error (or that panic): it never panics on its own, never overruns the call stack however deep the document is nested, never accesses memory invalidly, and keeps no memory once all results are dropped.",
 ["inputs", "programs", "fault_sequences"], "all strings as markup, all programs of operations, arbitrary user streams/selectors, nesting depth up to memory",
 "Tests run tame inputs only, under no instrumentation.",
 ["src/parse.rs", "src/input.rs", "src/modifier", "src/event.rs", "src/text"],
 [("iterative parser", "src/parse.rs Iter"), ("char-boundary slicing", "src/input.rs"), ("RefCell-shared streams", "src/modifier/select"), ("text buffers (tendril, unsafe code)", "src/text")],
 ["process exit, panics, allocator, AddressSanitizer, Miri"])

prop("C20", "Work and memory grow no faster than the input",
 "Loading and rendering take time and memory at most proportional to the length of the input, whatever the input consists of and whether it is accepted or refused, and a selection or a content or attribute operation adds work at most proportional to the size of the stream it runs over.",
 ["inputs"], "all families of inputs, as their length grows",
 "Tests contain only short inputs, where a quadratic scan costs nothing.",
 ["src/input.rs", "src/parse.rs", "src/event.rs", "src/template.rs", "src/modifier"],
 [("single forward scan", "src/input.rs, src/parse.rs"), ("streaming modifiers", "src/modifier")],
 ["instructions executed (valgrind) and bytes allocated, as functions of input size"])

prop("C21", "Inserted streams are consumed in order, each event exactly once",
 "A stream supplied by the user as content is read from its start, each of its events is emitted exactly once, in order and unbroken, at the place of insertion, and it is never asked again once it has reported its end or an error; each supplied stream is used for one insertion only. A user-supplied iterator is asked for one item at a time until its end and not again. Of elements, a user-supplied selector is asked about exactly those in its scope (for the once forms up to its first match), each once, in document order, and its answer is followed.",
 ["programs", "histories"], "all transformations with user-supplied streams (any length, ending or failing at any point) and selectors",
 "Tests never supply a stream or selector of their own, so the protocol towards them is unobserved.",
 ["src/modifier/mod.rs", "src/event.rs", "src/content.rs", "src/modifier/select/mod.rs", "src/modifier/remove.rs"],
 [("State::step drops finished streams", "src/modifier/mod.rs"), ("Combine", "src/modifier/mod.rs"), ("Select scanning", "src/modifier/select/mod.rs")],
 ["recorded calls to user-supplied Stream and Selector objects", "output of Template::transform"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
