"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


prop('N01', 'Navigation either completes or changes nothing',
     'Navigating a document (assigning location, href or a URL component, assign, replace, reload, document or window location) either succeeds, after which the tree is exactly the one served for the requested URL, the location names that URL and every element belongs to the document, or it raises and leaves the tree, the location and every node\'s owner document exactly as they were. This holds whatever fault the transport or the content meets and at whatever point of the load. Once faults stop, repeating the navigation succeeds.',
     ['fault_sequences', 'histories'],
     'every history of navigations and edits, every transport or content fault (refused, DNS, TLS, HTTP error, timeout, reset, incomplete, truncated, undecodable or malformed body, missing file) at every request and byte offset',
     'The tests navigate only to URLs a healthy local server answers; no test makes a load fail, let alone after earlier navigations, so the old-tree/new-tree/location triple is never observed after a fault.',
     ['svgpy/window.py', 'svgpy/url.py', 'svgpy/utils.py'],
     [('Document.navigate', 'svgpy/window.py'), ('Location setters and _navigate', 'svgpy/url.py'),
      ('SVGDOMImplementation.parse / load', 'svgpy/window.py, svgpy/utils.py')],
     [('document element', 'the tree currently shown'), ('location URL', 'what the document claims to be showing')])

prop('N02', 'A failing style sheet fetch only loses that sheet',
     'When fetching an external style sheet (xml-stylesheet instruction, link element, or @import at any depth) fails in any way, computing styles or listing style sheets raises nothing and gives exactly the result the document would have if that sheet were empty. Nothing about the failure is remembered: the next computation after the fault stops gives the full result.',
     ['fault_sequences', 'histories'],
     'every set of style sheets and import graphs, every fault kind (connection, DNS, TLS, HTTP status, protocol, connect or read timeout, reset, incomplete or empty body, I/O error, missing file) on any sheet, interleaved with edits and recoveries',
     'Tests fetch sheets from a healthy server or a missing file; faults in the middle of a body, protocol errors, undecodable bodies and recovery afterwards are never exercised.',
     ['svgpy/css/__init__.py', 'svgpy/style.py', 'svgpy/utils.py'],
     [('CSSParser.parse error handling', 'svgpy/css/__init__.py'), ('get_css_style_sheets*', 'svgpy/style.py'), ('load', 'svgpy/utils.py')])

prop('N03', 'Computed styles follow the cascade over the sheets reachable now',
     'For every document, the inherited or computed value of an inherited property is the one given by the library\'s cascade: declarations of matching rules in style sheet order (instructions, then link and style elements in document order, with @import and @media contents in place; later wins), then the element\'s own presentation attribute, then its style attribute, then !important sheet declarations, then !important declarations of the style attribute, then inheritance (also for \'inherit\') and the initial value. Selectors, including combinators, are matched against the whole document. Import and media rules take effect only when their media query matches, relative import URLs are resolved against the URL of the sheet that contains them, and cyclic imports terminate. The result always reflects the current tree, attributes, served sheets and media environment.',
     ['histories', 'configurations'],
     'every generated site of documents, nested and cyclic imports, media-gated sheets and rules, and every history of edits, sheet replacement on the server, attribute changes and environment changes between queries',
     'Tests compute styles for a handful of fixed fixture files with at most one import level; import graphs (nested directories, cycles, diamonds) and histories of edits are out of reach of examples.',
     ['svgpy/style.py', 'svgpy/dom.py', 'svgpy/css/__init__.py', 'svgpy/window.py'],
     [('get_css_rules / flatten_css_rules / get_css_style', 'svgpy/style.py'), ('Element.get_inherited_style', 'svgpy/dom.py'), ('CSSParser @import', 'svgpy/css/__init__.py')])

prop('N04', 'Every opened resource is closed exactly when its load ends',
     'Every response the library opens (documents, linked sheets, imported sheets) has been closed by the time the call that opened it returns or raises, on success and on every fault path. No response is read after it was closed.',
     ['fault_sequences', 'schedules'],
     'every navigation and style computation, every fault kind and offset including errors raised by reading, decoding and parsing, and an interrupt or allocation failure raised while the response is read',
     'No test observes the response object, and a leaked connection changes no return value.',
     ['svgpy/utils.py', 'svgpy/css/__init__.py', 'svgpy/window.py'],
     [('load', 'svgpy/utils.py')])

prop('N05', 'Damaged style sheet text never breaks style computation',
     'For any style sheet text, including one truncated or corrupted at any byte, listing the style sheets and resolving the cascade (inherited style) of any element in the document terminates without raising. Rules that are complete before the damaged part keep the effect they have without the damage, and sheets other than the damaged one are unaffected.',
     ['fault_sequences', 'inputs'],
     'every truncation point and byte corruption of sheets that use every supported at-rule, delivered through every channel (style element, link, instruction, import)',
     'Tests parse well-formed sheets and a few hand-picked malformed values; they do not cut sheets at arbitrary bytes inside at-rules.',
     ['svgpy/css/__init__.py', 'svgpy/style.py', 'svgpy/css/mediaquery.py'],
     [('CSSParser', 'svgpy/css/__init__.py'), ('media query parser', 'svgpy/css/mediaquery.py'), ('get_css_style', 'svgpy/style.py')])

prop('D01', 'Tree edits refine the abstract tree',
     'After every sequence of tree edits (append, append_child, prepend, extend, insert, insert_before, replace, replace_child, remove, remove_child, text changes, and moves within or across trees), child lists, siblings, first/last child, parent, root, element-only views, character data and the serialisation of every node agree with one abstract ordered tree. Every node occurs at exactly one place, arguments are inserted in the order given, and string arguments become text at the position of insertion. Text after a node (its tail) travels with that node.',
     ['histories', 'schedules'],
     'every history of edits over several trees and detached fragments including moves of ancestors, siblings, the reference node itself and nodes with trailing text, under every garbage-collection schedule',
     'Tests perform each edit once on a tiny tree; sequences in which a node is moved relative to itself, between trees or with trailing text are not reached.',
     ['svgpy/dom.py', 'svgpy/window.py'],
     [('Element.append/prepend/extend/insert/replace/remove', 'svgpy/dom.py'), ('node_insert_before', 'svgpy/dom.py'), ('Document.append/insert/remove', 'svgpy/window.py')])

prop('D02', 'All views of an element\'s attributes agree',
     'After every sequence of attribute changes through any interface (get/set, get/set/remove/toggle_attribute and the _ns forms, attributes mapping, Attr objects, id, class_name, class_list, dataset), every interface reports the same attributes and values, and the serialisation carries them. An attached Attr object reads and writes its element\'s current value, keeps the last value once detached, and belongs to at most one element.',
     ['histories', 'schedules'],
     'every history of changes through mixed interfaces over several elements, namespaced and plain names, empty values, shared Attr objects, with garbage collections and moves of the element in between',
     'Tests drive one interface at a time; the views share no storage other than the element, so disagreement needs a mixed sequence.',
     ['svgpy/dom.py', 'svgpy/base.py', 'svgpy/element.py'],
     [('NamedNodeMap', 'svgpy/dom.py'), ('Attr', 'svgpy/dom.py'), ('DOMTokenList', 'svgpy/dom.py'), ('DOMStringMap', 'svgpy/dom.py')])

prop('D03', 'A rejected change leaves no trace',
     'When an operation on the tree, an attribute, a token list or the dataset raises because an argument is invalid, the document, every other tree involved, all attributes and all owner documents are exactly as before the call. This includes operations given several arguments of which a later one is invalid (the bulk update() of the mapping views, which assigns one key after the other, excepted).',
     ['histories', 'fault_sequences'],
     'every operation with every mixture of valid and invalid arguments (wrong node type, non-child reference, ancestor, foreign Attr, invalid token or name, wrong type, missing root) at every position of the argument list, in every reachable state',
     'Tests assert that the exception is raised, almost never that nothing changed, and not for later arguments of multi-argument calls.',
     ['svgpy/dom.py', 'svgpy/window.py', 'svgpy/css/__init__.py'],
     [('ensure_pre_insertion_validity', 'svgpy/dom.py'), ('Element.append/prepend/extend', 'svgpy/dom.py'), ('NamedNodeMap/DOMTokenList validation', 'svgpy/dom.py')])

prop('D04', 'Inline style object and style attribute stay one value',
     'At any time an element\'s inline style object holds exactly the declarations of its current style attribute, with their priorities, and every write through the style object is visible in the attribute and in the element\'s computed style without disturbing other declarations; a write with an invalid name, value or priority changes nothing. This holds for every interleaving of writes through the style object, the attribute interfaces and serialise-reparse, for declarations that belong to no shorthand, custom properties included, and for values containing colons, semicolons, quotes, blocks or functions.',
     ['histories', 'schedules'],
     'every history of writes, removals and reads through both sides, priorities, values with colons/URLs/strings, with garbage collection and reparsing in between',
     'Tests write through one side and read through the other once; stale state needs an attribute write after a style write.',
     ['svgpy/css/__init__.py', 'svgpy/dom.py', 'svgpy/utils.py'],
     [('CSSStyleDeclaration (inline)', 'svgpy/css/__init__.py'), ('style_to_dict / dict_to_style', 'svgpy/utils.py')])

prop('D05', 'Garbage collection never changes what a document says',
     'Dropping references and running the garbage collector at any point never changes what a document reports: tree, attributes and all their views, inline styles, the owner documents of the nodes in the document, zoom and translation of the document element, computed styles and query results are the same as in the identical history without collection.',
     ['schedules', 'histories'],
     'every placement of collections and reference drops in every history of edits and queries over elements, comments and instructions inside and outside the root element',
     'Collection timing is invisible to a test that keeps its nodes in local variables; node objects are recreated on demand, so lost state shows only after a collection between write and read.',
     ['svgpy/dom.py', 'svgpy/element.py', 'svgpy/css/__init__.py'],
     [('node proxy state set up in _init', 'svgpy/dom.py, svgpy/element.py'), ('owner_document lookup', 'svgpy/dom.py')])

prop('D06', 'A document survives serialise, crash and reparse',
     'If the process crashes at any point and only the last complete serialisation (in an encoding that can represent its characters) survives, parsing it gives a document with the same tree, attributes, text, namespaces, comments, instructions, inline styles and priorities, computed styles and geometry as the document had when it was serialised (generated namespace prefixes apart). Editing can continue from it with the same results as without the crash.',
     ['crash_points', 'histories'],
     'every history of edits with a crash at any step, serialised from the document or its root element, with prologue and epilogue nodes, namespaces and special characters',
     'Tests compare serialised text with literals; none reparses after a history of edits through all interfaces and continues.',
     ['svgpy/dom.py', 'svgpy/window.py', 'svgpy/element.py'],
     [('tostring', 'svgpy/dom.py, svgpy/window.py'), ('SVGParser.fromstring', 'svgpy/element.py')])

prop('D07', 'Nodes always name the document they are in',
     'Every node in a document\'s tree, including comments and instructions outside the root element and whole subtrees moved from another document, reports that document as its owner, and a moved node is no longer reachable from the document it left. A node created by a document and never inserted elsewhere names its creator while it is alive.',
     ['histories', 'schedules'],
     'every history of creating, inserting, moving between documents, replacing and removing subtrees and navigating, under every garbage-collection schedule',
     'Tests check owner_document right after one insertion while all nodes are still referenced.',
     ['svgpy/dom.py', 'svgpy/window.py'],
     [('Node.owner_document / attach_document', 'svgpy/dom.py'), ('Document.append', 'svgpy/window.py')])

prop('D08', 'Lookups always reflect the current tree',
     'At any point of any history, get_element_by_id, the by-class, by-tag, by-local-name and by-namespace lookups, and query_selector(_all), on documents and on elements, return exactly the elements of the current tree that a plain walk in document order selects. They never modify their arguments and answer for any identifier, name or class string that XML can represent. (Selectors as the installed cssselect translates them, where they depend on no element outside the subtree asked; a namespace of None is not constrained.)',
     ['histories', 'inputs'],
     'every history of edits and lookups with identifiers, names and class tokens of any characters and any whitespace, with and without namespace maps',
     'Tests query static fixtures with simple names; class tokens with special characters and queries after edits are not reached.',
     ['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/element.py'],
     [('get_elements_by_*', 'svgpy/utils.py'), ('query_selector_all', 'svgpy/dom.py')])

prop('D09', 'Documents, windows and parsers are independent of each other',
     'Nothing done to one document, window, parser, style sheet or value object changes what any other one reports: two interleaved histories on separate documents give exactly what each gives alone. Caller-supplied arguments (attribute dictionaries, namespace maps, lists) are never modified or retained.',
     ['histories', 'schedules'],
     'every interleaving of two or more histories of edits, style writes, queries, navigations and environment changes on separate documents',
     'Tests run one scenario at a time in one process; shared defaults or module state show only when two documents are used alternately.',
     ['svgpy/window.py', 'svgpy/element.py', 'svgpy/dom.py', 'svgpy/css/__init__.py'],
     [('module-level window, class lookup map, property descriptors', 'svgpy/window.py, svgpy/element.py, svgpy/css/props.py')])

prop('T01', 'Threads on separate documents do not affect each other',
     'When several threads each build, edit, style and query their own documents, every thread observes exactly what it would observe running alone, for every interleaving. This includes creating elements, comments, instructions and attributes with parsers and documents made in another thread.',
     ['schedules'],
     'every interleaving, at the granularity of source lines of the library, of two or three threads with generated workloads',
     'The suite is single-threaded.',
     ['svgpy/element.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/css/__init__.py'],
     [('SVGParser factory methods', 'svgpy/element.py'), ('module-level state', 'svgpy/window.py, svgpy/css')])

prop('T02', 'Concurrent readers of one document agree with a lone reader',
     'When several threads only read one document (styles, attributes, lookups, geometry, media queries, serialisation), no reader raises and each gets exactly the results a single reader gets, for every interleaving. The document is unchanged afterwards.',
     ['schedules'],
     'every line-level interleaving of two or three reader threads over generated documents, from a cold start (no node objects yet) or after edits',
     'The suite is single-threaded; lazily built state is filled by the first reader, so a second reader must interleave with it to matter.',
     ['svgpy/css/__init__.py', 'svgpy/dom.py', 'svgpy/style.py'],
     [('CSSStyleDeclaration lazy sync', 'svgpy/css/__init__.py'), ('NamedNodeMap lazy Attr creation', 'svgpy/dom.py')])

prop('E01', 'Media queries always answer for the current environment',
     'A media query list, whenever it was created, matches exactly when its query is true of the window, screen and viewport at the moment it is asked, for every sequence of resizes, zooms, rotations, screen and viewport changes. Asking never raises, and style sheets and rules gated by the same query apply at the same moments.',
     ['histories', 'configurations'],
     'every history of environment changes (including zero sizes) interleaved with evaluation of queries combining media types, not/only/and/or, min-/max- and range features',
     'Tests evaluate queries in a few fixed environments.',
     ['svgpy/window.py', 'svgpy/css/mediaquery.py', 'svgpy/css/screen.py'],
     [('MediaQueryList.matches', 'svgpy/window.py'), ('media query evaluation', 'svgpy/css/mediaquery.py'), ('Screen/ScreenOrientation', 'svgpy/css/screen.py')])

prop('E02', 'Lengths and geometry always resolve against the current context',
     'Percentages, font-relative and viewport-relative lengths of the elements in a document, and the geometry computed from them (shape geometry, viewport sizes, bounding boxes, path data and lengths, transformation matrices), always resolve against the viewports, view boxes, font sizes, attributes and window in force when they are asked, whatever was asked before and in whatever units those are given. A length object bound to an element follows later changes of that context and moves of the element, also to another document. Arithmetic that returns a length never changes its operands, and converting a length keeps the size it resolves to.',
     ['histories', 'configurations'],
     'every history of size, viewBox, font-size, geometry attribute and window changes and moves within and between documents interleaved with length and geometry queries and arithmetic on lengths',
     'Tests resolve lengths once per document; a stale cached resolution needs a change between two queries.',
     ['svgpy/core.py', 'svgpy/base.py', 'svgpy/element.py'],
     [('SVGLength', 'svgpy/core.py'), ('get_viewport_size / get_computed_geometry', 'svgpy/base.py, svgpy/element.py')])

prop('F01', 'Queries never modify the document, even when interrupted',
     'No read-only operation (style, geometry, bounding box, path, transform, text, lookup, media, serialisation queries) changes what the document or any object it hands out reports, whether it returns, raises, or is interrupted by an asynchronous exception at any point. Asking again after an interruption gives the result of an uninterrupted query.',
     ['fault_sequences', 'crash_points'],
     'every query on generated documents with an exception (allocation failure, interrupt) injected at any executed library line, and transport faults, then repeated',
     'Tests never interrupt a query nor compare the whole document before and after.',
     ['svgpy/dom.py', 'svgpy/base.py', 'svgpy/style.py', 'svgpy/element.py', 'svgpy/css/__init__.py'],
     [('get_computed_style and geometry queries', 'svgpy/dom.py, svgpy/base.py, svgpy/element.py')])

prop('F02', 'An interrupted edit leaves a usable, consistent document',
     'If an edit of one item (placing or removing one node, setting or removing one attribute, token, dataset entry, inline declaration, text, points, path data or transform) is interrupted by an asynchronous exception at any point, an edited attribute or text is exactly as before or exactly as after the edit, a moved node is wholly in its old place, wholly in its new place or outside of every document, nothing unrelated has changed, and all views of the document still agree with each other. Repeating the edit then succeeds and gives the same document as without the interruption. Prepending before leading text, which moves that text in several steps, is excepted.',
     ['fault_sequences', 'crash_points'],
     'every single-item edit with an exception injected at any executed library line',
     'Tests never interrupt an edit.',
     ['svgpy/dom.py', 'svgpy/css/__init__.py', 'svgpy/window.py'],
     [('NamedNodeMap / Attr attach and detach', 'svgpy/dom.py'), ('CSSStyleDeclaration update', 'svgpy/css/__init__.py')])

prop('H01', 'Native handles are released once, in order, and never used after',
     'Every native font, shaping, text-segmentation and font-configuration handle the library creates is destroyed exactly once, never used after destruction, and a font face never outlives its library, for every order in which objects are dropped or collected. When a native call fails, the library raises or falls back as on any failure and still releases everything it created. (A reference taken through a public reference method is the caller\'s own to give back, and wrappers built by the caller around a raw pointer are outside the statement.)',
     ['schedules', 'fault_sequences'],
     'every order of creation, use, reference drops and collections of the native wrappers, with a failure status injected into any native call',
     'Tests keep wrappers alive until interpreter exit and never see a native call fail; a leak or double release changes no result.',
     ['svgpy/freetype.py', 'svgpy/harfbuzz.py', 'svgpy/icu.py', 'svgpy/fontconfig.py'],
     [('__del__ and constructors of the wrappers', 'svgpy/freetype.py, svgpy/harfbuzz.py, svgpy/icu.py, svgpy/fontconfig.py')])

prop('U01', 'URL objects stay coherent through every sequence of setters',
     'After any sequence of component assignments on a URL, its href is exactly the serialisation of its components, parsing that href gives an equal URL, and search and the query-parameter object describe the same query in both directions. An assignment that is rejected leaves the URL unchanged, and building one URL from another never changes the other. (Hierarchical URLs with a scheme and a host; for file URLs path, query and fragment; distinct query keys. Parameters read from a text keep its percent-encoding. Credentials and port show only with a host, a password only with a user name, and a default port equals none.)',
     ['histories', 'fault_sequences'],
     'every history of component assignments, query-parameter edits, href replacements (valid and rejected) and derivations from a base URL',
     'Tests assign one component at a time on a fresh URL.',
     ['svgpy/url.py'],
     [('URL component setters', 'svgpy/url.py'), ('URLSearchParams update steps', 'svgpy/url.py')])

prop('S01', 'Style sheet objects stay coherent through every edit history',
     'After any sequence of rule insertions and deletions, media list edits and declaration edits on a style sheet or grouping rule, rule order, parent rule and parent sheet links, media text and length, and declaration count, order, values and priorities agree with a plain list model. A rejected edit changes nothing, an interrupted insertion or deletion is done completely or not at all, and no edit of one rule affects another. (A removed rule keeps its own content; where its parent links point then is not specified. A shorthand is its longhands. Setting a property without a priority keeps the one it has.)',
     ['histories', 'fault_sequences'],
     'every history of insert_rule, delete_rule, media list edits, set/remove property and shorthand edits, valid and invalid, on sheets, imported sheets and nested rules',
     'Tests insert or delete once per rule type.',
     ['svgpy/css/__init__.py'],
     [('CSSStyleSheet / CSSGroupingRule insert_rule, delete_rule', 'svgpy/css/__init__.py'), ('MediaList', 'svgpy/css/__init__.py'), ('CSSStyleDeclaration', 'svgpy/css/__init__.py')])

prop('L01', 'Values handed out are snapshots that never alias the document',
     'Matrices, rectangles, points, path data, transform items, lengths, computed-style dictionaries and lists returned by the document are independent snapshots: mutating one never changes the document or another value, and later edits of the document never change a value already handed out. Only the documented live views (attributes, class_list, dataset, style) write through. Operations that make a value from others (products, inverses, unions, normalised paths, sums of lengths) change none of their operands. (An item of a list or dictionary belongs to that container; a length bound to an element keeps its number and unit.)',
     ['histories', 'schedules'],
     'every history that keeps returned values, mutates them, edits the document and queries again, with collections in between',
     'Tests read a value once and drop it.',
     ['svgpy/base.py', 'svgpy/transform.py', 'svgpy/path.py', 'svgpy/geometry/matrix.py', 'svgpy/geometry/rect.py', 'svgpy/element.py'],
     [('get_ctm/get_screen_ctm/get_bbox/get_path_data/transform', 'svgpy/base.py, svgpy/element.py'), ('SVGTransformList', 'svgpy/transform.py')])

# ---- not simulation targets ------------------------------------------------
prop('A01', 'Matrix and rectangle algebra is exact',
     'Matrix multiplication, inversion and decomposition and rectangle union and intersection satisfy the usual algebraic identities up to rounding for all finite arguments.',
     ['inputs'], 'all finite numeric arguments',
     'Tests use fixed numbers.',
     ['svgpy/geometry/matrix.py', 'svgpy/geometry/rect.py'], [('DOMMatrix, DOMRect', 'svgpy/geometry')])
prop('A02', 'Path data parsing, normalisation and length are consistent',
     'Parsing a path and serialising it is idempotent, normalisation keeps the curve, and total length equals the sum of segment lengths for every valid path.',
     ['inputs'], 'all valid path strings',
     'Tests use fixed paths.',
     ['svgpy/path.py'], [('PathParser, SVGPathSegment', 'svgpy/path.py')])
prop('A03', 'CSS value and shorthand parsing follows the grammar',
     'Every CSS value, colour, length and shorthand accepted by the grammar parses to the value the specification gives and every other text is rejected.',
     ['inputs'], 'all value strings',
     'Tests use tables of fixed strings.',
     ['svgpy/css/props.py', 'svgpy/css/shorthands.py', 'svgpy/css/types.py', 'svgpy/core.py'], [('value parsers', 'svgpy/css')])
prop('A04', 'Length unit conversion is consistent',
     'Converting an absolute length between units and back gives the same length up to rounding, for all values and unit pairs.',
     ['inputs'], 'all values and unit pairs',
     'Tests use fixed values.',
     ['svgpy/core.py'], [('SVGLength.convert', 'svgpy/core.py')])
prop('A05', 'Text layout matches font metrics',
     'Text advance, extents and outlines equal the sums of the glyph metrics of the selected font face for every text and font size.',
     ['inputs'], 'all texts and sizes',
     'Tests use fixed strings and fonts most of which are not installed.',
     ['svgpy/text.py', 'svgpy/harfbuzz.py', 'svgpy/freetype.py'], [('SVGText layout', 'svgpy/text.py')])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as fp:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        fp.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
