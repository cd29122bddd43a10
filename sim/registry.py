"""property id -> module in sim.checks"""
CHECKS = {
    'D01': 'dom', 'D02': 'attrs', 'D03': 'reject', 'D04': 'inline', 'D05': 'twin', 'D06': 'twin', 'D07': 'dom', 'D08': 'lookups', 'D09': 'twin', 'F01': 'interrupt', 'F02': 'interrupt', 'T01': 'sched', 'T02': 'sched', 'E01': 'media', 'U01': 'urls', 'L01': 'snap', 'S01': 'sheets', 'E02': 'lengths', 'H01': 'natives',
    'N01': 'web', 'N02': 'web', 'N03': 'web', 'N04': 'web', 'N05': 'web',
}
SIM = 'deterministic simulation: seeded histories'
NOTES = {
    'D01': (SIM + ' of tree edits, reference drops and collections against an executable reference tree, compared after every step',
            'Exploration. Placement of a document element that still has sibling nodes into another place is not modelled; text after a node placed beside the root element is not modelled.'),
    'D02': (SIM + ' of attribute changes through every interface, with kept Attr objects, moves and collections, against a reference attribute model compared through every view after every step',
            'Exploration. Token views are only constrained while the attribute holds no duplicate token.'),
    'D03': (SIM + ' of edits with calls whose arguments are made invalid at a seeded position; after each rejection all trees, attributes and owners are compared with the unchanged reference tree',
            'Exploration. text and tail assignments are lxml\'s own and are not covered. A call that the library accepts ends the run.'),
    'D04': (SIM + ' of attribute writes, style writes, invalid writes, moves, collections and crashes (only the serialisation survives) against a declaration map read by a CSS tokenizer, compared on both sides and in the computed style',
            'Exploration. Shorthands and their longhands are outside the statement. One known finding (a priority set through the style object on a declaration that is not important yet) is excluded from generation and probed separately.'),
    'D08': (SIM + ' of edits and lookups of every kind, with collections, each answer compared with a plain walk over the tree and its own selector matcher',
            'Exploration. Selectors are generated where cssselect translates them faithfully (no type selector in :not() or after +, no :only-child on the root).'),
    'D05': ('deterministic simulation: seeded programs run twice in one process image, holding every node and dropping every reference, with collections injected between operations and at seeded library lines inside them; every observation compared',
            'Exploration. The reference is the same code without collections. The owner document of nodes outside the document, and zoom and translation of elements other than the document element, are outside the statement.'),
    'D06': ('deterministic simulation: seeded programs cut by crashes after which only the last serialisation survives, compared after each crash and at every later step with the same program without crashes',
            'Exploration. The reference is the same code without crashes. Two known findings (elements without a namespace; priorities written only through the style object) are excluded from generation and probed separately.'),
    'D09': ('deterministic simulation: two or three seeded programs on documents of their own interleaved by a seeded schedule, each compared step by step with itself run alone in a fresh process; arguments lent to the library are compared and then changed',
            'Exploration. Documents that were created without a window share the module-level window by design and are not generated.'),
    'F01': ('deterministic simulation with fault injection: exceptions raised at seeded executed library lines inside queries, the whole document compared before and after and the query asked again against an undisturbed process',
            'Exploration. Exceptions strike between source lines of the library, not inside C libraries; never inside finalisers, where the interpreter discards them.'),
    'F02': ('deterministic simulation with fault injection: exceptions raised at seeded executed library lines inside edits; the torn state compared with before and after, the edit repeated beside the same program without interruptions',
            'Exploration. Exceptions strike between source lines of the library. Edits of several items in one call and prepending before leading text are outside the statement.'),
    'T01': ('deterministic simulation: real threads of which exactly one runs at a time, control moving only at seeded executed library lines; every observation compared with the same program run alone in a fresh process',
            'Exploration at line granularity; switches inside C libraries are not simulated.'),
    'T02': ('deterministic simulation: real reader threads of which exactly one runs at a time, control moving only at seeded executed library lines, from cold and warm starts; answers compared with a lone reader',
            'Exploration at line granularity; switches inside C libraries are not simulated.'),
    'D07': (SIM + ' of moves between documents, reference drops and collections against a reference ownership model, compared after every step',
            'Exploration. The owner of a node that was removed from a document and not reinserted is not constrained.'),
    'N01': (SIM + ' of navigations over a simulated transport with injected faults, checked against an independent parse of the served bytes',
            'Exploration. Which damaged bodies are still well-formed is decided by an independent parse with the same XML library; redirects are not simulated.'),
    'N02': (SIM + ' of style queries while sheet loads fail and recover, against an executable cascade in which the failed sheet is empty',
            'Exploration. Faults are per URL and last until healed; a fault that hits only one of two loads of the same URL within one query is not generated.'),
    'N03': (SIM + ' of edits, sheet replacement and environment changes over generated import graphs, against an executable cascade',
            'Exploration over inherited properties with identifier values. Shorthands, specificity (which the library does not implement) and non-inherited properties are outside the statement.'),
    'N04': (SIM + ' of loads under every fault kind, including interrupts raised by reads; response open/close recorded by the simulated transport',
            'Exploration. Interrupts strike inside operations on the response, not between arbitrary bytecodes of the loader.'),
    'N05': (SIM + ': style sheets cut, flipped, spliced or wrongly decoded at seeded points and delivered through every channel, against the effect of the undamaged part',
            'Exploration. The effect of the damaged part itself is not specified.'),
    'U01': (SIM + ' of component assignments, parameter edits through kept objects, href replacements and derivations on several URLs, each component compared after each step with the assignment history, a parse of the href and an independent reference resolution',
            'Exploration over generated component values. References with an empty path segment are not generated.'),
    'L01': (SIM + ' that take values from a document, derive values from values, write values back, change values in place and edit the document; every other held value, the document and its fresh answers compared after each change',
            'Exploration. What a value says when it is taken is the subject of other properties; here only what later changes do to it.'),
    'S01': (SIM + ' of rule insertions and deletions (with imports over a simulated transport that fails, and exceptions raised at seeded library lines inside them), media list and declaration edits on sheets, nested groups and removed rules, every object ever seen compared with a list model after every step and with a new parse at the end',
            'Exploration. Invalid shorthand values reset longhands by design and are outside the check, except for overflow; custom properties in sheet text are not read by the installed tinycss2.'),
    'E02': (SIM + ' of context changes and moves within and between two documents with windows of their own, interleaved with queries and arithmetic on kept lengths; answers compared with processes that only ever saw the present state, and with an independent model of viewports, lengths, shape geometry and matrices',
            'Exploration. Font-relative lengths refer to the font size of the parent element and percentages to the nearest view box up the tree, as the library defines them; matrices of nested viewports with relative sizes are only compared with the fresh process, not with the model.'),
    'H01': ('deterministic simulation with fault injection: seeded histories of creation, derivation, use, drops, cycles and collections of native wrappers over a seam at the native calls that keeps the native reference counts, overwrites instead of freeing, and makes seeded calls fail',
            'Exploration. Native libraries run for real except for destruction; ownership rules of each native function are modelled from its documentation. Failures inside C code that its functions do not report are not simulated.'),
    'E01': (SIM + ' of window, screen and viewport changes with queries evaluated against an independent evaluator over the modelled environment',
            'Exploration over generated queries. not with several terms and malformed queries are not given a meaning by this check.'),
}
NOT_APPLICABLE = {
    'A01': 'Pure functions of their numeric arguments: no schedule, clock, fault or history for a simulation to decide.',
    'A02': 'A pure function of the path string: no schedule, clock, fault or history for a simulation to decide.',
    'A03': 'A pure function of the value text: no schedule, clock, fault or history. (Robustness of style computation against damaged sheets, which is a fault property, is N05.)',
    'A04': 'A pure function of a value and two units: no schedule, clock, fault or history. (Resolution against changing context is E02.)',
    'A05': 'A pure function of text and font for a fixed font set, and the fonts the expectations need are not installed: nothing for a simulation to decide. (Native handle lifecycle and failing native calls are H01.)',
}
