"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
P = "src/pymantic/primitives.py"; S = "src/pymantic/serializers.py"; R = "src/pymantic/rdf.py"
U = "src/pymantic/util.py"; Q = "src/pymantic/sparql.py"
B = "src/pymantic/parsers/base.py"; LB = "src/pymantic/parsers/lark/base.py"
NT = "src/pymantic/parsers/lark/ntriples.py"; NQ = "src/pymantic/parsers/lark/nquads.py"
TT = "src/pymantic/parsers/lark/turtle.py"; JL = "src/pymantic/parsers/jsonld.py"
V = "src/pymantic/vocab/skos.py"
out = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    out.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "A graph is exactly the set of triples its history of calls says",
 "After any sequence of add, addAll, remove, removeMatches and merge calls a Graph holds exactly the triples a plain set would hold, and membership, length, iteration, toArray, subjects/predicates/objects, and match for every combination of bound and unbound positions all agree with that set, each triple being reported once. Only None leaves a position of match or removeMatches unbound; every term, the empty IRI included, matches just itself. A call that fails, such as removing an absent triple, changes nothing, and no graph's calls affect another graph. RDFEnvironment.createGraph makes a new graph holding exactly the triples of any sequence, independent of where they came from.",
 ["histories", "inputs"], "all operation sequences on one or two graphs, all terms, all eight match patterns",
 "The tests add one triple (or random ones) and look for it in a match result; they never check that a match returns nothing else, never remove and then query, and never call removeMatches, merge or the subject/predicate/object listings.",
 [P], [("three nested indexes kept beside the triple set", P + ": Graph.add/remove"), ("pattern dispatch", P + ": Graph.match")],
 [("_triples", "the set of triples", P + ": Graph"), ("_spo/_pos/_osp", "index copies of the same set", P + ": Graph")],
 ["Graph public methods"])
prop("C02", "A dataset is exactly the set of quads its history of calls says",
 "After any sequence of add, addAll, remove, removeMatches, add_graph and remove_graph calls a Dataset holds exactly the quads a plain set of quads would hold, each under its own graph name (None for the default graph), and membership of a quad or of a triple, length, iteration, toArray, the listing of graphs with their names, and match for all sixteen patterns agree with that set. Asking questions (match, membership, iteration), or a call that fails, never changes the dataset or its listing of graphs. An attached graph is the dataset's graph of that name until it is removed or replaced: a change through either is seen through both. Attaching an unnamed graph without giving a name is refused with ValueError. RDFEnvironment.createDataset makes a new dataset holding exactly the quads of any sequence.",
 ["histories", "inputs"], "all operation sequences over quads in named, blank-node-named and default graphs, all match patterns",
 "The tests use one quad per dataset, never remove through a pattern, never call remove_graph, and never look at the graph listing.",
 [P], [("one Graph per graph name", P + ": Dataset"), ("quad/triple conversion", P + ": q_as_t/t_as_q")],
 [("_graphs", "graph name to Graph", P + ": Dataset")], ["Dataset public methods"])
prop("C03", "N-Triples output reads back as the same graph",
 "For every graph of RDF terms, serialize_ntriples writes pure-ASCII N-Triples, one line per triple, that the N-Triples parser reads back as an isomorphic graph: every character of every literal, every language tag and datatype is preserved, and blank nodes stay shared or distinct as they were. IRIs come back identical, except that characters not allowed in a URI come back percent-encoded as UTF-8. str() and toString() of a triple give that triple's line.",
 ["inputs"], "all graphs; all code points and all short strings over the characters special to the format, in literals and in IRIs",
 "One existing test round-trips two IRI-only triples; no literal, escape or blank node is ever round-tripped.",
 [S, P, NT, U], [("escaping", S + ": nt_escape"), ("unescaping", U + ": decode_literal"), ("IRI quoting", U + ": quote_normalized_iri"), ("blank node labels", P + ": BlankNode.value")],
 (), ["serialize_ntriples, ntriples_parser.parse"])
prop("C04", "N-Quads output reads back as the same dataset",
 "For every dataset, serialize_nquads writes pure-ASCII N-Quads, one line per quad, that the N-Quads parser reads back as an isomorphic dataset with every quad in the same graph: named, blank-node-named, or the default graph (written with no graph label). Literals, language tags, datatypes and the sharing of blank nodes between graphs are preserved, IRIs up to percent-encoding.",
 ["inputs"], "all datasets over named, blank and default graph labels and all term kinds",
 "No existing test serializes N-Quads at all.",
 [S, P, NQ, NT], [("quad line", P + ": Quad.__str__"), ("optional graph label", NQ)], (), ["serialize_nquads, nquads_parser.parse"])
prop("C05", "Turtle output reads back as the same graph",
 "For every graph, prefix profile and base IRI, serialize_turtle writes Turtle that the Turtle parser reads back as an isomorphic graph (a plain literal and the same xsd:string literal counting as equal): no triple is lost, added or changed by prefix abbreviation, base-relative IRIs, numeric or boolean shorthand, string escaping, blank node naming, or list shorthand. This includes RDF lists that are nested, shared, cyclic, malformed, used as subjects or carrying extra statements.",
 ["inputs", "configurations"], "all graphs over all term kinds and list shapes, all prefix maps and bases",
 "The tests compare five fixed outputs, all with word-like names and literals without special characters; none reads the output back and compares graphs.",
 [S, R, P, U, TT], [("term writer", S + ": turtle_repr"), ("list shorthand", S + ": serialize_turtle"), ("string escaping", S + ": turtle_string_escape"), ("CURIE shrinking", P + ": to_curie")], (), ["serialize_turtle, turtle_parser.parse"])
prop("C06", "The N-Triples and N-Quads readers read exactly those languages",
 "Every document in the N-Triples (N-Quads) grammar is accepted and yields exactly the triples (quads) it denotes: comments, blank lines, any line ending, minimal or extra whitespace, every escape, every legal blank node label and language tag, and in N-Quads an optional IRI or blank node graph label. A document outside the grammar is rejected with an exception; it is never read as something else.",
 ["inputs"], "all documents in (and near) the two grammars",
 "The tests parse seven well-formed documents and no malformed one; comments, blank lines, escapes and graph-less quads never occur.",
 [NT, NQ, LB, U], [("grammar", NT), ("transformer", NT), ("quads", NQ)], (), ["ntriples_parser.parse, nquads_parser.parse"])
prop("C07", "The Turtle reader yields exactly the triples a document's structure denotes",
 "For every Turtle document the resulting graph is exactly the set of triples its statements denote, for any nesting and combination of predicate lists, object lists, blank node property lists, collections, labelled and anonymous blank nodes, and the keyword a, in subject or object position. Each anonymous blank node, property list and collection cell is a fresh node of its own. Documents that do not follow the statement grammar are rejected.",
 ["inputs"], "all statement structures of the Turtle grammar up to a nesting depth",
 "The W3C suite samples about 290 fixed documents, each showing one feature, and the comparison in the tests maps every blank node to one value, so sharing and distinctness of blank nodes are never checked.",
 [TT, B], [("unpacking of nested lists", TT + ": unpack_predicate_object_list"), ("collections", TT + ": collection"), ("property lists", TT + ": blank_node_property_list")], (), ["turtle_parser.parse"])
prop("C08", "Turtle names resolve by the base and prefixes in force at that point",
 "In every Turtle document each relative IRI is resolved (RFC 3986) against the base in force where it occurs, and each prefixed name expands with the most recent declaration of its prefix before it, for @prefix, @base, PREFIX and BASE in any order, redefinition and relative form, starting from the base given by the caller. Absolute IRIs are kept as written, an undeclared prefix is an error, and no declaration has any effect on an earlier statement or on another parse.",
 ["histories", "inputs", "configurations"], "all sequences of directives and statements, all initial bases, all reference forms",
 "The W3C suite has a handful of documents with one or two directives each; interleavings of redefinitions, relative @base/@prefix and their effect on later parses are not covered.",
 [TT, U, B], [("document-order transformation", TT + ": prefix_id/base/iri/prefixed_name"), ("resolution", U + ": smart_urljoin")],
 [("base_iri, prefixes", "base and prefix map in force", TT + ": TurtleTransformer")], ["turtle_parser.parse"])
prop("C09", "Every Turtle spelling of a term denotes the right term",
 "Each way of writing a literal or name in Turtle - the four quoting styles, character and numeric escapes, language tags, datatypes, integer, decimal, double and boolean shorthand, escaped and percent-encoded local names, blank node labels, with any comments and whitespace around them - denotes exactly the term the Turtle specification gives it, with the lexical form kept as written. Malformed spellings are rejected rather than read as something else.",
 ["inputs"], "all short spellings over the characters special to Turtle, all code points in strings",
 "The W3C suite checks isolated examples of each spelling; combinations (quotes, backslashes, newlines and escapes adjacent to each other and to delimiters) are not covered.",
 [TT, U], [("terminals", TT + ": grammar"), ("unescaping", U + ": decode_literal"), ("literal building", TT + ": rdf_literal/numeric_literal/string")], (), ["turtle_parser.parse"])
prop("C10", "How a document is delivered does not change what is read",
 "For every document the parsers give the same result whether it is passed as str, as UTF-8 bytes (where bytes are accepted), or as a text stream, through parse or parse_string, into a new graph or into a supplied graph (which then holds what it held before plus the document's statements and is the object returned). Bytes that are not UTF-8 are refused. This holds for every placement of line breaks, blank lines, comments and missing final newline.",
 ["inputs", "configurations"], "all documents crossed with all delivery forms",
 "Tests use a stream only for documents of exactly one triple per line, and never compare two delivery forms of one document.",
 [LB, TT, B, JL], [("line-by-line reading", LB + ": line_by_line_parser"), ("whole-document reading", LB + ": parse"), ("Turtle entry points", TT + ": parse/parse_string")], (), ["parse, parse_string of all parsers"])
prop("C11", "Blank node labels are scoped to one parse call",
 "Within one parse call every occurrence of a blank node label denotes one and the same blank node and different labels denote different nodes, across lines, statements, and graphs. Blank nodes from different parse calls are always distinct, whatever calls of whatever parsers came before, successful or failed, and whatever calls are made while one is under way, by the stream it reads, the context it loads or the graph it fills. Labels never clash with anonymous nodes, and all live blank nodes print as different labels.",
 ["histories"], "all sequences of parse calls (string, stream, failing) over shared labels and all parsers",
 "One test counts triples of a document with a label; identity of nodes within and across calls is never asserted.",
 [B, LB, TT, JL, P], [("per-call label table", B + ": _prepare_parse/_cleanup_parse"), ("identity equality of blank nodes", P + ": BlankNode")],
 [("_call_state.bnodes", "label to node for the running call", B)], ["parse calls"])
prop("C12", "Concurrent parses with the shared parsers do not interfere",
 "When several threads parse at the same time with the module-level parsers, each call returns exactly the graph it would have returned alone, with blank nodes shared only within its own document, and a failing parse in one thread does not disturb another. This holds for every interleaving of the threads.",
 ["schedules"], "all interleavings of two or three concurrent parse calls up to a preemption bound",
 "No test starts a thread.",
 [B, LB, NT, NQ, TT, JL], [("thread-local call state", B + ": _call_state = local()")],
 [("_call_state", "state of the running parse call", B)], ["parse calls in threads"])
prop("C13", "A failed parse leaves no trace beyond what was already delivered",
 "When parsing a string or bytes fails for any reason - syntax error at any position, undeclared prefix, illegal IRI, bad escape - an exception reaches the caller and a supplied graph is exactly as before. When a line stream fails, through a malformed line or an exception raised by the stream, that error reaches the caller and the graph has gained exactly the statements of the preceding lines. In either case every later parse behaves as if the failed one had never happened.",
 ["fault_sequences", "inputs", "histories"], "every error kind at every position, every line at which a stream can fail, followed by any further parse",
 "Negative W3C tests check only that some exception is raised; no test passes a graph to a failing parse, injects a stream error, or parses again afterwards.",
 [LB, B, TT, NT, JL], [("whole-document parse before adding", LB + ": parse"), ("cleanup on failure", LB + ": parse finally")], (), ["parse calls, contents of the supplied graph"])
prop("C14", "CURIE abbreviation and resolution are inverse",
 "For every prefix map and IRI, to_curie/shrink returns either the IRI unchanged (exactly when no namespace is a prefix of it) or a CURIE made from the longest matching namespace, and resolving that CURIE with the same map gives back the IRI; the bracketed form ([prefix:local]) does so even when the prefix is also a URI scheme name. Resolution returns absolute IRIs with a registered scheme unchanged, expands prefix:reference - an empty reference included - with that prefix, a name without colon with the default prefix, and raises ValueError for an unknown prefix.",
 ["inputs", "configurations"], "all prefix maps and IRIs over a small alphabet with overlapping, nested and repeated namespaces",
 "One test checks one abbreviation; the round trip, repeated occurrences of a namespace inside an IRI, empty references and empty prefixes are not covered.",
 [P, "src/pymantic/uri_schemes.py"], [("resolution", P + ": parse_curie"), ("abbreviation", P + ": to_curie")], (), ["parse_curie, to_curie, PrefixMap.resolve/shrink"])
prop("C15", "Prefix maps, term maps and profiles answer by their latest settings",
 "After any sequence of set, setDefault, addAll, importProfile (with or without override) and delete calls, PrefixMap, TermMap and Profile resolve and shrink by exactly the entries then in force: an import without override never replaces an entry, one with override always does, and the source of an import is unchanged. A term resolves to its own entry, else to the default vocabulary plus the term, else to None; a name with a colon goes to the prefixes and one without to the terms; rdf and xsd are always predefined unless the caller bound them. Maps made as copies by an environment resolve as the environment did when they were made and do not share later changes with it.",
 ["histories"], "all operation sequences over two maps or profiles",
 "No test covers TermMap, Profile imports or defaults.",
 [P], [("maps", P + ": PrefixMap, TermMap"), ("profile", P + ": Profile, RDFEnvironment")], (), ["PrefixMap, TermMap, Profile, RDFEnvironment"])
prop("C16", "Resource item access follows the documented filter rules in every state",
 "For every state of the graph, reading, testing and deleting resource[key] select exactly the objects the key's filter describes (none, language, datatype, bare/xsd:string, registered class, None), del removes exactly what reading returns, and in says whether there are any; what a reading yields is settled when it is made, whatever is read or changed while it is consumed; a scalar predicate read without filter prefers the resource's language, then references, then datatyped, then bare literals, and more than one candidate is a ValueError. A key's predicate is named with the prefixes of the resource's class or else with the global profile, as they are at that moment; a name neither knows is a ValueError. Assignment stores exactly the given values and replaces exactly the objects the documentation says the key and value replace, object references being acceptable under every language or datatype filter. Afterwards reading the same key returns what was assigned (a reference assigned under a filter, or a literal in a language other than the one the key stands for, is read with the key that matches it).",
 ["histories", "inputs"], "all graph states over mixed literals and references, all keys, all assigned values",
 "The tests follow a few fixed scripts; states mixing languages, datatypes, bare literals and references under one predicate with every kind of key and value are not covered.",
 [R, P], [("key interpretation", R + ": _interpret_key/_objects_for_key"), ("replacement rules", R + ": _objects_for_implicit_set/_objects_for_explicit_set"), ("value checks", R + ": check_objects"), ("language matching", P + ": lang_match")], (), ["Resource.__getitem__/__setitem__/__delitem__/__contains__/get_scalar, objects_by_*"])
prop("C17", "Resource operations touch only their own statements, or nothing if refused",
 "Assigning to or deleting resource[key] never adds, removes or changes a statement with another subject or another predicate, and reading, testing, iterating, printing, comparing or classifying never changes the graph at all. An assignment that is refused - a value that does not fit the filter, a sequence for a scalar, a value that cannot be a literal, an unknown prefix - raises and leaves the graph exactly as it was.",
 ["histories", "inputs"], "all graph states, all operations, all refused values",
 "No test compares the rest of the graph before and after an operation, or the graph after a refused assignment.",
 [R], [("validate before remove", R + ": __setitem__"), ("subject/predicate-bound removal", R + ": __setitem__/__delitem__")], (), ["graph contents before and after"])
prop("C18", "Classification depends only on a resource's types and the registered classes",
 "For every set of registered classes and every set of rdf:types of a resource, classify (and every access that classifies) returns an instance of exactly the registered classes for those types - one class directly, several as a combination that is an instance of each and carries the prefixes and scalars of each, none as a plain Resource - and literals unchanged. The result does not depend on the order of registration or of types, on earlier classifications, on classes registered in between, on one registered class deriving from another, or on one class being registered for several types.",
 ["histories", "configurations"], "all interleavings of registrations and classifications over a few classes and types",
 "Three tests classify once with at most two unrelated classes; re-registration, inheritance between registered classes and the reuse of combination classes are not covered.",
 [R, V], [("class registry and combination cache", R + ": MetaResource._classes, Resource.classify"), ("prefix and scalar merging", R + ": MetaResource.__new__")],
 [("MetaResource._classes", "RDF class (or set) to Python class", R)], ["Resource.classify, register_class"])
prop("C19", "Creating, copying, finding and erasing resources match the graph",
 "new adds exactly the type statements of the class (for a fresh blank node when no subject is given), is_a holds exactly when all of a class's types are stated, and in_graph returns exactly the resources for which is_a holds. copy adds to the target exactly the source's statements and changes nothing else, erase removes exactly the statements having the resource as subject, and object_of yields exactly the referring subjects (with their predicates when none is given). Two resources are equal, with equal hashes, exactly when they have the same subject, whatever their class or graph; a resource equals its IRI and nothing of another kind. These hold in every graph state and after any sequence of these operations.",
 ["histories"], "all graph states and operation sequences over a few subjects and classes, including combination classes",
 "Each operation has at most one test; copy has none, in_graph is only tested with one class, and blank-node subjects are not tested.",
 [R], [("new/erase/copy/in_graph/is_a/object_of", R + ": Resource")], (), ["Resource methods"])
prop("C20", "List iteration yields exactly the list's elements in order",
 "For every well-formed RDF list, whatever its elements (references, blank nodes, nested lists, literals of any language or datatype, repeated values), iterating it as a List yields exactly the elements in order, references classified as usual, and an empty list yields nothing; is_list is true exactly for nodes having a rest. A collection written in Turtle or JSON-LD reads as such a list with the elements in writing order.",
 ["inputs"], "all lists over all element kinds up to a length and nesting depth",
 "Lists are only iterated by the test loader over one manifest of references, and by one serializer test with three plain strings.",
 [R, TT], [("iteration", R + ": List.__iter__"), ("collection building", TT + ": collection")], (), ["List, turtle_parser.parse"])
prop("C21", "SPARQL queries and updates follow the protocol for every server answer",
 "Each query or update makes exactly one HTTP request to the endpoint with the method, parameters, headers and body the SPARQL protocol prescribes for the server's configuration (GET, form POST or direct POST; default and named graphs; TLS verification setting), carrying the query text unaltered for any Unicode text. Every possible answer leads to its documented outcome: parsed results by content type on 200, True on 204, SPARQLQueryException on any other status, UnknownSPARQLReturnTypeException on an unrecognised content type; relative references in an RDF answer are resolved against the query URL. No answer, or one that breaks off, is an error that reaches the caller, and nothing is sent a second time. Calls do not influence later calls.",
 ["configurations", "inputs", "fault_sequences"], "all client configurations crossed with all server answers (status, content type), and sequences of calls",
 "Two recorded exchanges with one configuration are replayed; other configurations, content types and statuses never occur.",
 [Q], [("request building", Q + ": _SelectOrUpdate.execute"), ("response mapping", Q + ": _Select.execute")], (), ["HTTP requests seen by the transport, returned values"])
prop("C22", "Graph store calls follow the graph store protocol for every server answer",
 "get, put, post, delete and patch each make exactly one HTTP request with the right method to the URL that addresses the given graph (as a graph parameter or as a path, correctly escaped for any graph IRI, or the dataset URL itself for a post without graph), with the graph's content and content type. A success status returns normally, get returning exactly the graph the server sent in any of the offered formats (relative references resolved against the graph's name), an answer in a format it did not offer being an error; every other status, no answer, or one that breaks off raises an exception. The TLS verification setting applies to every call.",
 ["configurations", "inputs", "fault_sequences"], "all methods, addressing styles, graph IRIs, statuses and content types",
 "No test touches the graph store client.",
 [Q], [("addressing", Q + ": UpdateableGraphStore.request_url"), ("methods", Q + ": UpdateableGraphStore, PatchableGraphStore")], (), ["HTTP requests seen by the transport, returned values"])
prop("C23", "A changeset transforms one graph exactly into the other",
 "For all graphs a and b, the differences of a and b are exactly the statements to remove from a and to add so that it becomes b - disjoint, without duplicates, nothing for equal graphs - leaving out statements with an excluded predicate. A changeset describes exactly those statements, each reified on its own node with its subject, predicate and object under removal or addition of one ChangeSet node that names the graph and creation date. The input graphs are not changed.",
 ["inputs"], "all pairs of small graphs, all exclusion lists",
 "No test covers changesets.",
 [Q], [("set difference", Q + ": differences"), ("reification", Q + ": changeset/reify")], (), ["differences, changeset"])
prop("C24", "IRI normalization is total, idempotent and preserves the identified resource",
 "normalize_iri gives for every IRI an equivalent one: normalizing twice changes nothing more, percent-encoded reserved characters, spaces, control characters (U+0000 to U+001F), percent signs and byte sequences that are not UTF-8 stay encoded, and everything else is decoded; it never raises. Quoting the normalized form (quote_normalized_iri) gives a pure-ASCII URI without unsafe characters that decodes to the same bytes as the original, and IRIs that differ only in avoidable encoding normalize alike.",
 ["inputs"], "all IRIs over literal characters and all percent-encoded bytes and byte sequences",
 "Four fixed IRIs are tested, each with at most one encoded character.",
 [U], [("decoding", U + ": normalize_iri/percent_decode"), ("encoding", U + ": quote_normalized_iri")], (), ["normalize_iri, quote_normalized_iri"])
prop("C25", "Terms and statements are values: equal exactly when their parts are",
 "Two literals, triples or quads are equal (and hash alike) exactly when all their parts are equal; IRIs are equal exactly when their text is; a blank node equals only itself. Different terms never have the same N-Triples form (save IRIs of which one has a character where the other has its percent-encoding), copying, pickling and field replacement preserve or change exactly the fields concerned, and no value can be changed in place. A Python int or datetime becomes the literal with its XSD datatype.",
 ["inputs"], "all pairs of terms over a set of confusable components",
 "Tests compare a few literals for equality; nothing checks that different terms stay different, or copying and replacement.",
 [P], [("tuple-based values", P + ": Literal, Triple, Quad"), ("identity", P + ": BlankNode"), ("N-Triples form", P + ": toNT")], (), ["==, hash, toNT, _replace, copy, pickle"])
prop("C26", "The same data reads the same from every format",
 "For every dataset, its N-Triples, N-Quads, Turtle and JSON-LD forms read as isomorphic data: the same IRIs, literals with the same lexical form, language and datatype (a plain literal and an xsd:string literal counting as equal, a language-tagged literal carrying its language and no other datatype), and the same sharing of blank nodes, with JSON-LD and N-Quads placing each statement in the same graph (None for the default graph).",
 ["inputs", "configurations"], "all small datasets over all term kinds, all four formats",
 "No test reads one dataset from two formats apart from the fixed Turtle/N-Triples pairs of the W3C suite; the single JSON-LD test only counts statements.",
 [JL, NT, NQ, TT, B], [("JSON-LD conversion", JL + ": process_jobj/process_triple_fragment"), ("term construction", B)], (), ["parse of all four formats"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(out))
