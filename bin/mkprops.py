import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every reference resolves to exactly the object it names",
 "For every set of description files joined by references (same document, other file, URL-style, relative from any directory, with or without fragment, through chains of references, with escaped characters in names), each reference resolves to exactly the object its text designates relative to the file it appears in. A reference that designates nothing is reported as an error, a resolvable one never is, and neither outcome depends on where in the file set the reference sits.",
 ["inputs","configurations"],"all small file graphs: files, directories, component names, reference spellings, reference positions",
 "Tests pin a few dozen hand-made specs; the guarantee quantifies over every combination of reference spelling, nesting directory, component kind and chain.",
 ["index/extract_refs.go","index/find_component_build.go","index/search_index.go","index/rolodex.go","index/rolodex_file_loader.go","datamodel/low/extraction_functions.go"],
 [("reference extraction and absolute naming","index/extract_refs_ref.go"),("component lookup","index/find_component_entry.go"),("file lookup","index/rolodex.go:OpenWithContext")],
 [("mapped references","every reference found and the node it resolved to","index.SpecIndex")],["high-level model after build","index mapped references","build errors"])
p("C02","Circular references are found exactly and resolution always ends",
 "For every reference graph, resolving terminates, and circular references are reported exactly for the cycles the graph contains: a cycle made only of required properties is an error (infinite), one that passes through an optional property or a polymorphic keyword is not an error by itself (the items of a required array may count as required). The options that ignore array or polymorphic cycles remove those and only those reports, and rendering or walking a cyclic model always ends.",
 ["inputs","configurations"],"all reference graphs over a few schemas with every edge kind (required/optional property, array items, allOf/oneOf/anyOf, direct $ref), single and multi file, with every ignore option",
 "A cycle classification depends on the whole graph; tests hold about twenty fixed circular fixtures.",
 ["index/resolver_visit.go","index/resolver_circular.go","index/resolver_relatives.go","index/resolver_entry.go","datamodel/high/base/schema_proxy.go"],
 [("journey/visited bookkeeping","index/resolver_visit.go"),("infinite classification","index/resolver_circular.go"),("polymorphic and array relatives","index/resolver_polymorphic.go")],None,["Resolver.CheckForCircularReferences","SpecIndex circular reference getters","Document build errors"])
p("C03","The result never depends on goroutine schedule",
 "Building the same description any number of times, with any number of processors, with asynchronous or sequential extraction, alone or beside other documents being built concurrently, gives the same model, the same rendering, the same references in the same order, the same circular reports and the same errors. Comparing or bundling the same inputs again gives the same change set and the same bytes.",
 ["schedules","inputs"],"all interleavings of the extraction, build, compare and bundle workers, over generated multi-file inputs",
 "The race detector and unit tests sample one schedule per run and assert single values, never equality across schedules.",
 ["index/extract_refs_lookup.go","index/rolodex.go","datamodel/low/v3/create_document.go","datamodel/translate.go","what-changed/model/comparison_functions.go","bundler/bundler_composer.go"],
 [("ordered collection of async results","index/extract_refs_lookup.go"),("ordered parallel translation","datamodel/translate.go")],None,["Document.BuildV3Model","SpecIndex reference getters","CompareDocuments","BundleDocument"])
p("C04","External files load at most once and every waiter sees the same outcome",
 "For every interleaving of concurrent openers and every pattern of load success and failure, each external file or URL is fetched at most once per loader while its load succeeds, every opener of it gets the same usable file or a real error (never nothing at all), and a failure of one location never turns into an error of another. No opener waits forever.",
 ["schedules","fault_sequences"],"all interleavings of up to four openers over up to three locations with each fetch succeeding, failing at transport, failing by status, or failing while reading",
 "Unit tests open files from one goroutine or assert only that something came back; the guarantee is about every interleaving of the waiter protocol.",
 ["index/rolodex_remote_loader.go","index/rolodex_file_loader.go","index/rolodex.go"],
 [("waiter registration and release","index/rolodex_remote_loader.go:OpenWithContext"),("waiter registration and release (local)","index/rolodex_file_loader.go:OpenWithContext")],
 [("processing files","locations being fetched and who waits for them","RemoteFS.ProcessingFiles"),("files","locations already loaded","RemoteFS.Files, LocalFS.Files")],["RemoteFS.Open","LocalFS.Open","custom fetch handler calls"])
p("C05","File and network access happen only when the configuration allows it",
 "Whatever references a description contains, the local file system is consulted only if local lookups are allowed (or a file system was supplied) and a remote location is fetched only if remote lookups are allowed. A reference that would need a forbidden lookup is reported as an error instead of silently resolved or silently dropped.",
 ["inputs","configurations"],"all combinations of lookup permissions, base locations, supplied file systems and fetch handlers, with local, relative, absolute and remote references",
 "Each test fixes one configuration; the guarantee is the whole configuration × reference product.",
 ["index/rolodex.go","index/rolodex_file_loader.go","index/rolodex_remote_loader.go","datamodel/low/v3/create_document.go","datamodel/document_config.go"],
 [("permission gates","index/rolodex.go"),("file systems attached from configuration","datamodel/low/v3/create_document.go")],None,["fetch handler calls","file system opens","build errors"])
p("C06","Rendering an untouched model reproduces the description",
 "Building the high-level model of any valid description and rendering it, without touching it, gives a description with the same content: every field, value, extension, reference and map entry, in the same key order, nothing added and nothing lost. Rendering is repeatable, and parsing the rendered bytes and rendering again changes nothing; the JSON renderings carry the same content as the YAML ones.",
 ["inputs"],"every object kind and field of OpenAPI 3.x (and every parent position of it), with boolean, zero, empty, null and multi-type values",
 "Tests render a few large documents and compare selected ones; each optional field in each parent is not enumerated.",
 ["datamodel/high/node_builder.go","datamodel/high/v3","datamodel/high/base","datamodel/low","document.go"],
 [("struct to node rendering","datamodel/high/node_builder.go"),("per object MarshalYAML","datamodel/high/v3, datamodel/high/base")],None,["Render","RenderJSON","RenderAndReload","MarshalYAML"])
p("C07","A change made through the model appears in the rendering, and only there",
 "Setting, replacing, adding or clearing any field of a high-level model object and rendering yields the original description with exactly that change: the edited field has the new value at its place and every other field, key order and extension is as it was. After rendering and reloading, the reloaded model shows the edit.",
 ["inputs","histories"],"every object kind and field, each of set / replace / clear / map add / map remove / list append, and sequences of such edits",
 "Tests mutate a handful of fields on a few objects; the guarantee ranges over every field and edit history.",
 ["datamodel/high/node_builder.go","document.go","orderedmap/orderedmap.go"],
 [("struct to node rendering against the low-level line numbers","datamodel/high/node_builder.go")],None,["Render","RenderAndReload"])
p("C08","The document lifecycle accepts, refuses and transforms exactly as specified",
 "A document is accepted exactly if it declares a supported version, builds only as the version it declares, gives back the same model on repeated builds, and after any history of build, edit, render, reload and serialise calls each call's result is that of the current content in the original format. Invalid input and calls out of order give errors, never panics, and never corrupt the document for later calls.",
 ["histories","inputs"],"all sequences of lifecycle calls up to a bound over every document version, format and validity class",
 "Tests call each method once in the usual order on valid inputs.",
 ["document.go","datamodel/spec_info.go","datamodel/low/v3/create_document.go","datamodel/low/v2/swagger.go"],
 [("version detection","datamodel/spec_info.go"),("model caching and re-creation","document.go")],[("highOpenAPI3Model / highSwaggerModel","the built model, if any","document.go")],["Document interface methods"])
p("C09","A comparison reports exactly the differences",
 "Comparing any two descriptions reports every difference between them, once, at the object it belongs to with the right kind (added, removed, modified), field and original and new values; comparing equal descriptions, or ones that differ only in key order, formatting or comments, reports nothing. Swapping the two sides swaps added and removed, and comparing does not alter either document.",
 ["inputs"],"every object kind and field of OpenAPI 3.x and Swagger 2, each added, removed or modified in every parent position, and combinations of several such edits",
 "Each comparison test exercises selected fields of one object in one direction; omissions of a field are invisible to them.",
 ["what-changed/model","what-changed/what_changed.go","what-changed/reports/summary.go","datamodel/low"],
 [("per object comparison","what-changed/model (Compare functions)"),("property checks","what-changed/model/comparison_functions.go"),("hash gates","datamodel/low (Hash methods)")],None,["CompareDocuments","DocumentChanges.TotalChanges/GetAllChanges"])
p("C10","Breaking changes are classified by the active rules, exactly",
 "Each reported change is marked breaking exactly if the active rule for that object, field and kind of change says so, with the documented defaults when none is set, and totals of breaking changes equal the number of changes so marked at every level. Overriding a rule affects exactly the changes that rule names, partial overrides keep every other default, and clearing them restores the defaults.",
 ["inputs","configurations"],"every rule (object × field × added/modified/removed), default and overridden to each value, against the edit it names",
 "There are several hundred rules with three values each; tests spot check some tens of them.",
 ["what-changed/model/breaking_rules.go","what-changed/model/breaking_rules_model.go","what-changed/model/comparison_functions.go"],
 [("rule lookup","what-changed/model/breaking_rules.go"),("default rule set","what-changed/model/breaking_rules_config.go")],[("active configuration","global override of the default rules","what-changed/model/breaking_rules.go")],["Change.Breaking","TotalBreakingChanges"])
p("C11","Object hashes are equal exactly when contents are equal",
 "Two parsed objects of the same kind have equal hashes if they have the same content regardless of key order of maps, formatting, comments or position in the file, and different hashes whenever any field, extension, map key or list element differs. A hash is stable across repeated calls, across rebuilds and whether or not caches are warm.",
 ["inputs","histories"],"every object kind and field: pairs equal up to order/format and pairs differing in one field",
 "Hash tests compare one pair per object; a field left out of a hash is not noticed.",
 ["datamodel/low/hash.go","datamodel/low/base/schema_hash.go","datamodel/low/v3","datamodel/low/v2","datamodel/low/base"],
 [("per object Hash","datamodel/low (Hash methods)"),("hash pools and caches","datamodel/low/base/schema_hash.go")],None,["Hash() of low-level objects"])
p("C12","Inline bundling yields one self-contained, equivalent description",
 "Bundling any resolvable multi-file description inline gives a single document that contains no reference to another file and in which every place denotes the same content as following the original references would. References inside cycles are kept as local references to definitions that exist in the result, local references are preserved or inlined as configured, and inputs that cannot be bundled faithfully give an error.",
 ["inputs","configurations"],"all small file graphs with reference chains, cycles, discriminators and extensions, under each bundling option",
 "Tests bundle fixed fixtures and compare with golden files.",
 ["bundler/bundler.go","datamodel/high/base/schema.go","datamodel/high/base/schema_proxy.go","datamodel/high/node_builder.go"],
 [("reference inlining","bundler/bundler.go"),("inline render context","datamodel/high/base/schema_proxy.go")],None,["BundleDocument","BundleBytes"])
p("C13","Composed bundling lifts every external component once, under a unique name",
 "Composed bundling gives a single document in which each externally defined component appears once in the components section of its kind, each reference points at the lifted definition with the content of the original, and no two different components share a name or overwrite an existing one. Following references in the result yields the same content as in the source, and recorded origins name the file and place each component came from.",
 ["inputs","configurations"],"all small file graphs with name collisions across files and kinds, chains, and bare-file references, under each delimiter option",
 "Collision renaming is order and graph dependent; tests use a handful of fixtures.",
 ["bundler/bundler_composer.go","bundler/composer_functions.go","bundler/detect_type.go","bundler/origin.go"],
 [("collision naming","bundler/composer_functions.go"),("reference rewriting","bundler/bundler_composer.go")],None,["BundleDocumentComposed","BundleBytesComposed","BundleBytesComposedWithOrigins"])
p("C14","Overlays are applied exactly as the Overlay specification prescribes",
 "Applying an overlay transforms the target as its actions prescribe, in order: each action affects exactly the nodes its target selects at that moment, update merges objects recursively, appends to arrays and replaces values, copy inserts the copied node, remove deletes the node. Nothing else changes, an action that selects nothing only yields a warning, malformed overlays and actions are errors, and the overlay and original input are left untouched.",
 ["inputs","programs"],"all short action sequences over small JSON-like trees with every node kind pair",
 "Tests pin examples; the merge is a recursion over all pairs of node kinds under arbitrary action sequences.",
 ["overlay/engine.go","overlay.go","overlay/errors.go","overlay/validation.go"],
 [("action application","overlay/engine.go"),("merge","overlay/engine.go:mergeNode")],None,["ApplyOverlay*","Result bytes and warnings"])
p("C15","The workflow engine follows the Arazzo control flow rules",
 "For every workflow document and every sequence of responses, the engine performs exactly the requests the Arazzo rules prescribe in that order: dependencies first, success and failure actions by first match with step actions before workflow actions, goto and end, retries up to the limit with the given delay, and sub-workflows. Results, errors and per-step records agree with what was performed, and every run ends.",
 ["programs","inputs","histories"],"all small workflow programs (workflows, steps, criteria, actions, dependencies) against all response sequences",
 "Engine tests run single scenarios; action selection, retry counters and dependency failure interact.",
 ["arazzo/engine.go","arazzo/actions.go","arazzo/step.go","arazzo/operation_resolver.go"],
 [("dependency order","arazzo/engine.go"),("action selection and retries","arazzo/actions.go"),("step loop","arazzo/engine.go")],[("execution state","active workflows, depth, results","arazzo/engine.go")],["Executor calls","RunAll/RunWorkflow results","sleep hook"])
p("C16","Workflow expressions and criteria evaluate to what they denote",
 "Every runtime expression and every success criterion evaluates to exactly the value or truth it denotes for the current request, response, inputs and earlier results, whatever value types are involved, and anything malformed or unavailable is an error rather than a wrong value. Embedded expressions are substituted in place, and parsing accepts exactly the expression grammar.",
 ["inputs"],"all expression forms × context shapes, all comparison operators × operand type pairs, JSON pointers with escapes",
 "Tests list examples; the operator × type × context product is not enumerated.",
 ["arazzo/expression/parser.go","arazzo/expression/evaluator.go","arazzo/criterion.go"],
 [("expression parser","arazzo/expression/parser.go"),("evaluator","arazzo/expression/evaluator.go"),("criterion evaluation","arazzo/criterion.go")],None,["expression.Parse/Evaluate","EvaluateCriterion"])
p("C17","Arazzo validation accepts exactly the well-formed documents",
 "Validating an Arazzo document reports an error for every violated rule (missing, duplicate, dangling or conflicting fields, wherever they occur) and reports none for a document that satisfies them all. Each reported error is located at the offending part.",
 ["inputs"],"a valid document with each single rule violated at each position, and pairs of such violations",
 "Validation tests check rules one by one at one position.",
 ["arazzo/validation.go","arazzo/errors.go"],[("rule checks","arazzo/validation.go")],None,["arazzo.Validate"])
p("C18","Parallel translation is ordered, complete and stops at the first error",
 "The parallel translation helpers deliver every result exactly once in input order whatever the schedule, and stop with the error if a translation or a result callback fails, without losing the error, delivering anything twice, deadlocking or leaking workers.",
 ["schedules","inputs"],"all interleavings of workers and collector for small inputs with each item succeeding, failing, being skipped or ending the stream",
 "Tests run the helper under whatever schedule occurs.",
 ["datamodel/translate.go"],[("ordered slice/map/pipeline translation","datamodel/translate.go")],None,["TranslateSliceParallel","TranslateMapParallel","TranslatePipeline"])
p("C19","Ordered maps keep insertion order under every operation history",
 "After any history of operations an ordered map contains exactly the keys last set and not deleted, with their latest values, iterated in order of first insertion. Nil maps behave as empty, and iteration, lookup, size and serialisation agree with each other.",
 ["histories"],"all operation sequences up to a bound over a few keys",
 "Tests use single short histories.",
 ["orderedmap/orderedmap.go","orderedmap/builder.go"],[("ordered map","orderedmap/orderedmap.go")],None,["orderedmap API"])
p("C20","Caches are invisible",
 "Any history of building, comparing, rendering, mutating, releasing documents and clearing caches gives for each document the results it would give alone in a fresh process. Equal location names or equal fragments in different documents never leak content from one to the other.",
 ["histories","schedules"],"all short histories over several documents that share file names and component names but differ in content, with cache clears in between, sequentially and concurrently",
 "Tests run in one process but never compare against a fresh one.",
 ["cache.go","datamodel/low/extraction_functions.go","datamodel/low/base/schema_hash.go","index/cache.go","what-changed/model"],
 [("global caches","cache.go")],[("hash and quick-hash caches","memoised content hashes","datamodel/low")],["all public results"])
p("C21","Schema identifiers resolve by the nearest enclosing base",
 "A schema's $id is resolved against the nearest enclosing schema identifier or else the document location, references written against an identifier or an anchor resolve to the schema that declares it, and invalid or conflicting identifiers never hijack another schema's references.",
 ["inputs"],"all small nestings of $id / relative $id / $anchor / references by identifier",
 "Tests list some examples; nesting and relative forms multiply.",
 ["index/schema_id_registry.go","index/schema_id_resolve.go","index/schema_id_context.go"],[("identifier registry","index/schema_id_registry.go"),("identifier resolution","index/schema_id_resolve.go")],None,["SpecIndex.GetSchemaById and resolved references"])
p("C22","Generated mocks are instances of the schema",
 "For every schema the mock generator either reports an error or produces a value that conforms to the schema: the right type, all required properties, a member of the enumeration, within the stated bounds, and it uses the supplied example, default or constant where one is given. Generation always ends, also for cyclic schemas.",
 ["inputs"],"all small schemas over types, bounds, enumerations, composition, nesting and examples",
 "Tests spot check shapes of random output.",
 ["renderer/mock_generator.go","renderer/schema_renderer.go"],[("schema driven generation","renderer/schema_renderer.go")],None,["MockGenerator.GenerateMock"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
