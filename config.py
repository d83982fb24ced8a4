"""What each check runs: the tests of /verif/harness with the number of cases per shard."""

CHECKS = {}


def add(prop, technique, note, *parts, assumptions=()):
    CHECKS[prop] = dict(technique=technique, note=note, parts=list(parts), assumptions=list(assumptions))


def part(test, quick, thorough, **kw):
    return dict(test=test, quick=quick, thorough=thorough, **kw)


TRUST = 'Trusts the reference model of the harness and the sampled space: no violation among the generated cases is not a proof.'

add('C01', 'property-based testing: generated schemas, data and queries against a reference executor',
    'Generated-input search: every generated request must give exactly the data of an independent executor over the Go values. ' + TRUST,
    part('TestC01', 2500, 40000), part('TestC01DupKeys', 1, 1))
add('C02', 'property-based testing and grammar-aware fuzzing: garbled documents, variables and operation names; every response through an independent strict JSON reader',
    'Every response, whatever the request, must be a complete response document. ' + TRUST,
    part('TestC02', 1500, 40000))
add('C03', 'property-based testing and grammar-aware fuzzing: byte soup, garbled and deeply nested documents, watchdog and recover around every call',
    'No request may panic, hang or poison the schema: a probe request must be answered as before after each. ' + TRUST,
    part('TestC03', 1500, 40000))
add('C04', 'property-based testing: metamorphic relation between layouts of one document',
    'Ignored tokens, comments, string forms and escapes must not change the response. ' + TRUST,
    part('TestC04', 1500, 30000))
add('C05', 'property-based testing: mutated documents against an independent lexer and grammar recogniser',
    'Invalid documents must be refused as a whole with a location at the mistake. ' + TRUST,
    part('TestC05', 1500, 40000))
add('C06', 'property-based testing: generated literals in generated argument types, calls compared with a reference binder',
    'The Go arguments seen by generated resolvers must be those of a reference binder. ' + TRUST,
    part('TestC06', 2500, 40000))
add('C07', 'property-based testing: metamorphic relation between literal, variable and default on generated requests',
    'Five ways of writing the same request must bind the same Go values and give the same bytes. ' + TRUST,
    part('TestC07', 1500, 25000))
add('C08', 'property-based testing: generated numbers around the limits of every Go number type against exact big arithmetic',
    'math/big and strconv decide what fits. ' + TRUST,
    part('TestC08', 2500, 40000))
add('C09', 'property-based testing: one generated mistake against the schema in a valid request, reachability decided by a reference executor',
    'The mistake must be reported at its field, with no resolver called that a reference executor would not call. ' + TRUST,
    part('TestC09', 1500, 30000))
add('C10', 'property-based testing: metamorphic inlining of fragments in generated requests, and a reference executor',
    'Inlining, reordering and adding fragments must not change the response. ' + TRUST,
    part('TestC10', 1500, 25000))
add('C11', 'property-based testing: generated directive uses against a reference executor and a pruned document',
    'Selections and the calls of resolvers and directives must be those of a reference executor. ' + TRUST,
    part('TestC11', 2000, 30000))
add('C12', 'property-based testing: generated documents with many operations against a reference executor',
    'Only the selected operation may have an effect. ' + TRUST,
    part('TestC12', 1500, 25000))
add('C13', 'property-based testing: generated failing resolvers against the errors of a reference executor',
    'Errors, order and paths must be those of a reference executor. ' + TRUST,
    part('TestC13', 2000, 30000))
add('C35', 'stateful property-based testing: long generated histories of distinct requests, the heap in use after garbage collection must stop growing',
    'Growth per request is measured over rounds of up to 9000 requests; a leak of less than about 12 bytes per request, or of expensive requests only, is not seen. ' + TRUST,
    part('TestC35', 45, 700))
add('C23', 'property-based testing: generated scalars in every position, round-trip through independent JSON decoders',
    'What a strict decoder reads back must be the Go value. ' + TRUST,
    part('TestC23', 2500, 40000))
add('C24', 'property-based testing: generated instants and locations, round-trip and independent calendar arithmetic',
    'Instants are compared by Unix time. ' + TRUST,
    part('TestC24', 2500, 40000))
add('C25', 'property-based testing: generated ID types and values, wire form and round-trip',
    'IDs of responses are fed back as arguments. ' + TRUST,
    part('TestC25', 2500, 40000))
add('C26', 'property-based testing: generated enum registrations and uses against the registered maps',
    'The registered Go map is the oracle. ' + TRUST,
    part('TestC26', 2500, 40000))
add('C27', 'property-based testing: generated values behind interfaces against a reference executor',
    'Dispatch must be on the concrete type. ' + TRUST,
    part('TestC27', 2000, 30000))
add('C34', 'property-based testing: call histories of generated requests against a reference executor',
    'The history of resolver calls must be that of a reference executor. ' + TRUST,
    part('TestC34', 2000, 30000))
add('C14', 'stateful property-based testing: generated histories of requests on one schema, each answered by a fresh build too',
    'What came before must not show in a response: differential against a new build of the schema. ' + TRUST,
    part('TestC14', 800, 20000))
add('C15', 'stateful property-based testing: generated histories around the cache key (same length, same prefix, evictions) against a schema that never caches',
    'The cache must not be observable: differential against the library without its cache. ' + TRUST,
    part('TestC15', 800, 20000))
add('C16', 'stateful property-based testing: generated trees of copies, every response against a fresh build of the original',
    'Copies of copies, used or not, must answer like the original, introspection included. ' + TRUST,
    part('TestC16', 800, 20000))
add('C17', 'property-based testing of concurrent schedules: generated copies served by a goroutine each under the race detector',
    'The race detector and a differential against sequential answers decide. Schedules are those the Go scheduler happens to pick. ' + TRUST,
    part('TestC17', 150, 4000, race=True))
add('C18', 'property-based testing: generated schemas, the full introspection document against a description computed from the Go types',
    'The introspection is compared with one computed independently from the Go types. ' + TRUST,
    part('TestC18', 500, 10000))
add('C19', 'property-based testing: generated introspection selections against the full introspection result',
    'Any introspection query must be answered consistently with the full dump. ' + TRUST,
    part('TestC19', 500, 10000))
add('C20', 'property-based testing: generated struct types with generated names and tags against the documented naming rules',
    'A name is answered exactly when the documented rules give it. ' + TRUST,
    part('TestC20', 3000, 60000))
add('C21', 'property-based testing: generated Go types with unsupported parts as roots, against an independent validity decision',
    'Parse must return an error exactly when the independent description of the types is impossible. ' + TRUST,
    part('TestC21', 2000, 40000))
add('C22', 'property-based testing: generated queries around the depth limit on cyclic object graphs against a reference executor',
    'Below the limit the answer must be exact, at the limit it must lie between the two reference answers that stop and go on behind the error. ' + TRUST,
    part('TestC22', 2000, 40000), part('TestC22Any', 2000, 40000))
add('C28', 'property-based testing: generated requests over every transport against direct resolution on another build of the schema',
    'Direct resolution is the oracle for URL, JSON, text, multipart and batch requests. ' + TRUST,
    part('TestC28', 1500, 30000))
add('C29', 'stateful property-based testing: generated queries whose resolvers read and set request values and cancel contexts, against a reference history',
    'The model replays what every resolver must see of values, context and path. ' + TRUST,
    part('TestC29', 2000, 40000))
add('C30', 'property-based testing: generated requests answered with and without tracing against a reference executor and times the resolvers measure',
    'Records must be those of the fields the reference resolves; intervals are compared with each other, with the request and with the calls. ' + TRUST,
    part('TestC30', 2500, 50000))
add('C31', 'property-based testing: generated requests with file arguments and form files that can or can not be had, against a reference executor',
    'The names asked for and the very pointers handed over are compared. ' + TRUST,
    part('TestC31', 4000, 80000))
add('C32', 'property-based testing: every question of the tester package about generated schemas, answered from the declaration too',
    'Type names and field lists are made from, or near to, those of the schema. ' + TRUST,
    part('TestC32', 1500, 30000))
add('C33', 'stateful property-based testing: generated histories of registration calls against a model, the global ones in a process each',
    'Return values, panics, the introspection and what can be used afterwards are compared with the model. ' + TRUST,
    part('TestC33', 3000, 60000), part('TestC33Types', 600, 12000))
