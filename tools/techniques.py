BASE = "Generated-input search, no proof: assurance is that of the cases counted in the evidence. Trusts hyper, tokio, serde and proptest and the harness' own model, client and server set-up (real loopback connections). "
TECH = {
 'C01': ("model-based property testing (proptest, shrinking): random registration programs and requests against a flat reference model", BASE + "Non-ASCII paths only through Router::search_route."),
 'C02': ("metamorphic property testing: shuffled registration orders of the same registrations must behave alike", BASE + "Parameter names are distinct along one path."),
 'C03': ("model-based stateful property testing: each registration accepted or refused as in the reference model, kept registrations probed after each refusal", BASE),
 'C04': ("property testing against the standard library's parsers and a reference pattern match", BASE),
 'C05': ("model-based property testing: executed middleware sequence against a flat reference model", BASE),
 'C06': ("property testing of generated middleware programs against an interpreter of the documented semantics", BASE),
 'C07': ("differential property testing: nested and flat registration of the same routes", BASE),
 'C08': ("metamorphic property testing: slash-decorated and normalised registrations and requests", BASE),
 'C09': ("property testing against an independent reference decoder, with encode/decode round trips", BASE + "Field types: scalars, options, lists, defaults, maps; no nested structures or enums."),
 'C10': ("metamorphic property testing: same bytes under different chunkings, framings and entry points", BASE),
 'C11': ("round-trip and differential property testing against serde_json", BASE + "serde_json is the reference for what a document denotes."),
 'C12': ("property testing against an independent reference decoder of grouped maps", BASE),
 'C13': ("generative fuzzing of decoders, router and live server with damaged and arbitrary input, crash and liveness oracle", BASE + "About 200 target types; a crash of the whole process is reproduced from the recorded case."),
 'C14': ("property testing of generated response-building programs against a reference model of status, headers and body", BASE),
 'C15': ("property testing of generated failing chains, accessors and unmatched requests", BASE),
 'C16': ("round-trip property testing: requests sent on the wire compared with what middlewares and handler observe", BASE),
 'C17': ("model-based stateful property testing: typed data operations at every point of a request against a per-request map", BASE),
 'C18': ("stateful property testing of generated interleavings, resets and panics: each answer against the answer alone", BASE + "Interleavings are controlled at held-up points of middlewares and handlers; inside a step the runtime's order is taken."),
 'C19': ("model-based stateful property testing: file histories and GETs against a model of the tree and the routes", BASE + "Names of URL-safe characters; directories relative to the working directory."),
 'C20': ("fuzzing with structured hostile paths; oracle: no token of a file outside the served directory appears in any answer", BASE + "Symbolic links are not generated."),
 'C21': ("differential property testing: the same server with and without loggers", BASE),
}
NA = {}
