package main

// batch is one world explored for a property.
type batch struct {
	World    string
	Quick    int64 // simulated runs of the quick tier
	Thorough int64
	Race     bool
}

const (
	big  = 160000
	deep = 4000000
)

// plan says which worlds decide which property.
var plan = map[string][]batch{
	"C01": {{"oauth", big, deep, false}},
	"C02": {{"oauth", big, deep, false}},
	"C03": {{"oauth", big, deep, false}},
	"C04": {{"oauth", big, deep, false}},
	"C05": {{"oauth", big, deep, false}},
	"C06": {{"oauth", big, deep, false}},
	"C07": {{"oauth", big, deep, false}},
	"C08": {{"oauth", big, deep, false}},
	"C09": {{"oauth", big, deep, false}},
	"C10": {{"oauth", big, deep, false}},
	"C11": {{"oauth", big, deep, false}},
	"C12": {{"dpop", 120000, 1500000, false}},
	"C13": {{"dpop", 120000, 1500000, false}},
	"C14": {{"clientauth", 90000, 1500000, false}},
	"C15": {{"clientauth", 90000, 1500000, false}},
	"C16": {{"jose", 120000, 1500000, false}},
	"C17": {{"jose", 120000, 1500000, false}},
	"C18": {{"oauth", big, deep, false}, {"stores", 60000, 2000000, false}},
	"C19": {{"stores", 250000, 6000000, false}, {"oauth", 40000, 1000000, false}},
	"C20": {{"race", 30000, 1000000, true}},
	"C21": {{"oauth", big, deep, false}, {"tokens", 8000, 200000, false}, {"httpclient", 3000, 100000, false}, {"clientauth", 20000, 500000, false}, {"jose", 20000, 500000, false}, {"dpop", 20000, 500000, false}, {"admin", 10000, 300000, false}},
	"C22": {{"oauth", big, deep, false}, {"tokens", 5000, 200000, false}, {"clientauth", 10000, 300000, false}, {"jose", 10000, 300000, false}, {"dpop", 10000, 300000, false}, {"admin", 10000, 300000, false}},
	"C23": {{"tokens", 60000, 2000000, false}},
	"C24": {{"tokens", 60000, 2000000, false}},
	"C27": {{"durable", 150000, 4000000, false}, {"oauth", 40000, 1000000, false}},
	"C29": {{"ident", 300000, 2000000, false}},
	"C30": {{"ident", 200000, 2000000, false}},
	"C31": {{"tokens", 200000, 1500000, false}},
	"C32": {{"admin", 150000, 2000000, false}},
	"C33": {{"system", 16000, 200000, false}},
	"C34": {{"system", 16000, 200000, false}},
	"C28": {{"tokens", 50000, 1500000, false}, {"oauth", 20000, 500000, false}},
	"C26": {{"httpclient", 40000, 1000000, false}},
	"C25": {{"jose", 50000, 1500000, false}, {"dpop", 20000, 500000, false}, {"clientauth", 10000, 300000, false}},
}

// about describes the worlds for the evidence files.
var about = map[string]struct{ Real, Stub []string }{
	"race": {
		Real: []string{"server/services/authorization, token, device (shared instances)", "server/storage/inmemory (all seven stores)", "sdk/generator, sdk/dpop, sdk/jarm, sdk/jwsreq, sdk/jwk, sdk/token with jwt, cwt, verifiable", "sdk/randomness, sdk/pairwise, sdk/pkce, sdk/rfcerrors, server/profile", "server/clientauthentication (private_key_jwt, client_attestation)", "client (HTTP client and its key cache), net/http client", "go-jose, cose, protobuf runtime, uniuri, gofrs/uuid, go-cache", "Go race detector (happens-before over every memory access)"},
		Stub: []string{"clock, sleep, goroutine scheduler, crypto/rand (simulator)", "mutexes (the real ones; who gets them is the simulator's choice)", "http.DefaultTransport (simulated network)", "transport between tasks (copies without a happens-before edge)", "storage faults at the interfaces"},
	},
	"admin": {
		Real: []string{"server/services/authorization, token, device", "server/storage/inmemory (half of the runs)", "sdk/generator", "sdk/token (opaque, jwt, verifiable)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "client store (linearizable, changed by a simulated administrator)", "second storage backend: linearizable reference store (half of the runs)", "client and end-user authentication", "transport between clients and nodes (direct calls with scheduling points)"},
	},
	"system": {
		Real: []string{"server/services/authorization, token, device", "server/clientauthentication (private_key_jwt, client_attestation)", "server/storage/inmemory (all stores but the client registry)", "sdk/dpop, sdk/jarm, sdk/jwsreq, sdk/pairwise, sdk/generator, sdk/token (jwt, verifiable)", "client (HTTP client: discovery, keys, assertions, client credentials, introspection)", "examples/authorizationserver (handlers, middleware, respond)", "net/http wire format, go-jose (atomic)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "network between clients, nodes and resource server (loss, duplication, concurrent duplication, truncation, replay, latency, proxy errors)", "connection handling of net/http's server (a handler panic closes the connection)", "client registry (fixed set of clients)", "the resource server's glue (written after examples/resourceserver, using the real proof verifier and client package)", "browser and user (basic authentication as in the example)"},
	},
	"ident": {
		Real: []string{"sdk/pairwise", "server/profile", "blake2b"},
		Stub: []string{"goroutine scheduler, mutexes, clock (simulator)", "server processes (restarted with the same configuration)", "callers that wipe and scribble"},
	},
	"tokens": {
		Real: []string{"sdk/token/verifiable", "sdk/randomness (LockedRand, global source, seeded readers)", "sdk/pkce", "sdk/generator, opaque tokens", "uniuri and gofrs/uuid (instrumented copies)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator, with failing and short entropy)", "math/rand (an interruptible generator with the standard algorithm)", "attackers (altered, spliced, invented tokens and verifiers)"},
	},
	"httpclient": {
		Real: []string{"client (HTTP client: discovery, key cache, client credentials, introspection, assertions)", "server/clientauthentication (private_key_jwt)", "net/http client (redirects, atomic)", "go-jose (atomic)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "http.DefaultTransport (simulated network: resets, loss, duplication, stale, truncated, slow, malformed answers, error statuses, redirects, cancellation)", "authorization server endpoints behind the network"},
	},
	"durable": {
		Real: []string{"api/oidc wire encodings: generated MarshalVT, MarshalToVT, MarshalToSizedBufferVT, SizeVT, UnmarshalVT of every record type", "protobuf runtime encoder and decoder over the generated descriptors (atomic)"},
		Stub: []string{"disk (write cache, torn, short and lost writes, full disk, input/output errors, bit rot, power loss)", "file naming and replacement protocol (write, sync, rename; or overwriting in place)", "writers and readers (random records, read-modify-write)", "goroutine scheduler, clock (simulator)"},
	},
	"dpop": {
		Real: []string{"sdk/dpop (prover, verifier, CleanURL)", "sdk/token/jwt (DPoP signer, embedded-key verifier)", "server/storage/inmemory proof store, go-cache (instrumented copy)", "go-jose (atomic)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "network (a bag of proofs delivered duplicated, delayed, reordered, altered, misdirected)", "attackers (hand-made tokens)", "key providers"},
	},
	"clientauth": {
		Real: []string{"server/clientauthentication (private_key_jwt, client_attestation)", "sdk/jwk (key set selection and signature validation)", "sdk/token/jwt (assertion signer)", "client (assertion generation)", "go-jose (atomic)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "transport (direct calls: delayed, recombined, altered credentials)", "client store (reference store with rotation and faults)", "attackers (hand-made tokens)"},
	},
	"jose": {
		Real: []string{"sdk/jarm", "sdk/jwsreq", "sdk/token/jwt (all signers, verifier, token adapter)", "sdk/token/cwt", "sdk/token (access, refresh, assertion, introspection generators; encryption decorator)", "api protobuf records", "go-jose and cose (atomic)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "network (a bag of artefacts delivered duplicated, delayed, altered, misdirected)", "attackers and impostors (hand-made tokens)", "key providers and published key sets (rotation, faults)", "encrypter"},
	},
	"stores": {
		Real: []string{"server/storage/inmemory (all seven stores)", "go-cache (instrumented copy)", "api protobuf records"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "the services using the stores (replaced by random clients)"},
	},
	"oauth": {
		Real: []string{"server/services/authorization", "server/services/token", "server/services/device", "server/storage/inmemory (60% of the runs)", "sdk/generator", "sdk/token (opaque, jwt, verifiable)", "sdk/pkce", "go-cache (instrumented copy)"},
		Stub: []string{"clock, sleep, mutexes, goroutine scheduler, crypto/rand (simulator)", "transport between clients and nodes (direct calls with scheduling points)", "second storage backend: linearizable reference store (20% of the runs)", "third storage backend: a log of wire-encoded records on a simulated disk, replayed after crashes (20% of the runs, all of them for C27)", "end-user authentication (a subject string)", "HTTP handlers of the example server"},
	},
}

var commonAssumptions = []string{
	"preemption is explored at statement boundaries of sdk/, server/, client/ and the instrumented copies of go-cache, uniuri and gofrs/uuid; third-party and standard-library calls are atomic",
	"memory model: sequential consistency (one goroutine runs at a time); data races themselves are the subject of C20",
	"storage faults are injected at the storage interfaces; a crash loses everything a node holds in memory and nothing in the shared store",
	"absence of a violation is evidence over the sampled seeds, not a proof",
}
