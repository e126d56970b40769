#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that it stays schema-valid)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TOK="server/services/token/"
INM="server/storage/inmemory/"
p("C01","An authorization code is redeemed at most once",
  "However many token requests present the same authorization code - concurrently, on several server nodes sharing one store, after retries, lost storage acknowledgements or a node crash - at most one of them obtains tokens. A request that loses obtains no token and an OAuth error.",
  ["schedules","fault_sequences","crash_points","histories"],
  "every interleaving of concurrent redemptions of one code on any number of nodes sharing a session store, with every pattern of storage error (before or after taking effect), latency and node crash",
  "The unit tests call the grant once against a mock store that returns what it is told; two overlapping redemptions, and a delete whose acknowledgement is lost, are never executed.",
  [TOK+"grant_authorization_code.go",INM+"authorization_code_session.go"],
  [("read session then delete it before issuing tokens",TOK+"grant_authorization_code.go"),("atomic removal reporting absence",INM+"authorization_code_session.go:Delete")],
  ["responses of the token service for grant_type=authorization_code"])
p("C02","An authorization code only serves the party it was issued to",
  "Tokens are issued for an authorization code only to the client the code was issued to, at the issuer that issued it, with exactly the redirect URI of the authorization request, with the PKCE verifier whose SHA-256 is the registered challenge, and before the advertised lifetime of the code has elapsed. A rightful, timely first redemption with no fault or competing use succeeds.",
  ["inputs","histories","schedules","fault_sequences"],
  "every history of authorizations and redemptions by several clients, users and issuers that mixes up or mutates codes, clients, redirect URIs, verifiers and times",
  "Tests pair one hand-written session with one request; they never present one client's genuine code from another genuine client, or one whose lifetime has just elapsed in the real store.",
  [TOK+"grant_authorization_code.go","server/services/authorization/service.go",INM+"authorization_code_session.go"],
  [("client, redirect_uri and PKCE comparison",TOK+"grant_authorization_code.go"),("60 s TTL of sessions",INM+"authorization_code_session.go")],
  ["responses of the token service for grant_type=authorization_code"])
p("C03","A pushed authorization request is used once, by its owner, as pushed",
  "A request_uri returned by the pushed-authorization endpoint starts at most one authorization, only at the issuer and for the client that pushed it and only within its advertised lifetime, and the authorization it starts is the one that was pushed, whatever the caller does with the pushed object afterwards. A fresh request_uri presented by its owner with no fault or competing use is accepted.",
  ["schedules","histories","fault_sequences","inputs"],
  "every interleaving and replay of pushes and authorizations by several clients and issuers, with storage errors, lost acknowledgements, latency and clock advance",
  "Tests use a mock request store and a mock URI generator, so the generated URI is never fed back to the validator and no two authorizations ever race for one URI.",
  ["server/services/authorization/service.go","sdk/generator/request_uri.go",INM+"authorization_request.go"],
  [("burn after read","server/services/authorization/service.go:Authorize"),("syntax check of generated URIs","sdk/generator/request_uri.go"),("60 s TTL",INM+"authorization_request.go")],
  ["responses of the authorization service (Register, Authorize)","token metadata of the resulting code"])
p("C04","Codes are only issued for admissible authorization requests",
  "An authorization code or request_uri is issued only for a request that is complete (state >= 32 and nonce >= 8 characters, audience, scope), uses S256 PKCE with a 43-character challenge, and whose grant type, response type, response mode and exact redirect URI are registered for its client; a request is only accepted for the client identified with it. The response repeats the state, redirect URI, client and issuer of that request, an error that carries a state carries the one of its request, offline access is dropped from an OpenID request without prompt=consent, and every admissible request succeeds when no fault occurs.",
  ["inputs","configurations","histories","fault_sequences"],
  "every request derived from an admissible one by omitting, mutating, re-casing or swapping parameters between clients, for every registered client configuration, including under client-store faults",
  "Tests enumerate one mutation at a time against one mock client; combinations across differently configured real clients and store faults during validation are not reached.",
  ["server/services/authorization/service.go","sdk/types/string_array.go"],
  [("validate / validateClientCapabilities","server/services/authorization/service.go")],
  ["responses of the authorization service"])
p("C05","Issued tokens carry exactly the authority of their grant",
  "Every access or refresh token delivered by a grant names the issuer, client, subject, scope, audience and key confirmation of the authorization it derives from, is active, has a value and identifier no other token has, is issued at the serving node's current time and lives one hour (access) or seven days (refresh). A refresh token is delivered only when offline access was granted, the token store holds the same record the client received, and a self-contained token value carries the same claims.",
  ["histories","schedules","inputs","fault_sequences"],
  "every history of grants by several clients, users and issuers on nodes with skewed clocks, for opaque, signed and authenticated token formats, under interleaving and storage faults",
  "Tests compare one response per grant with a literal; aliasing of a shared record across requests, cross-talk between concurrent grants and agreement of response, store and signed claims are not compared.",
  [TOK+"generator.go",TOK+"grant_authorization_code.go",TOK+"grant_client_credentials.go",TOK+"grant_device_code.go",TOK+"grant_refresh_token.go","sdk/token/access_token.go","sdk/token/refresh_token.go"],
  [("token assembly",TOK+"generator.go"),("claims assembly","sdk/token/access_token.go")],
  ["responses of the token service","token store contents","decoded JWT claims"])
p("C06","Refresh tokens work only for their owner, while active, and never widen",
  "A refresh succeeds only with an active, unexpired refresh token of the requesting client at the same issuer (and, for a public client's key-bound token, with the same key), and yields an access token with the same subject, scope, audience and confirmation. When a refresh delivers a replacement refresh token, the old one never works again and at most one replacement is ever delivered for it; a rightful refresh with no fault or competing use succeeds.",
  ["histories","schedules","fault_sequences"],
  "every history of refreshes, rotations, revocations and clock advances over days by owners and thieves, including concurrent refreshes of one token and storage faults during rotation",
  "Tests refresh one mock token once; they cannot observe that the rotated token stays dead, nor two refreshes racing across the rotation.",
  [TOK+"grant_refresh_token.go",TOK+"generator.go",INM+"token.go"],
  [("ownership, status, type and expiry checks; rotate then revoke",TOK+"grant_refresh_token.go"),("atomic revoke",INM+"token.go:Revoke")],
  ["responses of the token service for grant_type=refresh_token"])
p("C07","Token exchange never amplifies a token",
  "Exchanging an access token succeeds only while that token is active and unexpired at the same issuer and for a client allowed to exchange; the result has the same issuer, subject and key confirmation, a scope contained in the original's, an audience that is a registered resource the request named (or the original's), belongs to the exchanging client, and expires no later than one minute from now nor later than the original; the response names the kind of token issued and its issuer. Every failure delivers no token and an OAuth error.",
  ["histories","inputs","schedules","fault_sequences"],
  "every chain of exchanges with arbitrary requested scopes and audiences, at any time of the subject token's life, concurrent with its revocation, under storage faults",
  "The exchange grant has no tests at all.",
  [TOK+"grant_token_exchange.go",INM+"resource.go"],
  [("subject token checks and derived metadata",TOK+"grant_token_exchange.go")],
  ["responses of the token service for grant_type=token-exchange"])
p("C08","Revocation is effective at once, for ever, and only for that token",
  "Once a revocation has been acknowledged, no later introspection on any node reports that token active and no later refresh or exchange accepts it, whatever runs concurrently. A token stops being active only through a revocation by the client it was issued to, its rotation, or expiry; no other token is affected.",
  ["histories","schedules","fault_sequences"],
  "every interleaving of revoke, introspect, refresh, exchange and issue operations on shared and distinct tokens by owners and strangers, under storage errors and lost acknowledgements",
  "Tests assert that the mock's Revoke is called; visibility in the real store through both of its indexes and under concurrent writers is never exercised.",
  [TOK+"revoke.go",TOK+"introspection.go",INM+"token.go"],
  [("lookup by value then revoke by id",TOK+"revoke.go"),("two-index token store",INM+"token.go")],
  ["responses of Revoke, Introspect and Token"])
p("C09","Introspection tells the truth about every token",
  "For a value issued by that issuer, introspection returns the record the client received, with the status that a sequential history of its issuance and revocations allows, and for any other value it returns 'unknown' with no metadata. A signed introspection answer says active exactly when the status is active and the node's clock lies within the token's validity period, and only then reveals the token's metadata, faithfully.",
  ["histories","inputs","schedules","fault_sequences"],
  "every history of issuance, revocation, expiry and introspection of issued, foreign, truncated or invented values on nodes with skewed clocks",
  "Tests introspect one mock token at one wall-clock instant; expiry boundaries, foreign values and agreement with what was issued are not reached.",
  [TOK+"introspection.go","sdk/token/introspection.go","sdk/token/helpers.go",INM+"token.go"],
  [("status mapping",TOK+"introspection.go"),("active flag","sdk/token/introspection.go"),("validity window","sdk/token/helpers.go:IsUsable")],
  ["responses of Introspect","decoded introspection assertions"])
p("C10","Device tokens require the user's approval, for that client and in time",
  "A device code yields tokens only after a user approved its user code at the same issuer, only to the client that requested it, only before it expires, and for the approving user with the scope and audience requested. Until then polling is answered authorization_pending; after approval, and with no fault, the next poll by the rightful client succeeds, and a device code yields tokens at most once.",
  ["histories","schedules","fault_sequences","crash_points"],
  "every interleaving of device requests, polls, approvals and clock advances by several clients, users and issuers on several nodes, with storage errors before or after taking effect and node crashes between steps",
  "Tests hand the token grant a session already in the state under test, with mocks; the states the device service really writes are never polled.",
  ["server/services/device/service.go",TOK+"grant_device_code.go",INM+"device_code_session.go"],
  [("status machine","server/services/device/service.go"),("poll checks",TOK+"grant_device_code.go")],
  ["responses of the token service for grant_type=device_code","responses of the device service"])
p("C11","A device authorization is approved by exactly one user, atomically",
  "Of all users approving one user code, concurrently or later, exactly one succeeds, and tokens for that device carry exactly that user. An approval that is reported as failed without having been stored does not authorize the device, an expired, unknown or foreign user code cannot be approved, and a valid pending one can.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of approvals of the same and different user codes on several nodes, with storage errors before or after the write, crashes and clock advance",
  "Tests validate once with a mock whose Validate stub cannot reveal that the shared record was already changed before it was stored.",
  ["server/services/device/service.go",INM+"device_code_session.go"],
  [("pending check then write","server/services/device/service.go:Validate"),("conditional update of a copy",INM+"device_code_session.go:Validate")],
  ["responses of the device service (Validate)","subject of tokens issued for the device code"])
p("C12","A DPoP proof is accepted at most once",
  "Among all verifiers sharing one proof store, a given proof - duplicated, replayed, reordered or delayed by the network, concurrently or later - is accepted at most once for as long as its timestamp is acceptable. When the proof store cannot be read or written the proof is not accepted.",
  ["schedules","fault_sequences","histories"],
  "every interleaving of verifications of original and duplicate proofs on several nodes with skewed clocks, with proof-store errors, lost acknowledgements and any delivery delay",
  "Tests verify a proof twice in sequence at best, against a mock; two simultaneous verifications and replays at the edge of the time window are not executed.",
  ["sdk/dpop/verifier.go",INM+"proof.go"],
  [("exists then register",  "sdk/dpop/verifier.go:checkProofCache"),("insert-if-absent with TTL above the acceptance window",INM+"proof.go")],
  ["verdicts of the DPoP verifier"])
p("C13","A DPoP proof is accepted only for its request, key, token and time",
  "A proof is accepted only if it is a dpop+jwt signed, with a supported algorithm, by the public key it embeds, names exactly the method and URL being verified, was issued within 15 seconds of the verifier's clock, has an identifier, and - where an access token is presented - is bound to that token and to its confirmation key; the returned confirmation is that key's SHA-256 thumbprint. A proof made by the prover and verified unmodified for the same request within the clock tolerance is accepted.",
  ["inputs","histories","fault_sequences"],
  "every proof produced by real provers with arbitrary keys, algorithms, methods, URLs and clocks, then delivered intact, delayed, corrupted, re-signed, or presented for another request, token or key",
  "Tests replace the JWT layer by mocks, so no proof made by the prover has ever been verified by the verifier.",
  ["sdk/dpop/prover.go","sdk/dpop/verifier.go","sdk/dpop/url.go","sdk/token/jwt/signer.go","sdk/token/jwt/embedded_verifier.go","sdk/token/jwt/token_adapter.go"],
  [("header, claims, window and binding checks","sdk/dpop/verifier.go")],
  ["verdicts and confirmations of the DPoP verifier"])
p("C14","private_key_jwt authenticates exactly the key holder",
  "Authentication by client assertion succeeds as client X only if the assertion is signed by a signature key currently registered for X with a supported algorithm, names X as both issuer and subject, carries an audience, an identifier and an expiry not yet passed on the server's clock; the client returned is X's registration. A rightful assertion succeeds when no fault occurs, every failure returns an OAuth error, a store failure being a server_error, and no client.",
  ["inputs","histories","fault_sequences","configurations"],
  "every assertion made with current, retired, encryption-only or other clients' keys, fresh, expired, mutated or cross-wired, interleaved with key rotation, clock skew and client-store faults",
  "Tests use fixed literals and one key; key rotation, skew, cross-client substitution and multi-key sets are not explored.",
  ["server/clientauthentication/private_key_jwt.go","sdk/jwk/signature.go","client/http.go"],
  [("claims checks and signature validation against registered keys","server/clientauthentication/private_key_jwt.go")],
  ["responses of the authentication processor"])
p("C15","Client attestation authenticates only the attested instance",
  "Authentication by attestation succeeds as client X only with an unexpired, already valid attestation about X signed by a signature key registered for the attester it names, together with an unexpired, already valid proof of possession issued by X and signed by the key that this attestation confirms. A rightful pair succeeds when no fault occurs; anything else, including recombined halves, yields an OAuth error, no client and no crash.",
  ["inputs","histories","fault_sequences"],
  "every combination of genuine, expired, not-yet-valid, mutated and recombined attestations and possession proofs of several clients and instances, with attester key rotation, clock skew and store faults",
  "The attestation processor has no tests.",
  ["server/clientauthentication/client_attestation.go","sdk/jwk/signature.go"],
  [("attestation and PoP validation","server/clientauthentication/client_attestation.go")],
  ["responses of the authentication processor"])
p("C16","A JARM response is accepted only from the right server, by its addressee",
  "Decoding a signed authorization response yields a code only if it is a jarm+jwt signed by a current key of the expected issuer, names that issuer and the decoding client, and has not expired; then the code, state and issuer are exactly those encoded. A response encoded by the right server and decoded in time by its addressee is accepted, error responses surface as errors and never as codes, and mixed-up, corrupted, expired or foreign responses yield no code.",
  ["inputs","histories","fault_sequences"],
  "every response from several servers (honest and attacker) to several clients, under key rotation, clock skew, delay, corruption, duplication and mix-up, and key provider faults",
  "Tests mock the JWT layer, so no response made by the encoder has ever been read by the decoder.",
  ["sdk/jarm/encoder.go","sdk/jarm/decoder.go","sdk/token/jwt/signer.go","sdk/token/jwt/verifier.go"],
  [("typ, issuer, audience and expiry checks","sdk/jarm/decoder.go")],
  ["results of the response decoder"])
p("C17","Signed request objects arrive exactly as signed, or not at all",
  "Decoding a signed authorization request returns, field for field, the request that a holder of a key in the client's current key set encoded, and an error for anything else - altered, truncated, signed by a retired, foreign or encryption-only key, or with an unsupported algorithm. Key-provider failures surface as errors, and a genuine request under current keys is accepted.",
  ["inputs","histories","fault_sequences"],
  "every request with arbitrary optional fields and text, under key rotation, duplicate key identifiers, corruption in transit and key-provider faults",
  "Tests mock the signer and verifier; signing, transit and verification are never composed, and rotation is not simulated.",
  ["sdk/jwsreq/encoder.go","sdk/jwsreq/decoder.go","sdk/token/jwt/signer.go","sdk/token/jwt/verifier.go"],
  [("JSON claims round trip","sdk/jwsreq"),("key selection by kid, use and signature","sdk/token/jwt/verifier.go:Claims")],
  ["results of the request decoder and the JWT verifier"])
p("C18","Issuers sharing one server are isolated",
  "A code, request_uri, device code, user code, access token or refresh token issued under one issuer identifier is unknown under every other issuer identifier served from the same stores, including identifiers that are prefixes or extensions of one another. Operating on it there neither succeeds nor changes its state at its own issuer.",
  ["inputs","histories","configurations"],
  "every pair of issuer identifiers, in particular ones where concatenating issuer and value is ambiguous, and every history of issuing at one and presenting (also split or padded) at the other",
  "Tests use a single issuer with mocks; the real key derivation is never asked to separate two issuers.",
  [INM+"token.go",INM+"authorization_code_session.go",INM+"authorization_request.go",INM+"device_code_session.go"],
  [("issuer in every derived storage key",INM)],
  ["responses of all services for artefacts of another issuer"])
p("C19","The shared stores behave like atomic expiring maps",
  "Every concurrent history of operations on the session, request, device, token, client and proof stores is equivalent to some sequential history of an expiring map that respects real-time order: a read returns the last value written unless deleted or past its time-to-live, and of several deletions of one session entry exactly one reports success. Records are values: changing an object after storing it, or one returned by a read, never changes what the store returns.",
  ["schedules","histories"],
  "every interleaving, down to individual statements and lock operations, of concurrent store operations on few keys, with clock advance across time-to-live boundaries",
  "The in-memory stores have no tests of their own.",
  [INM+"authorization_code_session.go",INM+"authorization_request.go",INM+"device_code_session.go",INM+"token.go",INM+"client.go",INM+"proof.go"],
  [("locked caches, copies in and out",INM)],
  ["results of the storage interfaces"])
p("C20","Shared components are free of data races",
  "The components meant to be shared between requests - services, stores, verifiers, signers, random sources, token generators, profiles and the HTTP client - can be used from any number of goroutines at once, sharing the records they hand out, without a data race or a concurrent-map crash.",
  ["schedules"],
  "every interleaving of concurrent calls on one shared instance, observed through the happens-before relation of the code's own synchronisation only",
  "Apart from the random source nothing is exercised from two goroutines, and the test run does not use the race detector.",
  [INM+"token.go",INM+"client.go","client/http.go","sdk/randomness/locked_rand.go","server/services/device/service.go"],
  [("mutexes and synchronised maps",INM)],
  ["race detector reports of the simulated executions"])
p("C21","Every fault fails closed with a well-formed error",
  "Whatever storage, generator or signing-key failure, nil or incomplete record or malformed request hits any operation at any point, the operation does not panic, hang or report success for work that was not done: it returns an error together with an OAuth error object whose code is registered, and hands out no code, URI, token, client or confirmation. An internal failure is not reported as the caller's fault nor a caller's fault as success, and the same instance serves later requests normally.",
  ["fault_sequences","inputs","crash_points"],
  "every single fault and random multiples, at every call an operation makes to a collaborator, for every operation and malformed input",
  "Tests inject one error into selected mock calls of selected operations; sequences of faults on real components, partial effects and later health are not covered.",
  [TOK,"server/services/authorization/service.go","server/services/device/service.go","server/clientauthentication","sdk/dpop/verifier.go","sdk/rfcerrors/errors.go"],
  [("error returns","server/services"),("error catalogue","sdk/rfcerrors/errors.go")],
  ["responses of every service operation under faults"])
p("C22","Once faults stop, every flow completes",
  "After any finite history of faults, crashes, hostile requests and contention, and once they cease, each supported flow - direct and pushed authorization with code redemption, client credentials, refresh, token exchange, device authorization, introspection and revocation - completes for a rightful client in one attempt per step and within its artefacts' lifetimes. No history leaves a service, store or verifier blocked.",
  ["fault_sequences","histories","crash_points","schedules"],
  "every history of faulted and concurrent operations followed by a fault-free period, for every flow",
  "No test runs a flow end to end across the services.",
  ["server/services","server/storage/inmemory","sdk/generator"],
  [("flow composition","server/services")],
  ["completion of each flow within a bounded number of steps after the last fault"])
p("C23","Verifiable tokens cannot be forged, altered or crash the verifier",
  "A verifiable token is accepted only if it was produced under the same secret, with the same prefix and content, and extraction returns the identifier it was made from; altering, truncating, extending, re-prefixing or inventing a token in any way yields an error, never a panic. Generation fails rather than yield a token when randomness or the identifier source fails or is short, and every generated token verifies.",
  ["inputs","fault_sequences","histories"],
  "every secret, prefix and identifier, every corruption of genuine tokens including out-of-range digits and splices of two tokens, and every failure or short read of the entropy source",
  "Tests check a few literals and a fuzz seed corpus; splices, over-range encodings and failing entropy are not systematically reached.",
  ["sdk/token/verifiable/uuid.go","sdk/token/verifiable/helpers.go","sdk/token/verifiable/verifiable.go"],
  [("HKDF-derived HMAC over prefix and identifier","sdk/token/verifiable/uuid.go"),("fixed-length base62","sdk/token/verifiable/helpers.go")],
  ["results of Generate, Verify and Extract"])
p("C24","The shared random source hands out one undivided stream",
  "Values drawn concurrently from a shared seeded source are, for some order of the calls consistent with real time, exactly the values the sequential generator with that seed yields: none is lost, duplicated or torn, including shuffles, permutations and byte reads. A reader created with a seed replays the same bytes and no call blocks the source for later callers.",
  ["schedules","histories"],
  "every interleaving, at statement and lock granularity, of concurrent calls of every method",
  "The existing tests call methods from several goroutines without checking any value.",
  ["sdk/randomness/locked_rand.go","sdk/randomness/global.go"],
  [("one mutex around the generator","sdk/randomness/locked_rand.go")],
  ["values returned by each method"])
p("C25","Signed tokens verify under current keys only and say what was asked",
  "A token made by any of the signers is accepted by the verifier if and only if the verifier's current key set contains the signing key for signature use (under the token's key identifier) and the algorithm is supported; its type header identifies the kind of token and its claims come back unchanged. A signer whose key provider fails or yields no usable key returns an error and no token, and token generators refuse records with missing, inconsistent or over-long metadata.",
  ["histories","inputs","fault_sequences"],
  "every history of signing and verifying across key rotations, duplicate or missing key identifiers, algorithm mismatch, key provider faults, corruption in transit, and every metadata mutation",
  "Signer and verifier are tested apart, each with one fixed key.",
  ["sdk/token/jwt/signer.go","sdk/token/jwt/builders.go","sdk/token/jwt/verifier.go","sdk/token/jwt/embedded_verifier.go","sdk/token/access_token.go","sdk/token/refresh_token.go","sdk/token/client_assertion.go","sdk/jwk/signature.go","sdk/token/cwt/signer.go"],
  [("key selection","sdk/token/jwt/verifier.go"),("header and key handling","sdk/token/jwt/signer.go"),("metadata validation","sdk/token/access_token.go")],
  ["serialized tokens and verifier verdicts"])
p("C26","The HTTP client is faithful and leak-free over an unreliable network",
  "The client returns server keys only from a successful, complete, non-empty, unexpired response, reuses them no longer than they are valid, and never keeps a partial or failed one; introspection and token calls return exactly what the server answered and an error for anything but a complete success. Every response body it receives is closed, whatever the outcome, and its client assertions authenticate it at the server for 30 seconds.",
  ["fault_sequences","histories","inputs"],
  "every sequence of connection errors, error statuses, truncated, slow, empty or malformed bodies, duplicate and stale answers, server key rotation and clock advance",
  "The client package has no tests.",
  ["client/http.go","client/claims.go"],
  [("key cache","client/http.go:PublicKeys"),("status and body handling","client/http.go")],
  ["values and errors returned by the client","bodies left open on the simulated transport"])
p("C27","Persisted records survive crash and restart unchanged",
  "Every session, request, token and client record written to durable storage through the project's wire encoding is read back after a crash and restart equal to what was stored, by either of its codecs, and in-flight flows continue with the same outcome. A torn or corrupted record yields an error or another well-formed record, never a panic.",
  ["crash_points","inputs","fault_sequences"],
  "every record content, crash point between persist and use, and every truncation or bit corruption of the stored bytes",
  "There are no tests of the encodings.",
  ["api/oidc/session/v1/session_vtproto.pb.go","api/oidc/token/v1/token_vtproto.pb.go","api/oidc/flow/v1/flow_vtproto.pb.go","api/oidc/client/v1/client_vtproto.pb.go"],
  [("generated MarshalVT / UnmarshalVT","api/oidc")],
  ["records read back from the simulated disk","flow outcomes after restart"])
p("C28","A PKCE challenge is answered by its own verifier only",
  "Each generated verifier/challenge pair is accepted by the validator and by the token endpoint, and a challenge is answered by no other verifier, in particular not by the challenge itself. Generated verifiers have the length and alphabet the token endpoint requires, no two are equal, and a failing or short entropy source yields an error rather than a verifier.",
  ["inputs","fault_sequences","histories"],
  "every pair generated from any entropy stream, cross-presented with every other pair and with mutations, and every failure or short read of the entropy source",
  "The package has no tests.",
  ["sdk/pkce/verifier.go",TOK+"grant_authorization_code.go"],
  [("SHA-256 comparison","sdk/pkce/verifier.go")],
  ["results of the generator and validator","token responses"])
p("C29","Pairwise subject identifiers are stable and unlinkable across sectors",
  "For one salt, the identifier of a subject at a sector is the same on every node, in every thread, after any restart and whatever was asked before or is asked meanwhile, also when the caller wipes its copy of the salt. It differs between sectors, between subjects and between salts, and is refused for a blank subject or a salt shorter than 16 bytes.",
  ["schedules","histories","crash_points","inputs"],
  "every history of derivations for any subjects and sectors by concurrent callers sharing an encoder, on nodes that restart with the same salt",
  "Tests check a few literals, each on an encoder of its own used once; state carried from one call to the next, shared between threads or with the caller is never seen.",
  ["sdk/pairwise/hash.go"],
  [("keyed BLAKE2b","sdk/pairwise/hash.go")],
  ["returned identifiers"])
p("C30","The strict profile admits only the intended grant combinations",
  "For each application type the strict profile offers exactly its documented grant types, response types and authentication methods, and offers none for unknown types - on every node, at any time, to any number of callers at once, and whatever earlier callers did with the lists they were handed.",
  ["histories","schedules","inputs"],
  "every history of lookups by concurrent callers, some of which change the lists they were handed",
  "There are no tests of the profile; a list changed by one request shows in a later one only.",
  ["server/profile/profile_strict.go","server/profile/client.go","server/profile/server.go"],
  [("static table","server/profile/profile_strict.go")],
  ["profile contents"])
p("C31","Generated codes and identifiers are fresh, unguessable and well-formed",
  "Every authorization code, device code, user code, request_uri, client identifier and opaque token the generators produce, on any number of nodes at once, has its documented form, is made of enough randomness that serves no other value, uses every character at every place, and is never handed out twice. Its own validator accepts it and refuses a blank or over-long or truncated value, and when randomness fails or is short no weaker value is handed out.",
  ["schedules","inputs","fault_sequences","histories"],
  "every interleaving of generators sharing the system's random source, and every failure or short read of that source",
  "The tests generate one value and compare it with nothing, or look at its length; a repeated, cached, torn or low-entropy value looks like any other.",
  ["sdk/generator/authorization_code.go","sdk/generator/device_code.go","sdk/generator/device_user_code.go","sdk/generator/request_uri.go","sdk/generator/client.go","sdk/token/token.go"],
  [("uniform choice from an alphabet with crypto/rand","github.com/dchest/uniuri"),("form checks","sdk/generator/request_uri.go:Validate")],
  ["generated values","bytes taken from the system's random source","results of Validate"])
p("C32","Rights withdrawn from a client are refused from the next request on",
  "Every service decides every request by the registration its client has at that moment. Once a client is removed, or a grant type, response type, response mode or redirect URI is withdrawn from it, no node serves a later request that needs it - whatever was asked, pushed, issued or cached before, and whatever the caller says about the client. Once it is granted again, requests that need it succeed.",
  ["histories","schedules","fault_sequences","crash_points"],
  "every history of registration changes interleaved with every kind of request on several nodes, with codes, request_uris, device codes and tokens from before the change",
  "Tests mock the client store with one fixed answer; a registration that changes between two requests, or a decision carried from one request to another, never occurs.",
  ["server/services/authorization/service.go","server/services/device/service.go",TOK],
  [("clients.Get at the start of every operation","server/services"),("capability checks","server/services")],
  ["responses of every service before, during and after a change"])
p("C33","End to end, each grant yields one token set that only its holder can use",
  "With real HTTP requests lost, repeated, delayed, cut short, replayed or answered by another node of the deployment: an authorization code, a pushed request and a device approval each yield at most one set of tokens, only for the client they belong to, which proved who it is; tokens carry what was granted; a resource admits exactly the live, unrevoked token presented the way its binding demands, with a proof used once; introspection tells a revoked or expired token from a live one; no client takes another's authorization response.",
  ["schedules","fault_sequences","crash_points","histories","inputs"],
  "every interleaving, loss, duplication, delay, truncation and replay of the HTTP messages of all parties, every crash of a node, and every attack of a registered client with what it can see",
  "Tests call one function of one component at a time with mocks for all others; no test sends a request over HTTP or combines client, authorization server and resource server.",
  ["server/services",TOK,"server/clientauthentication","server/storage/inmemory","sdk/dpop","sdk/jarm","sdk/jwsreq","client/http.go","examples/authorizationserver/handlers"],
  [("the whole stack","server, sdk, client"),("wire format and credentials","examples/authorizationserver, client")],
  ["HTTP responses and redirects","tokens accepted by the resource server","introspection answers"])
p("C34","End to end, well-behaved clients get through and no request breaks a server",
  "In a deployment of several authorization server nodes, a resource server and clients using the client package over HTTP: a client that follows the protocol completes every flow (pushed or direct authorization, device, client credentials, refresh, access, introspection, revocation) as long as nothing interferes, and again in a few requests as soon as faults stop, whatever was lost, repeated, crashed or attempted before. No request, however malformed, repeated or ill-timed, crashes a handler, blocks it forever or makes a healthy server answer with a server error, and no answer crashes a client.",
  ["schedules","fault_sequences","crash_points","histories","inputs"],
  "every interleaving, loss, duplication, delay, truncation and replay of HTTP messages, node crashes and malformed requests, followed by a fault-free period",
  "Tests cover single calls; whether the parts fit together, and still do after faults, is never run.",
  ["server/services",TOK,"server/clientauthentication","server/storage/inmemory","sdk/dpop","sdk/jarm","sdk/jwsreq","client/http.go","examples/authorizationserver/handlers"],
  [("the whole stack","server, sdk, client")],
  ["HTTP responses","progress of the flows after faults stop"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
