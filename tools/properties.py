# The properties, how each is decided, and those left out (key "na").
NOTES = ("One static analyser (analyzer/, Go) decides every property: it loads and type-checks /repo's working tree, "
         "builds SSA, explores the inlined inter-procedural graph of each entry point with an abstract interpreter over hash-consed value "
         "terms, and applies typestate, must-precede, dataflow and value-provenance rules to it. Nothing of /repo is executed.")
LOGIC = "internal/ctsubmit/logic.go"
BUCKET = "internal/ctsubmit/bucket.go"
CONFIG = "internal/ctsubmit/config.go"
MON = "internal/ctmonitor/logic.go"
MSTOR = "internal/ctmonitor/storage.go"
FASTLY = "internal/ctmonitor/fastly.go"
FETCH = "internal/ctmonitor/fetch.go"
BASE = ("Sound for the paths of the abstract interpretation (all paths of all functions of the module reachable from the entry point, loops widened to a fixpoint); "
        "assumes the summaries of external packages listed in DESIGN.md, Go's memory model, and no unsafe or reflective writes.")

def m(*xs):
    return [{"name": a, "where": b} for a, b in xs]

P = [
 dict(id="C01", title="A submission is acknowledged only after its whole flush is durable",
  statement="The answer to a submission is released only after the data tiles, Merkle tree tiles, issuer certificates, leaf-hash records, duplicate records, signed tree head and checkpoint of the flush that contains it have all been written to storage and every one of those writes was waited for and reported success. This holds on every path and for every interleaving of the upload tasks.",
  over=["schedules", "crash_points", "fault_sequences"], text="every path of the sequencer, every order in which concurrent uploads finish, and every point at which one of them fails or the process stops",
  why="No test starts the submission pipeline; a test would see one interleaving and the uploads succeeding.",
  files=[LOGIC, BUCKET], mech=m(("uploads joined by an error group before anything is acknowledged", LOGIC), ("answers sent at the end of the flush", LOGIC)),
  tech="inter-procedural must-precede (dominance) analysis over the sequencer's path graph, with task join and error-result tracking", note=BASE),
 dict(id="C02", title="A tree head is published only after everything it commits to",
  statement="A signed tree head or checkpoint is written to storage only after all data tiles, Merkle tree tiles, issuer certificates and leaf-hash records of the same flush have been written, waited for and found successful, for every interleaving of the upload tasks and every storage failure.",
  over=["schedules", "crash_points", "fault_sequences"], text="every path, upload interleaving, storage failure and crash point of the sequencer",
  why="No test runs the sequencer, and a violation shows only when the process stops or a reader looks between two writes.",
  files=[LOGIC, BUCKET], mech=m(("error group wait before the tree head is computed and uploaded", LOGIC)),
  tech="inter-procedural must-precede analysis over the sequencer's path graph", note=BASE),
 dict(id="C03", title="The sequencer stops at the first failure",
  statement="Once any operation of a flush fails (a storage call, a hash or tile computation, signing, or an upload task), the sequencer performs no further upload, acknowledges nothing and accepts no further batch; a failure inside a concurrent upload is reported by the task and not dropped.",
  over=["fault_sequences", "schedules"], text="every fallible call in the sequencer and its upload tasks, and every path on which it fails",
  why="Tests inject no storage or signing failures into the pipeline.",
  files=[LOGIC, BUCKET], mech=m(("every error is returned from the sequencer", LOGIC)),
  tech="error-value dataflow: from each failing edge no upload, acknowledgement or receive is reachable", note=BASE),
 dict(id="C15", title="Hash and duplicate records are merged without losing or reordering any",
  statement="For every batch and every existing record file, the leaf-hash file and the duplicate file named by the first 16 bytes of the entry's leaf hash or fingerprint are rewritten to contain all their previous records, in order, plus one record per entry of the batch holding exactly those 16 bytes, the entry's leaf index in 5 little-endian bytes and (duplicates) its timestamp in 8 little-endian bytes. A missing file counts as empty, and any other read failure aborts the flush; every touched file is written back.",
  over=["inputs", "histories"], text="all batches, existing file contents and hash collisions on the file name",
  why="No test covers the record files (the source says it needs testing), and file-name collisions inside one batch are rare.",
  files=[BUCKET, LOGIC], mech=m(("record merge", BUCKET)),
  tech="symbolic value provenance of the merge loops: fetch, splice and write-back loops checked against a splice invariant, record bytes matched to the entry's fields", note=BASE),
 dict(id="C17", title="The read side answers only from the published tree and never writes",
  statement="A proof is computed only for a tree size that the signed tree head read for the same request covers, and entries are read only for indexes below that head's size; larger, reversed or negative requests are refused. Serving requests never creates, changes or deletes a stored object, and the backend is only ever sent GET or HEAD requests.",
  over=["inputs", "histories"], text="all request parameters and all published tree heads, for both the HTTP server and the edge program",
  why="No test covers out-of-range parameters, or tree heads that grow between requests.",
  files=[MON, FETCH, MSTOR, FASTLY], mech=m(("bounds checks against the tree head", MON), ("reads only through the storage interface", FETCH)),
  tech="must-hold facts dataflow at every proof computation and tile read, plus an effect analysis of everything reachable from the handlers", note=BASE),
 dict(id="C18", title="Proof and tree-head answers are what the request asked for",
  statement="get-sth and get-roots return the stored object byte for byte. get-sth-consistency, get-proof-by-hash and get-entry-and-proof return the complete proof, in order, for exactly the requested sizes and index, with hashes taken from the tile that holds them; the index in get-proof-by-hash is the one recorded for the requested hash, found if any record of the hash's file has it, and get-entry-and-proof returns the leaf, and the full certificate chain in order, of the entry with the requested index.",
  over=["inputs", "histories"], text="all requests and all stored tiles and record files",
  why="The tests start no read-side server against a populated tree; a wrong index or a proof element out of place shows only for some tree shapes.",
  files=[MON, FETCH], mech=m(("proof endpoints", MON), ("hash to index lookup", FETCH)),
  tech="symbolic value provenance of each response field (loop-built sequences matched element by element), scan-loop exhaustiveness and buffer aliasing analysis", note=BASE+" The Merkle arithmetic of the tlog library is trusted."),
 dict(id="C19", title="get-entries returns consecutive entries from start, complete and bounded",
  statement="A get-entries answer lists, in order and without gap, duplicate or foreign entry, the log entries from the requested start up to the requested end, the end of the published tree or the limit of the server (1024 entries, 75 at the edge), whichever comes first; only where the edge runs out of backend requests may it stop earlier. Every listed entry carries its own leaf and the full chain of its own issuers, in order, in the form its type (certificate or precertificate) requires.",
  over=["inputs", "histories"], text="all start/end parameters and tree sizes, including ranges over several tiles and a partial last tile",
  why="Tests do not serve get-entries; ranges that cross tiles or end in a partial tile need trees of hundreds of entries.",
  files=[MON], mech=m(("selection of tiles and entries", MON)),
  tech="interval-contiguity analysis of the tile list, path-sensitive filter and loop-exit analysis, and element-wise provenance of the reply", note=BASE),
 dict(id="C20", title="Failures are reported as failures, and every request is answered once",
  statement="Whenever an operation a request depends on fails (reading storage, decoding, proving, validating, signing, marshalling), the client gets an error status and never a success; malformed numeric or base64 parameters get a 4xx status. Every request is answered exactly once, error bodies never carry a success status, and nothing is sent after an error.",
  over=["inputs", "fault_sequences"], text="every fallible call in every handler, and every path on which it fails",
  why="Tests inject no faults into the handlers.",
  files=[MON, FETCH, FASTLY, LOGIC], mech=m(("status selection in the wrappers", MON), ("status selection on submission", LOGIC)),
  tech="error-value dataflow and typestate of the response writer over every handler's path graph", note=BASE+" A missing duplicate record (the entry is new) and a missing full tile (the partial one is read) are no failures."),
 dict(id="C21", title="Tiles that are not yet complete are still found",
  statement="Wherever a tile is read to answer a request, its complete form is tried first, and if that does not exist and the tile may be the last of the tree, its partial form is read, at the width it has in the tree the request is answered for; the partial form is not used while the complete one exists, and other read failures are not papered over.",
  over=["inputs", "histories"], text="all requests at all tree sizes and all moments relative to the growth of the tree",
  why="Partial tiles exist only at certain tree sizes, and no test serves tiles.",
  files=[FETCH, MON], mech=m(("fallback to the partial tile", FETCH), ("width of the last tile", MON)),
  tech="path analysis from every tile read along its not-found edges, and value provenance of the partial width", note=BASE),
 dict(id="C22", title="Each endpoint is served at its RFC 6962 path and method by its own logic",
  statement="The read server answers GET on get-sth, get-sth-consistency, get-proof-by-hash, get-entries, get-roots and get-entry-and-proof, and the write server answers POST on add-chain and add-pre-chain, all under /ct/v1/, each with the answer of its own type declared as JSON; all routes are in place before the listener is served. The edge program answers the four computed endpoints at the same paths and refuses POST, PUT, PATCH and DELETE.",
  over=["inputs", "programs"], text="all routes of the three programs and all request methods",
  why="Tests do not start the servers.",
  files=[MON, FASTLY, LOGIC, "internal/ctmonitor/main.go", "internal/ctsubmit/main.go"], mech=m(("route registration", MON), ("route registration", LOGIC), ("path dispatch", FASTLY)),
  tech="abstract interpretation of the start-up code to recover the route table, and type and provenance check of each route's reply", note=BASE),
 dict(id="C14", title="Leaves, extensions and signatures have their RFC 6962 and c2sp wire form",
  statement="For every entry, MerkleTreeLeaf returns v1, timestamped_entry, the 8-byte timestamp, the entry type, for a precertificate the issuer key hash, the certificate with a 3-byte length, and the extensions with a 2-byte length. MarshalExtensions writes exactly one leaf_index extension of five big-endian bytes and refuses an index of 2^40 or more and only that; ParseExtensions returns the index of the first leaf_index extension, skips unknown extensions whole and refuses a malformed or missing one. DigitallySign returns SHA-256, ECDSA and the length-prefixed RFC 6979 signature over the SHA-256 digest of exactly the message.",
  over=["inputs"], text="all entries, indices, extension strings, keys and messages",
  why="A test compares a few encodings; a byte that is lost only for large indices, timestamps or certificates goes unseen.",
  files=["internal/sunlight/tile_ol.go","internal/sunlight/extensions_ol.go","internal/sunlight/digitallysign_ol.go"], mech=m(("leaf encoding","internal/sunlight/tile_ol.go"),("extensions codec","internal/sunlight/extensions_ol.go"),("signature encoding","internal/sunlight/digitallysign_ol.go")),
  tech="symbolic byte-layout extraction: the byte-sequence term of every return is matched against the specified layout field by field", note=BASE+" cryptobyte is modelled; that a rfc6979 signature verifies is covered by its unit tests."),
 dict(id="C31", title="Data tile leaves decode to exactly what was encoded",
  statement="AppendTileLeaf appends to the tile, and nothing else, the timestamp, entry type, for a precertificate the issuer key hash, the certificate, the extensions with the leaf index, for a precertificate the full precertificate, and every chain fingerprint in order behind their total size. ReadTileLeaf takes every field back from where AppendTileLeaf put it, sets the certificate fingerprint to the SHA-256 digest of the submitted certificate, leaves the rest of the tile untouched behind the last fingerprint, and refuses a leaf only if it is malformed.",
  over=["inputs"], text="all entries of both types, with any chain, at any place in a tile",
  why="The tests contain no round trip; fields that move only for precertificates, long chains or large indices need particular inputs.",
  files=["internal/sunlight/tile_ol.go"], mech=m(("encoder and decoder","internal/sunlight/tile_ol.go")),
  tech="symbolic byte-layout extraction from encoder and decoder, compared offset by offset, with path analysis of every refusal", note=BASE+" cryptobyte is modelled."),
 dict(id="C05", title="Every published tree head describes the tree it was published for",
  statement="For every batch, get-sth and the checkpoint carry the size of the tree including the batch (the index of its last entry plus one, or for an empty batch the size published before), that size's root hash, and a clock reading taken after the batch was received. The signature in each covers exactly the size, timestamp and root hash printed in it, is made with the one log key, and the checkpoint is a c2sp note whose origin, key hash and signature bytes are those of the configured log.",
  over=["inputs", "histories"], text="all sequences of batches, empty and not, and all sizes and keys",
  why="No test runs the sequencer; a head that is one entry short, reuses an old size or signs a different timestamp is still well formed.",
  files=[LOGIC, "internal/sunlight/checkpoint_ol.go", "internal/sunlight/misc.go"], mech=m(("publication", LOGIC), ("checkpoint format", "internal/sunlight/checkpoint_ol.go"), ("get-sth format", "internal/sunlight/misc.go")),
  tech="symbolic value provenance of both published objects, with loop-carried value analysis for the size and path analysis for the clock", note=BASE+" tlog.TreeHash, note.Sign and SerializeSTHSignatureInput are summarised."),
 dict(id="C32", title="The checkpoint verifier accepts exactly the log's own valid heads",
  statement="NewRFC6962Verifier's key hash is the first four bytes of SHA-256 over the name, a newline, 0x05 and the key ID, and its verifier accepts a note only if the text is a checkpoint without extension lines, the note signature is exactly a timestamp and a SHA-256 signature of the key's algorithm, and that signature verifies over the TreeHeadSignature input with the checkpoint's size and root hash and that timestamp; it refuses nothing else. ParseCheckpoint accepts only a canonical non-negative decimal size, a 32-byte base64 root hash and newline-terminated text, and returns exactly what the lines say.",
  over=["inputs"], text="all notes, signatures, names and keys",
  why="No test verifies a note.",
  files=["internal/sunlight/checkpoint_ol.go"], mech=m(("verifier and parser", "internal/sunlight/checkpoint_ol.go")),
  tech="must-fact dataflow at every accepting return and path search for unjustified refusals, over symbolic terms of the parsed bytes", note=BASE+" cryptobyte is modelled."),
 dict(id="C04", title="Uploaded tiles hold exactly the log's leaves and hashes",
  statement="A leaf tile holds the AppendTileLeaf encodings of consecutive entries, each batch continuing after the last leaf uploaded before it: a tile is finished, uploaded under its number at full width, and the next number started exactly when it reaches 256 leaves, and otherwise the last tile is uploaded at its current width and kept for the next batch. Every hash of every new leaf (the RFC 6962 hash of its MerkleTreeLeaf) is stored under its index; each Merkle tile that changes between the tree before and after the batch is uploaded with exactly its own hashes, read from those new hashes or the right edge kept from the batch before, and the last tile of each level is kept as the new right edge.",
  over=["inputs", "histories"], text="all batches on all trees, of any size and position relative to tile boundaries",
  why="No test runs the sequencer; mistakes at tile boundaries need hundreds of entries split over batches in particular ways.",
  files=[LOGIC], mech=m(("leaf tile buffer", LOGIC), ("new hashes and right edge", LOGIC)),
  tech="typestate of the leaf buffer per loop iteration (bytes, width, number), loop-carried value analysis of the hash map and right edge, and provenance of every tile uploaded", note=BASE+" tlog's tile arithmetic (NewTiles, ReadTileData, StoredHashesForRecordHash) is trusted."),
dict(id="C06", title="An SCT promises exactly what was logged for that submission",
  statement="The timestamp, leaf index and signature in a submission's answer all belong to one entry: the one sequenced for this very submission, received on a channel made for this request and handed over with it, or the submission itself with the index and timestamp on record for it. The signature is over that entry's MerkleTreeLeaf with the log's key, and the log ID is the SHA-256 of that key. Every submission of a batch is answered once, with its own entry, before the next batch is taken up.",
  over=["schedules", "inputs"], text="all interleavings of concurrent submissions and batches of any size",
  why="A mix-up between concurrent submissions or a field taken from the wrong entry gives well-formed answers; no test submits anything.",
  files=[LOGIC, CONFIG], mech=m(("SCT assembly", LOGIC), ("return path of each entry", LOGIC), ("log ID check at start", CONFIG)),
  tech="symbolic value provenance of every success reply, channel pairing between handler, pool and sequencer, and answer-loop completeness", note=BASE),
 dict(id="C07", title="A submission that is on record is answered from the record, not logged again",
  statement="Before a submission is handed to the sequencer, the file named by the first 16 bytes of its certificate's SHA-256 fingerprint, at the granularity the sequencer writes, is searched record by record, completely. If a record with those 16 bytes is found, the submission is not logged again and is answered with that record's leaf index (bytes 16 to 20, little-endian) and timestamp (bytes 21 to 28), whatever their values, and only a failure while making the answer may prevent that.",
  over=["inputs", "histories"], text="all submissions and all contents of the record files",
  why="No test resubmits; a record behind another of the same file, or of a certain age or kind, needs a particular history.",
  files=[LOGIC, BUCKET], mech=m(("look-up before sequencing", LOGIC), ("record scan", BUCKET)),
  tech="must-precede analysis, record layout matching and scan-loop exhaustiveness over the handler's path graph", note=BASE),
 dict(id="C08", title="Exactly the valid chains of the right kind are accepted",
  statement="A submission is logged or answered with success only if the body was read and decoded, the chain in it is not empty and validates against all published roots and the configured validity period (a time of day or key-usage restriction is not imposed), and its first certificate is a precertificate exactly if add-pre-chain was called. A submission is refused only if one of these is not so, the precertificate's issuer is not in its chain, some call failed, or a wait timed out; every refusal has a status from 400 to 599.",
  over=["inputs"], text="all request bodies, chains, root sets and configured periods",
  why="The tests send no submissions; a chain that is wrongly refused or accepted needs particular certificates.",
  files=[LOGIC, CONFIG], mech=m(("validation", LOGIC), ("roots and period loaded at start", CONFIG)),
  tech="must-hold facts at every send and success reply, and path search for refusals without a permitted reason", note=BASE+" ctfe.ValidateChain and IsPrecertificate are trusted."),
 dict(id="C09", title="What is logged is the submitted certificate with its whole chain",
  statement="The entry made from a submission has as certificate the submitted certificate (for a precertificate, its TBS certificate built by BuildPrecertTBS with the precertificate signing certificate if the issuer is one, the SHA-256 of the real issuer's public key as issuer key hash, and the submitted precertificate), the SHA-256 fingerprint of the submitted certificate, and the rest of the validated chain with the fingerprint of each certificate, in order and complete. Certificates of the chain are used only where the chain is known to have them.",
  over=["inputs"], text="all valid chains of any length, with and without precertificate signing certificates",
  why="No test builds an entry; precertificate signing certificates and very short chains are rare.",
  files=[LOGIC], mech=m(("entry construction", LOGIC)),
  tech="symbolic value provenance of every field of the entry, with element-wise matching of loop-built sequences and length facts", note=BASE),
 dict(id="C10", title="Entries are numbered consecutively and handed over once, in order",
  statement="The first submission taken up after start gets the published tree size as leaf index and each later one the next number; its timestamp is the time in milliseconds read after it was taken up. Every submission taken up is put in exactly one batch, with its own return channel, unmodified and in the order taken up, and each batch is handed over once to the sequencer. One task numbers submissions and one task sequences batches, each started once, over channels nothing else uses.",
  over=["schedules", "histories"], text="all arrival orders, batch sizes and flush times",
  why="No test runs the pool; a lost, repeated or misnumbered entry shows only at flush boundaries.",
  files=[LOGIC, CONFIG], mech=m(("pool", LOGIC), ("channels", CONFIG)),
  tech="conservation analysis of the batch under construction per loop path, loop-carried value analysis of the counter, channel-role analysis over all tasks", note=BASE),
 dict(id="C25", title="A batch or buffer in use by another task is not written to",
  statement="After a batch was handed to the sequencer, the memory holding its entries is not written by the pool. While an upload task of a flush may still be running, the bytes it uploads and every variable it reads are left unchanged by the sequencer, and memory of a finished upload buffer is not cut short and filled again while an upload may still read it.",
  over=["schedules"], text="all interleavings of pool, sequencer and upload tasks",
  why="Tests do not run these tasks; an overwritten batch needs a flush to be slower than the next submissions.",
  files=[LOGIC], mech=m(("copy of the pool", LOGIC), ("upload tasks", LOGIC)),
  tech="ownership and aliasing analysis: freshness of handed-over memory, borrowed variables of live tasks, reuse of slices", note=BASE),
 dict(id="C26", title="Concurrently running parts share no memory without synchronisation",
  statement="No variable, map or slice is written by one request, task or start-up phase of the submission server or the monitor while another that runs at the same time reads or writes it, unless both hold the same lock, use atomic operations, or are ordered by a channel, a task start or a wait.",
  over=["schedules"], text="all interleavings of requests and background tasks",
  why="The tests start no concurrent requests; a data race shows only under particular interleavings.",
  files=[LOGIC, CONFIG, BUCKET, MON], mech=m(("tasks and handlers", LOGIC)),
  tech="effect analysis (read and write sets with lock sets) of every pair of activities that can run at the same time", note=BASE),
 dict(id="C33", title="A submission is answered in bounded time even if the log is stuck",
  statement="Wherever a submission request waits for another task it also waits for a timer of at most a minute, and when that expires it is answered 503 with a Retry-After header. The sequencer never waits for a client: the channel an answer is sent on has room for it and gets one answer.",
  over=["schedules", "fault_sequences"], text="all states of the pool, sequencer and storage, including ones that never make progress",
  why="No test stalls the storage or fills the pool.",
  files=[LOGIC], mech=m(("waits with time limit", LOGIC)),
  tech="blocking-operation analysis over the handler's and sequencer's path graphs", note=BASE+" Storage calls themselves are not bounded."),
dict(id="C11", title="Batches stay small and are handed over within the flush interval",
  statement="A batch handed to the sequencer never has more than 255 entries. A submission is kept in the batch only while the last batch is younger than the configured flush interval (in milliseconds), and whenever a whole interval passes without a submission arriving the batch is handed over even if empty; the time of the last batch moves on only when one was handed over. Every batch, empty or not, is followed by a new signed tree head and checkpoint before the next is taken up.",
  over=["histories", "schedules"], text="all arrival patterns of submissions, including none at all",
  why="No test runs the pool; a log that stops renewing its tree head when idle, or keeps a submission too long, needs particular timing.",
  files=[LOGIC], mech=m(("flush conditions", LOGIC)),
  tech="inductive bound on the batch length over all loop paths, and path analysis of the flush conditions and timers", note=BASE+" Nothing is claimed about how long storage takes."),
dict(id="C12", title="Only the holder of the lock reads, sequences and publishes",
  statement="The submission server reads storage, starts tasks and serves requests only after the Consul lock at <kvpath>/lock was acquired, and reads its configuration consistently from <kvpath>/config. From before the first storage access on, a task waits for the loss of the lock and then ends the process at once; when the pool or the sequencer stops, the lock is given up or the process ends. The process releases the lock only once the sequencer has stopped.",
  over=["crash_points", "schedules"], text="all points at which the lock is lost or the process is interrupted",
  why="No test runs two instances or loses a session; a second writer forks the log.",
  files=[CONFIG, LOGIC], mech=m(("lock acquisition and loss", CONFIG), ("task termination", LOGIC)),
  tech="path dominance of lock acquisition over effects, and task-lifetime analysis of the watcher, pool and sequencer", note=BASE+" That Consul grants the lock to one holder is assumed."),
dict(id="C13", title="Sequencing continues from the verified published tree",
  statement="The sequencer starts with the size in the published tree head (ct/v1/get-sth) and with that tree's right edge: the tiles on the way to the last leaf, read from storage under their paths, verified against the root hash of that tree head and kept for their levels, and the data tile of the number and width of the last level-0 tile with the bytes stored for it. It starts with an empty right edge only if the published tree is empty. If the tree head or one of these tiles cannot be read or verified, sequencing does not start.",
  over=["crash_points", "histories"], text="all states of storage a previous run can have left behind, at every tree size",
  why="No test restarts a log; a wrong right edge is noticed only once the next tree head is checked against the old one.",
  files=[CONFIG, "internal/sunlight/tile_reader_ol.go"], mech=m(("loading of the right edge", CONFIG), ("tile reader", "internal/sunlight/tile_reader_ol.go")),
  tech="value-origin analysis of the sequencer's initial state and path analysis of the tile reader's callbacks", note=BASE+" tlog.TileHashReader is assumed to verify what it reads."),
dict(id="C34", title="A duplicate record is written only for a published entry",
  statement="Records of duplicates (int/dedupe/) are written by the sequencer only, and for a batch only after the signed tree head that covers the batch was written to storage successfully. Whatever the point at which the process dies, a resubmission is therefore never answered with the index and timestamp of an entry that is in no published tree.",
  over=["crash_points", "schedules"], text="all crash points between the uploads of a flush, and all interleavings of its upload tasks",
  why="No test kills the process between two uploads; written too early, the record makes the log sign a promise for an entry it will not have.",
  files=[LOGIC, BUCKET], mech=m(("order of uploads", LOGIC)),
  tech="path dominance of the successful tree head upload over duplicate-record uploads, in all tasks", note=BASE),
dict(id="C29", title="A storage backend returns whole objects and tells missing from failing",
  statement="A backend's Get succeeds only with the complete content stored under exactly the key asked for (an HTTP answer only with status 200), and it reports an object missing if and only if the backend said so (404 or not-exist); any other failure stays a failure. Set succeeds only if the object was stored under the key; on disk it appears at once, complete and synced. Exists says false only for a missing object, true only for one found.",
  over=["fault_sequences", "crash_points"], text="all answers and failures of the file system, S3, HTTP and edge backends",
  why="No test runs a backend; a failed read taken for a missing object makes the log overwrite records or restart empty.",
  files=["internal/ctsubmit/storage.go", MSTOR, FASTLY], mech=m(("submission backends", "internal/ctsubmit/storage.go"), ("monitor backends", MSTOR), ("edge backend", FASTLY)),
  tech="path-sensitive value-origin and error-mapping analysis of every implementation of the storage interfaces", note=BASE+" The S3 client, os and net/http are assumed to report their failures as errors."),
dict(id="C23", title="Backend responses and files are closed on every path",
  statement="Every HTTP response, S3 object, edge cache reader and file that the servers or their storage backends open is closed on every path to the end of the operation that opened it, failures included.",
  over=["fault_sequences", "histories"], text="all paths of all operations, over any number of requests",
  why="A leaked response only shows after thousands of requests, when connections or descriptors run out.",
  files=["internal/ctsubmit/storage.go", MSTOR, FASTLY], mech=m(("submission backends", "internal/ctsubmit/storage.go"), ("monitor backends", MSTOR), ("edge backend", FASTLY)),
  tech="typestate (opened/closed) analysis over the path graphs", note=BASE),
dict(id="C24", title="No more than 128 KiB of a request body is read",
  statement="Both servers read at most 128 KiB of the body of a request, whatever length it declares and however it is sent; a submission of up to that size is read in full, and nothing of a longer one is sequenced. The edge monitor reads no request bodies.",
  over=["inputs"], text="all request bodies of any length and transfer encoding",
  why="No test posts a large body; without the limit one client can exhaust the memory of the log.",
  files=[LOGIC, MON], mech=m(("served handler", LOGIC), ("served handler", MON)),
  tech="path and value analysis of the handler served and of every use of a request body", note=BASE+" http.MaxBytesHandler is assumed to enforce the limit it is given."),
dict(id="C35", title="No request, stored object or batch makes a server panic",
  statement="Whatever is requested, submitted or found in storage, no handler of the two servers or of the edge program, and none of the stages that order, flush and publish entries, indexes or slices out of range, dereferences or calls a method on a missing value (the result of a call that failed, or an error that is nil), or asserts a wrong type. A stage that panics takes the whole log down; a handler that does leaves its request without an answer.",
  over=["inputs", "fault_sequences", "histories"], text="all requests, submitted chains, stored objects of any length and content, and failing calls",
  why="The inputs that panic are malformed or truncated ones no test feeds to the servers.",
  files=[LOGIC, BUCKET, MON, FETCH, "internal/sunlight/tile_ol.go"], mech=m(("submission and batch stages", LOGIC), ("record files", BUCKET), ("read side handlers", MON), ("hash lookup", FETCH), ("tile leaf parser", "internal/sunlight/tile_ol.go")),
  tech="bounds and nilness proof obligations at every index, slice, conversion, assertion and use of a fallible result, discharged by the linear facts of the path graph", note=BASE+" Panics inside libraries are out of scope apart from the preconditions listed in DESIGN.md; the configured mask size is assumed to be at most 32."),
dict(id="C30", title="A new log is set up completely and an existing one is not replaced",
  statement="itko-setup stores in the storage the log itself uses every certificate of the given root file, in the file's order, as ct/v1/get-roots; in Consul the configuration exactly as given under <key>/config; and, last, after both were stored successfully, as ct/v1/get-sth a current tree head of the empty tree signed with the given key. It never replaces a tree head that exists, nor stores one when it cannot tell whether one exists, and it succeeds only if all three were stored.",
  over=["inputs", "fault_sequences"], text="all root files, keys, configurations and failures of storage and Consul",
  why="No test runs the setup program; run against a live log, it used to replace the published tree by an empty one.",
  files=["internal/ctsetup/main.go"], mech=m(("setup program", "internal/ctsetup/main.go")),
  tech="value-origin analysis of the objects stored and path dominance between the uploads", note=BASE),
dict(id="C16", title="Objects have the agreed names",
  statement="A tile is named tile/<L>/<N>[.p/<W>]: the level in decimal, data for level -1; the number in groups of three digits, every group but the last preceded by x and no group of zeros in front; the width only of a tile narrower than 2^H. Every tile the programs make has height 8. The records of a hash are in the file named by the first <mask size> hexadecimal digits of its first 16 bytes, in pairs separated by slashes; the log uses the configured mask size, the monitor the one it is given.",
  over=["inputs", "histories"], text="all tiles at every level, number and width, and all hashes and mask sizes",
  why="Names only go wrong at sizes no test reaches (tile 1000 has 256000 entries), and then objects overwrite each other or cannot be found.",
  files=["internal/sunlight/tile_ol.go", "internal/sunlight/misc.go", LOGIC, MON, BUCKET], mech=m(("tile names", "internal/sunlight/tile_ol.go"), ("record file names", "internal/sunlight/misc.go"), ("tile heights", LOGIC)),
  tech="symbolic string terms with loop invariants for the names, and a constant-origin lint over all tiles made", note=BASE+" Tile numbers and widths are assumed not to be negative."),
dict(id="C27", title="Signatures depend on key and message alone and are canonical DER",
  statement="Signing a message twice with a key gives the same signature, from any number of goroutines and after any history: a signature depends on the key and the message alone - on no randomness, clock, or state that outlives the call - and signing changes neither of them nor anything shared. The nonce is derived from the private key at the width of the group order and from the digest, both in full. The signature is a DER sequence of r and s, each in the shortest encoding of a positive integer: no leading zero byte unless the top bit of the next byte is set, and then exactly one.",
  over=["inputs", "schedules", "histories"], text="all keys, messages, signature values and interleavings of signers",
  why="The test vectors sample a few signatures, one at a time; an SCT re-issued for a duplicate must be identical to the first, and odd values of r or s come up once in hundreds of signatures.",
  files=["internal/rfc6979/ecdsa_ol.go", "internal/sunlight/digitallysign_ol.go"], mech=m(("deterministic ECDSA", "internal/rfc6979/ecdsa_ol.go"), ("signature of a message", "internal/sunlight/digitallysign_ol.go")),
  tech="whole-program inclusion-based effect analysis of everything signing can reach, and path analysis of the encoder", note=BASE+" The arithmetic of ECDSA itself is left to the test vectors of RFC 6979."),
dict(id="C28", title="The private key and the storage password stay where they are needed",
  statement="Nothing computed from the log's private key (its file, its PEM data, the parsed key, anything derived from it while signing) reaches a log line, an error, a panic, a response, a stored object, a file or the network, except the public key and finished signatures. The storage password goes nowhere but to the storage client and to the configuration in Consul.",
  over=["inputs", "fault_sequences", "histories"], text="all values and all error paths of the log, the setup program and the monitor",
  why="A leak sits on an error path or in a log line of a whole structure, which tests do not read.",
  files=[CONFIG, LOGIC, "internal/ctsetup/main.go", "internal/rfc6979/ecdsa_ol.go"], mech=m(("key and configuration loading", CONFIG), ("signing", LOGIC), ("setup program", "internal/ctsetup/main.go"), ("deterministic ECDSA", "internal/rfc6979/ecdsa_ol.go")),
  tech="whole-program taint analysis from the key and the password to every call outside the repository", note=BASE+" Leaks through timing, memory or control flow alone are out of scope."),
dict(id="C36", title="The edge keeps logs apart, and objects only as long as they may be kept",
  statement="The edge program answers a request from the backend configured for the request's host alone: every object is requested from it by its key, past any other cache, and kept in the edge cache under a name made of the service version, that backend and the key, set apart from each other, so that objects of two logs never share a name. An object is kept for the max-age seconds of its own answer's Cache-Control header, whichever directive that is, or for 12 hours if it has no valid one. What one request remembers is never used by another, and each backend request is counted once against the request's limit of 10.",
  over=["inputs", "histories"], text="all hosts, keys, Cache-Control headers, answers and sequences of requests",
  why="The edge program runs in no test; mixing up two logs or keeping a tree head too long shows only with several logs or over hours.",
  files=[FASTLY], mech=m(("edge handler and storage", FASTLY)),
  tech="value-origin analysis of backend, address, cache name and lifetime over the edge program's path graph", note=BASE),
dict(id="C37", title="Proofs and root hashes are those of RFC 6962's Merkle tree",
  statement="For every tree size and pair of sizes, the root hash published is the RFC 6962 Merkle tree hash over exactly the leaves in the data tiles, and every inclusion and consistency proof answered verifies against it.",
  over=["inputs"], text="all tree contents, sizes and indexes",
  why="The algorithm is exponential in what tests could sample; but see the reason it is not decided.",
  files=[LOGIC, MON], mech=m(("tree hashes", LOGIC), ("proofs", MON)),
  na="The values are hash arithmetic computed inside golang.org/x/mod/sumdb/tlog, outside /repo. What this repository contributes (the right size, indexes, tiles, hashes stored and read) is decided by C04, C05, C13, C17 and C18; that tlog's recursion equals the RFC's is a functional-correctness proof over unbounded recursion, not a static-analysis question."),
dict(id="C38", title="Every SCT is honoured within the maximum merge delay",
  statement="An entry for which an SCT was returned is covered by a published tree head within the log's maximum merge delay, and a tree head no older than that delay is always available.",
  over=["schedules", "fault_sequences"], text="all loads, storage latencies and faults",
  why="Tests run for seconds on a fast storage.",
  files=[LOGIC], mech=m(("pool and sequencer", LOGIC)),
  na="It quantifies over wall-clock time and storage latency, which no static argument bounds: uploads have no deadline and may take arbitrarily long. Its static part is decided: an SCT is returned only after its tree head is published (C01), batches are handed over within the flush interval (C11), clients are not kept waiting (C33)."),
dict(id="C39", title="Two sequencers never write at the same time",
  statement="Whatever the network and the scheduler do, at no time do two processes write objects of the same log.",
  over=["schedules", "fault_sequences"], text="all partitions, pauses and session expiries",
  why="Needs a partition between the process, Consul and storage, or a long pause of the process.",
  files=["internal/ctsubmit/main.go"], mech=m(("leader election", "internal/ctsubmit/main.go")),
  na="Consul's lock is a lease: a paused process can still have a write in flight after its session expired, and the storage interface has no fencing or compare-and-swap. Exclusion thus depends on run-time delays; what the code can do (lock before any effect, exit on loss, release last) is decided by C12."),
dict(id="C40", title="What was stored stays stored and is seen by every reader",
  statement="An object written successfully is returned by every later read, from any machine, and survives the crash of any machine.",
  over=["crash_points", "histories"], text="all crashes and readers",
  why="Needs crashes of the storage service or file system.",
  files=["internal/ctsubmit/storage.go"], mech=m(("storage", "internal/ctsubmit/storage.go")),
  na="Durability and read-after-write consistency are properties of the S3 service, CDN or file system, not of this source. The repository's side (whole objects, synced and atomically renamed files, errors not swallowed) is decided by C29."),
]
