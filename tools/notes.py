NOTES.update({
 'C13': 'Objects with seeds and counters: exhaustive model of requests, copies, resets and refusals; AES itself specified in TLA+ (published vectors); recorded sessions with every small length, and one object taken past 2^32 blocks (64 GB). One request of more than 2^32 bytes. Sampled seeds.',
 'C14': 'Word-buffering absorber exhaustive over all cuttings of messages up to 100 bytes (symbolic bytes); SHA-3 specified in TLA+ (published vectors); recorded digests for every length over two blocks, all piece-length pairs, long and interleaved messages; 2^32+13 bytes (thorough).',
 'C15': 'Field specification and the word algorithms exhaustive on small Mersenne primes; recorded operations of both real fields on all pairs of boundary operands and random ones, conversions from the full word range and long decimal text.',
 'C16': 'Algebraic laws of the specification on a panel; recorded register programs over 14 shapes with aliasing, mismatched operands, Vandermonde, printing, both fields, built with AddressSanitizer. Sampled entries.',
})
NOTES.update({
 'C06': 'Generators as symbolic streams, every order of calls of n=4 exhaustive; recorded calls over (n,d) panel with random keys, re-installed keys, copies, dummies. Sampled keys.',
 'C07': 'Protocol model with every interleaving (n=4 two series of batches, n=7 one); executions taking every transition of the n=4 models are replayed into the real code; random and adversarial schedules, (n,d) panel and batch sizes up to 1025 (3000). Sampled values.',
 'C08': 'As C07; every element on every stream compared with the product and mask shares; nothing else may be on any stream.',
 'C09': 'As C07; every entry of the transcript compared with the streams and the product shares.',
 'C10': 'Exchange model with every interleaving (n=3; n=4 thorough); generated and random schedules replayed; values compared with the linear combination, whose coefficients are found as a witness and verified. Sampled values.',
 'C11': 'Setup and input model with every interleaving (n=3, n=4); executions taking every transition for n=3 replayed; panel of (n,d) and counts. Sampled values.',
 'C12': 'As C11; all streams compared with value minus mask, mask shares all fresh.',
})
NOTES.update({
 'C17': 'Channel model with every interleaving of user and sender, with and without failing writes; executions taking every transition replayed into the real channel under a controlled scheduler; whole networks of real parties over simulated sockets (short transfers, small buffers, adversarial schedules) and over real sockets and threads. Sampled schedules beyond the models.',
 'C18': 'As C17: what reached the transport when the connection is torn down is everything that was sent (or a write failed), Close returns (a schedule without progress is a violation; liveness in the model); the write fails at every position. The peer keeps reading.',
 'C19': 'Transfer-loop model (short, failing, ended transfers) exhaustive with liveness; every way to cut transfers of up to 6 (8) bytes, ended by completion, error or disconnection at every place, and every system call failing, on the real connectors; real sockets with a disconnecting peer. EINTR is not considered.',
 'C20': 'Establishment model, n = 2, 3 (two cycles), 4 (5 thorough), every interleaving with liveness; executions taking its transitions replayed into real networks over simulated sockets; random start orders, delays and reconnections, also over real sockets. Parties close when everybody is connected.',
 'C21': 'All orders of all descriptions of a panel exhaustive in the model (3000 descriptions); every order of 16 descriptions and random call sequences on the real builder, the built channels (kind, address, port) compared. Port 1024 unspecified.',
 'C22': 'Queue model (mutex, condition variable with spurious wakeups) exhaustive for four programs; executions taking every transition and random schedules of random programs on the real queue; histories checked for linearizability; histories of real threads too, with data races on the queue (which its operations, taken as single steps, rule out) reported by the thread sanitizer.',
 'C23': 'Model of typed messages with counters; recorded scripts of all send/receive/broadcast kinds of real parties, the printed summary compared character by character, and the bytes on the (simulated) wires counted. Sampled scripts.',
 'C24': 'Model of typed messages in byte streams; recorded scripts with different grouping at both ends over transfers cut at any byte; serialization round trips next to inaccessible memory for both fields, shares and byte vectors. Sampled values.',
 'C26': 'Interpolation defined by ranks and by recursion, equal for all short formats; every format of up to 4 (5) characters of a 3-letter alphabet with 0 to 4 arguments of 8 types and random formats; what reached descriptor 1 compared byte by byte.',
})
NOTES.update({
 'C25': 'Model of whole experiments (establishment, protocol, leaving) for 4 and 5 parties with liveness; the predicted bytes are defined for every role and equal the counts from the sharing tables (n <= 11). Real runs with one process per party, random start orders and workloads: every party count 4..16 (multiplication and check up to 14/15 in quick runs, 16 in thorough ones); refusals at all limits.',
})
NOTES.update({
 'C28': 'Model of whole programs (inputs, local operations, batches, check phases over one stream for each pair) with every interleaving, n=3 and n=4 (5 thorough), with liveness; random programs of up to 35 steps over an (n,d) panel run by real parties under random schedules, every stream explained phase by phase and every wire compared with the plain computation. Sampled programs and values.',
})
NOTES.update({
 'C29': 'Newton iteration on words exhaustive for all odd values and all K up to 12 (14) bits; recorded inverses for 8, 32, 64 and 128-bit words over a panel of K (all boundaries of the iteration), all 8-bit values, every value next to a power of two and random ones. 16-bit words are not used (their products overflow int).',
 'C30': 'Printed forms specified in TLA+ (decimal by arithmetic on bytes); recorded texts at every power of two and ten of both widths, every byte, all lengths around the abbreviation, vectors and arrays of five element types, connectors and channels in every state. Sampled values.',
})
