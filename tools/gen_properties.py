#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here so they stay readable)."""
import json, os
R = "src/frn/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": n, "where": R + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

REP = "lib/secret_sharing/rep.h"
p("C01", "A replicated sharing always reconstructs to exactly the shared secret",
  "For every party count n, threshold t with 0 < t < n, secret and randomness, sharing a secret yields one share per party in which all holders of a component hold the same value, and reconstructing from the full list of shares, with or without consistency checking, returns exactly the secret. Sharing a list of secrets gives, per party, one such share for each secret, in order. A threshold of 0, or one that is not below the party count, is refused when the scheme is created.",
  ["inputs", "configurations", "histories"],
  "every (n,t), every secret in the field, every generator state, any number of consecutive sharings",
  "The tests share two or three fixed small secrets for n=7, 8 and 10 only, always from the zero seed; they never share from an advanced generator, never use another threshold and never test the refusals.",
  [REP, "lib/secret_sharing/additive.h", "shr.h"],
  [("Replicator::Init/Share/Reconstruct", REP), ("ShareAdditive", "lib/secret_sharing/additive.h")],
  [("mLookup", "for each party the components it holds", REP), ("additive_shares", "components whose sum is the secret", REP)],
  ["return values of Share, Reconstruct, ErrorDetection, IndexSetFor, Combination"])
p("C02", "Any t parties learn nothing about a shared secret, any t+1 can recover it",
  "In every sharing with threshold t, each group of t parties is missing at least one component, while every group of t+1 parties together holds all of them. All components but one are fresh pseudorandom values that do not depend on the secret, and no component value is reused inside a sharing or in a later sharing made with the same generator.",
  ["inputs", "configurations", "histories"],
  "every (n,t), every coalition, every secret, every sequence of sharings from one generator",
  "No test looks at who holds what or at where the randomness comes from; a sharing that hands a coalition everything, or that masks with constants, still reconstructs and passes.",
  [REP, "lib/secret_sharing/additive.h", "lib/primitives/prg.h"],
  [("index sets by complement of t-subsets", REP), ("fresh generator output per component", "lib/secret_sharing/additive.h")],
  [("mLookup", "who holds which component", REP)],
  ["IndexSetFor", "return value of Share"])
p("C03", "Checked reconstruction never returns a value from inconsistent shares",
  "Given one share per party, checked reconstruction returns a value if and only if all copies of every component agree, and raises an error otherwise. In particular, altering any values in the shares of up to n-t-1 parties never makes it return anything but the original secret.",
  ["inputs", "fault_sequences", "configurations"],
  "every (n,t), every secret, every set of altered positions and every altered value",
  "The error path is never executed by any test: no test ever reconstructs from altered shares.",
  [REP], [("ErrorDetection / ComputeRedundantAddShares", REP)],
  [("redundant", "the copies of each component", REP)], ["return value or exception of ErrorDetection"])
p("C04", "Linear operations on shares act as the same operation on the secrets",
  "For every party count and threshold, any sequence of additions, subtractions, additions and subtractions of public constants (on either side) and multiplications by public constants, applied by every party to its own shares, yields shares that are mutually consistent and reconstruct to the value the same sequence gives on the secrets. The operands are never modified.",
  ["programs", "inputs", "configurations"],
  "every straight-line program of linear operations, every operand and constant, every party count and threshold",
  "Each operation is tested once, on one pair of constants, for n=10; results are only reconstructed without the consistency check, so a share left stale at some parties passes, and operations are never composed.",
  ["shr.cc", "shr.h"], [("ShrManipulator::Add/Subtract/AddConstant/SubtractConstant/MultiplyConstant", "shr.cc"), ("IndexForConstantOperations", "shr.cc")],
  [("mIndexForConstantOps", "the local slot of the component that absorbs constants", "shr.h")],
  ["return values of the share operations at every party"])
p("C05", "Local multiplication yields correct double-degree and additive product shares",
  "For every party count n and threshold d with 2d < n and every two shared values, the parties' local products to double degree form a consistent degree-2d replicated sharing of the product. The parties' local additive products sum to the product over the first 2d+1 parties alone, and every other party's additive product is zero. The multiplication tables given out by the parties say the same everywhere: each pair of components goes to one component of the product, at all of its holders and nowhere else (which ComputeIndexForDoubleMultiplication also tells); and by the reconstruction tables every party that misses a component of the product gets its value from exactly one holder.",
  ["inputs", "configurations"],
  "every (n,d), every pair of sharings (by bilinearity: every pair of components)",
  "Tests use n=8 with the values 10 and 20, and check four table entries for n=4; double-degree results are not checked for consistency between parties.",
  ["shr.cc", "shr.h", REP], [("mTableMult", "shr.cc"), ("MultiplyToDoubleDegree / MultiplyToAdditive", "shr.cc"), ("Intersection, RevComb", REP)],
  [("mTableMult", "which local components to multiply, where the product goes and who counts it", "shr.h")],
  ["MultiplyToDoubleDegree", "MultiplyToAdditive", "GetTableMult", "ComputeIndexForDoubleMultiplication"])
p("C06", "Correlated randomness is consistent between all parties, call after call",
  "After the parties have installed generators seeded with consistent replicated keys, the k-th random share taken by every party always matches up: the replicated shares are consistent, the additive shares of the first 2d+1 parties sum to the shared value, each of those additive shares is itself consistently shared among all parties, and all other parties hold zero. Shares from successive calls are fresh, and the dummy generators give the same structure with all values zero.",
  ["histories", "inputs", "configurations"],
  "any number of calls, every key material, every party count",
  "One test takes a single share per party at n=10 with all generators left at the zero seed, so neither later calls, nor installed seeds, nor mixing up keys is exercised.",
  ["corr.cc", "corr.h"], [("Correlator::GenRandomShare, SetOwnPRGs, SetRandPRGs", "corr.cc")],
  [("mOwnPRGs", "one generator per component of the party's own key", "corr.h"), ("mRandPRGs", "for each key owner, one generator per component this party holds", "corr.h")],
  ["return values of GenRandomShare, GenRandomShareDummy, GenZeroShareDummy"])
p("C07", "Secure multiplication returns consistent shares of every product in the batch",
  "When all parties run the multiplication protocol on a batch of shared pairs, then under every interleaving and message timing every party terminates and obtains one share per pair, in order, and these shares are consistent and reconstruct to the product of each pair. This holds for every batch size, including empty, and for later batches run with the same objects.",
  ["schedules", "inputs", "configurations", "histories"],
  "all interleavings of the parties, all batch sizes, all factors, all party counts",
  "All tests multiply a single pair (10*20 or 100*200); no test runs a batch of two, so anything that mixes up positions in a batch passes, and only the natural thread schedule is seen.",
  ["mult.cc", "mult.h", "corr.cc", "shr.cc"], [("Mult::Prepare/SendStep/ReconstructionStep/OutputStep", "mult.cc")],
  [("mRandomShares", "the random share consumed by each multiplication", "mult.h"), ("mSharesToSendP1", "masked product shares", "mult.h")],
  ["shares returned by Run at every party"])
p("C08", "Multiplication only ever transmits masked values, to the right parties",
  "In a multiplication batch, exactly the first 2d+1 parties send one field element per product to the first party, that party sends one element per product to each of the first n-d parties, and nothing else is sent. Each element sent to the first party is the sender's product share minus its share of a random mask, each mask comes from the next unused random share and is never used for a second product, and all receivers get the same sum of the masked shares.",
  ["schedules", "inputs", "histories", "configurations"],
  "every batch, every message on every channel, every schedule",
  "Tests look at the number of messages of one multiplication with a mocked network; they cannot see a mask left out, reused or applied with the wrong share, as long as the single result is right.",
  ["mult.cc", "mult.h", "corr.cc"], [("masking in MultiplyToAddAndMsgs", "mult.h"), ("SendStep / ReconstructionStep", "mult.cc")],
  [("randomShares.add_share", "the party's share of the mask", "mult.h")],
  ["every Send and Recv on the Network interface"])
p("C09", "The verification transcript records exactly what multiplication did",
  "After any series of multiplication batches that share a transcript, it counts each multiplication once and holds, in order and for each multiplication, the masked share this party computed, the shares the first party received from every sender, the values received back, and for each of the first 2d+1 parties a consistent degree-2d sharing of that party's unmasked product share. Entries of one multiplication always appear at the same position in every list.",
  ["histories", "inputs", "configurations"],
  "every series of batches, by one or several protocol objects, every position",
  "The only test that builds a transcript performs one multiplication and never looks at the recorded values.",
  ["mult.h", "mult.cc"], [("CheckData appends in Prepare/SendStep/OutputStep/Run", "mult.h")],
  [("CheckData", "counter, shares_sent_to_p1, shares_recv_by_p1, values_recv_from_p1, msgs", "mult.h")],
  ["the public CheckData object passed to Mult"])
p("C10", "The check phase gives every party each compressed component it lacks, once",
  "In the check phase all parties terminate under every schedule, and every party sends every other party the length-prefixed lists of values and digests that the receiver consumes completely. For every component of the compressed degree-2d messages that a receiver does not hold, it gets the value exactly once, from the first holder of that component, and one digest from each further holder; nothing is sent for components the receiver already holds. Each value sent is the same public random combination, with one coefficient per multiplication common to all parties and values, of the recorded messages.",
  ["schedules", "inputs", "histories", "configurations"],
  "every transcript, every number of multiplications, every party count, every schedule",
  "The test only checks that the check phase does not crash for one multiplication; no sent value, receiver or length is looked at.",
  ["check.h", "shr.cc"], [("PrepareMsgs / ReconstructMsgs", "check.h"), ("mTableRec", "shr.cc")],
  [("mTableRec", "to whom each component goes, as value or digest", "shr.h"), ("mRandomCoefficients", "one coefficient per multiplication", "check.h")],
  ["every Send/SendBytes/Recv/RecvBytes of the check phase", "GetTableRec"])
p("C11", "The input protocol gives all parties consistent shares of every input",
  "When any parties input any numbers of values, and the others announce how many they expect, every party terminates under every schedule and obtains, for each inputting party and in the order of its inputs, shares that are consistent and reconstruct to exactly the values that party put in. Parties that put in nothing contribute no shares.",
  ["schedules", "inputs", "histories", "configurations"],
  "every party count, every assignment of inputs to parties, every number of inputs, every key material",
  "The only test that reconstructs inputs one value, from one party, with four parties; a second input or seven parties is never reconstructed.",
  ["input.cc", "input.h", "input_corr.cc", "input_corr.h"], [("Input::Prepare/Run", "input.cc"), ("InputSetup::Run, Correlator::GetMask/GetMaskShare", "input_corr.cc")],
  [("mPrgs", "per owner, a generator for each mask-key component held", "input_corr.h"), ("mPrg", "generators for all components of the own mask key", "input_corr.h")],
  ["shares returned by Input::Run at every party"])
p("C12", "Inputs are only revealed under a fresh mask, the same to everyone",
  "During input a party sends, for each of its values and to every party, the same single element: the value minus a mask. Every mask is fresh: no mask is used for two inputs, the shares of a mask are made only of fresh pseudorandom components, different keys give different masks, and during setup each party receives nothing of another party's mask key except its own replicated share of it.",
  ["inputs", "histories", "configurations", "schedules"],
  "every sequence of inputs by every party, every message",
  "No test looks at the messages of the input protocol, and none inputs twice and reconstructs, so a mask that repeats or is left out is invisible.",
  ["input.h", "input_corr.h", "input_corr.cc"], [("Prepare: secret - mask", "input.h"), ("GetMask / GetMaskShare", "input_corr.h"), ("InputSetup::Run", "input_corr.cc")],
  [("mask generator positions", "how many masks each component generator has produced", "input_corr.h")],
  ["every Send/SendShares of setup and input", "output shares"])
p("C13", "The generator's output is the documented counter-mode stream, never repeated",
  "Every request for k bytes returns the first k bytes of the next unused AES-128 blocks, AES(seed, counter with the fixed nonce), advancing the counter by the number of blocks touched; requests never overlap, an empty request changes nothing, a copied generator continues independently from the same point, and a reset replays from the start. Requests larger than the destination are refused without consuming anything.",
  ["histories", "inputs"],
  "every seed, every sequence of requests, resets and copies, every length",
  "There is no test of the generator at all; the protocol tests only need all parties to see the same values.",
  ["lib/primitives/prg.cc", "lib/primitives/prg.h"], [("PRG::Next/Reset/Update", "lib/primitives/prg.cc")],
  [("mCounter", "blocks consumed", "lib/primitives/prg.h"), ("mSeed", "key", "lib/primitives/prg.h")],
  ["bytes returned by Next", "Counter()", "Seed()"])
p("C14", "The hash is SHA-3 of the concatenated input, however it is fed",
  "For each of the supported digest sizes, the digest equals the standard SHA3-256, SHA3-384 or SHA3-512 digest of the concatenation of all bytes passed to the hash since construction, regardless of how those bytes were cut into updates, including empty updates.",
  ["inputs", "histories"],
  "every message, every way of splitting it into updates",
  "No test touches the hash.",
  ["lib/primitives/hash.h"], [("Hash::Update / Finalize / keccakf", "lib/primitives/hash.h")],
  [("mByteIndex, mWordIndex, mSaved", "absorption position and partial word", "lib/primitives/hash.h")],
  ["digest returned by Finalize"])
p("C15", "Field arithmetic is exact and canonical for every operand",
  "For both supported primes (2^61-1 and 2^127-1), addition, subtraction, negation, multiplication, inversion and division give the exact result modulo the prime in canonical form for all operands, inverting or dividing by zero is refused, and equality agrees with the values. Conversion from integers, bytes and decimal text of any size reduces modulo the prime, and converting to bytes or text and back gives the same element.",
  ["inputs"],
  "all pairs of field elements, all byte strings of element size, all decimal strings",
  "Tests only compute with a handful of tiny constants such as 10, 20 and 1234; none is near the modulus, and the 127-bit field is never used.",
  ["lib/math/fp.h", "lib/math/p.h", "lib/math/arithmetic.h", "lib/math/arithmetic.cc", "lib/tools.h", "lib/tools.cc"],
  [("addm/subm/neg/invp/mulm", "lib/math/arithmetic.h"), ("mod_mul_mersenne61/127", "lib/math/arithmetic.cc"), ("from_string/to_string", "lib/tools.cc")],
  None, ["results of the FpElement operators, ToBytes, ToString"])
p("C16", "Vector and matrix operations are exact and refuse mismatched shapes",
  "Entry-wise vector and matrix addition, subtraction, multiplication and scaling, inner products, sums, matrix products, submatrix extraction, Vandermonde construction and the printed form give the mathematically defined result for every shape and content. The in-place forms change only their target, and operands with incompatible or out-of-range dimensions are refused instead of being read out of bounds.",
  ["inputs"],
  "all shapes (including non-square and single row or column) and all entries",
  "No test calls the vector or matrix operations.",
  ["lib/math/vec.h", "lib/math/mat.h"], [("vector::*", "lib/math/vec.h"), ("Matrix", "lib/math/mat.h")],
  None, ["results and exceptions of the vector and matrix functions"])
p("C17", "Each channel is a lossless in-order byte stream, also to oneself",
  "Between every ordered pair of parties, and from a party to itself, the bytes received are exactly the bytes sent, in order, each once, whatever the sizes of the individual sends and receives, including empty ones, and under every timing of the background sender. Sending does not wait for the receiver, and traffic on one channel never affects another.",
  ["schedules", "inputs", "histories"],
  "every sequence of sends and receives with any sizes on any set of channels, every interleaving with the sender thread",
  "One test sends four bytes over three channels, one send matched by one receive of the same size; splits, merges, large or empty messages and self-delivery of unequal sizes never occur.",
  ["lib/net/channel.h", "lib/net/channel.cc", "lib/net/connector.h", "lib/net/connector.cc", "lib/net/shared_deque.h", "lib/net/network.h"],
  [("AsyncSenderChannel", "lib/net/channel.cc"), ("LocalConnector::Send/Recv", "lib/net/connector.h"), ("Channel::Recv loop", "lib/net/channel.h")],
  [("mSendQueue", "messages not yet written", "lib/net/channel.h"), ("mIncoming", "self-delivery buffer", "lib/net/connector.h")],
  ["bytes passed to and returned by Network::SendTo/RecvFrom and Channel::Send/Recv"])
p("C18", "Closing a channel delivers everything already sent and always returns",
  "Everything passed to send before a channel or network is closed is handed to the transport completely and in order before the connection is torn down, under every timing of the background sender, so that a peer that keeps reading receives it all. Closing returns once this is done, also when the background sender has already failed, and leaves the channel in the closed state.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of the closing thread with the background sender, every queue content, a transport failure at any write",
  "In the tests every message has long been received before anyone closes, so whatever is still queued at close is never looked at.",
  ["lib/net/channel.cc", "lib/net/connector.h"], [("AsyncSenderChannel::Close/Open", "lib/net/channel.cc")],
  [("mSendQueue", "messages not yet written", "lib/net/channel.h"), ("mState", "connector state", "lib/net/connector.h")],
  ["transport writes and the teardown, in order", "State()"])
p("C19", "Partial transfers are completed and transport failures are reported",
  "A TCP connection delivers each requested transfer completely however the operating system splits it into short reads and writes. When a write, read, socket, option, bind, listen, accept or close call fails, the operation raises an error carrying the system's error code and the connection is in the error state; an attempt to connect that fails keeps no descriptor open; when the peer has disconnected before all requested bytes arrived, the receive raises an error too, and never reports bytes that were not received. A write to a disconnected peer is such an error and does not terminate the process.",
  ["fault_sequences", "inputs"],
  "every sequence of short, failing and end-of-stream results of the system calls, for every transfer size",
  "No test injects a system call result; loopback transfers of a few bytes are never split and never fail.",
  ["lib/net/connector.cc", "lib/net/connector.h", "lib/net/sysi.h", "lib/net/sysi.cc"],
  [("TCPConnector::Send/Recv/TeardownConnection", "lib/net/connector.cc"), ("set_error_and_throw", "lib/net/connector.h")],
  [("mState", "connector state", "lib/net/connector.h")],
  ["SystemInterface calls", "return values and exceptions", "State()"])
p("C20", "Network establishment terminates and pairs every two parties correctly",
  "Whatever the order and timing in which the parties start connecting, every party's connect terminates, every two parties are connected by a channel of their own, and what party i sends to j is received by j as coming from i. Different pairs never use the same port, and once every party is connected the network can be closed and established again on the same ports any number of times without leaking descriptors.",
  ["schedules", "configurations", "histories"],
  "all start orders and delays, all party counts, repeated connect/close cycles",
  "Tests connect once per port range with all threads started together and n=4 or 7; start order, pairing of all pairs and reconnection are never checked.",
  ["lib/net/network.h", "lib/net/builder.cc", "lib/net/connector.cc", "tcp_network.h"],
  [("Network::Connect order", "lib/net/network.h"), ("port_picker", "lib/net/builder.cc"), ("TCPClientConnector/TCPServerConnector::EstablishConnection", "lib/net/connector.cc")],
  [("mChannels", "one channel per party", "lib/net/network.h")],
  ["completion of Connect", "messages tagged by sender", "open descriptors"])
p("C21", "Network configuration is accepted exactly when it is consistent, in any order",
  "A network description is accepted exactly when the identity is non-negative and below the size, a transport is chosen, the port is a valid non-reserved TCP port, and the addresses (all local, or read from a file with one line per party) match the size; everything missing or inconsistent is refused with an exception. Which descriptions are accepted, and what they build, does not depend on the order in which the parts are given, and a refused part leaves the description as it was.",
  ["histories", "inputs", "configurations"],
  "every sequence of configuration calls with every class of argument",
  "No test uses the builder beyond the one fixed call sequence that creates local networks.",
  ["lib/net/builder.cc", "lib/net/builder.h", "lib/net/connector.h"], [("Builder setters and Build", "lib/net/builder.cc"), ("invalid_port", "lib/net/connector.h")],
  [("mLocalPeerId, mSize, mTransportType, mBasePort, mIps, mAllLocal", "the parts given so far", "lib/net/builder.h")],
  ["exceptions of the builder calls", "Size() and LocalPeerId() of the built network"])
p("C22", "The shared queue is a linearizable blocking FIFO",
  "Under every interleaving of any number of threads, items come out of the shared queue in an order in which they were put in, each exactly once and unchanged; looking at or removing the front blocks exactly while the queue is empty and is woken by the next insertion. The reported size is the number of items at some moment during the call.",
  ["schedules", "histories"],
  "all interleavings of producers, observers and a consumer",
  "No test uses the queue directly; it is exercised only by one producer and one consumer that rarely meet.",
  ["lib/net/shared_deque.h"], [("mutex and condition variable around the deque", "lib/net/shared_deque.h")],
  [("mDeck", "queue content", "lib/net/shared_deque.h")],
  ["call and return of PushBack, Front, PopFront, Size"])
p("C23", "The communication summary equals the bytes actually transferred",
  "For every sequence of sends and receives of values, shares and bytes, the printed communication summary of a party lists, for each peer, exactly the total number of payload bytes sent to and received from it, with one line for each peer with traffic, in order of identity, and no line for a peer without traffic.",
  ["histories", "inputs"],
  "every sequence of typed sends and receives over all peers",
  "The tests print the summary and never look at it, although it is the result the experiments exist to report.",
  ["tcp_network.h"], [("TcpNetwork::Summary", "tcp_network.h")],
  [("mSent, mRecv", "bytes per peer", "tcp_network.h")],
  ["output of PrintCommunicationSummary", "bytes on the wire"])
p("C24", "Typed messages and serialized shares arrive as the values that were sent",
  "Field elements, replicated shares and raw bytes sent to any party in any order, number and mixture are received unchanged when the receiver asks for the same types and counts, also when one side batches what the other takes singly. Serializing shares, lists of shares and vectors to bytes and reading them back gives the same values, using exactly the announced number of bytes.",
  ["inputs", "histories", "configurations"],
  "every sequence of typed messages, every value, every count including zero, every party count",
  "Tests send single small values; sequences of mixed types, several shares per message, values next to the modulus and the byte serializers are not tested.",
  ["tcp_network.h", REP, "lib/math/vec.h", "lib/math/fp.h"],
  [("TcpNetwork::Send/Recv/SendShares/RecvShares/SendBytes/RecvBytes", "tcp_network.h"), ("ShareToBytes/SharesFromBytes", REP), ("vector::ToBytes/FromBytes", "lib/math/vec.h")],
  None, ["arguments and results of the typed send and receive calls and serializers"])
p("C25", "The experiments run to completion with exactly the predicted communication",
  "For every supported party count and workload size, starting one process per party of an experiment makes every process exit normally, and the communication each party reports is exactly what the protocol prescribes for its role. Party counts outside 4 to 16, identities outside the party count and workloads over the documented limit are refused.",
  ["configurations", "schedules", "inputs"],
  "all party counts and workloads, all start orders of the processes",
  "The experiment programs are not run by any test.",
  ["exp_input.cc", "exp_mult.cc", "exp_check.cc", "tcp_network.h", "check.h", "mult.cc", "input.cc"],
  [("main of the three experiments", "exp_mult.cc"), ("ValidateN/ValidateId/ValidateNumberOf*", "exp_input.cc")],
  None, ["exit status and standard output of the experiment programs"])
p("C26", "Each log call writes one line with its level and interpolated message",
  "Every log call writes exactly one line: the marker of its level, the timestamp if and only if timestamps are enabled, and the message in which the i-th placeholder is replaced by the printed form of the i-th argument and all other text is kept verbatim. A custom logger sees begin, the message and end, in that order, once per call and with the right level, and the void logger writes nothing.",
  ["inputs", "histories"],
  "every message format, argument list (as many as placeholders) and sequence of calls",
  "No test inspects logged output.",
  ["lib/logging/logger.h", "lib/logging/stdout.h", "lib/logging/nowhere.h"], [("Logger::DoLog", "lib/logging/logger.h"), ("StdoutLogger", "lib/logging/stdout.h")],
  None, ["standard output", "LogBegin/Log/LogEnd callbacks"])
p("C27", "Index-set combinatorics enumerate every subset exactly once, in order",
  "For all m and k, enumerating combinations visits every k-subset of m elements exactly once in lexicographic order and then stops, asking for the i-th one gives the same subset, and their number is the binomial coefficient used for the share sizes. A scheme's subset table and its inverse are mutually inverse, a party's index set is exactly the ascending list of subsets that contain it, and intersection and difference of sorted sets return exactly the positions they define.",
  ["inputs", "configurations"],
  "all m and k in the supported range, all pairs of sorted sets",
  "Only four index entries for n=4 are checked; enumeration, inversion, difference and the sizes are not tested as such.",
  [REP], [("NextCombination/NthCombination/Binom", REP), ("Intersection/Difference", REP), ("Replicator::Init", REP)],
  [("mCombinations, mRevComb, mLookup", "the subset tables", REP)],
  ["results of the combinatorial functions and of Combination, RevComb, IndexSetFor, DifferenceSize, ShareSize"])

p("C28", "A whole computation gives every party correct shares of every value computed",
  "When all parties run the same program of inputs, share-local operations, batches of multiplications and check phases over one network, in any number and order and with any relative speed, every wire ends up shared with the scheme's threshold as exactly the value that the same program computes on the plain field elements; a check phase compares the transcripts of all multiplications that its correlators recorded, whatever batches they came from; and at the end every message sent has been received by the phase that it was meant for.",
  ["histories", "schedules", "inputs", "configurations"],
  "every program, every (n,d), every input, every interleaving of the parties",
  "Each test runs one protocol once on a fresh network; no test feeds the results of one phase to the next, interleaves phases, runs a second batch, or checks transcripts collected over several batches.",
  ["mult.cc", "mult.h", "input.cc", "input.h", "check.h", "corr.h", "tcp_network.h", REP],
  [("Mult::Prepare/Run over several batches", "mult.cc"), ("Input and InputSetup", "input.cc"), ("Check over a Correlator's whole CheckData", "check.h"), ("share-local operations", REP)],
  [("CheckData", "messages and digests of everything since the start", "check.h"), ("positions in the parties' random streams", "state shared by consecutive phases", "corr.h")],
  ["messages between parties", "results of Input::Run and Mult::Run", "what Check sends"])

p("C29", "The inverse modulo a power of two is exact for every odd word",
  "For every K up to 128, every unsigned word type of at least K bits and every odd value, multiplying the value by its inverse modulo 2^K gives 1 modulo 2^K. Even values are refused, and so is every modulus larger than 2^128.",
  ["inputs", "configurations"],
  "every K, every word type, every value",
  "The tests invert a few values for a few moduli; an iteration that stops one step too early is wrong only for the moduli just above a step, and only in the top bits.",
  ["lib/math/arithmetic.h"], [("inv2: Newton iteration doubling the number of right bits", "lib/math/arithmetic.h")],
  None, ["return value or exception of inv2"])
p("C30", "Values, lists and connections are printed faithfully",
  "Every 64- and 128-bit integer is printed in decimal without leading zeros and reads back as itself; bytes are printed as pairs of upper-case hexadecimal digits separated by single spaces; a list shows its first five elements in order, separated by commas, and says how many more there are; a connector and the channel over it describe themselves with their kind, endpoint and present state, in every state.",
  ["inputs", "histories"],
  "every value, every length of list or byte string, every state of a connector",
  "Tests print a handful of values; the boundaries of the abbreviation, the full 128-bit range, zero bytes and the descriptions after errors are not sampled.",
  ["lib/tools.h", "lib/tools.cc", "lib/net/connector.h", "lib/net/connector.cc", "lib/net/channel.h"],
  [("to_string, from_string, bytes2hex", "lib/tools.cc"), ("to_string of lists", "lib/tools.h"), ("ToString of connectors and channels", "lib/net/connector.h")],
  None, ["returned strings"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
