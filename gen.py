#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The properties are listed here once."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []

TRUST = ("Seeded search over simulated runs of the real code: a clean batch is evidence, not proof. Trusted: the simulator "
         "(goroutine scheduler, clock, network), the source instrumenter, the clear-text reference, kyber's primitives, "
         "and the Go toolchain.")


def p(id, title, statement, over, text, why, files, mechanism, observe, technique=None, note="", reason=None):
    assert len(title) <= 80, (id, len(title))
    props.append({"id": id, "title": title, "statement": " ".join(statement.split()),
                  "quantifier": {"over": over, "text": " ".join(text.split())},
                  "why_tests_cant": " ".join(why.split()),
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                              "observe_at": observe, "hook_needed": None}})
    if reason:
        na.append({"property": id, "reason": " ".join(reason.split())})
    else:
        checks.append({"property": id, "quick_cmd": "./check.sh check %s quick" % id,
                       "thorough_cmd": "./check.sh check %s thorough" % id,
                       "evidence_file": "evidence/%s.json" % id,
                       "technique": "deterministic simulation: " + technique, "level": "exploration",
                       "level_note": (" ".join(note.split()) + " " + TRUST).strip()})


SERVICE = "services/service.go"
API = "services/api.go"
STORE = "lib/store/store.go"

p("C01", "A survey returns exactly the clear-text answer of its query",
  """Without faults, the querier who asks for the results of a survey obtains, for every group that occurs among the
  uploaded records that satisfy the predicate and for no other group, exactly the sums and the count that the same query
  gives over the clear records. This holds for every roster, every choice of the querying server, every query (sums,
  count, conditions, groups, encrypted or clear attributes, with or without proofs) and every order and delay of messages
  and goroutines.""",
  ["schedules", "inputs", "configurations"],
  "every roster, query, data set, distribution of data providers over servers, message delay and goroutine interleaving without faults",
  "The tests run a handful of fixed queries on 3 to 10 local servers under whatever schedule the machine happens to give.",
  [SERVICE, API, STORE, "protocols/tools_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go",
   "protocols/collective_aggregation_protocol.go", "protocols/key_switching_protocol.go", "lib/crypto.go"],
  [("phases of the survey", "services/service.go:StartService"), ("local and collective grouping", STORE),
   ("filtering", "services/service.go:FilterResponses")],
  ["the answer returned by API.SendSurveyResultsQuery"],
  "seeded schedules and delays, answers against a clear-text reference")

p("C02", "Surveys that run at the same time do not disturb each other",
  """Several surveys over the same or overlapping sets of servers, created, filled and asked for concurrently, by different
  queriers at different servers, each return exactly the answer they return when run alone. No record, key, group or result
  of one survey appears in, or is missing from, the answer of another.""",
  ["schedules", "inputs", "configurations"],
  "every set of up to five overlapping surveys, every interleaving of their requests, messages and goroutines",
  "No test runs two surveys at once; all state that surveys share on a server (survey table, protocol instances, channels, lazily made secrets and tables) is only met by overlapping ones.",
  [SERVICE, STORE, API, "lib/crypto.go"],
  [("survey table of a server", "services/service.go:getSurvey, putSurvey"), ("protocol instances find their survey", "services/service.go:NewProtocol")],
  ["the answer of every querier"],
  "seeded schedules of concurrent surveys, answers against a clear-text reference")

p("C03", "Every acknowledged upload counts exactly once",
  """When data providers upload their responses concurrently, in any number and in any mix of encrypted and clear grouping
  attributes, every upload that a server acknowledged before the results are computed contributes exactly once to the answer,
  whatever the interleaving of the uploads at a server. An upload that comes while the results are computed counts as a whole or not at all, and displaces no other.
  Every upload is acknowledged in bounded time.""",
  ["schedules", "inputs"],
  "every number (up to well over a hundred), order and interleaving of concurrent uploads at each server, announced or not, with slow and fast data providers, before, while and after the results are computed",
  "The tests upload one data provider after the other, or a few without controlling where their handlers interleave.",
  [SERVICE, STORE],
  [("insertion of responses", "lib/store/store.go:InsertDpResponse"), ("upload handler", "services/service.go:HandleSurveyResponseQuery, PushData")],
  ["acknowledgements of API.SendSurveyResponseQuery and the answer"],
  "seeded interleavings of concurrent uploads, conservation against a clear-text reference")

p("C04", "Faults can prevent an answer but never falsify it",
  """Whatever connections break, servers stall, crash and restart, network partitions occur and clients lose requests or
  responses, an answer that a querier does obtain is exactly the clear-text answer over all acknowledged uploads plus, at most,
  uploads whose acknowledgement was lost. Repeating a request after an error never yields an answer that counts a record twice
  or leaves out an acknowledged one, and no server process dies from the failure of another one.""",
  ["schedules", "fault_sequences", "crash_points", "inputs"],
  "every sequence of connection resets, partitions, isolated or stalled servers, crashes with or without restart and lost client requests and responses at any point of up to three concurrent surveys",
  "No test injects a fault.",
  [SERVICE, STORE, "protocols/collective_aggregation_protocol.go", "protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/key_switching_protocol.go"],
  [("waiting with time limits", SERVICE), ("one processing per survey", "services/service.go:HandleSurveyResultsQuery")],
  ["answers, acknowledgements and errors that clients see; process exits"],
  "seeded fault sequences, every answer against the set of answers the acknowledged uploads allow",
  "The system keeps all state in memory, so a restarted server has lost its surveys: they may fail, not answer wrongly.")

p("C05", "Once faults stop, new surveys are answered in bounded time",
  """After a period of faults in which other surveys were running, once the faults have stopped and the servers are up again,
  a newly created survey on those servers is created, filled and answered correctly within a bounded simulated time. No lock,
  connection, worker or channel stays blocked for ever because an earlier survey failed.""",
  ["schedules", "fault_sequences", "crash_points"],
  "every sequence of faults during up to three surveys, followed by a survey without faults on a roster not used before",
  "No test injects a fault, none runs a survey after a failed one.",
  [SERVICE, "protocols/collective_aggregation_protocol.go", "protocols/key_switching_protocol.go"],
  [("waits of protocol constructors", "services/service.go:NewProtocol"), ("time limits", "lib/constants.go")],
  ["outcome and simulated duration of the new survey"],
  "seeded fault sequences, then a survey without faults within a bound of simulated time",
  "The new survey uses a roster (order) not used before: the onet library asks for an unknown roster tree only once, so a tree whose description was lost stays unknown, which is not this repository's code.")

p("C06", "Nothing that leaves a party reveals data to fewer than all servers",
  """No message between servers, upload or answer contains a server's private key, a survey secret, a record, group or result that is
  readable by anyone but the querier with fewer than the keys of all the survey's servers, and no two uploaded values share their encryption randomness. The tags of one
  survey cannot be matched with the tags of another survey, and what a server sends on after shuffling repeats no ciphertext it received.""",
  ["schedules", "inputs", "configurations"],
  "every message on the simulated network and every request and answer of clients, over all rosters, queries and up to three concurrent surveys",
  "The tests only look at the final values; a protocol that leaks everything still passes them.",
  ["protocols/shuffling_protocol.go", "protocols/deterministic_tagging_protocol.go", "protocols/key_switching_protocol.go", "lib/shuffle/shuffle.go", "lib/crypto.go", "lib/deterministic_tag/deterministic_tag.go", SERVICE, API],
  [("re-randomisation", "lib/shuffle"), ("survey secrets", SERVICE), ("switching to the querier's key", "lib/key_switch")],
  ["all messages on the simulated network and all client requests and answers"],
  "an adversary on the simulated wire that tries every coalition short of all servers against everything sent",
  "Decides concrete leaks (readable values, repeated ciphertexts or randomness, equal tags, keys on the wire), not computational indistinguishability.")

p("C07", "Distributed shuffling keeps every row and hides its place",
  """Shuffling a set of encrypted rows over all servers gives a permutation of exactly the same rows, each still a unit, encrypted under the collective key
  and re-randomised, and no server's shuffle keeps the order. Concurrent shuffles, precomputed randomness, faults and late servers never mix, lose or duplicate rows: without
  faults a result arrives, with faults either a correct one or none. If proofs are asked for, each server makes one that verifies and is about the rows that it received and passed on.""",
  ["schedules", "inputs", "fault_sequences"],
  "every matrix of rows, roster, number of concurrent instances, schedule and fault sequence",
  "The tests shuffle a fixed list once on a fixed local roster.",
  ["protocols/shuffling_protocol.go", "lib/shuffle/shuffle.go", "lib/shuffle/shuffle_proofs.go", "lib/shuffle/structs.go"],
  [("round over the servers", "protocols/shuffling_protocol.go"), ("permutation and re-randomisation", "lib/shuffle")],
  ["result of the root, decrypted with the simulator's keys; proofs made on the way"],
  "seeded schedules and faults, result against the multiset of input rows")

p("C08", "Deterministic tags are equal exactly for equal values of one survey",
  """Tagging a set of encrypted values gives, in the order of the values, tags that are equal exactly when the plain values are equal, for all runs of one survey
  and on all servers. Tags of different surveys never coincide and no tag is the bare encoding of a value; with faults the result is correct or absent.""",
  ["schedules", "inputs", "fault_sequences"],
  "every vector of values, roster, set of surveys and concurrent taggings, schedule and fault sequence",
  "The tests tag a fixed list once.",
  ["protocols/deterministic_tagging_protocol.go", "lib/deterministic_tag/deterministic_tag.go", SERVICE],
  [("round over the servers", "protocols/deterministic_tagging_protocol.go"), ("survey secret of a server", SERVICE)],
  ["result of the root"],
  "seeded schedules and faults, tags against the equality of the plain values")

p("C09", "Collective aggregation sums every group over all servers exactly",
  """The collective aggregation gives, for exactly the groups that some server holds, the sums over all servers' local aggregates, whatever the tree, the group
  sets of the servers, the order in which their messages arrive and however many aggregations run at once. The group attributes of a group are its own, and with faults the result
  is correct or absent, never that of a part of the servers. If proofs are asked for, each server makes proofs that verify, and every value of the result has one.""",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every tree, distribution of groups over servers (also empty servers), schedule and fault sequence",
  "The tests aggregate the same groups on every server on one tree.",
  ["protocols/collective_aggregation_protocol.go", "lib/aggregation", "lib/structs.go"],
  [("aggregation up the tree", "protocols/collective_aggregation_protocol.go"), ("merging of groups", "lib/structs.go:AddInMap")],
  ["result of the root, decrypted with the simulator's keys; proofs made on the way"],
  "seeded schedules and faults, result against clear-text sums")

p("C10", "Key switching hands exactly the same values to the new key alone",
  """Switching a vector of ciphertexts gives ciphertexts of the same values in the same order that the target key decrypts and the collective key does not, on every tree, including a single server,
  and for concurrent switches to different keys. With faults the result is correct or absent. If proofs are asked for, each server makes one that verifies, for the contribution that is part of the result.""",
  ["schedules", "inputs", "fault_sequences"],
  "every vector, roster, target key, number of concurrent switches, schedule and fault sequence",
  "The tests switch one fixed vector on fixed rosters of several servers.",
  ["protocols/key_switching_protocol.go", "lib/key_switch"],
  [("contributions of the servers", "protocols/key_switching_protocol.go")],
  ["result of the root, decrypted with the target key"],
  "seeded schedules and faults, result against the plain values")

p("C11", "Shuffling with tagging keeps rows whole, hides order and tags consistently",
  """The combined shuffling and tagging round returns, for every input row and no other, the row of its tags in a hidden order: equal values and only equal values of a run get
  equal tags, in every row and column. With faults the result is correct or absent.""",
  ["schedules", "inputs", "fault_sequences"],
  "every matrix of rows, roster, number of concurrent instances, schedule and fault sequence",
  "The tests run it once on a fixed list.",
  ["protocols/shuffling+ddt_protocol.go"],
  [("round over the servers", "protocols/shuffling+ddt_protocol.go")],
  ["result of the root"],
  "seeded schedules and faults, tag rows against the input rows")

p("C12", "Adding or removing a server preserves every stored value",
  """Changing the set of servers by adding or removing servers, in any sequence and on many vectors at once, leaves ciphertexts that decrypt under the new collective
  key to exactly the old values in the old order. The proofs of the change verify exactly when the change was made honestly (forged ones, also by the holder of the key, are rejected), for lists of any length, also when they are made and verified in parallel.""",
  ["schedules", "inputs", "histories"],
  "every sequence of up to several additions and removals, vector length, number of concurrent operations and goroutine interleaving; every kind of forged element of the proof lists",
  "The tests add or remove one server on one vector.",
  ["lib/add_rm", "protocols/utils/addrm_server_protocol.go"],
  [("change of the collective key", "lib/add_rm"), ("parallel loop", "protocols/utils/addrm_server_protocol.go")],
  ["ciphertexts after the change, decrypted; verdicts"],
  "seeded interleavings of parallel loops and concurrent instances, values against plain values, verdicts against honesty")

p("C13", "Proof verification accepts honest work and rejects forged work",
  """The collective verification of key-switching, deterministic-tag, tag-addition, aggregation and shuffling proofs accepts every list of honest proofs, also after it was sent over the network, and
  rejects every list in which a proof or the data it is about was altered, swapped, left out or forged - also by a server that knows all its own secrets and picks the result to fit the proof, or
  shuffles for another key or alters several columns - whatever the list lengths and however the parallel verifications interleave. Every proof of a list is about its own element, the proofs that servers
  make while they tag values or process a survey are of true statements, and verdicts of concurrent verifications never mix. If only the first part of a list is to be verified, exactly that part decides; proofs that cannot be decoded are refused with an error.""",
  ["schedules", "inputs"],
  "every combination of proof lists, lengths, ways of forging one element, and interleavings of the parallel verification and of several verifications",
  "The tests verify a few honest lists and a few forged ones, one at a time.",
  ["protocols/utils/proofs_verification_protocol.go", "lib/key_switch", "lib/deterministic_tag", "lib/aggregation", "lib/shuffle"],
  [("parallel verification", "protocols/utils/proofs_verification_protocol.go")],
  ["verdict list of the protocol"],
  "seeded interleavings of parallel verifications, verdicts against whether and where the lists were forged")

p("C14", "Local operations that run at the same time keep to their own data",
  """Any mix of local aggregations, clear aggregations, server-set changes and proof verifications that run concurrently in a server return, each to its own caller, the same results as when run alone.
  Each yields exactly one result, and the sums per group are exact.""",
  ["schedules", "inputs"],
  "every mix of up to six concurrent local operations with any data, and every goroutine interleaving",
  "The tests run one local operation at a time.",
  ["protocols/utils", "lib/aggregation", STORE, "lib/structs.go"],
  [("result channels", "protocols/utils"), ("parallel loops", "lib/structs.go, lib/aggregation")],
  ["results of the operations"],
  "seeded interleavings of concurrent operations, results against clear-text sums")

p("C15", "Decryption gives the right integer whatever was decrypted before",
  """Decrypting or zero-testing an encrypted integer within the supported range gives that integer (or its absence of value for a negative integer where negatives are not asked for) regardless of the history of earlier decryptions, of
  whether negative integers were allowed in them, and of decryptions that run at the same time.""",
  ["histories", "schedules", "inputs"],
  "every history of decryptions and zero tests with and without negatives by up to four concurrent clients and every interleaving",
  "The lookup tables are process-wide and grow with use; the tests decrypt in one order.",
  ["lib/crypto.go"],
  [("shared lookup tables", "lib/crypto.go:DecryptInt, DecryptIntWithNeg, DecryptIntVector")],
  ["decrypted integers"],
  "seeded histories and interleavings over the shared tables, values against the plain integers")

p("C16", "Files are whole or refused, whatever happened while they were written",
  """The data file and the file of precomputed blinding are used correctly after any crash, disk fault or concurrent use. Reading the data file gives one of the data sets that were stored, whole
  and unchanged (with several writers: one that was not yet replaced), or an error. The blinding a survey gets always belongs together (K = s*B, C = s*key), is made for the survey's own collective key and is
  long enough for its rows, whatever an earlier survey, another process or a crash left in the file; once the disk works again, a survey can always be set up.""",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every sequence of writes and reads by up to four processes in up to two directories, every crash point within them, full disks, I/O errors, cut writes and short reads",
  "The tests write a file once and read it back, on a disk that works and in a process that lives.",
  ["lib/shuffle/shuffle.go", "lib/shuffle/structs.go", "lib/tools/tools.go", "data/handle_data.go"],
  [("writing files", "lib/tools/tools.go:WriteToFile, WriteToGobFile; data/handle_data.go:WriteDataToFile"), ("choice between stored and new blinding", "lib/shuffle/shuffle.go:PrecomputationWritingForShuffling")],
  ["data sets and blinding the callers get"],
  "seeded crash points and disk faults on a simulated file system, data read against the history of writes, blinding against the key and size",
  "The page cache of the simulated disk survives the crash of a process; loss of unsynced data in a power failure is not simulated.")

p("C17", "A survey over the servers' data files is exact whatever ran before",
  """A survey in which the servers take the records from their own data file is answered exactly: the sums and counts, per group, of the records of all its servers that satisfy the predicate. This holds whatever
  surveys (other rosters and keys, more or fewer attributes) ran before or run at the same time on the servers and share their files. With a failing disk a survey may be refused or stay unanswered but never gives a wrong answer,
  and once the disk works the next survey is exact.""",
  ["histories", "schedules", "inputs", "fault_sequences"],
  "every data file, roster, sequence and overlap of surveys, schedule and sequence of disk faults",
  "The tests never run a survey in this mode, which is the one the command-line client uses.",
  [SERVICE, "data/handle_data.go", "lib/shuffle/shuffle.go", API],
  [("loading of the data", "services/service.go:HandleSurveyCreationQuery"), ("shared file of precomputed blinding", "lib/shuffle/shuffle.go")],
  ["answers that queriers see"],
  "seeded histories of surveys that share files on a simulated disk with faults, answers against a clear-text reference over the data file",
  "All servers share one working directory in the simulation, as in the shipped local deployment.")

p("C18", "The command-line client asks the query its flags describe and prints its answer",
  """Every command line of the querier (`unlynx run` with -f, -s, -c, -w, -p, -g, --proofs, in any order and spelling) that is well formed asks exactly the query that it describes, of the servers of its group file, and prints exactly the answer, per group,
  over the data files of these servers, also when several queriers run at once and other surveys ran before. Conditions, groups and count are optional. A command line that cannot be understood (nothing to sum, a list without braces, a condition
  without a value, conditions without a predicate or the reverse, --count without count in the sum, a group file that is missing, empty or damaged) ends with a non-zero exit code and prints no answer; so does any run whose files cannot be
  read, which never prints a wrong answer; and once the disk works the next one is answered.""",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every command line, group file, data file, overlap of queriers, schedule and sequence of disk faults",
  "The only test of the command prints its help text.",
  ["cmd/unlynx/client.go", "cmd/unlynx/main.go", API, SERVICE, "data/handle_data.go"],
  [("parsing of the query", "cmd/unlynx/client.go:parseQuery"), ("asking and printing", "cmd/unlynx/client.go:startQuery"), ("group file", "cmd/unlynx/client.go:openGroupToml")],
  ["output and exit code of the command"],
  "seeded runs of the real command inside the simulated system: generated command lines and group files, several clients at once, disk faults; output against a clear-text reference",
  "Each client is a goroutine with its own arguments; os.Exit ends that goroutine only. Its output is what it logs.")

p("C19", "An acknowledged creation means that every server knows the survey",
  """When the creation of a survey is acknowledged to the querier, every server of its roster that has not crashed since holds the survey: once the network works it accepts uploads, and when no server has crashed the results
  can be obtained and are exact. A creation that did not reach all servers is never acknowledged; without faults every creation is.""",
  ["schedules", "fault_sequences", "configurations"],
  "every roster, message delay, loss of connections, partition, stalled or crashed server during the creation",
  "In the tests all messages of the creation arrive.",
  [SERVICE],
  [("barrier of the creation", "services/service.go:HandleSurveyCreationQuery, HandleQueryBroadcastFinished"), ("broadcast", "lib/tools/tools.go:SendISMOthers")],
  ["acknowledgements of creations and of the uploads that follow"],
  "seeded faults during the creation, then uploads at every server and the answer")

p("C20", "A survey waits for all announced data providers",
  """A querier who asks for the results before the announced data providers have uploaded gets no answer until all of them have, however long and in whatever order they take. As long as no time limit between the servers or of the connection passes, the querier then gets the exact answer over all of them.""",
  ["schedules", "inputs"],
  "every distribution of announced data providers over servers, arrival order and delay relative to the query",
  "In the tests all data is there before the results are asked for.",
  [SERVICE],
  [("counting of uploads", "services/service.go:StartService, HandleSurveyResponseQuery")],
  ["moment and contents of the answer"],
  "seeded arrival times (up to an hour and a half, also beyond the servers' time limits), answer moment and contents against the uploads begun")

p("C21", "Bad requests are refused and leave everything else intact",
  """A request that cannot be served - an upload or results query for an unknown survey, an upload with a value that is no ciphertext, a predicate that cannot be evaluated, a roster with
  an unreachable server, without the asked server, or without a collective key, a condition without a value, a results query without a key - is answered with an error. It neither stops a server nor changes the answer of any other survey, and nothing of a refused upload is counted.""",
  ["schedules", "inputs", "fault_sequences"],
  "every mix and timing of bad and malformed requests next to a good survey",
  "The tests send almost only valid requests.",
  [SERVICE, API, "lib/structs.go"],
  [("request handlers", SERVICE), ("decoding of uploads", "lib/structs.go:FromDpResponseToSend")],
  ["errors and answers that clients see"],
  "seeded timing of bad requests next to a good survey, answers against a clear-text reference")

p("C22", "Asking several times or at several servers never changes the answer",
  """When the results of one survey are asked for more than once - by several queriers, with different keys, at different servers, at the same time or one after the other - every
  answer that is given is the exact answer and readable for its querier, and, without faults, at least one is given.""",
  ["schedules", "histories"],
  "every number, place and timing of results queries for one survey and every interleaving",
  "The tests ask once.",
  [SERVICE, STORE],
  [("results handler", "services/service.go:HandleSurveyResultsQuery"), ("stored aggregates", STORE)],
  ["answers that queriers see"],
  "seeded timing of repeated results queries, answers against a clear-text reference")

LIBC = "lib/crypto.go"
p("C23", "Operations on vectors and encodings are exact at every length and overlap",
  """The library's operations on whole vectors - encryption, addition, subtraction, sum, product with a scalar, comparison, key switching and tagging of a
  sequence, precomputed blinding, grouping of rows - give for every element exactly what the operation on that element alone gives, at every length (none, one, around and over
  the size of the chunks that run in parallel), in order, with fresh randomness for every element that is encrypted, and change none of their operands, however many callers work on the same vectors at the same time.
  What is encoded (ciphertexts, vectors, lists of vectors, points, scalars, rows with and without tags, rows of data providers, integers, maps of attributes, grouping keys) decodes to the same, what no encoder produced (points off the curve, broken base64) is refused with an error, the rows that phases of a
  survey reshape come back whole, different groups have different keys, permutations are permutations, and keys and splits of keys sum to what they should.""",
  ["schedules", "inputs"],
  "every length, shape and content of the vectors and rows, every set of callers and every interleaving of their goroutines",
  "The tests use short vectors that fit in one chunk, one caller, single-digit groups and rows without tags.",
  [LIBC, "lib/structs.go", "lib/tools/tools.go", "lib/key_switch/key_switch.go", "lib/deterministic_tag/deterministic_tag.go", "lib/shuffle/shuffle.go",
   "lib/shuffle/structs.go", "protocols/tools_protocol.go"],
  [("vector operations in chunks", LIBC), ("encodings of rows", "lib/structs.go"), ("encodings of lists of vectors", "lib/crypto.go:ArrayCipherVectorToBytes"), ("reshaping", "protocols/tools_protocol.go")],
  ["return values", "operands after the call"],
  "seeded schedules of the goroutines of several callers that share vectors, results against element-wise arithmetic on the curve")

p("C24", "Generated test data and its expected result agree with what was asked for",
  """The data generator gives every data provider the number of rows asked for, with the attributes, groups and number of rows that satisfy the conditions as
  asked for (all groups once when they are not random), and refuses parameters that do not fit. The expected result computed from data is, for any number of
  repetitions and as the querier sees it, exactly the sum over every group of the rows that satisfy the conditions (that have no condition attribute 0); computing it leaves the data as it is. The comparison with a result accepts the same groups in any order
  and nothing with a group too few, too many, or different. All this holds when several callers generate and compare at the same time.""",
  ["schedules", "inputs"],
  "every shape of the data, number of repetitions, order and difference of the compared results, and interleaving of callers",
  "The tests generate one random shape and compare it with itself.",
  ["data/handle_data.go", STORE],
  [("generator", "data/handle_data.go:GenerateData"), ("reference sums", "lib/store/store.go:AddInClear"), ("comparison", "data/handle_data.go:CompareClearResponses")],
  ["generated rows", "expected result", "verdict of the comparison"],
  "seeded schedules of concurrent generators and comparisons under a simulated clock, against an independent reference")

p("C25", "The noise for obfuscated results follows its parameters",
  """The noise values that are generated for the differentially private obfuscation of results follow the chosen distribution, scale and limit, in the number asked for.""",
  ["inputs"],
  "every set of noise parameters",
  "A unit test fixes one set of parameters.",
  ["lib/differential_privacy/diff_privacy.go"],
  [("noise", "lib/differential_privacy/diff_privacy.go:GenerateNoiseValuesScale")],
  ["return values"],
  reason="""The generator of the noise is a sequential, deterministic function of its arguments without concurrency, time, I/O or several
  parties: there is no schedule or fault for a simulation to search over. How its values get into the results of a survey is C26.""")

p("C26", "Obfuscated results are the true ones plus one noise value of the list",
  """When the obfuscation of results is switched on, the querier who asks for the results of a survey obtains the groups of the true answer, and every aggregated value
  (sums and count) is, without faults, the true one plus one and the same noise value of the survey, which comes from the list of noise values that the servers shuffled: no server
  chooses it, and surveys do not share it. Results that a server takes out of its store with noise are those it would take without noise, each value off by exactly that noise; without noise they are exact.""",
  ["schedules", "inputs", "configurations"],
  "every roster, query, data, number of concurrent surveys, order and delay of messages and goroutines, and order of operations on the store",
  "The obfuscation is off in every test, and the tests of the store use no noise.",
  [SERVICE, STORE, "lib/differential_privacy/diff_privacy.go", "protocols/shuffling_protocol.go"],
  [("noise of a survey", "services/service.go:DROPhase"), ("list of noise values", "services/service.go:NewProtocol"), ("adding the noise", "lib/store/store.go:PullCothorityAggregatedFilteredResponses")],
  ["answers that queriers see", "results taken out of the store"],
  "seeded schedules of surveys with the obfuscation switched on (its constant is a variable in the instrumented copy), answers against a clear-text reference")

json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: check.sh instruments a copy of the current sources in .build and builds the simulated system from it."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
