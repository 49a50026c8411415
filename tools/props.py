import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[],hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
PM="src/parser/mod.rs"; PB="src/parser/base/mod.rs"; PG="src/parser/base/grammar.rs"
p("C01","Damaged or hostile bytes cannot panic, hang or exhaust a reader",
"Whatever bytes a reader is given - cut short, bit-flipped, with lost, repeated, swapped or zeroed blocks, not UTF-8, or nested without end - loading nodes, loading typed values, and every query on what was loaded returns a value or an error. It never panics, aborts, overflows the stack of an ordinary thread, loops forever, or needs time or memory out of proportion to the input.",
["inputs","fault_sequences"],"for every valid stream and every sequence of storage and transport faults applied to its bytes, through every reading entry point",
"The tests parse about forty well-formed documents; none is damaged at an arbitrary byte, and the interesting damage (a cut inside a quoted string, a flip that joins two indicators) has no list to sample from.",
[PM,PB,PG,"src/parser/base/directive.rs","src/parser/error.rs","src/serde/de.rs","src/node.rs"],
[("greedy sub-parsers that move the cursor or give back a mismatch",PG),("nesting limit and error fallbacks of the recursive grammar",PM),("lossy decoding of bytes to text",PB),("error message built from a clamped position",PB)],
[("read cursors","current and confirmed position in the attached bytes",PB),("indents","stack of indent widths per level",PB)],["result or error of every loading call","process death","simulated steps","peak allocation"])
p("C02","Records acknowledged before a crash are read back exactly",
"When an application appends documents written by the library (from nodes or from typed values) to a log, each closed by a document end marker or followed by a document splitter, every document that was complete on disk at a crash is read back equal to what was written - kinds, values, key order and tags of every node - no matter where the crash tears the unfinished tail or what stale bytes follow it. Reading document by document never loses, merges, splits, alters or reorders a complete document because of what is next to it. A document torn between a bracket or a double quote and its end is refused, never read as another document.",
["crash_points","histories","inputs"],"for every history of appended documents and every crash point, tear and garbage tail behind the last synced document",
"The dump tests compare four fixed documents with fixed text; no test reads a stream back after a torn write, and none writes arbitrary values next to each other.",
["src/dumper.rs",PM,PG,"src/serde/ser.rs","src/serde/ser_node.rs","src/serde/de.rs"],
[("dumper chooses plain, literal or quoted style so that the text reads back","src/dumper.rs"),("document end and splitter recognition",PM),("scalars stop at document boundaries",PG)],
[("document boundary","where one document ends and the next begins",PM)],["nodes and typed values recovered from the simulated disk after a crash"])
p("C03","A stream read document by document equals the same stream read at once",
"Loading a stream of documents with one loader, attached to consecutive pieces of it in any grouping and with or without handing back consumed bytes in between, gives the same documents, tags, anchor tables and stream-wide positions as loading the whole text at once. Tag handles declared at the start stay in force, and an anchor belongs to exactly the document that defines it.",
["histories","inputs","schedules"],"for every stream, every grouping of its documents into deliveries and every point at which consumed bytes are handed back",
"Only whole-text parsing is tested; handing back consumed bytes and re-attaching a loader appear in no test.",
[PM,PB,"src/parser/base/directive.rs"],
[("consumed-byte counter added to every position",PB),("per-document anchor tables",PM),("persistent tag handles",PB)],
[("consumed bytes","length of the stream handed back so far",PB),("anchor tables","one per document",PM)],["nodes, positions, anchors and errors per document"])
p("C04","Shared nodes are snapshots: no writer changes what another handle sees",
"A document shared between threads can be cloned, read, compared, hashed, dumped, updated and dropped by all of them in any interleaving: an update through one handle is seen by exactly that handle, every other handle keeps reading the value it had, and no read ever mixes two versions. The data stays valid until the last handle is dropped and is released exactly then. Nodes whose owners are counted for one thread only cannot cross threads at all.",
["schedules","histories","programs"],"for every interleaving of every program of node operations over shared handles",
"The tests are single-threaded; one test sends a value through a thread once. No schedule with an update between two steps of another thread's read is ever produced.",
["src/repr.rs","src/node.rs","src/yaml.rs"],
[("atomic reference counts behind the thread-safe representation","src/repr.rs"),("copy on write when a handle is updated","src/node.rs"),("copy on write of the shared cell","src/repr.rs")],
[("reference count","handles that share one value","src/repr.rs")],["value read through each handle","allocator: invalid, double and missing frees"])
p("C05","Concurrent calls do not influence each other",
"Every parse, dump, typed read, typed write and node operation gives, in every interleaving with unrelated calls of the same library on other threads, exactly the result it gives alone. This holds also while other calls fail, panic inside application callbacks, or are given hostile input.",
["schedules","programs","fault_sequences"],"for every set of concurrent independent calls, every interleaving and every failing neighbour",
"Tests that happen to run in parallel share no schedule control and compare nothing across threads, so hidden shared state shows up at best as a flaky failure.",
["src/lib.rs",PM,"src/dumper.rs","src/serde/mod.rs","src/serde/stringify.rs","src/node.rs"],
[("all state of a call is owned by the call: no statics, no caches",PM),("stateless dumper","src/dumper.rs")],[],["results of concurrent calls against the same calls run alone"])
p("C06","Results never depend on hash seeds, memory layout or process history",
"The same calls on the same data give the same results - documents, key order, dumped text, lookups, equality, hashes under one hasher and error messages - whatever random keys the maps were seeded with, wherever memory happens to lie, and whatever the process did before. Nodes that compare equal have equal hashes whatever their origin, tag or position, and a map finds a key exactly when it holds an equal one, keeping insertion order.",
["configurations","histories","inputs"],"for every seed of the hash function, memory layout, process history and document",
"A test process has one hash seed, one layout and one history per run; nothing compares two of them.",
["src/node.rs","src/yaml.rs","src/lib.rs","src/dumper.rs"],
[("insertion-ordered map keyed by content","src/yaml.rs"),("hashing and equality by content, ignoring tag and position","src/node.rs")],
[("map","insertion-ordered map with randomly seeded hashing","src/yaml.rs")],["observations of two simulated processes running the same program"])
p("C07","Memory is released exactly once on every path",
"Every call gives back exactly the memory it took once its results are dropped: after success, after any error, and after a panic or cancellation inside application code that the library calls (custom representations, serializers, visitors, closures, output sinks). Documents that use aliases share what they alias rather than copy it, so memory stays in proportion to the text.",
["fault_sequences","inputs","crash_points"],"for every call sequence and every point at which it fails, is cancelled or unwinds",
"No test observes memory; leaks, double frees and blow-up pass every assertion in the suite.",
["src/repr.rs","src/node.rs",PM,"src/serde/de.rs","src/serde/ser.rs"],
[("ownership by counted references, no manual memory management","src/repr.rs"),("aliases reuse the children of the anchored node",PM)],[],["live blocks of the library at quiescence","peak allocation","invalid or double frees"])
p("C08","A rejected document leaves no trace in the loader",
"After a document is rejected, the same loader attached to the next piece of the stream reads every later document with exactly the result (value, tags, anchors, error) a loader that never saw the bad document would give. Only the stream offset differs, and anchors of the rejected document are never visible to a later one.",
["histories","fault_sequences","crash_points"],"for every mixture of good and damaged documents fed to one loader",
"No test uses a loader again after an error.",
[PM,PB],[("per-document anchor table and indent stack set up at the document start",PM),("cursors reset when bytes are handed back",PB)],
[("indents","indent widths left over from the last document",PB),("anchor table index","which table the current document fills",PM)],["results of the recovering loader against a fresh loader"])
p("C09","Positions and error messages point at the true place",
"Every node position and every error position lies inside the stream that was read, and the node position of a scalar is the place where its text starts. The line, column and marked source line of every message are those of that position in the document, and asking for the place of an old position in a damaged, shorter or changed document gives an answer rather than a panic.",
["inputs","fault_sequences","histories"],"for every document, every damage to it, every position and every later damage to the file on disk",
"Two tests compare one fixed message each; positions in damaged, multi-line, multi-byte or chunked documents are never checked.",
["src/indicator.rs",PB,PM,"src/serde/error.rs"],
[("line and column computed by counting newlines up to the position","src/indicator.rs"),("position taken before a node is read",PM),("errors carry a message made at the failing cursor",PB)],[],["node positions, rendered messages, typed-error positions"])
p("C10","A peer that fails midway gets its error reported and nothing after it",
"When the other side of a conversion fails at any step - a serializer, a value being serialized, a visitor, a seed, or an output sink that refuses more data - the conversion stops there: the error comes back unchanged, no further data is sent to the peer, and everything sent before the failure is a prefix of what an undisturbed conversion sends. Without a failure the peer receives every item exactly once and in order.",
["fault_sequences","crash_points","inputs"],"for every value, every peer and every call at which the peer fails",
"The serde tests use well-behaved peers only; no test has a peer that fails.",
["src/serde/ser_node.rs","src/serde/ser.rs","src/serde/de.rs","src/serde/error.rs","src/parser/error.rs","src/indicator.rs"],
[("errors propagated by every conversion step","src/serde/ser_node.rs"),("custom messages kept in the library's error type","src/serde/error.rs"),("output sink errors passed on","src/parser/error.rs")],[],["call trace of the peer and returned error"])
p("C11","A typed read of a damaged number is the written number or an error",
"A number read into a typed field is exactly the number the text denotes (for a binary float, the nearest value of the type), or the read fails: a digit gained, lost or changed by damage, a value out of range for the field, or a text of another kind never comes back wrapped, truncated, sign-changed, clamped (infinity included) or as a panic. A character or string read is the text of the scalar (a number may come in another spelling of the same number), and every value written from a typed field reads back as exactly that value.",
["inputs","fault_sequences"],"for every number text, every damage to its bytes and every target type",
"The tests read small in-range numbers only.",
["src/serde/de.rs","src/serde/ser.rs","src/yaml.rs","src/node.rs"],
[("range-checked conversion to the requested type","src/serde/de.rs"),("number text parsed on access","src/node.rs")],[],["typed values against exact arithmetic on the text"])
# not applicable
p("C12","Plain scalars get the type the documented rules give them",
"Every plain scalar is read as null, boolean, integer, float or string as the documented rules say, in every layout. Quoted scalars are always strings.",
["inputs"],"for every scalar text","A finite list of spellings is tested.",[PG,PM],[("scalar alternatives tried in order",PM)])
p("C13","Block, flow and JSON notation of one document read the same",
"The same content written in block style, flow style or JSON loads to equal nodes. Comments, blank lines and indent widths do not change what is loaded.",
["inputs"],"for every document and every notation of it","A few pairs are tested.",[PM,PG],[("block and flow sub-parsers",PM)])
p("C14","An alias stands for the node its anchor names",
"In resolving mode every alias is replaced by the content of the most recent completed definition in its document; in cyclic mode the alias and the anchor table are kept. An undefined alias is an error.",
["inputs"],"for every document with anchors","One document per mode is tested.",[PM],[("anchor table lookup",PM)])
p("C15","Typed values survive a round trip through nodes and text",
"Serializing any supported value and reading it back gives an equal value, for every enum, struct, tuple, option and map shape. Flattened, inlined and optional helpers behave as documented.",
["inputs"],"for every value of every supported shape","Some shapes are tested once.",["src/serde/ser.rs","src/serde/de.rs","src/serde/inline_list.rs","src/serde/optional.rs","src/serde/stringify.rs"],[("one-to-one mapping of data model and nodes","src/serde/ser.rs")])
p("C16","The library behaves the same with and without the standard library",
"Every function available in both builds gives the same results in both.",
["configurations"],"for every input","CI builds both, tests one.",["src/lib.rs"],[("alloc-only code","src/lib.rs")])
p("C17","Escapes in quoted strings decode as documented",
"Every documented escape in a double-quoted string decodes to its character, every other byte stands for itself, and single-quoted strings know only the doubled quote.",
["inputs"],"for every quoted string","A few escapes are tested.",[PG],[("escape decoding",PG)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
