import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
FR="fraos/src/"
p("F01","The fraos log is exactly the sequence of appended records",
 "After any sequence of appends (single records, batches, empty batches, rejected batches containing an empty record), a fraos database, in memory or on files, holds exactly the records of the successful appends in append order: length, lookup by sequence number, last record, and iteration from any sequence number all agree with that list. Each append returns the sequence number of its first record (none for an empty batch), a sequence number at or past the end reads as absent whatever its value, and a batch containing an empty record fails and leaves nothing behind.",
 ["histories","inputs"],"every sequence of appends and reads up to a depth, with record sizes that stay inside, exactly fill, or overflow a mapped chunk, for file and memory databases",
 "The quickcheck tests append two random small batches and read them back; they never line records up with chunk boundaries, never mix failing batches in, and never read far past the end.",
 [FR+"database.rs",FR+"appender.rs",FR+"growable_mmap.rs",FR+"index_on_mmaps.rs",FR+"seqno.rs",FR+"flatfile.rs",FR+"seqno_iter.rs"],
 [("append_get_seqno",FR+"database.rs"),("grow_and_apply",FR+"growable_mmap.rs"),("find",FR+"index_on_mmaps.rs"),("rearrange_mmaps",FR+"growable_mmap.rs")],
 ["Database::{append,append_get_seqno,put,put_seqno,get_by_seqno,iter_from_seqno,last,len,is_empty}"],
 [("actual_size","published end of the log","appender.rs"),("active/inactive mmaps","where each byte range lives","growable_mmap.rs")])
p("F02","Closing and reopening a fraos database loses and invents nothing",
 "Closing a file database and opening it again, any number of times and at any point of a history of appends, yields exactly the same records with the same sequence numbers, and appends continue right after the last record. This also holds when the previous session ended without a clean close, so that its files still have their preallocated tail.",
 ["histories","crash_points"],"every interleaving of appends (small, chunk-filling, chunk-crossing) with clean and unclean closes up to a depth",
 "The only reopen test writes fixed 1 KiB records with clean closes; unclean closes are tested on the index alone.",
 [FR+"database.rs",FR+"seqno.rs",FR+"growable_mmap.rs"],[("find_actual_end",FR+"seqno.rs"),("shrink_to_size / Drop",FR+"database.rs"),("GrowableMmap::new",FR+"growable_mmap.rs")],
 ["Database::file after drop or after an abandoned session"])
p("F03","Acknowledged fraos appends survive a crash; recovery yields a prefix",
 "If the process or machine stops at any moment, reopening the database succeeds and yields a prefix of the appended records that contains every record of every append that had returned success. No recovered record is corrupted, empty, or made of bytes of another record, and appends made after the recovery work normally and survive later closes and crashes.",
 ["crash_points","histories"],"every system call boundary of a history of appends, and every subset of the not-yet-flushed pages being persisted at that point",
 "No test stops a run in the middle of an append; durability is only ever observed after a clean drop in the same process.",
 [FR+"growable_mmap.rs",FR+"database.rs",FR+"seqno.rs",FR+"appender.rs"],[("data flushed before index written",FR+"database.rs"),("flush in grow_and_apply",FR+"growable_mmap.rs"),("find_actual_end",FR+"seqno.rs")],
 ["Database::file on a copy of the files taken at the crash point"])
p("F04","A fraos append that fails changes nothing",
 "When an append fails because the operating system refuses to extend, map, protect or flush a file, the append returns an error and the database's records stay exactly as before the call, both for readers of the open handle and after a reopen. Later appends that succeed are stored, read back and survive reopening as if the failed append had never been attempted.",
 ["fault_sequences","histories"],"every single failing system call (and pairs of failures) at every position of a history of appends",
 "No test makes an I/O call fail.",
 [FR+"growable_mmap.rs",FR+"appender.rs",FR+"database.rs"],[("grow_and_apply order of effects",FR+"growable_mmap.rs"),("actual_size published after success",FR+"appender.rs")],
 ["Database::append result and later reads"])
p("F05","Concurrent fraos readers and writers see a linearizable log",
 "Under every interleaving of threads that append, read by sequence number, read the last record, take the length and iterate through clones of one database, every batch lands contiguously at the sequence number its append returned, and no record is lost, duplicated or torn. Every read returns either absent or the exact bytes appended at that sequence number, records never disappear once seen, everything appended before a read began is visible to it, and no operation deadlocks or panics.",
 ["schedules"],"all interleavings at synchronization operations of 2-3 threads with 1-3 operations each, up to a preemption bound",
 "One free-running thread pair is tested; the scheduler decides what it sees, and the racing windows are a few instructions wide.",
 [FR+"database.rs",FR+"appender.rs",FR+"growable_mmap.rs",FR+"seqno.rs"],[("write_lock",FR+"database.rs"),("storage RwLock",FR+"growable_mmap.rs"),("actual_size published after the write",FR+"appender.rs")],
 ["call/return history of Database operations in each thread"])
p("F06","fraos handles, clones and iterators stay usable independently",
 "Clones of a database and iterators created from it all see one and the same log, and dropping any of them, in any order and at any point of a history of appends, never disturbs what the others read or append, nor what a later reopen finds.",
 ["histories"],"every sequence of clone, drop, iterator creation, iterator advance, append and reopen up to a depth",
 "No test drops one clone while another goes on being used.",
 [FR+"database.rs",FR+"seqno_iter.rs",FR+"growable_mmap.rs"],[("Drop for Database",FR+"database.rs"),("Arc-shared flatfile and index",FR+"database.rs")],
 ["Database and SeqNoIter operations after other handles were dropped"])
p("F07","Opening a fraos database read-only never modifies it",
 "A database opened read-only reads exactly the records that a writable open of the same files would show, rejects every append with an error, and neither opening, using nor closing it changes the size or content of the files or creates new ones. Opening a missing path read-only fails without creating anything.",
 ["histories","inputs"],"every file state reachable by a short history (clean, unclean, empty, missing) times every short sequence of read-only operations",
 "Read-only mode is not tested at all.",
 [FR+"database.rs",FR+"appender.rs",FR+"growable_mmap.rs"],[("file_inner(writable=false)",FR+"database.rs"),("OpenOptions in Appender::new",FR+"appender.rs")],
 ["directory listing and file bytes before/after; Database::file_readonly results"])
IL="indexed-log-map/src/storage.rs"
p("I01","IndexedLogMap is a full write log plus a map of latest values",
 "After any sequence of appends of key/value entries, iteration from any log position yields every appended entry in order, and looking a key up yields the value appended last for that key (or absent if it never was appended). This is unaffected by closing and reopening, keys and values round-trip whatever their content, and when the map is opened without its key index lookups by key report an error instead of answering.",
 ["histories","inputs"],"every sequence of single and batch appends, lookups, iterations and reopenings over a colliding key alphabet up to a depth",
 "The existing tests append fixed lists of distinct keys once.",
 [IL],[("append",IL),("get",IL),("iter_from",IL)],["IndexedLogMap::{append,get,iter_from,last}"])
p("I02","Concurrent IndexedLogMap writers agree with the log",
 "Under every interleaving of threads appending and reading through one shared map, each entry is logged exactly once and, once the appends have returned, looking a key up yields the value of that key's last entry in the log. While appends are in progress a lookup never returns a value older than one whose append had already returned before the lookup began, nor a value that was never appended for that key.",
 ["schedules"],"all interleavings at synchronization and storage operations of 2-3 threads, up to a preemption bound",
 "No test runs two threads against one map.",
 [IL],[("append: log first, then key index",IL)],["IndexedLogMap::{append,get,iter_from} from several threads"])
p("I03","IndexedLogMap recovers every acknowledged entry after a crash or fault",
 "If the process stops at any point, or a storage operation fails, reopening the map yields in its log every entry whose append had returned success, and looking up a key never yields another key's value or a damaged one. After recovery a key whose append had succeeded is found with the value of its last acknowledged entry, or of an entry that was being appended when the process stopped.",
 ["crash_points","fault_sequences","histories"],"every storage operation boundary of a history of appends, with every permitted loss of unflushed key-index writes, and every single failing storage operation",
 "No test reopens after anything but a clean close.",
 [IL],[("append: log first, then key index",IL)],["IndexedLogMap reopened on the surviving files"])
MV="multiverse/src/"
p("M01","Multiverse membership, lookup, tips and size follow the history",
 "After any sequence of inserts, removals and clears, the multiverse contains exactly the entries inserted and not removed since; lookup by key returns the inserted variant, a membership test and the size agree with it, and the tips are exactly the entries without a child among the members, in whatever order parents and children arrived. Inserting a key that is already present changes nothing, and removing an absent key changes nothing. (Entries are numbered higher than their parents.)",
 ["histories"],"every sequence of inserts (including duplicates, forks, out-of-order arrivals), removals and clears over a small block tree up to a depth",
 "Tests insert one fixed or random tree once and check lookups; removal and re-insertion histories are not explored.",
 [MV+"lib.rs",MV+"entry.rs"],[("insert / remove / clear",MV+"lib.rs"),("parent/children links",MV+"entry.rs")],["Multiverse::{insert,remove,clear,get,contains,tips,len,is_empty}"])
p("M02","Iterating a multiverse visits every entry once, oldest first",
 "Iterating over a multiverse yields every member exactly once, in non-decreasing order of block number, including siblings that share a block number and entries of every fork.",
 ["histories","inputs"],"every block tree up to a size, built by every insertion order that the tree permits, and after removals",
 "Only a linear chain is iterated in tests.",
 [MV+"visitor/depth_ordered.rs",MV+"lib.rs"],[("depth ordered visitor",MV+"visitor/depth_ordered.rs")],["Multiverse::iter"])
p("M03","Best-block selection picks the deep-enough ancestor of the longest chain",
 "With the longest-chain rule, the selected block is the ancestor of a tip of greatest block number at the requested depth below it (any such tip when several tie), and nothing is selected when that tip's retained chain is shorter than the depth. The discarded blocks are exactly the members whose block number is smaller than the selected one's by more than the allowed age gap, so nothing on the chain within the gap, and nothing newer, is ever discarded.",
 ["histories","inputs"],"every block tree up to a size and every depth and age gap in range",
 "Tests check one fixed tree with one depth.",
 [MV+"lib.rs",MV+"block_selection.rs"],[("select_best_block",MV+"lib.rs")],["Multiverse::select_best_block"])
p("M04","The preferred fork is always a longest chain and unbroken",
 "The preferred fork's tip is always a member with the greatest block number, whatever the order and history of insertions and removals; at every depth the selected blocks are the successive ancestors of one such tip and form its unbroken parent chain down to the oldest retained ancestor.",
 ["histories"],"every sequence of inserts over a small block tree up to a depth",
 "Tests exercise single trees without asking for stability.",
 [MV+"lib.rs"],[("preferred fork / tips",MV+"lib.rs")],["Multiverse tips and preferred fork queries"])
p("M05","A multiverse reopened from storage equals the one that was closed",
 "Reopening a file-backed multiverse after any history of inserts, removals and clears yields the same members, the same parent/child structure, the same tips and the same best-block selections as before closing; a multiverse opened with a starting point persists only the entries numbered from there on, so that these are what a later reopening yields, and loads what was stored before whatever its starting point. Multiverses of different domains in one storage do not affect each other.",
 ["histories","crash_points"],"every history of inserts and removals up to a depth, followed by a reopening",
 "One test reloads one linear tree.",
 [MV+"lib.rs"],[("open / load_from_db",MV+"lib.rs"),("insert/remove write-through",MV+"lib.rs")],["Multiverse::{open,load_from}"])
p("M06","Handles to multiverse entries never distort the multiverse",
 "Keeping references to entries obtained from a multiverse, however long, never changes the answers it gives: after later removals, re-insertions and selections it answers exactly as if no reference had been kept, removed entries are never reported as members or ancestors, and no operation panics.",
 ["histories"],"every history of inserts, lookups whose result is held, removals and re-insertions up to a depth",
 "No test holds an entry across a removal.",
 [MV+"lib.rs",MV+"entry.rs"],[("weak parent references",MV+"entry.rs"),("remove / ancestor",MV+"lib.rs")],["Multiverse operations while EntryRefs are held"])
p("M07","A storage failure leaves a multiverse and its storage in agreement",
 "When the storage refuses a write or a removal, the operation reports the error and the multiverse in memory still equals what a reopening of the storage would load. Repeating the operation once storage works again completes it.",
 ["fault_sequences","histories"],"every storage operation of every short history failing once",
 "No test makes storage fail.",
 [MV+"lib.rs"],[("order of storage and memory updates",MV+"lib.rs")],["Multiverse::{insert,remove,clear} results and later reopen"])
BS="blockchain-source/src/"
p("B01","MultiverseSource emits only confirmed blocks, each once, in chain order",
 "A depth-confirming source emits only blocks that are buried under the configured number of confirmations in the chain the wrapped source reported, and emits them in order without gaps or repetitions as the consumer advances its position, provided that forks leave no block that had the configured number of confirmations, nor the very first block. Pulling again from the same position yields the same block again, blocks of abandoned forks that never got deep enough are never emitted, and every block that has its confirmations is emitted once the consumer keeps pulling.",
 ["histories","inputs"],"every sequence of upstream events (extend, fork, no news) and consumer pulls up to a depth, for every small confirmation depth",
 "Tests feed one scripted chain.",
 [BS+"multiverse/mod.rs"],[("pull with BestBlock selection",BS+"multiverse/mod.rs")],["MultiverseSource::pull"])
p("B02","MultiverseSource resumes after a restart where its consumer stands",
 "Cleanly stopping a depth-confirming source at any point of a run and starting it again on the same storage lets the consumer carry on from its last position, provided that forks leave no block that had the configured number of confirmations, nor the very first block: the blocks it receives afterwards continue its chain exactly as if there had been no restart.",
 ["histories","crash_points"],"every position of the restart in every short run",
 "One test restarts at one point.",
 [BS+"multiverse/mod.rs"],[("Multiverse::load_from",BS+"multiverse/mod.rs")],["MultiverseSource::pull after re-opening"])
p("B03","Fork handling lets the consumer rebuild the followed chain",
 "Applying the events of a fork-handling source in order (append inner blocks, roll back to the given block) always gives the consumer an unbroken chain, provided that forks leave no block that had the configured number of confirmations, nor the very first block: every block it appends is a child of its current head, and every rollback targets a block on its chain. Once the source has no more to deliver, the head of the consumer's chain is the block that the wrapped source reported last.",
 ["histories"],"every sequence of upstream extensions and forks no deeper than the retained depth, interleaved with consumer pulls, up to a depth",
 "Tests script two fork scenarios.",
 [BS+"multiverse/rollback.rs"],[("ForkHandlingSource::pull",BS+"multiverse/rollback.rs")],["ForkHandlingSource::pull"])
p("B04","Fork handling resumes consistently after a restart",
 "Cleanly restarting a fork-handling source on its storage at any point between two pulls, events that the consumer had not applied being lost, keeps the guarantee that the consumer's chain, continued from the position it reports, stays unbroken, and converges to the chain of the next block reported, provided that the consumer is fewer blocks behind than the source retains.",
 ["histories","crash_points"],"every restart position in every short run",
 "Not tested for forks.",
 [BS+"multiverse/rollback.rs"],[("state rebuilt from the multiverse",BS+"multiverse/rollback.rs")],["ForkHandlingSource::pull after re-opening"])
p("B05","The wrapped source is always offered usable intersection points",
 "Whenever a buffering source pulls from the source it wraps, the checkpoints it offers include every current tip of the blocks it retains and the position given by the consumer, and at least one of them is always on the chain the wrapped source follows, so that it can always resume on a chain the buffer can connect to.",
 ["histories"],"every short history of upstream events, consumer pulls and restarts",
 "Tests' mock sources ignore the checkpoints they are given.",
 [BS+"multiverse/mod.rs",BS+"multiverse/rollback.rs"],[("checkpoints assembled in pull",BS+"multiverse/mod.rs")],["arguments of the wrapped Source::pull"])
p("B06","Cardano era time arithmetic is exact and consistent",
 "For every era configuration (epoch length a multiple of the slot length) and every slot from the era's first one, the slot-to-timestamp, slot-to-epoch and slot-of-epoch computations agree with exact integer arithmetic on the era's first slot, start epoch, known time, slot length and epoch length: consecutive slots are one slot length apart and are either consecutive slots of one epoch or the last and first of consecutive epochs. Slots before the era have no epoch, and Byron slot numbers continue without gap or overlap from one epoch to the next and into the next era of the built-in networks.",
 ["inputs","configurations"],"all slots in a window around era boundaries and extreme values, for small era configurations and the built-in networks",
 "Tests check a few mainnet constants.",
 [BS+"cardano/time.rs"],[("Era / TimeCalculator",BS+"cardano/time.rs")],["public functions of cardano::time"])
p("B07","Cardano points survive conversion and serialization",
 "Every point (origin or block hash with slot) converts to the network representation and back, and serializes and deserializes, to the same point, distinct points stay distinct, and a malformed block hash is rejected with an error, never a panic or another point.",
 ["inputs"],"all points over boundary slots and hash shapes",
 "Not tested.",
 [BS+"cardano/point.rs"],[("From/TryFrom conversions",BS+"cardano/point.rs")],["cardano::Point conversions"])
p("B08","CardanoSource delivers the node's chain after the given point, without gaps",
 "Whatever points are given, the Cardano source delivers the tip it was told of and then, parents first, exactly the blocks that the node has after the highest given point on the node's chain, each once and with the node's hash, number, slot, epoch, parent and bytes, before it asks the node for more. This holds when the node's chain changes between any two exchanges, exchanges fail, pulls are given up, buffers are cleared or more blocks are due than are buffered: a range is delivered up to what the node still had of it, a failed pull yields nothing wrong, the next pull starts afresh, and stopping always ends the source's task.",
 ["histories","fault_sequences","schedules"],"every run of a few pulls, every exchange with the node being a point at which the node's chain may change, the exchange may fail, the consumer may give up or the buffers may be cleared",
 "No test runs the Cardano source; it does not even build without a network node's protocol library.",
 [BS+"cardano/mod.rs",BS+"cardano/event.rs",BS+"cardano/point.rs"],[("CardanoSource::pull and its task",BS+"cardano/mod.rs"),("BlockEvent from multi-era blocks",BS+"cardano/event.rs")],["CardanoSource::{connect,pull,clear_buffers,stop}"])
p("B09","The Cardano source and the buffering sources together bring the node's chain",
 "A consumer that pulls from a Cardano source through a depth-confirming or a fork-handling source holds, after every event, an unbroken chain of blocks of the node with the node's contents; it is given only blocks with enough confirmations respectively rollbacks to blocks it has, and once it has pulled until nothing is left it has the node's confirmed blocks respectively the node's chain. This survives forks no deeper than the confirmation depth, failing exchanges and restarts at any point.",
 ["histories","fault_sequences"],"every run of a few pulls, chain changes, failed exchanges and restarts, changes and failures at every exchange within a pull",
 "Tests use scripted sources that never fail and never see the checkpoints.",
 [BS+"cardano/mod.rs",BS+"multiverse/mod.rs",BS+"multiverse/rollback.rs"],[("CardanoSource::pull",BS+"cardano/mod.rs"),("MultiverseSource::pull",BS+"multiverse/mod.rs"),("ForkHandlingSource::pull",BS+"multiverse/rollback.rs")],["events received by the consumer of the stack"])
CO="core/src/"
p("C01","The UTxO store holds exactly the unspent outputs and their totals",
 "After any sequence of insertions and removals, the UTxO store contains exactly the outputs inserted and not removed since, and its total for every token is the exact sum over those outputs.  Inserting a pointer that is present or removing one that is absent is reported as an error and changes nothing.",
 ["histories"],"every sequence of inserts and removals (including failing ones) over a small set of outputs up to a depth",
 "Unit tests run a few fixed sequences.",
 [CO+"utxo_store.rs"],[("UTxOSet / builder insert and remove",CO+"utxo_store.rs")],["UTxOStore queries"])
p("C02","Per-token queries return exactly the matching outputs, largest first",
 "For every token, asking the UTxO store for the outputs holding it yields exactly the stored outputs that list that token, ordered by quantity (from the largest, or from the smallest when asked for in that order), whatever the order and history of insertions and removals.",
 ["histories"],"as C01, over outputs with equal, different and multiple token quantities",
 "One fixed set is sorted in tests.",
 [CO+"utxo_store.rs"],[("ordered index by token",CO+"utxo_store.rs")],["UTxOStore per-token iteration"])
p("C03","UTxO store snapshots are isolated from later changes",
 "A frozen UTxO store never changes: thawing it and editing the result, in any interleaving with other snapshots and thawed copies, leaves the contents, totals and per-token order of every previously taken snapshot as they were.",
 ["histories"],"every sequence of freeze, thaw, insert, remove and clone across up to three snapshots",
 "Tests check one freeze.",
 [CO+"utxo_store.rs"],[("persistent maps shared by snapshots",CO+"utxo_store.rs")],["UTxOStore / UTxOStoreMut"])
p("C04","Balances behave as signed integers",
 "A balance is an exact signed number: adding or subtracting values and balances in any order, including across zero, gives the same result as integer arithmetic, and comparison, debt/excess/balanced queries and text output agree with that number.",
 ["histories","inputs"],"every sequence of up to a few additions and subtractions over a boundary alphabet",
 "A handful of sums are tested.",
 [CO+"balance.rs"],[("Balance arithmetic",CO+"balance.rs")],["Balance operators and queries"])
p("C05","Converting values between units of a currency is exact",
 "Converting between the units of one currency (and to and from the normalized form) is exact in both directions: scaling down and back up gives the original value, and the numeric relation between units is the fixed power of ten.",
 ["inputs"],"all values of a boundary alphabet for every supported unit pair",
 "Some conversions are tested with one value each.",
 [CO+"value.rs"],[("unit conversions",CO+"value.rs")],["Value::to_* / from_* conversions"])
p("C06","Values survive text and serialized forms",
 "Formatting a value as text and parsing it again gives the same value for every value with no more decimals than its unit allows, and serializing and deserializing gives the same value; a text is accepted exactly if it is a decimal number within the unit's limit of decimals and means that number, and malformed or over-long texts are rejected with an error and never panic.",
 ["inputs"],"all strings over a small numeric alphabet up to a length; all boundary values",
 "Tests parse a few literals.",
 [CO+"value.rs"],[("FromStr / Display / serde",CO+"value.rs")],["Value text and serde forms"])
p("C07","Value arithmetic, truncation, ordering and hashing are exact",
 "Addition, subtraction, multiplication, summation, truncation, comparison and hashing of values agree with exact decimal arithmetic: equal values compare and hash equal whatever their representation, ordering is the numeric order, and truncation drops exactly the fractional part.",
 ["inputs"],"all pairs of a boundary alphabet of decimals in several representations",
 "Literal sums only.",
 [CO+"value.rs"],[("operators",CO+"value.rs")],["Value operators"])
p("C08","Block, slot and output numbers never wrap around",
 "Checked, saturating and plain arithmetic and comparison on block numbers, slot numbers and output indices agree with exact integer arithmetic: an overflow or underflow is reported or saturates as the operation promises, and is never a wrapped result.",
 ["inputs"],"all pairs of a boundary alphabet for every operation",
 "Few cases are tested.",
 [CO+"block_number.rs",CO+"slot_number.rs",CO+"output_index.rs"],[("arithmetic impls",CO+"block_number.rs")],["BlockNumber / SlotNumber / OutputIndex operators"])
p("C09","Numbers and identifiers survive text and serialized forms",
 "Block numbers, slot numbers, output indices, timestamps and textual identifiers print and parse, and serialize and deserialize, to the same value; numbers are accepted both as numbers and as decimal strings, and anything else (negative, too large, non-numeric) is rejected with an error.",
 ["inputs"],"all strings over a small alphabet up to a length; all boundary numbers",
 "Only one representation of few types is tested.",
 [CO+"number_visitor.rs",CO+"timestamp.rs",CO+"block_number.rs",CO+"slot_number.rs",CO+"output_index.rs"],[("NumberVisitor",CO+"number_visitor.rs")],["FromStr, Display, Serialize, Deserialize"])
US="utxo-selection/src/"
p("S01","Largest-first selection accounts for every unit it takes",
 "Whatever the available inputs (distinct, and not among the fixed ones), requested outputs and fees, a successful largest-first selection returns distinct inputs taken from the available ones, and its reported input, output and fee balances are exactly the sums over the chosen inputs, the outputs and the estimated fees. For every token the chosen inputs cover the outputs, and for the main token also the fee.",
 ["inputs"],"every small multiset of inputs and outputs over a few tokens and quantities, for every fee setting",
 "Tests run a few fixed selections.",
 [US+"algorithms/largest_first.rs",US+"common.rs"],[("LargestFirst::select_inputs",US+"algorithms/largest_first.rs")],["InputSelectionAlgorithm::select_inputs result"])
p("S02","Largest-first selection fails only when it must and takes the largest first",
 "Largest-first selection succeeds whenever the available inputs taken together cover the outputs and the fees, and fails otherwise. The chosen inputs are, token by token in some order of the requested tokens and the main token last, in turn the largest left of a token still short: it stops with each token as soon as its need (for the main token including the fees) is covered and takes nothing that was not needed.",
 ["inputs"],"as S01",
 "Completeness and minimality are not tested.",
 [US+"algorithms/largest_first.rs"],[("sorted available inputs",US+"algorithms/largest_first.rs")],["select_inputs success and chosen inputs"])
p("S03","Random-improve selection is sound for every random choice",
 "For every outcome of its random choices, a successful random-improve selection returns distinct inputs taken from the available ones, covers every requested token and for the main token also the fee, and reports input, output and fee balances that are exactly the sums over what it chose.",
 ["inputs","schedules"],"every small multiset of inputs and outputs, times every sequence of random choices",
 "Tests run the real random generator once per case.",
 [US+"algorithms/random_improve.rs"],[("RandomImprove::select_inputs",US+"algorithms/random_improve.rs")],["select_inputs result"])
p("S04","Inputs handed out by a selection are never handed out again",
 "Across any sequence of selections on one selector, no input is handed out twice; the inputs still available are exactly the ones provided minus those chosen (a selection that fails takes nothing), and providing a new set of available inputs makes exactly that set selectable.",
 ["histories"],"every short sequence of selections and resets for each selection algorithm",
 "Tests run a single selection per selector.",
 [US+"algorithms/largest_first.rs",US+"algorithms/random_improve.rs"],[("available_inputs bookkeeping",US+"algorithms/largest_first.rs")],["available_inputs / select_inputs"])
p("S05","Single-change balancing conserves every token",
 "When the single-output change balancer succeeds, the inputs equal the outputs plus the added change plus the fee for every token, all excess goes to one change output at the configured address, change is never negative, and the reported fee is the estimator's minimum for the result. It fails only if a token is short, the main-token excess cannot pay for the change output, or no change address is given.",
 ["inputs"],"every small combination of input, output, and fixed balances and fees",
 "Few fixed cases.",
 [US+"algorithms/balance_change_single_output.rs"],[("balance_inputs_outputs",US+"algorithms/balance_change_single_output.rs")],["balance result"])
p("S06","Fee-change balancing conserves every token",
 "When the fee-only balancer succeeds, the whole main-token excess is paid as fee, so inputs equal outputs plus fee, and the fee is at least the estimator's minimum; it fails when another token has an excess or any token is short.",
 ["inputs"],"as S05",
 "Few fixed cases.",
 [US+"algorithms/balance_change_fee.rs"],[("balance_inputs_outputs",US+"algorithms/balance_change_fee.rs")],["balance result"])
p("S07","Thermostat produces balanced transactions",
 "When the thermostat algorithm succeeds, the chosen inputs are distinct members of the available ones and, for every token, inputs equal requested outputs plus change outputs plus fee, no change is negative, and the fee is at least the estimator's minimum for the result; it never panics.",
 ["inputs","histories"],"every small configuration of inputs, outputs and thermostat settings",
 "Its unit tests do not build here and cover few cases.",
 [US+"algorithms/thermostat.rs"],[("Thermostat",US+"algorithms/thermostat.rs")],["select/balance result"])
p("S08","Selection set-up computes exact initial balances",
 "The helpers that start a selection from fixed inputs and outputs compute exactly the sums of these for the main token and every other token, and classify each token as short, balanced or in excess according to the exact difference including the fee.",
 ["inputs"],"every small combination of inputs and outputs",
 "Not tested.",
 [US+"common.rs"],[("calculate_* helpers",US+"common.rs")],["common helper results"])
p("U01","CIP-14 fingerprints are the specified hash of policy and asset name",
 "For every policy id and asset name in hexadecimal, the computed fingerprint is the 20-byte Blake2b hash of the decoded policy bytes followed by the decoded asset name bytes, in the library's fixed-width form; malformed hexadecimal gives an error, never a panic or a fingerprint.",
 ["inputs"],"all short hexadecimal strings, mixed case, and all single-character corruptions of valid ones",
 "The tests compare a fixed vector list.",
 ["cardano-utils/src/cip14.rs"],[("fingerprint",  "cardano-utils/src/cip14.rs")],["cip14 fingerprint function"])
CU="cardano-utils/src/"
p("U02","Ledger outputs and their UTxO representation convert without loss",
 "Converting a ledger output (with its reference) into the UTxO representation and back into an input or output to be built gives the same address, coins, quantity of every token, datum and script, and an input by the credentials given; names, policies and fingerprints in between are those of the tokens. A list that names a token several times means the sum of its quantities; a fraction of the smallest unit is dropped. An amount below zero or beyond what a transaction can hold gives an error, and so does an address, policy, name or transaction id that is none; never a panic or another value.",
 ["inputs"],"every combination of address kind, amount, token quantities, datum, script and repetition of a token",
 "Tests convert one output in one direction, and need a library that is not always at hand.",
 [CU+"utxo.rs",CU+"payment_credentials.rs"],[("tx_output_to_utxo / utxo_builder_to_cml_output / utxo_details_to_cml_input",CU+"utxo.rs")],["cardano_utils::utxo conversions"])
p("U03","Assumed costs and sizes never fall short of the ledger's",
 "For every network and every multisig plan, the assumed base fee, the assumed cost of an input, an output, an output with a token and a metadata text add up to at least the ledger's minimum fee for the transaction they describe, and the estimated sizes to at least its size; the cost of a metadata text alone covers its bytes, whatever its characters. The builder configuration is exactly that of the network: fee coefficients, deposits, value and transaction sizes.",
 ["inputs"],"networks x plans x numbers of inputs and outputs x lengths of the metadata text",
 "Tests compare a single transaction of one shape per cost.",
 [CU+"network_id.rs",CU+"multisig_plan.rs"],[("NetworkInfo assumed costs",CU+"network_id.rs")],["NetworkInfo fees and sizes"])
p("U04","A multisig plan is the n-of-k script of its keys",
 "A plan read from a file has the quorum and the keys written in it, in that order; the script made of it is the native script that asks for that many of these keys, its hash is the ledger's hash of that script and its address that of the hash on the network asked for. A file that holds no plan gives an error, never a panic or another plan.",
 ["inputs"],"every list of keys up to a length x quorums x networks; every kind of malformed file",
 "Tests load one plan.",
 [CU+"multisig_plan.rs"],[("MultisigPlan",CU+"multisig_plan.rs")],["MultisigPlan::load / to_script / hash / address"])
p("S09","Fee estimators account for every part of a transaction exactly once",
 "Whatever inputs, outputs and metadata were added to a fee estimator in whatever order, its fee and size are at least those of the transaction described so far (for the builder-based one exactly the library's), the cost it announces for an input or output is what adding that then costs, asking changes nothing, and the least value it asks for an output is the ledger's. A selection made with it balances, fits, and pays at least the ledger's minimum fee for the transaction selected.",
 ["histories","inputs"],"every sequence of additions up to a length; every small multiset of inputs and outputs through each selection algorithm",
 "Tests make one selection per estimator.",
 [US+"estimators/thermostat_estimator.rs",US+"estimators/cml_fee_estimator.rs",US+"algorithms/thermostat.rs"],[("TransactionFeeEstimator implementations",US+"estimators/cml_fee_estimator.rs")],["TransactionFeeEstimator and selection results"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
