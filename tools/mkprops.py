#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

FR = "fraos/src/"
p("C01", "fraos: acknowledged records survive any crash, complete and in order",
  "Once an append to a file-backed fraos database has returned success, its records survive any later process kill or power loss: after reopening, every acknowledged record is present at the sequence number it was given, byte for byte, and iteration yields them in insertion order.",
  ["crash_points", "histories", "configurations"],
  "all histories of appends, clone drops, clean reopens and crashes; all crash instants inside them; all subsets of un-synced pages and un-committed metadata that a power loss may keep",
  "Tests close the database in an orderly way and reopen it; none kills it at an arbitrary instant or drops the un-synced part of the files.",
  [FR+"growable_mmap.rs", FR+"appender.rs", FR+"seqno.rs", FR+"database.rs"],
  [("flush the map before the append returns", FR+"growable_mmap.rs grow_and_apply"),
   ("data first, index second", FR+"database.rs append_get_seqno"),
   ("the index ends at its last complete entry", FR+"seqno.rs find_actual_end")],
  [("data file", "record bytes, padded to the mapped size while open", FR+"flatfile.rs"),
   ("seqno file", "(offset, length) pairs, zero padded while open", FR+"seqno.rs")],
  ["Database::file", "Database::get_by_seqno", "Database::iter_from_seqno", "Database::len"],
  "smaller map sizes and remap threshold, so that growth is reached in short histories")
p("C02", "fraos: after a crash an interrupted append leaves only a prefix of its batch",
  "After a crash at any instant, a file-backed fraos database opens without error, and beyond the acknowledged records it holds nothing but a (possibly empty) prefix of the batch whose append was in flight, each record complete and correct - never garbage, an empty record, stale bytes or a gap. The reopened database accepts and serves further appends, through any number of further crashes.",
  ["crash_points", "histories", "configurations"],
  "all crash instants inside appends of single records and of large batches, repeated over several restarts, for all subsets of un-synced pages that reach the disk",
  "The recovery tests feed hand-made zero suffixes to the index; none produces the page subsets, holes and stale tails that interrupted appends leave behind.",
  [FR+"seqno.rs", FR+"growable_mmap.rs", FR+"database.rs"],
  [("find the end of a zero-padded index", FR+"seqno.rs find_actual_end"),
   ("map only the indexed length of the data file", FR+"database.rs new")],
  [("un-indexed tail", "bytes written by an append that never completed", FR+"growable_mmap.rs")],
  ["Database::file", "Database::len", "Database::get_by_seqno"],
  "as C01")
p("C03", "fraos: concurrent appends and reads are linearizable",
  "Any number of threads sharing a fraos database (in memory or on file) see one log: every batch gets a dense block of consecutive sequence numbers in real-time order and becomes visible to all reads - by sequence number, last, length, iteration - atomically and permanently. A read returns exactly the record that was appended at that position, or nothing if that position was not yet filled, and no call panics or blocks forever.",
  ["schedules", "histories"],
  "all interleavings of the callers at every memory access, lock and system call, for all mixes of appends and reads across map growth, rotation and remapping",
  "The parallel tests run one writer and one reader under whatever schedule the OS picks, and check only the end state.",
  [FR+"database.rs", FR+"appender.rs", FR+"growable_mmap.rs", FR+"seqno_iter.rs"],
  [("one writer at a time", FR+"database.rs write_lock"),
   ("map storage behind a reader-writer lock", FR+"growable_mmap.rs storage"),
   ("size published after the write", FR+"appender.rs actual_size")],
  [("actual_size", "upper bound of what may be read", FR+"appender.rs")],
  ["append_get_seqno", "get_by_seqno", "last", "len", "iter_from_seqno"], "as C01")
p("C04", "fraos: a failed append changes nothing, later appends still land correctly",
  "When an append fails because the disk is full, I/O fails or a mapping cannot be made, it reports an error and the records visible in the database are exactly those visible before; later successful appends are stored and returned intact at the sequence numbers they report, and survive reopening. Over a reopen or crash, a failed append may at most surface as a whole prefix of its own batch, never as wrong bytes for it or for any other record.",
  ["fault_sequences", "histories", "crash_points"],
  "all positions of failing system calls (extend, map, sync, protect, open) inside all histories of appends, reopens and crashes",
  "No test makes a system call fail.",
  [FR+"growable_mmap.rs", FR+"appender.rs", FR+"database.rs"],
  [("errors are propagated before the size is published", FR+"appender.rs append"),
   ("bounds of the active map", FR+"growable_mmap.rs grow_and_apply")],
  [], ["append_get_seqno", "get_by_seqno", "len"], "as C01")
p("C05", "fraos: closing one handle never disturbs the others",
  "Cloning a database, iterating it, opening it read-only beside the writer, and dropping any of these handles at any time - including while other handles append or read - never changes what the remaining handles read, never loses or truncates what they append afterwards, and never crashes the process; only the files' unused tail is given back, when the last handle goes away.",
  ["schedules", "histories", "crash_points"],
  "all interleavings of clone, drop, iterator and read-only open with appends and reads on other handles, followed by clean reopen or crash",
  "The tests never drop one clone while another is still in use.",
  [FR+"database.rs", FR+"appender.rs", FR+"growable_mmap.rs", FR+"seqno_iter.rs"],
  [("shrink the files on drop", FR+"database.rs Drop"),
   ("iterators keep the files alive", FR+"seqno_iter.rs")],
  [], ["Database::clone", "drop(Database)", "SeqNoIter", "Database::file_readonly"], "as C01")
p("C06", "fraos: growing, rotating, remapping and reopening never alter the log",
  "Whatever the sizes of records and batches and however often the storage grows, rotates its maps, consolidates them, or is closed and reopened (read-write, read-only or after a kill), every record keeps its sequence number and content, length and last agree with the log, reads past the end return nothing, and iterators and readers that were active across the change continue with the right records.",
  ["histories", "configurations", "crash_points"],
  "all sequences of batches with sizes around the map boundaries, interleaved with reopen modes, kills and live iterators",
  "Growth tests use one fixed record size and a single close and reopen.",
  [FR+"growable_mmap.rs", FR+"index_on_mmaps.rs", FR+"shared_mmap.rs", FR+"seqno.rs"],
  [("address lookup over maps", FR+"index_on_mmaps.rs"),
   ("consolidation of many maps into one", FR+"growable_mmap.rs rearrange_mmaps")],
  [], ["get_by_seqno", "iter_from_seqno", "last", "len"], "as C01")
p("C07", "fraos: a copy taken while the database is in use opens to a consistent prefix",
  "If the files of a live file-backed database are copied at any time while it is being appended to, with each part of the data file copied after the index, the copy opens (read-write or read-only) as a log that is a prefix of the original: it contains at least every record acknowledged before the copy began, nothing that is not in the original, and appends made to the copy are stored and read back correctly.",
  ["schedules", "histories"],
  "all interleavings of the page-wise copy with the appends of the live database",
  "The design goal of copying a live database has no test.",
  [FR+"seqno.rs", FR+"database.rs", FR+"growable_mmap.rs"],
  [("trailing zero entries are ignored at open", FR+"seqno.rs find_actual_end")],
  [], ["Database::file", "Database::file_readonly"], "as C01")

IL = "indexed-log-map/src/storage.rs"
p("C10", "indexed-log-map: key lookups agree with the log under concurrency",
  "With any number of threads appending and reading, once append(k, v) has returned, get(k) returns v or a value appended to k later in log order, contains(k) is true, and iterating from k starts at that value and continues with exactly the records that follow it in the log; the record after k is the one directly behind it, none if there is none; keys never appended are never found. When all appends are done, each key maps to its last value in log order.",
  ["schedules", "histories"],
  "all interleavings of appends to equal and different keys with lookups and iterations",
  "The concurrent test appends disjoint keys and checks after joining.",
  [IL, FR+"database.rs"],
  [("log append, then key insert", IL+" append"), ("lookup through the key index", IL+" iter_from")],
  [], ["append", "get", "contains", "iter_from", "iter", "last"], None)
p("C11", "indexed-log-map: after a crash the key index never points at a wrong record",
  "After a crash at any instant and reopening, the log holds every acknowledged value in order plus at most the one in flight per caller, and looking up any key gives nothing or a value that was appended under that key, with iteration from it following the log order - never an error, another key's value or a missing record. Appending a key again makes its lookup current.",
  ["crash_points", "histories"],
  "all crash instants inside appends, for all prefixes of un-synced key-index writes and all subsets of un-synced log pages",
  "Tests never reopen after an unclean stop.",
  [IL], [("the log record is durable before the key index refers to it", IL+" append")],
  [], ["IndexedLogMap::new", "get", "iter_from", "iter"], None)
p("C12", "indexed-log-map: failed appends harm nothing; retrying consumers miss nothing",
  "If an append fails in the log or in the key index, every earlier key and record is still returned unchanged, and the failed append adds at most one record to the log; once it is retried successfully the key is found. When each key is appended once, by one writer that retries a failed append before it goes on, a consumer that repeatedly asks for the record after the key it last processed, retrying on errors, receives every acknowledged record at least once, in log order, without skipping any, and nothing when there is none after it.",
  ["fault_sequences", "histories"],
  "all positions of failing log and key-index operations in histories of appends, lookups, reopens and consumer steps",
  "No test makes the log or the key index fail; get_next is tested without faults only.",
  [IL], [("errors are propagated", IL+" append"), ("get_next: position of key, then one step", IL+" get_next")],
  [], ["append", "get", "get_next"], None)

MV = "multiverse/src/"
p("C20", "multiverse: reopening restores exactly the persisted forks",
  "After any history of inserts, removals, best-block selections and clears (parents inserted before their children, store-from bound respected), closing and reopening a multiverse gives the same blocks, tips, best block and ordered iteration as before; after a crash at any instant it opens to the state after some prefix of the storage writes made, never less than what was flushed. Multiverses under different names in one database never affect each other.",
  ["histories", "crash_points", "configurations"],
  "all histories over block trees with forks, re-insertions and garbage collection, all crash instants, all prefixes of un-flushed writes",
  "Tests use temporary multiverses; none reopens one.",
  [MV+"lib.rs"],
  [("storage write first, then memory", MV+"lib.rs insert"), ("keys sort parents before children", MV+"lib.rs mk_sled_key"),
   ("rebuild from the tree at load", MV+"lib.rs load_from")],
  [], ["Multiverse::open", "Multiverse::load_from", "tips", "get", "select_best_block", "iter"], None)
p("C21", "multiverse: best block and discard set are right for every history",
  "For every history, the selected best block is the block exactly `depth` parents above one of the highest blocks present, or none if that chain of present blocks is shorter, and the discard set is exactly the blocks more than `age_gap` below the selected block; removing the discarded blocks never panics, never changes which block is selected, and selection is never influenced by references the caller keeps to blocks already removed.",
  ["histories", "configurations"],
  "all insert/remove/select histories over forking trees, all depths and gaps, all hash orders, callers holding or dropping block references at any time",
  "Tests cover a handful of hand-drawn trees, each queried once.",
  [MV+"lib.rs", MV+"entry.rs"],
  [("walk up parents", MV+"lib.rs ancestor"), ("range of older blocks", MV+"lib.rs select_best_block_longest_chain")],
  [], ["select_best_block", "preferred_fork_tip", "remove", "tips"], None)
p("C22", "multiverse: tips and iteration describe the block set completely",
  "After every step of any history (parents inserted before their children), the tips are exactly the present blocks without a present child, iteration visits every present block exactly once in non-decreasing block-number order, lookups find exactly the present blocks, and the preferred tip is a tip of greatest block number; inserting a block twice is a no-op and removing an absent one reports it.",
  ["histories", "configurations"],
  "all insert/remove histories over forking trees, under all hash orders, across reopens and storage errors",
  "Tests check tips after a few inserts; iteration with several blocks at one height is untested.",
  [MV+"lib.rs", MV+"visitor/depth_ordered.rs"],
  [("tips and children sets", MV+"lib.rs insert_in_memory / remove"), ("level-ordered visit", MV+"visitor/depth_ordered.rs")],
  [], ["tips", "iter", "get", "contains", "len", "preferred_fork_tip"], None)
p("C23", "multiverse: a storage error leaves memory and storage reconcilable by retrying",
  "When the underlying storage fails during an insert, removal, clear or load, the call reports an error and does not panic; other blocks are unaffected, the failed operation is either fully done or not done at all as seen through lookups, tips, iteration and selection, and repeating it after the fault succeeds and brings memory and the persisted state into agreement. An insert or removal that the storage refused without effect has changed nothing.",
  ["fault_sequences", "histories"],
  "all positions of failing storage operations in all histories, followed by retries and reopen",
  "No test makes the storage fail.",
  [MV+"lib.rs"], [("storage write first, then memory", MV+"lib.rs insert"), ("memory removal, then storage removal", MV+"lib.rs remove")],
  [], ["insert", "remove", "load_from"], None)

BS = "blockchain-source/src/"
p("C30", "MultiverseSource: each stable block is delivered in order, at the right depth",
  "Over a node whose chain grows and rolls back without ever abandoning a block that has as many confirmations as the confirmation depth, with empty polls, requests cut short, repeated blocks, tip notices, errors of the node and of the storage and polls given up half-way in any order, a consumer that asks for the block after its last one receives exactly the blocks of the final stable chain, each a child of the previous, with none skipped - from the very first block on; no block is delivered before a block with the full number of confirmations above it has been received; asking again for the same position gives the same block; each tip notice is passed on; and once the node is quiet every block with enough confirmations arrives.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of node behaviour (growth, rollbacks within the depth, returns to abandoned branches, stalls, cuts, repeats, errors) and single or lasting storage failures interleaved with polls",
  "Tests pull a single linear chain from a source that never fails.",
  [BS+"multiverse/mod.rs", MV+"lib.rs"],
  [("insert, select, garbage collect", BS+"multiverse/mod.rs multiverse_insert_and_gc"), ("deliver the confirmed block to the position it follows", BS+"multiverse/mod.rs next_stable"), ("checkpoints given to the inner source", BS+"multiverse/mod.rs pull")],
  [("confirmed", "the last block known to be stable", BS+"multiverse/mod.rs")], ["MultiverseSource::pull"], None)
p("C31", "MultiverseSource: restart resumes without losing or reordering stable blocks",
  "If the process stops or crashes at any instant and restarts with the persisted multiverse (of which a power loss keeps what had been flushed and any prefix of the later writes) and the consumer's saved position (the last block it received or the one before), the consumer goes on to receive the block after its position and then the rest of the stable chain in order, and once the node is quiet it reaches the last stable block.",
  ["crash_points", "histories", "fault_sequences"],
  "all crash instants between and inside polls, with storage keeping what had been flushed and a prefix of the rest, consumer position saved before or after the crash, combined with all node behaviours of C30",
  "No test restarts the source.",
  [BS+"multiverse/mod.rs", MV+"lib.rs"],
  [("confirmed block recomputed from the stored multiverse", BS+"multiverse/mod.rs new"), ("confirmed block made durable before it is given out", BS+"multiverse/mod.rs multiverse_insert_and_gc")],
  [], ["MultiverseSource::new", "MultiverseSource::pull"], None)
p("C32", "ForkHandlingSource: the event stream always replays to the node's chain",
  "Over a node that grows, forks and rolls back without ever abandoning a block that has as many confirmations as the confirmation depth, with stalls, cuts, repeats, tip notices, errors of the node and of the storage and polls given up half-way, a consumer that applies the events in order - append a block, or cut back to the rollback point - always holds a gapless chain in which every block's parent is the previous one; a rollback names a block it holds, or the point it started from, and is followed by the blocks of the new branch; each tip notice is passed on; and once the node stops changing, the consumer's chain equals the node's after boundedly many polls.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of fork switches (also mid-delivery), stalls, duplicates and errors interleaved with polls",
  "One test with one fixed three-branch tree.",
  [BS+"multiverse/rollback.rs", MV+"lib.rs"],
  [("common ancestor walk and event stack", BS+"multiverse/rollback.rs pull")],
  [("events", "events not yet handed out", BS+"multiverse/rollback.rs"), ("start", "the point the source started from", BS+"multiverse/rollback.rs")],
  ["ForkHandlingSource::pull"], None)
p("C33", "CardanoSource: node blocks arrive complete, in order and without hanging",
  "Whatever the connection does - refuse, drop, stall, answer late, fail in mid-range, send a malformed block, or switch forks between and within requests - the blocks delivered for one request are the consecutive blocks following the intersection the node reported, up to the tip it reported, without omission, repetition or reordering and with the contents the node sent; a malformed block gives an error and ends the request; a failed or exhausted request ends with an error or an empty result and the next poll makes a fresh request with the points it was given, newest first, reconnecting if needed; a request with blocks to fetch starts with a notice of the tip exactly when there was none for the configured pace; and connecting, polling and stopping complete once the node has responded or failed.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of polling, clearing, stopping, background fetching, connection faults and delays under a simulated clock, for all network presets and paces",
  "The module has no tests at all.",
  [BS+"cardano/mod.rs", BS+"cardano/event.rs", BS+"cardano/point.rs", BS+"cardano/time.rs"],
  [("request handler task and response channel", BS+"cardano/mod.rs request_handler"), ("range fetch", BS+"cardano/mod.rs block_fetch"), ("block event", BS+"cardano/event.rs from_serialized_block")],
  [], ["CardanoSource::connect", "CardanoSource::pull", "CardanoSource::stop", "CardanoSource::clear_buffers"], None)

p("C34", "From node to consumer: stable blocks arrive once, in order and unharmed, whatever fails on the way",
  "A consumer that pulls confirmed blocks from a Cardano node through CardanoSource and MultiverseSource, saving its position before it asks for the next, receives over any number of orderly stops, crashes and restarts exactly the blocks of the node's stable chain after its starting point - be it the configured one, any block, or the point before the first block -, each once, each a child of the one before, with the contents the node sent, and none before it has the full number of confirmations; connections that are refused, break, stall or answer late, malformed blocks, forks between and within requests, polls given up half-way and failures of the storage delay blocks but never lose, repeat, reorder or alter any; each tip notice is passed on and tells a tip the node reported; and once the node behaves every block with enough confirmations arrives.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all sequences of node growth, forks within the depth and returns to abandoned branches, mixed with all positions of connection faults, storage failures, cancellations, stops and crashes, under a simulated clock",
  "No test connects the sources; each is tested alone, if at all, over a source that never fails.",
  [BS+"cardano/mod.rs", BS+"cardano/event.rs", BS+"multiverse/mod.rs", "multiverse/src/lib.rs"],
  [("points handed from the multiverse to the node", BS+"multiverse/mod.rs pull, "+BS+"cardano/mod.rs request_handler"), ("blocks stored and read back", "multiverse/src/lib.rs insert, open"), ("the confirmed block answers the consumer's position", BS+"multiverse/mod.rs next_stable")],
  [("blocks database", "all blocks since the last confirmed one, of all branches", "multiverse/src/lib.rs"), ("consumer position", "the last block the consumer has accepted", "outside")],
  ["MultiverseSource::pull", "MultiverseSource::new", "MultiverseSource::into_inner"], None)
p("C35", "From node to consumer: replaying the fork events gives the node's chain, whatever fails on the way",
  "A consumer that pulls events from a Cardano node through CardanoSource and ForkHandlingSource and replays them always holds a chain of consecutive blocks the node really had, starting where it started - each block a child of the last one held, with the contents the node sent, each rollback to a point it holds, each tip notice passed on - and once the node behaves it holds the node's chain up to its tip, however connections were refused, broke, stalled, or delivered malformed blocks or blocks of branches the node had left, and whichever polls were given up or storage operations failed before.",
  ["schedules", "fault_sequences", "histories"],
  "as C34, without restarts",
  "The only test of fork events uses a source that hands out every branch in full and never fails.",
  [BS+"cardano/mod.rs", BS+"multiverse/rollback.rs", "multiverse/src/lib.rs"],
  [("rollback to the common ancestor", BS+"multiverse/rollback.rs pull"), ("points handed from the multiverse to the node", BS+"multiverse/rollback.rs pull, "+BS+"cardano/mod.rs request_handler")],
  [], ["ForkHandlingSource::pull"], None)

US = "utxo-selection/src/algorithms/"
p("C40", "UTxO selection: value is conserved and failure spends nothing",
  "For every random choice and hash order, when largest-first, random-improve or thermostat selection succeeds, each chosen input comes from the available inputs and is used once, what remains available is exactly the rest, the reported input and output balances of the main coin and of every asset equal the sums over the inputs and outputs reported, the fee is at least what the estimator asks for the reported transaction, the estimator has been told of all its inputs and outputs, and the inputs cover the outputs and the fee; thermostat's changes take the difference up exactly, to the change address, each with at least the minimum value of an output and none listing zero of an asset. When selection fails - inputs insufficient or the fee estimator failing at any call - no available input is lost and a later selection works as if the failed one had not happened; largest-first never refuses a request that all its inputs together can meet, thermostat none that UTxOs of just the main coin and of just each asset amply meet.",
  ["schedules", "fault_sequences", "histories"],
  "all draws of the random generator, all hash-map orders, all positions of estimator failures, over sequences of selections and replacements of the available inputs",
  "Tests run a few fixed pools with one random draw each and never make the estimator fail.",
  [US+"random_improve.rs", US+"largest_first.rs", US+"thermostat.rs", "core/src/utxo_store.rs"],
  [("available indices", US+"random_improve.rs"), ("work on a copy of the store, commit at the end", US+"largest_first.rs, thermostat.rs")],
  [], ["InputSelectionAlgorithm::select_inputs", "set_available_inputs", "available_inputs"], None)
p("C41", "UTxOStore: snapshots shared between threads never change and always add up",
  "While any number of threads derive new stores from a shared store by thawing, inserting, removing and freezing, under any interleaving, every store that was frozen keeps exactly its own content; in every store, for the main coin and for every asset, the listed UTxOs, their value order, their number and the balance agree with the UTxOs inserted and not removed; a rejected insert or removal changes nothing.",
  ["schedules", "histories"],
  "all interleavings of threads working on stores that share structure, all insert/remove histories, all hash orders",
  "Tests exercise one store in one thread.",
  ["core/src/utxo_store.rs"],
  [("persistent maps with shared structure", "core/src/utxo_store.rs UTxOSet"), ("thaw/freeze copies", "core/src/utxo_store.rs")],
  [], ["UTxOStore::thaw", "UTxOStoreMut::insert/remove/freeze", "get_balance_of", "iter_token_ordered_by_value"], None)

p("C42", "utxo-selection: change balancing returns the exact remainder or fails",
  "For every setup, whether of fixed inputs or of a selection just made, and every behaviour of the fee estimator, balancing the change to a single output or to the fee either fails or gives a transaction that keeps the inputs and outputs it was given and in which inputs equal outputs plus fee for the main coin and every asset, the fee is at least what the estimator asks for the transaction with its change, of which it has been told, nothing is negative, and the only output added is one change to the change address (none when the fee takes the change); the reported balances equal the sums over the inputs and outputs. It fails only when the inputs do not cover outputs and fee, assets are short (or, for the fee, left over), the change address is missing or the estimator fails, and a failed call leaves nothing behind: repeated, it gives what it would have given at first.",
  ["fault_sequences", "histories", "inputs"],
  "all setups and selections, all hash-map orders and random draws, all positions of estimator failures and repeated calls",
  "Tests check a few setups whose excess is large and an estimator that asks for nothing and never fails.",
  [US+"balance_change_single_output.rs", US+"balance_change_fee.rs", "utxo-selection/src/common.rs"],
  [("the remainder becomes the change, less its own fee", US+"balance_change_single_output.rs select_inputs"), ("the remainder is added to the fee", US+"balance_change_fee.rs select_inputs"), ("balances of inputs and outputs", "utxo-selection/src/common.rs")],
  [], ["SingleOutputChangeBalancer::select_inputs", "FeeChangeBalancer::select_inputs", "available_inputs"], None)

# ---- pure properties: stated for breadth, not claimed with this technique ----
p("N50", "core: value and balance arithmetic is exact and obeys the ledger laws",
  "Values and balances of equal kind add, subtract, scale, compare and convert exactly (no rounding but where truncation is asked for), and a balance built from credits and debits reports debt, excess or balanced according to the true difference.",
  ["inputs"], "all values, kinds and operation sequences",
  "Tests sample values.", ["core/src/value.rs", "core/src/balance.rs"], [("bigdecimal arithmetic", "core/src/value.rs")])
p("N51", "core: identifiers and numbers survive serialisation unchanged",
  "Block numbers, slot numbers, output indexes, timestamps, addresses, asset names and transaction values parse back from their JSON and text forms to equal values, and malformed forms are rejected.",
  ["inputs"], "all values and encodings", "Tests sample values.",
  ["core/src/number_visitor.rs", "core/src/block_number.rs", "core/src/slot_number.rs", "core/src/output_index.rs", "core/src/timestamp.rs"], [("number visitor", "core/src/number_visitor.rs")])
p("N52", "cardano time: slots, epochs and timestamps convert consistently for every era",
  "For every era configuration, converting a slot to its epoch, epoch-relative slot and time and back is consistent and monotone, and slots before the era are rejected.",
  ["inputs"], "all slots and eras", "Tests check a few known slots.",
  ["blockchain-source/src/cardano/time.rs"], [("Era arithmetic", "blockchain-source/src/cardano/time.rs")])
p("N53", "cardano-utils: asset fingerprints follow CIP-14",
  "For every policy and asset name the fingerprint equals the CIP-14 encoding.",
  ["inputs"], "all policies and names", "Tests check the published vectors.",
  ["cardano-utils/src/cip14.rs"], [("blake2b-160 + bech32", "cardano-utils/src/cip14.rs")])
p("N55", "cardano-cli-tools: command-line fetchers print what the node sends",
  "The fetcher tools emit every block they receive once, in order, and derive the CIP-1852 address of a key correctly.",
  ["inputs", "configurations"], "all nodes and keys", "The tools have no tests.",
  ["cardano-cli-tools/oura-block-fetcher/src/main.rs", "cardano-cli-tools/cardano-net-fetcher/src/main.rs", "cardano-cli-tools/cip1852-first-address/src/main.rs"], [("main loops", "cardano-cli-tools/*/src/main.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), [ (x["id"], len(x["title"])) for x in P if len(x["title"])>80])
