#![allow(dead_code, unused_imports, unexpected_cfgs, deprecated)]
mod infra;
mod maps;
mod digs;
mod model;
mod db;
mod seq;
mod ops;
mod types;
mod big_enum;
mod p_seq;
mod p_wide;
mod p_far;
mod p_mixed;
mod p_cost;
mod p_raw;
mod p_index;
mod p_gc;
mod p_types;
mod session;
mod p_proof;
mod p_partial;
mod p_fault;
mod bin_format;
mod p_codec;
mod p_builds;

use infra::Prop;

const HASH: &str = "SHA-256 and SHA-512/256 have no collisions among the nodes met; sha2, digest, primitive-types and generic-array are trusted";
macro_rules! p { ($id:expr, $q:expr, $t:expr, $run:expr, $known:expr, $rule:expr, $req:expr) => {
	Prop { id: $id, rule: $rule, quick: $q, thorough: $t, required: $req, run: $run, known: $known, assumptions: &[HASH] }
} }
static PROPS: &[Prop] = &[
	p!("C01", 25000, 2500000, p_types::c01, None, "one case: values drawn from a registry of 180 types (scalars, fixed and variable, compact and composite, derived structs and enums), the traits with a runtime maximum and the helper functions, each merkleized over several backends; non-trivial if at least one root was compared with the reference", &["values", "roots_compared", "runtime_maximum_values", "long_values", "helpers"]),
	p!("C02", 30000, 3000000, p_types::c02, None, "one case: several values merkleized into one backend together with other values, hashes of their own nodes as data and trees in place, then decoded; non-trivial if at least one was decoded and compared", &["decoded", "hashes_as_data", "hashes_within_values", "helpers"]),
	p!("C03", 30000, 3000000, p_types::c03, None, "one case: one value, or one history of in-place changes, run over up to six backends with different prior content; non-trivial if roots were compared across them", &["values", "pieces", "histories_over_backends"]),
	p!("C04", 25000, 2500000, p_raw::c04, None, "one case: a history of writes at random indices on several raw trees (values, hashes of known nodes, grafts), with reads all over the tree after each; non-trivial if it wrote something", &["sets", "grafts", "values_becoming_nodes"]),
	p!("C05", 100000, 6000000, p_seq::c05, Some(p_seq::c05_known), "one case: a history of create, get, set, push, pop on one or several vectors and lists over one backend stack; non-trivial if it contains at least five modifications", &["pushes", "pops", "sets", "gets", "long_sequences", "wide_sequences", "far_lengths", "batches"]),
	p!("C06", 80000, 4000000, p_seq::c06, Some(p_seq::c06_known), "one case: a history of create, get, set, push, pop on packed vectors and lists of 20 element sizes over chunks of 8 to 64 bytes; non-trivial if it contains at least five modifications", &["pushes", "pops", "sets", "gets", "long_sequences", "wide_sequences", "far_lengths", "batches"]),
	p!("C07", 50000, 2500000, p_seq::c07, None, "one case: a history with the root compared after every step, two histories with one final content, or a typed tree opened in place and back; non-trivial if at least one root was compared", &["roots_checked", "history_pairs", "long_sequences", "wide_sequences", "far_lengths", "batches"]),
	p!("C08", 10000, 1000000, p_gc::c08, None, "one case: a world of several trees of all kinds in one in-memory backend (create, modify, graft, leak, restore, drop), every node of every owned tree looked up after every step; non-trivial always (every world drops its trees)", &["drops", "chains", "live_values_decoded", "populated_entries", "crowds"]),
	p!("C09", 8000, 800000, p_gc::c09, Some(p_gc::c09_known), "as C08, with the set of stored nodes compared exactly with what is reachable from the owned roots", &["drops", "emptied", "chains", "populated_entries", "crowds"]),
	p!("C10", 40000, 4000000, p_proof::c10, None, "one case: a script of reads and changes of one tree recorded over a store holding several, replayed over backends populated from the proof, its compact form and its serialized form; non-trivial if the script has more than one step or the proof an entry", &["replays", "compact_replays", "repetitive_compact_replays", "typed_sessions", "partial_sessions", "proof_entries"]),
	p!("C11", 120000, 6000000, p_proof::c11, None, "one case: a random compact value, or the proof of a recorded session, or branch proofs, with mutations judged by an independent tree; non-trivial unless the proof is a single leaf or empty", &["mutations", "abbreviations", "compact_round_trips", "compact_unique", "repetitive_proofs", "branches", "tree_branches", "wrong_counts_refused"]),
	p!("C12", 60000, 2000000, p_index::c12, None, "one case: a block of indices (all small ones, random ones of every depth) and pairs of indices; non-trivial always", &["indices"]),
	p!("C13", 30000, 3000000, p_seq::c13, Some(p_seq::c13_known), "one case: a history during which the tree is saved and reopened in every way its kind has, or raw trees and subtrees viewed through handles; non-trivial if something was reopened and compared", &["reopens", "batches"]),
	p!("C14", 50000, 3000000, p_seq::c14, None, "one case: creations with lengths and maxima around each other, a sequence filled, overfilled and emptied with probes past its end, maxima up to 2^64-1, or typed values over their maximum; non-trivial if a refusal was observed", &["overflow_refusals", "far_maxima", "too_deep_refused", "far_lengths", "pushes_past_indices_refused", "far_created", "far_creations_refused", "far_typed", "far_typed_refused"]),
	p!("C15", 150000, 6000000, p_types::c15, Some(p_types::c15_known), "one case: a tree with nodes hidden, damaged or contradictory decoded as any type, opened and read as any sequence and through partial views; non-trivial if a decode was observed", &["missing_node_reported"]),
	p!("C16", 12000, 1200000, p_fault::c16, Some(p_fault::c16_known), "one case: a store with several trees in which every backend call (or a sample of 40) of every operation of a history fails once; non-trivial if a failure was injected", &["faults", "faults_in_get", "faults_in_set", "faults_in_push", "faults_in_pop", "faults_in_reopen", "faults_in_drop", "faults_in_raw", "faults_in_merkleizing", "faults_in_decoding", "faults_in_partial", "retries", "continued", "restored", "restored_from_root", "nodes_of_other_trees"]),
	p!("C17", 200000, 6000000, p_partial::c17, None, "one case: a value of a type with a partial view placed in a larger tree; fields, elements and pushed elements read and set through views and flushed; non-trivial if something was flushed", &["flushes", "fields_set", "partial_reads", "empty_flushes", "stale_flushes", "fetched_again", "old_trees_read", "positions_beyond", "retried_flushes", "far_positions", "vectors_past_indices"]),
	p!("C18", 100000, 6000000, p_gc::c18, None, "one case: backend calls in arbitrary order against a graph model, or a workload of all operations with every insert checked; non-trivial if something was inserted", &["inserts"]),
	p!("C19", 30000, 3000000, p_codec::c19, None, "one case: values of serializable types encoded, decoded, truncated, and bounded lists around their maximum; non-trivial unless the list is empty", &["codec_round_trips", "serde_round_trips", "binary_serde_round_trips", "truncations", "bounded_lists", "over_maximum_refused", "wrappers", "compact_values"]),
	p!("C20", 30000, 3000000, p_proof::c20, None, "one case: a script run directly and over a recording backend (suspended, resumed, wrapped, with failing calls), with the proof compared with the call log; non-trivial if a call was logged", &["sessions", "partial_sessions", "reads_recorded", "suspensions", "direct_sessions", "faults_while_recording", "failed_inserts_while_recording"]),
	p!("C21", 20000, 2000000, p_builds::c21, None, "one case: sessions, partial flushes and the workloads of the other properties with every observation digested, run by both builds; non-trivial always", &["own_sessions", "borrowed_cases", "backend_calls", "stores_dumped", "proofs_dumped", "compact_proofs", "partial_flushes", "faults"]),
	p!("C22", 20000, 2000000, p_builds::c22, None, "one case: as C21 (sessions, partial flushes and the workloads of the other properties, over toy digests and with quantities that fit the narrowest word), run natively and by the interpreter for a 64-bit big-endian and a 32-bit host, or lengths and maxima around what the host's own words hold, judged by their width; non-trivial always", &[]),
	p!("C23", 25000, 3000000, p_cost::c23, None, "one case: a history of one sequence (up to thousands of elements, or lengths up to what indices reach), a raw tree, a typed sequence under any maximum, or a partial view, with the backend calls of every operation counted; non-trivial if an operation was counted", &["operations", "gets", "sets", "pushes", "pops", "raw_gets", "raw_sets", "typed", "far_sequences", "proofs", "partial_flushes"]),
];

fn main() {
	let a: Vec<String> = std::env::args().collect();
	let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
	let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
	let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
	let prop = |id: &str| PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {}", id); std::process::exit(2) });
	#[cfg(target_pointer_width = "64")]
	if !cfg!(feature = "toy") && matches!(a.get(1).map(|s| s.as_str()), Some("run") | Some("case")) { infra::limit_memory() }
	let code = match a.get(1).map(|s| s.as_str()) {
		Some("run") => infra::run_all(prop(&a[2]), seed, thorough, &get("--out").unwrap_or("/dev/null".into()), &get("--journal").unwrap_or("/dev/null".into()), get("--cases").and_then(|s| s.parse().ok()), get("--digests").as_deref()),
		Some("case") => { if let Some(l) = get("--limit").and_then(|s| s.parse().ok()) { infra::limit_cpu(l) } infra::run_case(prop(&a[2]), seed, thorough, get("--case").and_then(|s| s.parse().ok()).unwrap_or(0), 60) },
		Some("some") => {
			if get("--list").as_deref() == Some("-") { std::process::exit(infra::run_fed(prop(&a[2]), seed)) }
			let list = match get("--list") { Some(l) => l.split(',').filter_map(|x| x.parse().ok()).collect(), None => (0..get("--cases").and_then(|s| s.parse().ok()).unwrap_or(100)).collect() };
			infra::run_some(prop(&a[2]), seed, list, get("--until").and_then(|s| s.parse().ok()).unwrap_or(1 << 40))
		},
		Some("list") => { for p in PROPS { println!("{}", p.id); } 0 },
		_ => { eprintln!("vh run|case|list"); 2 },
	};
	std::process::exit(code)
}
