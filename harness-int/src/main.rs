//! ravint SUB SEED SHARD SHARDS SECS WANT OUT
//! Drives internal building blocks of regalloc2 and records what they did.
#[cfg(feature = "elim")]
mod elim;
mod emit;
#[cfg(feature = "graph")]
mod graph;
#[cfg(feature = "par")]
mod moves;
mod sets;
#[cfg(feature = "ssa")]
mod ssa;
#[cfg(feature = "vals")]
mod vals;
#[cfg(feature = "enum")]
mod enumer;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    if std::env::var("RAV_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let (seed, shard, shards, secs, want, path) =
        (n(2), n(3) as usize, n(4) as usize, n(5), n(6) as usize, a[7].as_str());
    match a[1].as_str() {
        #[cfg(feature = "par")]
        "par" => moves::run(false, seed, shard, shards, secs, want, path),
        #[cfg(feature = "par")]
        "full" => moves::run(true, seed, shard, shards, secs, want, path),
        #[cfg(feature = "elim")]
        "elim" => elim::run(seed, shard, shards, secs, want, path),
        #[cfg(feature = "graph")]
        "graph" => graph::run(seed, shard, shards, secs, want, path),
        #[cfg(feature = "sets")]
        "sets" => sets::run(&["iset"], seed, shard, shards, secs, want, path),
        #[cfg(feature = "pregs")]
        "pregs" => sets::run(&["pset"], seed, shard, shards, secs, want, path),
        #[cfg(feature = "lists")]
        "lists" => sets::run(&["lru", "vset"], seed, shard, shards, secs, want, path),
        #[cfg(feature = "choice")]
        "choice" => sets::run(&["trav", "reqm"], seed, shard, shards, secs, want, path),
        #[cfg(feature = "ssa")]
        "ssa" => ssa::run_all(seed, shard, shards, secs, want, path),
        #[cfg(feature = "vals")]
        "vals" => vals::run(seed, shard, shards, secs, want, path),
        #[cfg(feature = "enum")]
        "enum" => enumer::run(seed, shard, shards, secs, want, path),
        x => panic!("unknown {x}"),
    }
}
