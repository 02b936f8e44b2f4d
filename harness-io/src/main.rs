//! Histories of whole allocator runs, and functions that travel.
mod emit;
mod session;
mod transport;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "answer" {
        return session::answer();
    }
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, shard, shards, secs, want) = (n(2), n(3) as usize, n(4) as usize, n(5), n(6) as usize);
    match a[1].as_str() {
        "session" => session::run_all(seed, shard, shards, secs, want, &a[7]),
        "transport" => transport::run_all(seed, shard, shards, secs, want, &a[7]),
        x => panic!("unknown command {x}"),
    }
}
