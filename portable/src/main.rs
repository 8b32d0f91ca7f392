use portable::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // MODE DEPTH SEED PART PARTS [FILE]
    let depth = if a[2] == "full" { Depth::Full } else { Depth::Small };
    let seed: u64 = a[3].parse().unwrap();
    let part: u64 = a[4].parse().unwrap();
    let parts: u64 = a[5].parse().unwrap();
    let out = match &a[1][..] {
        "log" => run(part, parts, depth, seed),
        "write" => write(part, parts, depth, seed),
        "read" => read(&std::fs::read_to_string(&a[6]).unwrap(), part, parts),
        _ => panic!("mode"),
    };
    print!("{out}");
}
