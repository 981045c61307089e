mod codec;
mod net;
mod run;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run::run(&a[2], &a[3]),
        Some("codec") => codec::run(&a[2], &a[3]),
        _ => {
            eprintln!("usage: knx-harness run|codec INPUT OUTPUT");
            std::process::exit(2)
        }
    }
}
