//! Replay a counterexample: `replay <harness> <hex bytes>`.

fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness");
    let hex = args.next().unwrap_or_default();
    let bytes = (0..hex.len() / 2)
        .map(|i| u8::from_str_radix(&hex[i * 2..i * 2 + 2], 16).expect("hex"))
        .collect();
    #[cfg(not(kani))]
    {
        let run = match vbh::lookup(&name) {
            Some(run) => run,
            None => {
                eprintln!("replay: no harness {name}");
                std::process::exit(78);
            }
        };
        vbh::nd::load(bytes);
        run();
        println!("replay: no failure");
    }
    #[cfg(kani)]
    {
        let _: Vec<u8> = bytes;
    }
}
