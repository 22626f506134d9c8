//! `fsmpi <PROPERTY>`            one rank of a distributed run (under mpirun)
//! `fsmpi offline <PROPERTY> <DIR> <NP>`  judge the logs the ranks left in DIR
#[path = "../../harness/src/ctx.rs"]
#[allow(dead_code)]
mod ctx;
mod elem;
mod log;
mod offline;
mod spaces;
mod worker;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("offline") if args.len() == 5 => offline::main(&args[2], &args[3], args[4].parse().expect("FSMON: ranks")),
        Some(prop) => worker::main(prop),
        None => std::process::exit(3),
    }
}
