mod alloc;
mod bulk;
mod driver;
mod exec;
mod external;
mod faults;
mod gen;
mod interpose;
mod judge;
mod json;
mod model;
mod reader;
mod report;
mod rng;
#[cfg(feature = "sync")]
mod sync_checks;
#[cfg(feature = "sync")]
mod wire;
mod core_checks;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    exec::install_hook();
    let a = |i: usize| args.get(i).map(|x| x.as_str()).unwrap_or("");
    let code = match a(1) {
        "check" => driver::supervise(a(2)),
        "run" => {
            // RLIMIT_AS: running out of memory must not take the sandbox along
            if !["C17", "C22", "C23", "C24"].contains(&a(2)) {
                // sanitizers reserve large address ranges
                unsafe { setrlimit(9, &[24 << 30, 24 << 30]) };
            }
            let rep = report::Report::new(a(2));
            let known = dispatch(&rep);
            if known {
                rep.finish()
            } else {
                eprintln!("unknown property {}", a(2));
                3
            }
        }
        "replay" => replay(a(2)),
        "crash-child" => faults::crash_child(a(2).parse().unwrap_or(1), a(3).parse().unwrap_or(0), a(4)),
        #[cfg(feature = "sync")]
        "connect-child" => sync_checks::connect_child(&args[2..]),
        "digest" => {
            for d in core_checks::digests(a(2).parse().unwrap_or(1), a(3).parse().unwrap_or(10)) {
                println!("{:016x}", d);
            }
            let _ = std::fs::remove_dir_all(exec::scratch());
            0
        }
        _ => {
            eprintln!("usage: tsv check <property> | replay <file>");
            2
        }
    };
    if a(1) == "run" {
        let _ = std::fs::remove_dir_all(exec::scratch());
    }
    std::process::exit(code);
}

fn dispatch(rep: &report::Report) -> bool {
    match rep.id.as_str() {
        "C11" => faults::c11_entry(rep),
        "C12" => faults::c12_entry(rep),
        "C13" => faults::c13_entry(rep),
        "C14" => bulk::c14(rep),
        "C17" => external::c17(rep),
        #[cfg(feature = "sync")]
        "C18" | "C19" | "C20" | "C21" => {
            sync_checks::entry(rep);
        }
        "C22" => external::c22(rep),
        "C23" => external::c23(rep),
        "C24" => external::c24(rep),
        _ => return core_checks::entry(rep),
    }
    true
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let id = t
        .lines()
        .next()
        .and_then(|l| l.strip_prefix("property "))
        .unwrap_or("")
        .to_string();
    if let Some(o) = t.lines().find_map(|l| l.strip_prefix("only ")) {
        std::env::set_var("TSV_ONLY", o);
        let rep = report::Report::new(&id);
        dispatch(&rep);
        return rep.finish();
    }
    let c = model::Case::parse(&t);
    println!("{}", c.describe());
    core_checks::replay(&id, &c)
}
