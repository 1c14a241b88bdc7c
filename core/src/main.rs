#![recursion_limit = "512"]
mod genr;
mod ops;
mod props_cron;
mod props_misc;
mod props_run;
mod props_run2;
mod props_table;
mod props_threads;
mod scen;
mod tbl;
mod vals;

/// The in-memory backend stores every string.
pub const NUL_OK: bool = true;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "child" {
        std::process::exit(props_misc::child(&args[2]));
    }
    let mut props = vec![];
    props.extend(props_run::properties());
    props.extend(props_run2::properties());
    props.extend(props_cron::properties());
    props.extend(props_table::properties());
    props.extend(props_misc::properties());
    props.sort_by_key(|p| p.id);
    vkit::engine::main(props)
}
