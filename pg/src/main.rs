#![recursion_limit = "512"]
mod db;
mod fix;
#[path = "../../core/src/ops.rs"]
mod ops;
mod props_atomic;
mod props_cluster;
mod props_deliver;
mod props_tbl;
mod sql;
#[path = "../../core/src/tbl.rs"]
mod tbl;
#[path = "../../core/src/vals.rs"]
mod vals;
mod wire;

/// PostgreSQL text cannot hold NUL.
pub const NUL_OK: bool = false;

fn main() {
    let mut props = vec![];
    props.extend(props_tbl::properties());
    props.extend(props_deliver::properties());
    props.extend(props_cluster::properties());
    props.extend(props_atomic::properties());
    props.sort_by_key(|p| p.id);
    vkit::engine::main(props)
}
