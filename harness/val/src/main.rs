mod base;
mod block;
mod commits;
mod engine;
mod factory;
mod pool;
mod header;
mod spend;
mod staking;
mod superblock;
mod tally;

fn main() {
    vpkit::main_scaled(1, &[("C22", spend::c22), ("C23", staking::c23), ("C24", commits::c24), ("C25", tally::c25), ("C26", block::c26), ("C27", header::c27), ("C28", superblock::c28), ("C29", engine::c29), ("C30", pool::c30), ("C37", factory::c37)]);
}
