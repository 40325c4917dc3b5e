mod base;
mod ledger;
mod server;
mod spend;

fn main() {
    vpkit::main_scaled(1, &[("C39", ledger::c39), ("C40", spend::c40), ("C41", server::c41)]);
}
