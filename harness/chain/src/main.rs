mod arb;
mod fees;
mod refpb;
mod stakes;
mod texts;
mod utxo;
mod wire;

fn main() {
    vpkit::main_scaled(1, &[
        ("C17", wire::c17),
        ("C18", wire::c18),
        ("C19", wire::c19),
        ("C20", stakes::c20),
        ("C21", utxo::c21),
        ("C38", fees::c38),
        ("C42", texts::c42),
    ]);
}
