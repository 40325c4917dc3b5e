mod alloc;
mod crypto;
mod refs;
mod reputation;

#[global_allocator]
static A: alloc::Spy = alloc::Spy;

fn main() {
    vpkit::main_scaled(30, &[
        ("C01", crypto::c01),
        ("C02", crypto::c02),
        ("C03", crypto::c03),
        ("C04", crypto::c04),
        ("C05", crypto::c05),
        ("C06", crypto::c06),
        ("C07", crypto::c07),
        ("C08", crypto::c08),
        ("C09", reputation::c09),
        ("C10", reputation::c10),
        ("C11", reputation::c11),
        ("C12", reputation::c12),
        ("C15", reputation::c15),
    ]);
}
