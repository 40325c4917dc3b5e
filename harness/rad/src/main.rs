mod agree;
mod codec;
mod interp;
mod retrieve;
mod scripts;
mod v;

fn main() {
    vpkit::main_scaled(1, &[("C31", scripts::c31), ("C32", agree::c32), ("C33", codec::c33), ("C34", retrieve::c34)]);
}
