mod addr;
mod config;
mod peers;
mod sessions;

fn main() {
    vpkit::main_scaled(1, &[("C35", sessions::c35), ("C36", peers::c36), ("C43", config::c43)]);
}
