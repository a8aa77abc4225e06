#[path = "../props/c11.rs"]
#[allow(dead_code)]
mod base;
#[path = "../props/c12.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C12", m::c12())
}
