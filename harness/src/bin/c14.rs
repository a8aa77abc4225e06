#[path = "../props/c11.rs"]
#[allow(dead_code)]
mod base;
#[path = "../props/c14.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C14", m::c14())
}
