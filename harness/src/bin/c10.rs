#[path = "../props/c09.rs"]
#[allow(dead_code)]
mod base;
#[path = "../props/c10.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C10", m::c10())
}
