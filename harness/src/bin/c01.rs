#[path = "../props/c01.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C01", m::c01())
}
