#[path = "../props/c05.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C05", m::c05())
}
