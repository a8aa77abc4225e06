#[path = "../props/c17.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C17", m::c17())
}
