#[path = "../props/c13.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C13", m::c13())
}
