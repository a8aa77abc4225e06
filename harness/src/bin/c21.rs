#[path = "../props/c21.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C21", m::c21())
}
