#[path = "../props/c07.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C07", m::c07())
}
