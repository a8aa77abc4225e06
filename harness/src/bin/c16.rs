#[path = "../props/c16.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C16", m::c16())
}
