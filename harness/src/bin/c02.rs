#[path = "../props/c01.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C02", m::c02())
}
