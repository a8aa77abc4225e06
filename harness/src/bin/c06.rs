#[path = "../props/c06.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C06", m::c06())
}
