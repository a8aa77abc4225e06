#[path = "../props/c08.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C08", m::c08())
}
