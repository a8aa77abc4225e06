#[path = "../props/c18.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C18", m::c18())
}
