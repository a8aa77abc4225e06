#[path = "../props/c09.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C09", m::c09())
}
