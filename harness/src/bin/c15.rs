#[path = "../props/c15.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C15", m::c15())
}
