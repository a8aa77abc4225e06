#[path = "../props/c29.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C29", m::c29())
}
