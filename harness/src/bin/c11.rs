#[path = "../props/c11.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C11", m::c11())
}
