#[path = "../props/c20.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C20", m::c20())
}
