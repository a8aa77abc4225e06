#[path = "../props/c03.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C03", m::c03())
}
