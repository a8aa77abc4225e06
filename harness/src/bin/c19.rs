#[path = "../props/c19.rs"]
#[allow(dead_code)]
mod m;
fn main() {
    vh::cli::main("C19", m::c19())
}
