mod h;
fn main() {
    hs::rt::main(h::TABLES)
}
