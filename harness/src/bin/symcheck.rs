fn main() {
    symcheck::engine::main()
}
