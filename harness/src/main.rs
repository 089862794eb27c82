fn main() {
    verif::cli::main();
}
