fn main() {
    std::process::exit(oxyroot::verif::main(std::env::args().skip(1).collect()));
}
