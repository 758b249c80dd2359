mod gen;
mod logcheck;
mod log;

fn main() {
    std::process::exit(simrt::driver::main_with(log::make, log::config));
}
