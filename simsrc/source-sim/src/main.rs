mod chain;
mod net;
mod pipe;
use simrt::driver::main_with;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = match a.get(1).map(|s| s.as_str()) {
        Some("replay") => serde_json::from_slice::<serde_json::Value>(&std::fs::read(&a[2]).expect("replay file")).expect("replay file")["property"].as_str().unwrap_or("").to_string(),
        _ => a.get(2).cloned().unwrap_or_default(),
    };
    std::process::exit(match prop.as_str() {
        "C33" => main_with(net::make, net::config),
        "C34" | "C35" => main_with(pipe::make, pipe::config),
        _ => main_with(chain::make, chain::config),
    });
}
