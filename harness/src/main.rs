mod conc;
mod drv;
mod heap;
mod hooks;
mod judge;
mod laws;
#[cfg(feature = "instr")]
#[path = "../../engines/instr/src/rec.rs"]
#[allow(dead_code)]
mod rec;
mod residue;
mod rng;
mod rt;
mod scale;
mod sim;
mod sinks;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    drv::main(&args);
}
