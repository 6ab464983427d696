mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c14;
mod c35;
mod explore;
mod scene;

fn main() {
    let id = vlib::init();
    scene::install_hooks();
    let run = || match id.as_str() {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        "C04" => c04::run(),
        "C05" => c05::run(),
        "C06" => c06::run(),
        "C07" => c07::run(),
        "C14" => c14::run(),
        "C35" => c35::run(),
        _ => vlib::broken("unknown property"),
    };
    // nothing that a check does may end in a panic
    if let Err(e) = vlib::guarded(run) {
        vlib::violation(&format!("panic: {e}"));
    }
    vlib::finish()
}
