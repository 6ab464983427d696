mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
mod c34;
mod c36;
mod c37;
mod kit;

fn main() {
    let id = vlib::init();
    vlib::set_warm(|| {
        solstrale::random::random_normal_float();
        solstrale::random::random_float(0., 1.);
        solstrale::random::random_uint32(7);
        solstrale::random::random_element_index(&[1, 2, 3]);
        solstrale::geo::vec3::random_unit_vector();
        solstrale::geo::vec3::random_in_unit_disc();
    });
    let run = || match id.as_str() {
        "C08" => c08::run(),
        "C09" => c09::run(),
        "C10" => c10::run(),
        "C11" => c11::run(),
        "C12" => c12::run(),
        "C13" => c13::run(),
        "C15" => c15::run(),
        "C16" => c16::run(),
        "C17" => c17::run(),
        "C18" => c18::run(),
        "C19" => c19::run(),
        "C20" => c20::run(),
        "C21" => c21::run(),
        "C22" => c22::run(),
        "C23" => c23::run(),
        "C24" => c24::run(),
        "C25" => c25::run(),
        "C26" => c26::run(),
        "C27" => c27::run(),
        "C28" => c28::run(),
        "C29" => c29::run(),
        "C30" => c30::run(),
        "C31" => c31::run(),
        "C32" => c32::run(),
        "C33" => c33::run(),
        "C34" => c34::run(),
        "C36" => c36::run(),
        "C37" => c37::run(),
        _ => vlib::broken("unknown property"),
    };
    // nothing that a check does may end in a panic
    if let Err(e) = vlib::guarded(run) {
        vlib::violation(&format!("panic: {e}"));
    }
    vlib::finish()
}
