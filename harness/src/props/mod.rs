use crate::engine::Property;

mod p01_p02;
mod p03;
mod p04_p05;
mod p06_p07;
mod p08_p09;
mod p10_p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;

/// How often the base number of cases of a family is explored.
fn factor(id: &str) -> u64 {
    match id {
        "P01" | "P02" => 8,
        "P04" => 12,
        "P05" => 10,
        "P06" | "P09" => 6,
        "P07" => 40,
        "P08" | "P13" => 3,
        "P10" => 15,
        "P11" => 20,
        "P14" => 10,
        "P15" => 4,
        "P16" | "P19" | "P22" => 2,
        "P23" => 6,
        "P25" => 8,
        "P21" => 12,
        _ => 1,
    }
}

pub fn all() -> Vec<Property> {
    let mut props = base();
    props.push(p24::p24(&mut base()));
    props
}

fn base() -> Vec<Property> {
    let mut props = vec![
        p01_p02::p01(),
        p01_p02::p02(),
        p03::p03(),
        p04_p05::p04(),
        p04_p05::p05(),
        p06_p07::p06(),
        p06_p07::p07(),
        p08_p09::p08(),
        p08_p09::p09(),
        p10_p11::p10(),
        p10_p11::p11(),
        p12::p12(),
        p13::p13(),
        p14::p14(),
        p15::p15(),
        p16::p16(),
        p17::p17(),
        p18::p18(),
        p19::p19(),
        p21::p21(),
        p22::p22(),
        p23::p23(),
        p25::p25(),
    ];
    for p in props.iter_mut() {
        for f in p.families.iter_mut() {
            // families of a few expensive cases stay as they are
            if f.quick >= 100 {
                f.quick *= factor(p.id);
                if f.thorough * factor(p.id) <= 20_000_000 {
                    f.thorough *= factor(p.id);
                }
            }
        }
    }
    props
}
