use crate::engine::Property;

pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p19;
pub mod p22;
pub mod p23;
pub mod p25;
pub mod p26;
pub mod p27;
pub mod p28;
pub mod p29;
pub mod long;
mod threads;
pub mod wire;

pub fn all() -> Vec<Property> {
    vec![
        p01::property(),
        p02::property(),
        p03::property(),
        p04::property(),
        p04::property_p05(),
        p06::property(),
        p07::property(),
        p08::property(),
        p09::property(),
        p10::property(),
        p11::property(),
        p12::property(),
        p13::property(),
        p14::property(),
        p15::property(),
        p16::property(),
        p17::property(),
        p16::property_p18(),
        p19::property(),
        p19::property_p20(),
        p19::property_p21(),
        p22::property(),
        p23::property(),
        p23::property_p24(),
        p25::property(),
        p26::property(),
        p27::property(),
        p28::property(),
        p29::property(),
    ]
}
