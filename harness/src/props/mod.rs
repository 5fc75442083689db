use crate::runner::Prop;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
pub mod p22;
pub mod p23;
pub mod p24;
pub mod p25;
pub mod p27;
pub mod p28;
pub mod p29;
pub mod p30;
pub mod p31;
pub mod p32;
pub fn all() -> Vec<Prop> {
    vec![p01::prop(), p02::prop(), p03::prop(), p04::prop(), p05::prop(), p06::prop(), p07::prop(), p08::prop(), p09::prop(), p10::prop(), p11::prop(), p12::prop(), p13::prop(), p14::prop(), p15::prop(), p16::prop(), p17::prop(), p18::prop(), p19::prop(), p20::prop(), p21::prop(), p22::prop(), p23::prop(), p24::prop(), p25::prop(), p27::prop(), p28::prop(), p29::prop(), p30::prop(), p31::prop(), p32::prop()]
}
