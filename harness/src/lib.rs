#![allow(clippy::all)]
#[macro_use]
pub mod sym;
pub mod common;
#[macro_use]
pub mod coll;
pub mod r#gen;
pub mod kind;
pub mod sched;
#[cfg(feature = "p01")]
pub mod p01;
#[cfg(feature = "p02")]
pub mod p02;
#[cfg(feature = "p03")]
pub mod p03;
#[cfg(feature = "p04")]
pub mod p04;
#[cfg(feature = "p05")]
pub mod p05;
#[cfg(feature = "p06")]
pub mod p06;
#[cfg(feature = "p07")]
pub mod p07;
#[cfg(feature = "p08")]
pub mod p08;
#[cfg(feature = "p09")]
pub mod p09;
#[cfg(feature = "p10")]
pub mod p10;
#[cfg(feature = "p11")]
pub mod p11;
#[cfg(feature = "p12")]
pub mod p12;
#[cfg(feature = "p13")]
pub mod p13;
#[cfg(feature = "p14")]
pub mod p14;
#[cfg(feature = "p15")]
pub mod p15;
#[cfg(feature = "p16")]
pub mod p16;
#[cfg(feature = "p17")]
pub mod p17;
#[cfg(feature = "p18")]
pub mod p18;
#[cfg(feature = "p19")]
pub mod p19;
#[cfg(feature = "p20")]
pub mod p20;
#[cfg(feature = "p21")]
pub mod p21;
#[cfg(feature = "p22")]
pub mod p22;
#[cfg(feature = "p23")]
pub mod p23;
#[cfg(feature = "p24")]
pub mod p24;
#[cfg(feature = "p25")]
pub mod p25;
#[cfg(feature = "p26")]
pub mod p26;
#[cfg(feature = "p27")]
pub mod p27;
#[cfg(feature = "p28")]
pub mod p28;
#[cfg(feature = "p29")]
pub mod p29;
#[cfg(feature = "p30")]
pub mod p30;
#[cfg(feature = "p31")]
pub mod p31;
#[cfg(feature = "p32")]
pub mod p32;

pub type Entry = extern "C-unwind" fn();

pub fn lookup(name: &str) -> Option<Entry> {
    let tables: &[&[(&str, Entry)]] = &[
        #[cfg(feature = "p01")]
        p01::TABLE,
        #[cfg(feature = "p02")]
        p02::TABLE,
        #[cfg(feature = "p03")]
        p03::TABLE,
        #[cfg(feature = "p04")]
        p04::TABLE,
        #[cfg(feature = "p05")]
        p05::TABLE,
        #[cfg(feature = "p06")]
        p06::TABLE,
        #[cfg(feature = "p07")]
        p07::TABLE,
        #[cfg(feature = "p08")]
        p08::TABLE,
        #[cfg(feature = "p09")]
        p09::TABLE,
        #[cfg(feature = "p10")]
        p10::TABLE,
        #[cfg(feature = "p11")]
        p11::TABLE,
        #[cfg(feature = "p12")]
        p12::TABLE,
        #[cfg(feature = "p13")]
        p13::TABLE,
        #[cfg(feature = "p14")]
        p14::TABLE,
        #[cfg(feature = "p15")]
        p15::TABLE,
        #[cfg(feature = "p16")]
        p16::TABLE,
        #[cfg(feature = "p17")]
        p17::TABLE,
        #[cfg(feature = "p18")]
        p18::TABLE,
        #[cfg(feature = "p19")]
        p19::TABLE,
        #[cfg(feature = "p20")]
        p20::TABLE,
        #[cfg(feature = "p21")]
        p21::TABLE,
        #[cfg(feature = "p22")]
        p22::TABLE,
        #[cfg(feature = "p23")]
        p23::TABLE,
        #[cfg(feature = "p24")]
        p24::TABLE,
        #[cfg(feature = "p25")]
        p25::TABLE,
        #[cfg(feature = "p26")]
        p26::TABLE,
        #[cfg(feature = "p27")]
        p27::TABLE,
        #[cfg(feature = "p28")]
        p28::TABLE,
        #[cfg(feature = "p29")]
        p29::TABLE,
        #[cfg(feature = "p30")]
        p30::TABLE,
        #[cfg(feature = "p31")]
        p31::TABLE,
        #[cfg(feature = "p32")]
        p32::TABLE,
    ];
    tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
}
