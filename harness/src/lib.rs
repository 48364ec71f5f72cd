//! Contracts on the real code of /repo, one module per property.
#![allow(unexpected_cfgs, clippy::all)]

#[macro_use]
pub mod nd;

/// Payload of a failed `chk!`
pub struct Violated(pub &'static str);

#[cfg(prop = "P01")]
pub mod p01;
#[cfg(prop = "P02")]
pub mod p02;
#[cfg(prop = "P03")]
pub mod p03;
#[cfg(any(prop = "P04", prop = "P06"))]
pub mod p04;
#[cfg(prop = "P05")]
pub mod p05;
#[cfg(prop = "P06")]
pub mod p06;
#[cfg(prop = "P07")]
pub mod p07;
#[cfg(prop = "P08")]
pub mod p08;
#[cfg(prop = "P09")]
pub mod p09;
#[cfg(prop = "P10")]
pub mod p10;
#[cfg(prop = "P11")]
pub mod p11;
#[cfg(prop = "P12")]
pub mod p12;
#[cfg(prop = "P13")]
pub mod p13;
#[cfg(prop = "P14")]
pub mod p14;
#[cfg(prop = "P15")]
pub mod p15;
#[cfg(prop = "P16")]
pub mod p16;
#[cfg(prop = "P17")]
pub mod p17;
#[cfg(prop = "P18")]
pub mod p18;
#[cfg(prop = "P19")]
pub mod p19;
#[cfg(prop = "P20")]
pub mod p20;
#[cfg(prop = "P21")]
pub mod p21;
#[cfg(prop = "P22")]
pub mod p22;
#[cfg(prop = "P23")]
pub mod p23;
#[cfg(prop = "P24")]
pub mod p24;
#[cfg(prop = "P25")]
pub mod p25;
#[cfg(prop = "P27")]
pub mod p27;
#[cfg(prop = "P28")]
pub mod p28;
#[cfg(prop = "P31")]
pub mod p31;
#[cfg(prop = "P32")]
pub mod p32;

#[cfg(not(kani))]
pub fn all() -> Vec<(&'static str, &'static str, fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, &'static str, fn())> = Vec::new();
    #[cfg(prop = "P01")]
    v.extend(p01::ALL);
    #[cfg(prop = "P02")]
    v.extend(p02::ALL);
    #[cfg(prop = "P03")]
    v.extend(p03::ALL);
    #[cfg(prop = "P04")]
    v.extend(p04::ALL);
    #[cfg(prop = "P05")]
    v.extend(p05::ALL);
    #[cfg(prop = "P06")]
    v.extend(p06::ALL);
    #[cfg(prop = "P07")]
    v.extend(p07::ALL);
    #[cfg(prop = "P08")]
    v.extend(p08::ALL);
    #[cfg(prop = "P09")]
    v.extend(p09::ALL);
    #[cfg(prop = "P10")]
    v.extend(p10::ALL);
    #[cfg(prop = "P11")]
    v.extend(p11::ALL);
    #[cfg(prop = "P12")]
    v.extend(p12::ALL);
    #[cfg(prop = "P13")]
    v.extend(p13::ALL);
    #[cfg(prop = "P14")]
    v.extend(p14::ALL);
    #[cfg(prop = "P15")]
    v.extend(p15::ALL);
    #[cfg(prop = "P16")]
    v.extend(p16::ALL);
    #[cfg(prop = "P17")]
    v.extend(p17::ALL);
    #[cfg(prop = "P18")]
    v.extend(p18::ALL);
    #[cfg(prop = "P19")]
    v.extend(p19::ALL);
    #[cfg(prop = "P20")]
    v.extend(p20::ALL);
    #[cfg(prop = "P21")]
    v.extend(p21::ALL);
    #[cfg(prop = "P22")]
    v.extend(p22::ALL);
    #[cfg(prop = "P23")]
    v.extend(p23::ALL);
    #[cfg(prop = "P24")]
    v.extend(p24::ALL);
    #[cfg(prop = "P25")]
    v.extend(p25::ALL);
    #[cfg(prop = "P27")]
    v.extend(p27::ALL);
    #[cfg(prop = "P28")]
    v.extend(p28::ALL);
    #[cfg(prop = "P31")]
    v.extend(p31::ALL);
    #[cfg(prop = "P32")]
    v.extend(p32::ALL);
    v
}
