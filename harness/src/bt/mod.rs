// generated by gen.py
#![allow(static_mut_refs, unused)]
pub mod common;
#[path = "../both/vcommon.rs"]
pub mod vcommon;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
#[path = "../both/c13.rs"]
pub mod c13;
#[cfg(feature = "c14")]
#[path = "../both/c14.rs"]
pub mod c14;
#[cfg(feature = "c15")]
#[path = "../both/c15.rs"]
pub mod c15;
#[cfg(feature = "c16")]
#[path = "../both/c16.rs"]
pub mod c16;
#[cfg(feature = "c17")]
#[path = "../both/c17.rs"]
pub mod c17;
#[cfg(feature = "c18")]
#[path = "../both/c18.rs"]
pub mod c18;
#[cfg(feature = "c19")]
#[path = "../both/c19.rs"]
pub mod c19;
#[cfg(feature = "c20")]
#[path = "../both/c20.rs"]
pub mod c20;
#[cfg(feature = "c23")]
#[path = "../both/c23.rs"]
pub mod c23;
#[cfg(feature = "c24")]
#[path = "../both/c24.rs"]
pub mod c24;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
#[path = "../both/c27.rs"]
pub mod c27;
pub static TABLES: &[&[(&str, extern "C-unwind" fn())]] = &[
    #[cfg(feature = "c01")]
    c01::ENTRIES,
    #[cfg(feature = "c02")]
    c02::ENTRIES,
    #[cfg(feature = "c03")]
    c03::ENTRIES,
    #[cfg(feature = "c04")]
    c04::ENTRIES,
    #[cfg(feature = "c05")]
    c05::ENTRIES,
    #[cfg(feature = "c06")]
    c06::ENTRIES,
    #[cfg(feature = "c07")]
    c07::ENTRIES,
    #[cfg(feature = "c08")]
    c08::ENTRIES,
    #[cfg(feature = "c09")]
    c09::ENTRIES,
    #[cfg(feature = "c10")]
    c10::ENTRIES,
    #[cfg(feature = "c11")]
    c11::ENTRIES,
    #[cfg(feature = "c12")]
    c12::ENTRIES,
    #[cfg(feature = "c13")]
    c13::ENTRIES,
    #[cfg(feature = "c14")]
    c14::ENTRIES,
    #[cfg(feature = "c15")]
    c15::ENTRIES,
    #[cfg(feature = "c16")]
    c16::ENTRIES,
    #[cfg(feature = "c17")]
    c17::ENTRIES,
    #[cfg(feature = "c18")]
    c18::ENTRIES,
    #[cfg(feature = "c19")]
    c19::ENTRIES,
    #[cfg(feature = "c20")]
    c20::ENTRIES,
    #[cfg(feature = "c23")]
    c23::ENTRIES,
    #[cfg(feature = "c24")]
    c24::ENTRIES,
    #[cfg(feature = "c26")]
    c26::ENTRIES,
    #[cfg(feature = "c27")]
    c27::ENTRIES,
];
