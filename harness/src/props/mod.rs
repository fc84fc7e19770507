//! The properties
use crate::run::Prop;

pub mod engine;
pub mod meta;
pub mod operands;
pub mod origin;
pub mod robust;
pub mod san;
pub mod tables;
pub mod tool;
pub mod trace;
pub mod yaml;

pub static ALL: &[&Prop] = &[
    &robust::C01,
    &robust::C02,
    &trace::C03,
    &trace::C04,
    &trace::C05,
    &engine::c06::P,
    &engine::c07::P,
    &engine::c08::P,
    &engine::c09::P,
    &engine::c10::P,
    &engine::c11::P,
    &engine::c12::P,
    &engine::c13::P,
    &engine::c14::P,
    &engine::c15::P,
    &engine::c16::P,
    &meta::C17,
    &meta::C18,
    &tables::C19,
    &tables::C20,
    &operands::C21,
    &yaml::C22,
    &tool::C23,
    &tool::C24,
    &meta::C25,
    &san::C26,
    &origin::C27,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().find(|p| p.id == id).copied()
}
