//! An independent reference model of what a table means: written from the documented semantics
//! of the opcodes, favouring brute force over the data structures of the implementation.
pub mod accept;
pub mod ctx;
pub mod hyph;
pub mod indic;
pub mod main_stage;
pub mod multipass;
pub mod parse;
pub mod pipe;
pub mod re;
