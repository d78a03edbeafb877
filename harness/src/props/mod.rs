mod build;
mod caps;
mod chains;
mod ipldp;
mod keysp;
mod robust;
mod storep;
mod tokens;

use crate::Prop;

pub const ALL: &[&Prop] = &[
    &tokens::C01, &tokens::C02, &tokens::C03, &tokens::C04, &tokens::C05, &tokens::C06,
    &chains::C07, &chains::C08, &chains::C09, &chains::C10, &chains::C11, &chains::C12,
    &caps::C13, &caps::C14, &caps::C15, &caps::C16,
    &build::C17, &build::C18,
    &keysp::C19, &keysp::C20,
    &storep::C21,
    &ipldp::C22, &ipldp::C23, &ipldp::C24,
    &robust::C25, &robust::C26, &robust::C27,
];

/// Subcommands used by checks that need a process of their own.
pub fn helper(name: &str) -> Option<i32> {
    match name {
        "nonce-child" => Some(build::nonce_child()),
        "deep-chain" => Some(robust::deep_chain_child()),
        _ => None,
    }
}
