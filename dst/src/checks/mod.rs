pub mod common;
pub mod recovery;
pub mod runs;
pub mod io;
pub mod service;
pub mod models;
use crate::engine::Check;

pub fn all() -> Vec<&'static dyn Check> {
    vec![
        &recovery::C01,
        &recovery::C02,
        &recovery::C03,
        &runs::C04,
        &runs::C05,
        &runs::C06,
        &runs::C07,
        &runs::C08,
        &runs::C09,
        &runs::C17,
        &io::C10,
        &models::C11,
        &service::C12,
        &service::C13,
        &service::C14,
        &models::C15,
        &models::C16,
    ]
}
