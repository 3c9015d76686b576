//! The properties.

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c21;

mod hooked;

pub use c21::fresh_outcome;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = vec![
        c01::prop(),
        c02::prop(),
        c03::prop(),
        c04::prop(),
        c05::prop(),
        c06::prop(),
        c21::prop(),
    ];
    v.extend(hooked::all());
    v
}

/// Factor of the numbers of random cases.
pub fn scale(id: &str) -> u64 {
    match id {
        "C01" => 12,
        "C02" => 12,
        "C03" => 28,
        "C04" => 16,
        "C05" => 16,
        "C06" => 30,
        "C07" => 3,
        "C08" => 16,
        "C09" => 7,
        "C10" => 30,
        "C11" => 20,
        "C12" => 2,
        "C13" => 30,
        "C14" => 6,
        "C15" => 8,
        "C16" => 12,
        "C17" => 8,
        "C18" => 30,
        "C19" => 100,
        "C20" => 80,
        "C21" => 12,
        "C22" => 40,
        "C23" => 25,
        "C24" => 3,
        _ => 1,
    }
}
