pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
use crate::engine::Check;
pub static ALL: &[&Check] = &[
  &c01::CHECK,
  &c02::CHECK,
  &c03::CHECK,
  &c04::CHECK,
  &c05::CHECK,
  &c06::CHECK,
  &c07::CHECK,
  &c08::CHECK,
  &c10::CHECK,
  &c11::CHECK,
  &c12::CHECK,
  &c13::CHECK,
  &c14::CHECK,
  &c15::CHECK,
  &c16::CHECK,
  &c17::CHECK,
  &c18::CHECK,
  &c19::CHECK,
];
