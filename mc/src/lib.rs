#[macro_use]
pub mod fw;
pub mod model;
pub mod real;
