//! Reference behaviour of venial, interpreted abstractly (never run) by the analyzer.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, unreachable_patterns, clippy::all)]
mod c01p;
mod c01s;
mod c03p;
mod c03s;
mod c04p;
mod c07p;
mod c07ds;
mod c07w;
mod c08p;
mod c19p;
mod c20s;
mod c20ds;
mod c02;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c18d;
mod c21;
pub mod narrow_example;
pub mod positive;
mod sh;
mod vs;
