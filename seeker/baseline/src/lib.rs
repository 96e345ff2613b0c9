#![allow(warnings)]
mod lexer;

pub mod mtl;
pub mod obj;
