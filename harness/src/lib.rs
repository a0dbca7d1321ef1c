#![allow(unused)]
mod sym;
mod all;
