#![no_std]
extern crate harness;
