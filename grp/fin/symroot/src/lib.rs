#![no_std]
extern crate hfin;
