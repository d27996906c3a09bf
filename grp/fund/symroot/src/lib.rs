#![no_std]
extern crate hfund;
