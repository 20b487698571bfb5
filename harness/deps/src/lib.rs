#![no_std]
pub use pin_project;
