//! Uses of the builders, written from the terms of the specification.
#![allow(warnings)]
use dot_generator::*;
use dot_structures::*;
use gvh::full::{made, tick};

include!(concat!(env!("GVB_TERMS"), "/part4.rs"));
