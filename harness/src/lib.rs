#![allow(dead_code)]
pub mod sym;
#[macro_use]
pub mod rig;
mod h_engine;
mod h_graph;
mod h_gain;
mod h_buffer;
mod h_util;
mod h_param;
mod h_osc;
mod h_adsr;
mod h_meter;
mod h_dynamics;
mod h_record;
mod h_conv;
mod h_sampler;
mod h_stale;
mod h_order;
mod h_blocks;
mod h_calm;
mod h_resample;
mod h_life;
mod h_shape;
mod h_filter;

pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    v.extend_from_slice(h_engine::TABLE);
    v.extend_from_slice(h_gain::TABLE);
    v.extend_from_slice(h_graph::TABLE);
    v.extend_from_slice(h_buffer::TABLE);
    v.extend_from_slice(h_util::TABLE);
    v.extend_from_slice(h_param::TABLE);
    v.extend_from_slice(h_osc::TABLE);
    v.extend_from_slice(h_adsr::TABLE);
    v.extend_from_slice(h_meter::TABLE);
    v.extend_from_slice(h_dynamics::TABLE);
    v.extend_from_slice(h_record::TABLE);
    v.extend_from_slice(h_conv::TABLE);
    v.extend_from_slice(h_sampler::TABLE);
    v.extend_from_slice(h_stale::TABLE);
    v.extend_from_slice(h_order::TABLE);
    v.extend_from_slice(h_blocks::TABLE);
    v.extend_from_slice(h_calm::TABLE);
    v.extend_from_slice(h_resample::TABLE);
    v.extend_from_slice(h_life::TABLE);
    v.extend_from_slice(h_shape::TABLE);
    v.extend_from_slice(h_filter::TABLE);
    v
}
