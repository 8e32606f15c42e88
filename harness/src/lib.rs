pub mod alpha;
pub mod cli;
pub mod conc;
pub mod engine;
pub mod model;
pub mod sgdata;
