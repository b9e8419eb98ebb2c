pub mod alloc;
pub mod edits;
pub mod current;
pub mod engine;
pub mod exec;
pub mod fsx;
pub mod hist;
pub mod model;
pub mod props;
pub mod source;
pub mod zipparse;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;
