pub mod alloc;
pub mod api;
pub mod bignum;
pub mod dict;
pub mod emit;
pub mod gen;
pub mod json;
pub mod leaf;
pub mod known;
pub mod lower;
pub mod model;
pub mod mutate;
pub mod props;
pub mod refparse;
pub mod refprint;
pub mod reflex;
pub mod run;
