pub mod ctx;
pub mod derive;
pub mod dict;
pub mod fuzz;
pub mod json;
pub mod model;
pub mod props;
pub mod runner;
pub mod src;
