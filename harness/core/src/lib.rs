//! Independent model of the Mabo language and wire format: schema model, generator, text renderer,
//! reference codec and reference validator. Depends on nothing from /repo.
pub mod codec;
pub mod evolve;
pub mod fault;
pub mod generate;
pub mod lenient;
pub mod located;
pub mod model;
pub mod out;
pub mod plant;
pub mod refcheck;
pub mod render;
pub mod rng;
pub mod value;
pub mod watch;
