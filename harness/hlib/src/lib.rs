//! Shared model of RDF terms and graphs, and thin wrappers of the `Rudof` facade.
pub mod facade;
pub mod lit;
pub mod rdf;
pub use facade::*;
pub use rdf::*;
