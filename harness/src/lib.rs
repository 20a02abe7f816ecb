pub mod rng;
pub mod kinds;
pub mod real;
pub mod inputs;
pub mod refer;
pub mod runner;
pub mod tol;
pub mod mocks;
pub mod algos;
pub mod any;
pub mod numtypes;
pub mod alloc;
pub mod stack;
