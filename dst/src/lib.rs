pub mod callworld;
pub mod drawworld;
pub mod drive;
pub mod driver;
pub mod seedworld;
pub mod thrworld;
pub mod memworld;
pub mod emit;
pub mod failworld;
pub mod outworld;
pub mod model;
pub mod props;
pub mod qirworld;
pub mod quantum;
pub mod rng;
pub mod seams;
pub mod simworld;
pub mod stats;
pub mod steadyworld;
pub mod trace;
