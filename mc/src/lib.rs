//! Small model-checking engine: checking allocator, token ledger, history explorer, reports.
//! It knows nothing about the crate under test.
pub mod alloc;
pub mod cli;
pub mod explore;
pub mod ledger;
pub mod report;
pub mod tok;
