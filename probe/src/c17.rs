//! The purity rule has no harness; see scan.rs of the analyzer.
