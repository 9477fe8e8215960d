//! Counters wide enough for what they count: no harness, see scan.rs of the analyser.
