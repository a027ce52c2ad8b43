//! Stand-in, not used.
