//! Stand-in: declared by tlsn-core, used by none of its code.
