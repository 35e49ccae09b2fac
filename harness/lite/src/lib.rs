//! Reference model of dynamic networks over probes, shared by the network checks.
pub mod netmodel;
pub mod seqmodel;
