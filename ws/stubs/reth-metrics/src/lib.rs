//! Stand-in: metric handles from the `metrics` crate and a derive that registers them.
pub use metrics;
pub use reth_metrics_derive::Metrics;
