// exposes private items to the contracts in /verif (only with --cfg tsdbtk_verif)
pub use super::{arrow_add_unstable_element, arrow_run_pipeline, lttb_pipeline_element};
pub use super::toolkit_experimental::UnstableTimevectorPipeline;
pub mod agg { pub use super::super::aggregation::*; }
pub mod arith { pub use super::super::arithmetic::*; }
pub mod expand { pub use super::super::expansion::*; }
pub mod lam { pub use super::super::lambda::*; }
pub use super::delta::delta_pipeline_element;
pub use super::fill_to::{fillto_pipeline_element, FillToMethod};
pub use super::filter::filter_lambda_pipeline_element;
pub use super::map::{map_data_pipeline_element, map_lambda_pipeline_element};
pub use super::sort::sort_pipeline_element;
