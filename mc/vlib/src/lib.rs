//! Shared parts of the checkers: reporting, exhaustive enumeration of decision trees, small vector algebra
//! independent of the code under test.
pub mod geom;
pub mod par;
pub mod report;
pub mod tree;

pub use geom::*;
pub use par::*;
pub use report::*;
pub use tree::*;
