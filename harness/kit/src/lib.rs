//! Shared machinery of the checks: reporting, parallel enumeration, the reference model of the
//! template language and the driver that runs model cases through the real derive + rustc.
pub mod contexts;
pub mod e2e;
pub mod filters;
pub mod model;
pub mod part;
pub mod pool;
pub mod refsets;
pub mod iso;
pub mod resolve;
