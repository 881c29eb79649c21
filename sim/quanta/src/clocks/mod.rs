mod counter;
pub use self::counter::Counter;

mod monotonic;
pub use self::monotonic::Monotonic;
