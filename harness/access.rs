
/// Appended by the verification harness: names for private items.
pub mod vx_access {
    pub use crate::connections::{Connections, DirectMap, TopicSyncMap, SubscriptionStatus};
}
