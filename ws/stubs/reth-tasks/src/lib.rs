//! Stand-in for reth's task spawning trait.
use futures::future::BoxFuture;
use tokio::task::JoinHandle;
pub trait TaskSpawner: Send + Sync + Unpin + std::fmt::Debug {
    fn spawn_task(&self, fut: BoxFuture<'static, ()>) -> JoinHandle<()>;
    fn spawn_critical_task(&self, name: &'static str, fut: BoxFuture<'static, ()>) -> JoinHandle<()>;
    fn spawn_blocking_task(&self, fut: BoxFuture<'static, ()>) -> JoinHandle<()>;
    fn spawn_critical_blocking_task(
        &self,
        name: &'static str,
        fut: BoxFuture<'static, ()>,
    ) -> JoinHandle<()>;
}
