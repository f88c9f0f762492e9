//! The metrics HTTP server of the model: serves nothing, forever.
use std::net::SocketAddr;
pub trait Filter: Sized { fn map<F>(self, _f: F) -> Route { Route } }
pub struct Route;
impl Filter for Route {}
pub fn path(_p: &str) -> Route { Route }
pub struct Server;
pub fn serve<F>(_f: F) -> Server { Server }
impl Server { pub async fn run(self, _a: impl Into<SocketAddr>) { std::future::pending::<()>().await } }
