//! lsp-server with a connection on the controlled scheduler's channels. The
//! handshake does what lsp-server's does.
use crossbeam::channel::{unbounded, Receiver, Sender};
pub use real::{ErrorCode, ExtractError, Message, Notification, ReqQueue, Request, RequestId, Response, ResponseError};
use std::io;

#[derive(Debug, Clone, PartialEq)]
pub struct ProtocolError(String);
impl std::error::Error for ProtocolError {}
impl std::fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl ProtocolError {
    pub fn channel_is_disconnected(&self) -> bool {
        self.0 == "disconnected channel"
    }
}
fn error<T>(s: &str) -> Result<T, ProtocolError> {
    Err(ProtocolError(s.into()))
}

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
/// There are no I/O threads here.
pub struct IoThreads(());
impl IoThreads {
    pub fn join(self) -> io::Result<()> {
        Ok(())
    }
}
impl Connection {
    pub fn memory() -> (Connection, Connection) {
        let (s1, r1) = unbounded();
        let (s2, r2) = unbounded();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }
    pub fn stdio() -> (Connection, IoThreads) {
        (Connection::memory().0, IoThreads(()))
    }
    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        loop {
            match self.receiver.recv() {
                Err(_) => return error("disconnected channel"),
                Ok(Message::Request(r)) if r.method == "initialize" => return Ok((r.id, r.params)),
                Ok(Message::Request(r)) => {
                    let e = Response::new_err(r.id.clone(), ErrorCode::ServerNotInitialized as i32, "expected initialize request".into());
                    self.sender.send(e.into()).unwrap();
                }
                Ok(Message::Notification(n)) if n.method != "exit" => {}
                Ok(_) => return error("expected initialize request"),
            }
        }
    }
    pub fn initialize_finish(&self, id: RequestId, result: serde_json::Value) -> Result<(), ProtocolError> {
        self.sender.send(Response::new_ok(id, result).into()).unwrap();
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if n.method == "initialized" => Ok(()),
            Ok(_) => error("expected initialized notification"),
            Err(_) => error("disconnected channel"),
        }
    }
    pub fn initialize(&self, capabilities: serde_json::Value) -> Result<serde_json::Value, ProtocolError> {
        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, serde_json::json!({"capabilities": capabilities}))?;
        Ok(params)
    }
    pub fn handle_shutdown(&self, r: &Request) -> Result<bool, ProtocolError> {
        if r.method != "shutdown" {
            return Ok(false);
        }
        let _ = self.sender.send(Response::new_ok(r.id.clone(), ()).into());
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if n.method == "exit" => Ok(true),
            Ok(_) => error("unexpected message during shutdown"),
            Err(_) => error("channel disconnected waiting for exit notification"),
        }
    }
}
