//! An editor talking to the real language server over its in-memory connection.
use lsp_server::{Connection, Message, Notification, Request, RequestId};
use mcx::{json, Value};
use std::path::Path;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    Utf8,
    Utf16,
}
/// A client has to know utf-16, so a server need not know utf-32.
pub const ENCS: [Enc; 2] = [Enc::Utf16, Enc::Utf8];
impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::Utf8 => "utf-8",
            Enc::Utf16 => "utf-16",
        }
    }
    fn len(self, c: char) -> usize {
        match self {
            Enc::Utf8 => c.len_utf8(),
            Enc::Utf16 => c.len_utf16(),
        }
    }
    /// The position of a byte offset.
    pub fn position(self, text: &str, offset: usize) -> (u64, u64) {
        let (mut line, mut col) = (0, 0);
        for (i, c) in text.char_indices() {
            if i >= offset {
                break;
            }
            if c == '\n' {
                line += 1;
                col = 0;
            } else {
                col += self.len(c) as u64;
            }
        }
        (line, col)
    }
    /// The byte offset of a position, if there is one.
    pub fn offset(self, text: &str, (line, col): (u64, u64)) -> Option<usize> {
        (0..=text.len()).filter(|i| text.is_char_boundary(*i)).find(|i| self.position(text, *i) == (line, col))
    }
}

pub fn pos(v: &Value) -> (u64, u64) {
    (v["line"].as_u64().unwrap_or(u64::MAX), v["character"].as_u64().unwrap_or(u64::MAX))
}
pub fn range(v: &Value) -> ((u64, u64), (u64, u64)) {
    (pos(&v["start"]), pos(&v["end"]))
}
pub fn as_range(r: ((u64, u64), (u64, u64))) -> Value {
    json!({"start": {"line": r.0.0, "character": r.0.1}, "end": {"line": r.1.0, "character": r.1.1}})
}
pub fn uri(p: &Path) -> String {
    lsp_types::Url::from_file_path(p).unwrap().to_string()
}

pub struct Editor {
    conn: Connection,
    next: i32,
    pub encoding: String,
    /// The messages shown to the user.
    pub messages: std::cell::RefCell<Vec<String>>,
    thread: Option<std::thread::JoinHandle<()>>,
}
const PATIENCE: Duration = Duration::from_secs(60);
impl Editor {
    pub fn start(enc: Enc) -> Editor {
        let (server, conn) = Connection::memory();
        let thread = std::thread::spawn(move || {
            let _ = jarl_lsp::Server::new(1.try_into().unwrap(), server).and_then(|s| s.run());
        });
        let mut e = Editor { conn, next: 0, encoding: String::new(), messages: Default::default(), thread: Some(thread) };
        let r = e.request("initialize", json!({"capabilities": {"general": {"positionEncodings": [enc.name()]}}})).expect("initialize");
        e.encoding = r["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
        e.notify("initialized", json!({}));
        e
    }
    pub fn notify(&self, method: &str, params: Value) {
        let _ = self.conn.sender.send(Message::Notification(Notification { method: method.into(), params }));
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        self.next += 1;
        let id = RequestId::from(self.next);
        let _ = self.conn.sender.send(Message::Request(Request { id: id.clone(), method: method.into(), params }));
        loop {
            match self.conn.receiver.recv_timeout(PATIENCE) {
                Err(e) => return Err(format!("no answer to {method}: {e}")),
                Ok(Message::Response(r)) if r.id == id => {
                    return match r.error {
                        Some(e) => Err(format!("{method}: {}", e.message)),
                        None => Ok(r.result.unwrap_or(Value::Null)),
                    }
                }
                Ok(_) => {}
            }
        }
    }
    pub fn open(&self, path: &Path, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(path), "languageId": "r", "version": 1, "text": text}}));
    }
    pub fn change(&self, path: &Path, text: &str, version: i32) {
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri(path), "version": version}, "contentChanges": [{"text": text}]}));
    }
    pub fn close(&self, path: &Path) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}}));
        let _ = self.published(path);
    }
    fn published(&self, path: &Path) -> Result<Vec<Value>, String> {
        let u = uri(path);
        loop {
            match self.conn.receiver.recv_timeout(PATIENCE) {
                Err(e) => return Err(format!("no diagnostics: {e}")),
                Ok(Message::Notification(n)) if n.method == "textDocument/publishDiagnostics" && n.params["uri"] == json!(u) => {
                    return Ok(n.params["diagnostics"].as_array().cloned().unwrap_or_default())
                }
                Ok(Message::Notification(n)) if n.method == "window/showMessage" => self.messages.borrow_mut().push(n.params["message"].as_str().unwrap_or_default().to_string()),
                Ok(_) => {}
            }
        }
    }
    /// The diagnostics published for a document when it is saved.
    pub fn save(&self, path: &Path) -> Result<Vec<Value>, String> {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(path)}}));
        self.published(path)
    }
    /// The code actions offered in a range.
    pub fn actions(&mut self, path: &Path, r: ((u64, u64), (u64, u64))) -> Result<Vec<Value>, String> {
        let v = self.request("textDocument/codeAction", json!({"textDocument": {"uri": uri(path)}, "range": as_range(r), "context": {"diagnostics": []}}))?;
        Ok(v.as_array().cloned().unwrap_or_default())
    }
}
impl Drop for Editor {
    fn drop(&mut self) {
        let _ = self.request("shutdown", Value::Null);
        self.notify("exit", Value::Null);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

/// Applies the edits of a code action to the document they are for.
pub fn apply(action: &Value, path: &Path, text: &str, enc: Enc) -> Result<String, String> {
    let changes = action["edit"]["changes"].as_object().ok_or("the action has no changes")?;
    if changes.len() != 1 || !changes.contains_key(&uri(path)) {
        return Err("the action edits another file".into());
    }
    let mut edits = vec![];
    for e in changes.values().next().unwrap().as_array().ok_or("no edits")? {
        let (s, t) = range(&e["range"]);
        let s = enc.offset(text, s).ok_or_else(|| format!("there is no position {s:?}"))?;
        let t = enc.offset(text, t).ok_or_else(|| format!("there is no position {t:?}"))?;
        if s > t {
            return Err("an edit ends before it starts".into());
        }
        edits.push((s, t, e["newText"].as_str().unwrap_or_default().to_string()));
    }
    edits.sort();
    let mut out = String::new();
    let mut at = 0;
    for (s, t, new) in edits {
        if s < at {
            return Err("edits overlap".into());
        }
        out.push_str(&text[at..s]);
        out.push_str(&new);
        at = t;
    }
    out.push_str(&text[at..]);
    Ok(out)
}
