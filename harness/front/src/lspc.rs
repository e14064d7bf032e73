//! A client for the language server: transport, positions, and what the server sent.
use std::{
    collections::{HashMap, VecDeque},
    io::{BufRead, BufReader, Read, Write},
    path::Path,
    net::{Ipv4Addr, Shutdown, TcpListener, TcpStream},
    process::{Child, Command, ExitStatus, Stdio},
    sync::{Arc, Mutex, mpsc::{Receiver, RecvTimeoutError, channel}},
    time::{Duration, Instant},
};

use mvcore::out::clip;
use serde_json::{Value, json};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc { Utf8, Utf16, Utf32 }

impl Enc {
    pub fn name(self) -> &'static str { match self { Enc::Utf8 => "utf-8", Enc::Utf16 => "utf-16", Enc::Utf32 => "utf-32" } }
    pub fn of(name: &str) -> Option<Enc> { [Enc::Utf8, Enc::Utf16, Enc::Utf32].into_iter().find(|e| e.name() == name) }
    pub fn units(self, s: &str) -> usize { s.chars().map(|c| match self { Enc::Utf8 => c.len_utf8(), Enc::Utf16 => c.len_utf16(), Enc::Utf32 => 1 }).sum() }
}

/// Line and column of an offset.
pub fn pos(t: &str, at: usize, e: Enc) -> (usize, usize) {
    let line = t[..at].matches('\n').count();
    let from = t[..at].rfind('\n').map_or(0, |i| i + 1);
    (line, e.units(&t[from..at]))
}

pub fn range(t: &str, r: (usize, usize), e: Enc) -> Value {
    let p = |at| { let (l, c) = pos(t, at, e); json!({"line": l, "character": c}) };
    json!({"start": p(r.0), "end": p(r.1)})
}

/// Offset of a position that has to exist.
pub fn offset(t: &str, line: usize, col: usize, e: Enc) -> Result<usize, String> {
    let mut from = 0;
    for _ in 0..line { from += t[from..].find('\n').ok_or_else(|| format!("there is no line {line}"))? + 1; }
    let end = t[from..].find('\n').map_or(t.len(), |i| from + i);
    let mut at = 0;
    for (i, c) in t[from..end].char_indices() {
        if at == col { return Ok(from + i); }
        if at > col { return Err(format!("column {col} of line {line} is inside of a character")); }
        at += e.units(c.encode_utf8(&mut [0; 4]));
    }
    if at == col { Ok(end) } else { Err(format!("column {col} is outside of line {line}")) }
}

pub struct Server {
    child: Child,
    stdin: Option<Box<dyn Write + Send>>,
    socket: Option<TcpStream>,
    rx: Receiver<Value>,
    next: i64,
    pub stderr: Arc<Mutex<VecDeque<u8>>>,
    /// everything received, in order
    pub seen: Vec<Value>,
    /// requests of the server that wait for a reply
    pub asked: VecDeque<Value>,
    pub settings: Value,
    /// reply to requests of the server as they come
    pub obedient: bool,
    /// every published diagnostic
    pub published: HashMap<String, Vec<Value>>,
    pub enc: Enc,
}

/// The server is gone or silent.
#[derive(Debug)]
pub enum Gone { Exited(Option<ExitStatus>), Silent, Error(Value) }

pub const PATIENCE: u64 = 90;

impl Server {
    fn command(exe: &Path, home: &Path) -> Command {
        let mut c = Command::new(exe);
        c.current_dir(home).env("HOME", home).env("XDG_CACHE_HOME", home.join("cache")).env("RUST_BACKTRACE", "0").stderr(Stdio::piped());
        c
    }

    pub fn spawn(exe: &Path, home: &Path) -> Server {
        let mut child = Self::command(exe, home).arg("--stdio").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let (out, stdin) = (child.stdout.take().unwrap(), child.stdin.take().unwrap());
        Self::with(child, Box::new(out), Box::new(stdin), None)
    }

    /// The server connects to its client here.
    pub fn spawn_tcp(exe: &Path, home: &Path) -> Result<Server, String> {
        let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
        let mut child = Self::command(exe, home).arg("--socket").arg(l.local_addr().unwrap().port().to_string()).stdin(Stdio::null()).stdout(Stdio::null()).spawn().unwrap();
        l.set_nonblocking(true).unwrap();
        let end = Instant::now() + Duration::from_secs(PATIENCE);
        let c = loop {
            match l.accept() { Ok((c, _)) => break c, Err(_) if Instant::now() < end && matches!(child.try_wait(), Ok(None)) => std::thread::sleep(Duration::from_millis(1)), Err(e) => { child.kill().ok(); return Err(format!("the server doesn't connect: {e}, {:?}", child.wait())) } }
        };
        c.set_nonblocking(false).unwrap();
        c.set_nodelay(true).unwrap();
        Ok(Self::with(child, Box::new(c.try_clone().unwrap()), Box::new(c.try_clone().unwrap()), Some(c)))
    }

    fn with(mut child: Child, out: Box<dyn Read + Send>, stdin: Box<dyn Write + Send>, socket: Option<TcpStream>) -> Server {
        let (tx, rx) = channel();
        let mut out = BufReader::new(out);
        std::thread::spawn(move || loop {
            let mut len = None;
            loop {
                let mut line = String::new();
                match out.read_line(&mut line) { Ok(0) | Err(_) => return, Ok(_) => {} }
                let line = line.trim_end();
                if line.is_empty() { break; }
                if let Some(n) = line.to_ascii_lowercase().strip_prefix("content-length:") { len = n.trim().parse::<usize>().ok(); }
            }
            let Some(len) = len else { let _ = tx.send(json!({"broken": "no length"})); return };
            let mut b = vec![0; len];
            if out.read_exact(&mut b).is_err() { return; }
            let v = serde_json::from_slice(&b).unwrap_or_else(|e| json!({"broken": e.to_string()}));
            if tx.send(v).is_err() { return; }
        });
        let stderr = Arc::new(Mutex::new(VecDeque::new()));
        let tail = stderr.clone();
        let mut err = child.stderr.take().unwrap();
        std::thread::spawn(move || {
            let mut b = [0; 4096];
            while let Ok(n) = err.read(&mut b) {
                if n == 0 { break; }
                let mut t = tail.lock().unwrap();
                t.extend(&b[..n]);
                let more = t.len().saturating_sub(3000);
                t.drain(..more);
            }
        });
        Server { child, stdin: Some(stdin), socket, rx, next: 1_000_000, stderr, seen: Vec::new(), asked: VecDeque::new(), settings: json!({}), obedient: true, published: HashMap::new(), enc: Enc::Utf16 }
    }

    /// What the server last said before it died.
    pub fn words(&self) -> String {
        std::thread::sleep(Duration::from_millis(50));
        let t: Vec<u8> = self.stderr.lock().unwrap().iter().copied().collect();
        let t = String::from_utf8_lossy(&t).into_owned();
        match t.find("panicked at") { Some(i) => clip(&t[i..], 500), None => { let n = t.chars().count(); t.chars().skip(n.saturating_sub(400)).filter(|c| *c != '\u{fffd}').collect() } }
    }

    pub fn send_raw(&mut self, header: &str, v: &Value) {
        let b = v.to_string();
        // a server that is gone is noticed when it should answer
        if let Some(i) = &mut self.stdin { let _ = write!(i, "Content-Length: {}\r\n{header}\r\n{b}", b.len()).and_then(|()| i.flush()); }
    }
    pub fn send(&mut self, v: &Value) { self.send_raw("", v); }
    pub fn notify(&mut self, method: &str, params: Value) { self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params})); }
    pub fn id(&mut self) -> i64 { self.next += 1; self.next }
    pub fn close_input(&mut self) { self.stdin = None; if let Some(s) = &self.socket { let _ = s.shutdown(Shutdown::Write); } }
    pub fn issued(&self) -> i64 { self.next }

    pub fn exited(&mut self, wait: u64) -> Option<ExitStatus> {
        let end = Instant::now() + Duration::from_secs(wait);
        loop {
            if let Ok(Some(s)) = self.child.try_wait() { return Some(s); }
            if Instant::now() > end { return None; }
            std::thread::sleep(Duration::from_millis(2));
        }
    }

    /// The next message; requests of the server are noted, and answered if obedient.
    pub fn receive(&mut self, wait: Duration) -> Result<Option<Value>, Gone> {
        match self.rx.recv_timeout(wait) {
            Ok(v) => {
                self.seen.push(v.clone());
                if v.get("method").is_some() && v.get("id").is_some() {
                    if self.obedient { let a = self.reply(&v); self.send(&a); } else { self.asked.push_back(v.clone()); }
                } else if v["method"] == "textDocument/publishDiagnostics" {
                    self.published.entry(v["params"]["uri"].as_str().unwrap_or("?").into()).or_default().push(v["params"]["diagnostics"].clone());
                }
                Ok(Some(v))
            }
            Err(RecvTimeoutError::Timeout) => Ok(None),
            Err(RecvTimeoutError::Disconnected) => { let s = self.exited(20); Err(Gone::Exited(s)) }
        }
    }

    pub fn reply(&self, v: &Value) -> Value {
        let result = if v["method"] == "workspace/configuration" { json!([self.settings]) } else { Value::Null };
        json!({"jsonrpc": "2.0", "id": v["id"], "result": result})
    }

    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, Gone> {
        let id = self.id();
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
        let end = Instant::now() + Duration::from_secs(PATIENCE);
        loop {
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { return Err(Gone::Silent); }
            if let Some(v) = self.receive(left)? {
                if v["id"] == id && v.get("method").is_none() {
                    if v.get("error").is_some_and(|e| !e.is_null()) { return Err(Gone::Error(v["error"].clone())); }
                    return Ok(v["result"].clone());
                }
            }
        }
    }

    pub fn initialize(&mut self, params: Value) -> Result<Value, Gone> {
        let r = self.request("initialize", params)?;
        if let Some(e) = r["capabilities"]["positionEncoding"].as_str().and_then(Enc::of) { self.enc = e; }
        self.notify("initialized", json!({}));
        Ok(r)
    }

    pub fn start(exe: &Path, home: &Path, encodings: &[&str], settings: Value) -> Result<Server, Gone> {
        let mut s = Server::spawn(exe, home);
        s.settings = settings;
        let caps = if encodings.is_empty() { json!({}) } else { json!({"general": {"positionEncodings": encodings}}) };
        s.initialize(json!({"processId": null, "rootUri": null, "capabilities": caps}))?;
        Ok(s)
    }

    pub fn open(&mut self, uri: &str, text: &str) { self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": text}})); }
    pub fn latest(&self, uri: &str) -> Option<&Value> { self.published.get(uri).and_then(|l| l.last()) }

    /// Orderly end; the exit status.
    pub fn stop(&mut self) -> Result<Option<ExitStatus>, Gone> {
        self.request("shutdown", Value::Null)?;
        self.notify("exit", Value::Null);
        Ok(self.exited(30))
    }
}

impl Drop for Server {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}
