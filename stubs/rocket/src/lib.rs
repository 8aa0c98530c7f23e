//! Rocket, except that launching runs the script of a check: requests (handled by Rocket without a network) and steps of the
//! threads of the server. One line of output per line of the script.

pub use real::*;

use crossbeam_utils::gates;
use real::http::{ContentType, Accept};
use serde_json::{json, Value};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::Arc;
use std::time::Duration;

pub struct Server(real::Rocket);

pub fn ignite() -> Server {
    Server(real::ignite())
}

pub fn custom(config: real::Config) -> Server {
    Server(real::custom(config))
}

impl Server {
    pub fn mount<R: Into<Vec<Route>>>(self, base: &str, routes: R) -> Self {
        Server(self.0.mount(base, routes))
    }
    pub fn manage<T: Send + Sync + 'static>(self, state: T) -> Self {
        Server(self.0.manage(state))
    }
    pub fn attach<F: fairing::Fairing>(self, fairing: F) -> Self {
        Server(self.0.attach(fairing))
    }
    pub fn register(self, catchers: Vec<Catcher>) -> Self {
        Server(self.0.register(catchers))
    }
    pub fn launch(self) {
        run(self.0);
        std::process::exit(0)
    }
}

fn request(client: &local::Client, url: &str, body: Option<&str>) -> Value {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut response = match body {
            None => client.get(url.to_string()).header(Accept::JSON).dispatch(),
            Some(b) => client.post(url.to_string()).header(ContentType::JSON).body(b).dispatch(),
        };
        (response.status().code, response.body_string().unwrap_or_default())
    }));
    match r {
        Ok((200, body)) => json!({ "ok": serde_json::from_str(&body).unwrap_or(Value::String(body)) }),
        Ok((status, _)) => json!({ "error": status }),
        Err(_) => json!({"error": "panic"}),
    }
}

fn run(rocket: real::Rocket) {
    std::panic::set_hook(Box::new(|_| ()));
    let script = std::fs::read_to_string(std::env::var("VERIF_SCRIPT").unwrap()).unwrap();
    let client = Arc::new(local::Client::new(rocket).unwrap());
    let mut out = String::new();
    let done = || gates::states().iter().map(|&s| s == gates::At::Done).collect::<Vec<_>>();
    for line in script.lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let before = done();
        let mut res = if let Some(i) = v["step"].as_u64() {
            json!({ "at": gates::step(i as usize, Duration::from_millis(v["patience"].as_u64().unwrap())).map(|a| format!("{:?}", a)) })
        } else if v["open"].is_boolean() {
            gates::open();
            for _ in 0..2000 {
                if done().iter().all(|&d| d) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            json!({})
        } else if let Some(ms) = v["sleep"].as_u64() {
            std::thread::sleep(Duration::from_millis(ms));
            json!({})
        } else {
            // several requests after each other; if one has to wait for threads that wait at a gate, they are let through
            let (tx, rx) = channel();
            let client = client.clone();
            let body = v["body"].as_str().map(String::from);
            let urls: Vec<String> = v["urls"].as_array().unwrap().iter().map(|u| u.as_str().unwrap().to_string()).collect();
            std::thread::spawn(move || {
                let r: Vec<Value> = urls.iter().map(|u| request(&client, u, body.as_deref())).collect();
                let _ = tx.send(r);
            });
            let mut waited = false;
            let mut r = rx.recv_timeout(Duration::from_millis(2000));
            if let Err(RecvTimeoutError::Timeout) = r {
                waited = true;
                gates::open();
                r = rx.recv_timeout(Duration::from_millis(10_000));
            }
            match r {
                Ok(r) => json!({ "answers": r, "waited": waited }),
                Err(_) => json!({"hang": true}),
            }
        };
        res["done"] = json!(before);
        res["done_after"] = json!(done());
        out += &res.to_string();
        out.push('\n');
    }
    std::fs::write(std::env::var("VERIF_OUT").unwrap(), out).unwrap();
}
