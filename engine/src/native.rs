//! Replays of solver models against the natively compiled harness (a long-lived process).
use crate::exec::Config;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub struct Native {
    bin: String,
    p: Option<(Child, ChildStdin, Receiver<String>)>,
    /// the build with the rayon stand-in, for runs with a task order
    shim: Option<Box<Native>>,
    pub runs: u64,
    pub crashes: u64,
}
#[derive(Debug)]
pub struct Reply {
    pub verdict: String,
    pub obs: Vec<f64>,
}
impl Reply {
    pub fn failed(&self) -> Option<String> {
        if self.verdict == "ok" || self.verdict == "assume" || self.verdict == "broken" {
            None
        } else {
            Some(self.verdict.clone())
        }
    }
}
impl Native {
    pub fn new(bin: &str, shim: Option<&str>) -> Native {
        Native { bin: bin.into(), p: None, shim: shim.map(|b| Box::new(Native::new(b, None))), runs: 0, crashes: 0 }
    }
    fn start(&mut self) -> bool {
        let c = Command::new(&self.bin)
            .arg("--serve")
            .env("RAYON_NUM_THREADS", "2")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let mut c = match c {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start {}: {}", self.bin, e);
                return false;
            }
        };
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.p = Some((c, i, rx));
        true
    }
    pub fn line(cfg: &Config, inputs: &[f64], choices: &[u32], scheds: &[u32]) -> String {
        let mut l = format!("{}", cfg.harness);
        l += &format!(" {}", cfg.params.len());
        for x in &cfg.params {
            l += &format!(" {}", x);
        }
        l += &format!(" {}", inputs.len());
        for x in inputs {
            l += &format!(" {:016x}", x.to_bits());
        }
        l += &format!(" {}", choices.len());
        for x in choices {
            l += &format!(" {}", x);
        }
        if !scheds.is_empty() {
            l += &format!(" {}", scheds.len());
            for x in scheds {
                l += &format!(" {}", x);
            }
        }
        l
    }
    /// in a process of its own, so that nothing left behind by earlier runs plays a part
    pub fn run_fresh(&self, cfg: &Config, inputs: &[f64], choices: &[u32], scheds: &[u32]) -> Reply {
        let bin = match (&self.shim, scheds.is_empty()) {
            (Some(n), false) => &n.bin,
            _ => &self.bin,
        };
        Native::new(bin, None).run(cfg, inputs, choices, scheds)
    }
    pub fn run(&mut self, cfg: &Config, inputs: &[f64], choices: &[u32], scheds: &[u32]) -> Reply {
        if let (false, Some(n)) = (scheds.is_empty(), &mut self.shim) {
            return n.run(cfg, inputs, choices, scheds);
        }
        self.runs += 1;
        let l = Native::line(cfg, inputs, choices, scheds);
        if self.p.is_none() && !self.start() {
            return Reply { verdict: "broken".into(), obs: vec![] };
        }
        let (_, i, rx) = self.p.as_mut().unwrap();
        let sent = i.write_all(l.as_bytes()).is_ok() && i.write_all(b"\n").is_ok() && i.flush().is_ok();
        let r = if sent { rx.recv_timeout(Duration::from_secs(20)) } else { Err(RecvTimeoutError::Disconnected) };
        match r {
            Ok(s) => {
                // verdict TAB obs...
                let mut it = s.split('\t');
                let verdict = it.next().unwrap_or("").to_string();
                let obs = it
                    .next()
                    .unwrap_or("")
                    .split_whitespace()
                    .filter_map(|x| u64::from_str_radix(x, 16).ok().map(f64::from_bits))
                    .collect();
                Reply { verdict, obs }
            }
            Err(e) => {
                self.crashes += 1;
                let (mut c, _, _) = self.p.take().unwrap();
                let v = if e == RecvTimeoutError::Timeout {
                    "hang: no answer within 20 s".to_string()
                } else {
                    std::thread::sleep(Duration::from_millis(20));
                    match c.try_wait() {
                        Ok(Some(s)) => format!("crash: {}", s),
                        _ => "crash".to_string(),
                    }
                };
                let _ = c.kill();
                let _ = c.wait();
                Reply { verdict: v, obs: vec![] }
            }
        }
    }
}
impl Drop for Native {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.p.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
