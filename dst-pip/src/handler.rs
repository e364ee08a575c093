//! The package's Python part, qirrunner/__init__.py as it is, in a Python interpreter: the handler that collects
//! output pieces, any number of them at once, read at any point, with pieces whose text fails.

use dst::driver::World;
use dst::rng::Rng;
use dst::stats::{Cx, Violation, viol};
use dst::trace::Trace;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

pub struct HandlerWorld;

/// Serves one line after another: what is done, and what came of it.
const SERVER: &str = r#"
import sys, types, importlib.util
class Output:
    def __init__(self, text): self.text = text
    def __repr__(self):
        if self.text is None: raise ValueError("no text")
        return self.text
    __str__ = __repr__
    def _repr_html_(self): return "<p>" + repr(self) + "</p>"
class Native(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        return lambda *a, **k: None
native = Native("qirrunner._native")
native.Output = Output
sys.modules["qirrunner._native"] = native
spec = importlib.util.spec_from_file_location("qirrunner", sys.argv[1], submodule_search_locations=[])
pkg = importlib.util.module_from_spec(spec)
sys.modules["qirrunner"] = pkg
native.__package__ = "qirrunner"
pkg._native = native
say = sys.stdout
sys.stdout = sys.stderr
hs = {}
def step(w):
    if w[0] == "R":
        hs.clear()
        return "ok"
    if w[0] == "N":
        hs[w[1]] = pkg.OutputHandler()
        return "ok"
    if w[0] == "H":
        r = hs[w[1]].handle(Output(bytes.fromhex(w[2][1:]).decode()))
        return "ok" if r is None else "ok"
    if w[0] == "X":
        hs[w[1]].handle(Output(None))
        return "ok"
    if w[0] == "G":
        return "=" + hs[w[1]].get_output().encode().hex()
    return "what?"
try:
    spec.loader.exec_module(pkg)
    say.write("ready\n")
except BaseException as e:
    say.write("import failed: %r\n" % (e,))
say.flush()
for line in sys.stdin:
    try:
        say.write(step(line.split()) + "\n")
    except BaseException as e:
        say.write("raised " + type(e).__name__ + "\n")
    say.flush()
"#;

struct Py {
    _child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
    first: String,
}

impl Py {
    fn start() -> Option<Py> {
        let mut child = Command::new("python3")
            .args(["-I", "-S", "-B", "-c", SERVER, "/repo/pip/qirrunner/__init__.py"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let tx = child.stdin.take()?;
        let mut rx = BufReader::new(child.stdout.take()?);
        let mut first = String::new();
        rx.read_line(&mut first).ok()?;
        Some(Py { _child: child, tx, rx, first: first.trim().to_string() })
    }

    fn ask(&mut self, q: &str) -> String {
        let mut a = String::new();
        if writeln!(self.tx, "{q}").and_then(|()| self.tx.flush()).is_err() || self.rx.read_line(&mut a).is_err() {
            return "gone".into();
        }
        a.trim().to_string()
    }
}

static PY: Mutex<Option<Option<Py>>> = Mutex::new(None);

fn piece(c: i64) -> String {
    const P: [&str; 12] = [
        "START\n", "METADATA\tentry_point\n", "OUTPUT\tRESULT\t1\n", "END\t0\n", "", "\n", "\u{e9}\u{4e00}\u{1F600}", "no newline", " ", "\t", "a\r\nb\r\n", "OUTPUT\tRESULT\t0\tlabel\n",
    ];
    match c.rem_euclid(40) {
        k if (k as usize) < P.len() => P[k as usize].to_string(),
        12 => "long ".repeat(4000),
        k => format!("piece {}\n", k % 7),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

impl World for HandlerWorld {
    fn name(&self) -> &'static str {
        "handler"
    }
    fn gen_run(&self, _prop: &str, r: &mut Rng) -> Trace {
        let mut t = Trace::new("handler");
        let n = r.range(1, 3);
        let long = r.one_in(50);
        for _ in 0..if long { r.range(1000, 2500) } else { r.range(1, 40) } {
            let h = r.range(0, n - 1);
            match r.below(if long { 20_000 } else { 20 }) {
                0 => t.push("new", &[h]),
                1 => t.push("bad", &[h]),
                2 | 3 => t.push("get", &[h]),
                _ => t.push("give", &[h, r.range(0, 39)]),
            }
        }
        t
    }
    fn exec(&self, t: &Trace, cx: &mut Cx) -> Result<(), Violation> {
        let mut guard = PY.lock().expect("lock");
        let Some(py) = guard.get_or_insert_with(Py::start).as_mut() else {
            cx.st.inc("op.skipped-no-python");
            return Ok(());
        };
        if py.first != "ready" {
            return viol("import", format!("the package cannot be imported: {}", py.first));
        }
        py.ask("R");
        let mut have: Vec<Option<String>> = vec![None; 4];
        let last: Vec<(String, Vec<i64>)> = t.ops.iter().map(|o| (o.k.clone(), o.a.clone())).chain((0..4).map(|h| ("get".to_string(), vec![h]))).collect();
        for (i, (k, a)) in last.iter().enumerate() {
            cx.at = i.min(t.ops.len().saturating_sub(1));
            let h = a.first().copied().unwrap_or(0).rem_euclid(4) as usize;
            if have[h].is_none() || k == "new" {
                if k == "get" {
                    continue;
                }
                let r = py.ask(&format!("N {h}"));
                if r != "ok" {
                    return viol("handler", format!("a handler cannot be made: {r}"));
                }
                have[h] = Some(String::new());
            }
            let text = have[h].as_mut().expect("made");
            match k.as_str() {
                "give" => {
                    let p = piece(a.get(1).copied().unwrap_or(0));
                    let r = py.ask(&format!("H {h} ={}", hex(p.as_bytes())));
                    if r != "ok" {
                        return viol("handler", format!("handler {h} did not take a piece of {} bytes: {r}", p.len()));
                    }
                    text.push_str(&p);
                    cx.st.inc("op.handle");
                }
                "bad" => {
                    let r = py.ask(&format!("X {h}"));
                    cx.st.inc("fault.piece without text");
                    if r != "ok" && !r.starts_with("raised") {
                        return viol("handler", format!("handler {h}, given a piece without text: {r}"));
                    }
                    if r == "ok" {
                        // it has taken it unread; nothing more is known of this handler
                        have[h] = None;
                    }
                }
                "get" => {
                    let r = py.ask(&format!("G {h}"));
                    cx.st.inc("check.collected output");
                    cx.nontrivial = true;
                    cx.ev_s(r.as_bytes());
                    let due = format!("={}", hex(text.as_bytes()));
                    if r != due {
                        let i = r.bytes().zip(due.bytes()).take_while(|(a, b)| a == b).count();
                        let cut = |s: &str| s.chars().skip(i).take(80).collect::<String>();
                        return viol(
                            "handler",
                            format!("what handler {h} says differs at digit {i} from what it has collected: {:?} instead of {:?}", cut(&r), cut(&due)),
                        );
                    }
                }
                _ => (),
            }
        }
        Ok(())
    }
}
