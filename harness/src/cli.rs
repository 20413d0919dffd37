//! Runs of the pfp-cli program on scratch storage files.
use crate::ctx::Ctx;
use crate::model::random_view;
use crate::oracle::*;
use crate::units::key;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const SALT: [u8; 16] = *b"0123456789abcdef";
const PRIMARY: &str = "my primary";
const UNLOCK: (&str, &str) = ("Your primary password: ", PRIMARY);
const SITES: &[&str] = &["example.com", "a", "www.a", "ab", "b", "Example.com", "bücher.de", "sub.example.com", "www.www.a", "-x"];
const NAMES: &[&str] = &["", "a", "b", "ab", "foo bar", "Foo", "😀", "me@example.com", "f*", "a ", " a", " "];
const REVS: &[&str] = &["", "1", "2", "01", "10", "a"];

pub struct Outcome {
    pub stdout: String,
    pub stderr: String,
    pub code: Option<i32>,
    /// prompts which were not reached
    pub unused: usize,
    /// the program asked for more
    pub hung: bool,
}

fn reader(mut from: impl Read + Send + 'static) -> (Arc<Mutex<Vec<u8>>>, std::thread::JoinHandle<()>) {
    let buffer = Arc::new(Mutex::new(Vec::new()));
    let shared = buffer.clone();
    let handle = std::thread::spawn(move || {
        let mut chunk = [0; 4096];
        while let Ok(n) = from.read(&mut chunk) {
            if n == 0 {
                break;
            }
            shared.lock().unwrap().extend_from_slice(&chunk[..n]);
        }
    });
    (buffer, handle)
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

/// Prompts answered one after the other; `file` is the storage.
pub fn run(ctx: &Ctx, dir: &Path, file: &Path, args: &[&str], answers: &[(&str, &str)]) -> Outcome {
    let mut child = Command::new(ctx.cli.as_ref().unwrap())
        .arg("--stdin-passwords")
        .arg("-c")
        .arg(file)
        .args(args)
        .current_dir(dir)
        .env("HOME", dir)
        .env("TERM", "dumb")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("pfp-cli does not start");
    let (out, t1) = reader(child.stdout.take().unwrap());
    let (err, t2) = reader(child.stderr.take().unwrap());
    let mut stdin = child.stdin.take();
    let start = Instant::now();
    let (mut pos, mut next) = (0, 0);
    let mut hung = false;
    let mut quiet = Instant::now();
    let mut seen = 0;
    let code = loop {
        {
            let out = out.lock().unwrap();
            if out.len() != seen {
                seen = out.len();
                quiet = Instant::now();
            }
            if next < answers.len() {
                if let Some(at) = find(&out[pos..], answers[next].0.as_bytes()) {
                    pos += at + answers[next].0.len();
                    if let Some(stdin) = stdin.as_mut() {
                        let _ = stdin.write_all(format!("{}\n", answers[next].1).as_bytes());
                        let _ = stdin.flush();
                    }
                    next += 1;
                    quiet = Instant::now();
                    continue;
                }
            }
        }
        if let Ok(Some(status)) = child.try_wait() {
            break status.code();
        }
        // an unexpected prompt: end the input, the program takes the default answer
        if quiet.elapsed() > Duration::from_secs(4) && stdin.is_some() {
            stdin = None;
            hung = true;
            quiet = Instant::now();
        }
        if start.elapsed() > Duration::from_secs(40) || (hung && quiet.elapsed() > Duration::from_secs(2)) || seen > 50_000_000 {
            hung = true;
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let _ = t1.join();
    let _ = t2.join();
    let stdout = String::from_utf8_lossy(&out.lock().unwrap()).to_string();
    let stderr = String::from_utf8_lossy(&err.lock().unwrap()).to_string();
    Outcome { stdout, stderr, code, unused: answers.len() - next, hung }
}

fn describe(args: &[&str], answers: &[(&str, &str)], view: &View, o: &Outcome) -> String {
    format!(
        "storage {:?}\ncommand pfp-cli {:?}\nanswers {:?}\nexit code {:?}{}\noutput {:?}\nerrors {:?}",
        view, args, answers, o.code, if o.hung { " (asks for more)" } else { "" }, o.stdout.chars().take(4000).collect::<String>(), o.stderr.chars().take(2000).collect::<String>()
    )
}

struct Case {
    dir: PathBuf,
    file: PathBuf,
    view: View,
}

impl Drop for Case {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

impl Case {
    fn new(ctx: &Ctx, name: &str, seed: u64) -> Case {
        let dir = PathBuf::from(format!("{}/{}-{}", ctx.scratch, name, seed));
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join("storage.json");
        Case { dir, file, view: View::default() }
    }
    fn store(&self, rng: &mut Rng) {
        let data = write(rng, &self.view, &SALT, &key(PRIMARY, &SALT), b"hmac secret");
        std::fs::write(&self.file, file_text(&data)).unwrap();
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        std::fs::read(&self.file).ok()
    }
    fn data(&self) -> Result<HashMap<String, String>, String> {
        let json: serde_json::Value = serde_json::from_slice(&self.bytes().ok_or("no file")?).map_err(|_| "no JSON")?;
        if json["application"] != "pfp" || json["format"] != 3 {
            return Err("wrong format".into());
        }
        serde_json::from_value(json["data"].clone()).map_err(|_| "no map of texts".into())
    }
    fn read_with(&self, k: &[u8]) -> Result<View, String> {
        read(&self.data()?, k).map(|r| r.0)
    }
    fn read(&self) -> Result<View, String> {
        self.read_with(&key(PRIMARY, &SALT))
    }
}

fn cli_view(rng: &mut Rng) -> View {
    let mut view = View::default();
    for _ in 0..rng.below(7) {
        let site = norm_site(rng.pick(SITES)).to_string();
        view.sites.insert(site.clone(), None);
        if rng.chance(4) {
            continue;
        }
        for _ in 0..1 + rng.below(3) {
            let id = (site.clone(), rng.pick(NAMES).to_string(), norm_rev(rng.pick(REVS)).to_string());
            let value = if rng.chance(2) {
                Value::Stored(line(rng))
            } else {
                Value::Generated { length: 4 + rng.below(21), classes: 1 + rng.below(15) as u8 }
            };
            let notes = if rng.chance(2) { line(rng) } else { String::new() };
            view.entries.insert(id, Entry { value, notes });
        }
    }
    for _ in 0..rng.below(5) {
        let site = norm_site(rng.pick(SITES)).to_string();
        let target = view.resolve(rng.pick(SITES));
        let is_target = view.sites.values().any(|a| a.as_ref() == Some(&site));
        if target != site && !view.has_passwords(&site) && !is_target {
            view.sites.insert(site, Some(target));
        }
    }
    view
}

/// Text without line breaks and without white space around it
pub fn line(rng: &mut Rng) -> String {
    let n = rng.below(25);
    let t: String = (0..n)
        .map(|_| match rng.below(8) {
            0 => char::from_u32(0xa1 + rng.below(0x150) as u32).unwrap(),
            1 => char::from_u32(0x1f600 + rng.below(0x40) as u32).unwrap(),
            _ => (33 + rng.below(94)) as u8 as char,
        })
        .collect();
    t.trim().to_string()
}

/// An existing identity in one of its spellings, or another one: (site, name, revision)
fn identity(rng: &mut Rng, view: &View, existing: usize) -> (String, String, String) {
    if !view.entries.is_empty() && rng.below(10) < existing {
        let ids: Vec<&Id> = view.entries.keys().collect();
        let id = ids[rng.below(ids.len())];
        let mut site = id.0.clone();
        let aliases: Vec<&String> = view.sites.iter().filter(|(_, a)| a.as_ref() == Some(&id.0)).map(|(s, _)| s).collect();
        if !aliases.is_empty() && rng.chance(2) {
            site = aliases[rng.below(aliases.len())].clone();
        }
        if site.starts_with("www.") || rng.chance(2) {
            site = format!("www.{}", site);
        }
        let rev = if id.2.is_empty() && rng.chance(2) { "1".to_string() } else { id.2.clone() };
        (site, id.1.clone(), rev)
    } else {
        (rng.pick(SITES).to_string(), rng.pick(NAMES).to_string(), rng.pick(REVS).to_string())
    }
}

/// C18: adding over an existing password
pub fn consent(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "consent", seed);
    for _ in 0..8 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        case.store(&mut rng);
        let before = case.bytes();
        let (site, name, rev) = identity(&mut rng, &case.view, 7);
        let id = case.view.id(&site, &name, &rev);
        let exists = case.view.entries.contains_key(&id);
        let yes = rng.chance(4);
        let reply = rng.pick(&["y", "yes", "YES", "n", "no", "", "No"]);
        let agrees = reply.to_lowercase().starts_with('y');
        let stored = rng.chance(2);
        let value = line(&mut rng);
        let mut args = vec![if stored { "add-stored" } else { "add" }];
        let rev_arg = format!("-r={}", rev);
        if !rev.is_empty() {
            args.push(&rev_arg);
        } else {
            args.extend(["--revision", ""]);
        }
        if yes {
            args.push("-y");
        }
        args.extend(["--", &site, &name]);
        let mut answers = vec![UNLOCK];
        let prompt = exists && !yes;
        if prompt {
            answers.push(("Overwrite?", reply));
        }
        if stored && (!prompt || agrees) {
            answers.push(("Password to be stored: ", &value));
        }
        ctx.case("add", || format!("{:?} {:?} exists {}", args, reply, exists));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || describe(&args, &answers, &case.view, &o);
        let prompts = o.stdout.matches("Overwrite?").count();
        ctx.check(&["C18"], prompts == prompt as usize, || format!("{} prompts instead of {}", prompts, prompt as usize), &say);
        let mut want = case.view.clone();
        if prompt && !agrees {
            ctx.check(&["C18"], case.bytes() == before, || "the storage file changed though the answer was no".into(), &say);
            ctx.check(&["C18"], o.code == Some(0), || "not successful though the answer was no".into(), &say);
        } else {
            want.sites.entry(id.0.clone()).or_insert(None);
            let value = if stored { Value::Stored(value.clone()) } else { Value::Generated { length: 16, classes: 15 } };
            want.entries.insert(id, Entry { value, notes: String::new() });
            let got = case.read();
            ctx.check(&["C18", "C19"], o.code == Some(0) && got.as_ref() == Ok(&want), || format!("storage {:?} instead of {:?}", got, want), &say);
        }
    }
}

/// C18, C19: setting a primary password
pub fn set_primary(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "primary", seed);
    for _ in 0..6 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        let _ = std::fs::remove_file(&case.file);
        let exists = !rng.chance(3);
        if exists {
            case.store(&mut rng);
        } else if rng.chance(3) {
            std::fs::write(&case.file, "{}").unwrap();
        }
        let before = case.bytes();
        let yes = rng.chance(3);
        let reply = rng.pick(&["y", "yes", "n", "no", "", "NO"]);
        let agrees = reply.to_lowercase().starts_with('y');
        let first = rng.pick(&["abcdef", " abcdef ", "abcde", "abcde ", "", "1234567890", "\u{fc}\u{fc}\u{fc}", "\u{fc}\u{fc}x", "pass phrase", "\t  \t abc  "]);
        let second = if rng.chance(3) { rng.pick(&["abcdef", "abcdeF", "", " 1234567890", "abcdefg"]).to_string() } else if rng.chance(2) { format!(" {}", first) } else { first.to_string() };
        let mut args = vec!["set-primary"];
        if yes {
            args.push("-y");
        }
        let mut answers = Vec::new();
        let prompt = exists && !yes;
        if prompt {
            answers.push(("Continue?", reply));
        }
        let long = first.trim().len() >= 6;
        let valid = long && first.trim() == second.trim();
        let proceeds = !prompt || agrees;
        if proceeds {
            answers.push(("New primary password: ", first));
            if long {
                answers.push(("Repeat primary password: ", second.as_str()));
            }
        }
        ctx.case("set-primary", || format!("{:?} {:?} exists {}", args, answers, exists));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || describe(&args, &answers, &case.view, &o);
        let prompts = o.stdout.matches("Continue?").count();
        ctx.check(&["C18"], prompts == prompt as usize, || format!("{} prompts instead of {}", prompts, prompt as usize), &say);
        if !proceeds {
            ctx.check(&["C18"], case.bytes() == before && o.code == Some(0), || "answer no: storage changed or not successful".into(), &say);
        } else if !valid {
            ctx.check(&["C19"], case.bytes() == before && o.code != Some(0), || "invalid primary password: storage changed or successful".into(), &say);
        } else {
            let got = case.data().and_then(|d| {
                let salt = base64::decode(d.get("salt").ok_or("no salt")?).map_err(|_| "salt")?;
                case.read_with(&enc_key(first.trim(), &salt))
            });
            ctx.check(&["C19", "C12"], o.code == Some(0) && got == Ok(View::default()), || format!("storage {:?}", got), &say);
        }
    }
}

/// C19: parameters of generated passwords
pub fn add(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "add", seed);
    for _ in 0..10 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        case.store(&mut rng);
        let before = case.bytes();
        let (site, name, rev) = identity(&mut rng, &case.view, 2);
        let id = case.view.id(&site, &name, &rev);
        let length = if rng.chance(5) { rng.pick(&["", "abc", "-5", "4.0", "0x10", "99999999999999999999999", "18446744073709551620", " 8", "1e1"]).to_string() } else { rng.below(31).to_string() };
        let excluded = rng.below(16) as u8;
        let (len_arg, rev_arg) = (format!("-l={}", length), format!("--revision={}", rev));
        let mut args = vec!["add", "-y"];
        let long = rng.chance(2);
        let default = rng.chance(6);
        if !default {
            args.push(&len_arg);
        }
        if rev != "1" || rng.chance(2) {
            if rev.is_empty() {
                args.extend(["-r", ""]);
            } else {
                args.push(&rev_arg);
            }
        }
        for (i, (s, l)) in [("-w", "--no-lower"), ("-u", "--no-upper"), ("-d", "--no-digit"), ("-s", "--no-symbol")].iter().enumerate() {
            if excluded >> i & 1 == 1 {
                args.push(if long { l } else { s });
            }
        }
        args.extend(["--", &site, &name]);
        let answers = [UNLOCK];
        ctx.case("add parameters", || format!("{:?}", args));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || describe(&args, &answers, &case.view, &o);
        let parsed = if default { Some(16) } else { length.parse::<usize>().ok() };
        match parsed.filter(|l| (4..=24).contains(l) && excluded != 15) {
            None => {
                ctx.check(&["C19"], case.bytes() == before && o.code != Some(0), || "invalid parameters: storage changed or successful".into(), &say);
            }
            Some(length) => {
                let mut want = case.view.clone();
                want.sites.entry(id.0.clone()).or_insert(None);
                want.entries.insert(id, Entry { value: Value::Generated { length, classes: 15 & !excluded }, notes: String::new() });
                let got = case.read();
                ctx.check(&["C19"], o.code == Some(0) && got.as_ref() == Ok(&want), || format!("storage {:?} instead of {:?}", got, want), &say);
            }
        }
    }
}

fn shown(id: &Id, entry: &Entry) -> String {
    match &entry.value {
        Value::Stored(p) => p.clone(),
        Value::Generated { length, classes } => generated(PRIMARY, &id.0, &id.1, &id.2, *length, *classes),
    }
}

/// C20: listing
pub fn list(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "list", seed);
    for _ in 0..6 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        case.store(&mut rng);
        let show = rng.chance(3);
        let verbose = rng.chance(3);
        let recovery = rng.chance(5);
        let mut args = vec!["list"];
        if show {
            args.push("-s");
        }
        if verbose {
            args.push("-v");
        }
        if recovery {
            args.push("-r");
        }
        let (mut domain, mut name) = ("*", "*");
        if rng.chance(3) {
            domain = rng.pick(&["a*", "*", "example.com", "www.a", "a", "*.com", "nothing", "?"]);
            args.push("--");
            args.push(domain);
            if rng.chance(2) {
                name = rng.pick(&["*", "a", "*b", "foo*", "?", ""]);
                args.push(name);
            }
        }
        let answers = [UNLOCK];
        ctx.case("list", || format!("{:?} {:?}", args, case.view));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let view = &case.view;
        let say = || describe(&args, &answers, view, &o);
        // expected: sites matching by name or alias target, and targets of matching aliases
        let mut sites: Vec<String> = Vec::new();
        for (s, a) in &view.sites {
            if wild(domain, s) || a.as_ref().map(|a| wild(domain, a)).unwrap_or(false) {
                sites.push(a.clone().unwrap_or(s.clone()));
            }
        }
        sites.sort();
        sites.dedup();
        let mut want: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
        for (id, e) in &view.entries {
            if sites.contains(&id.0) && wild(name, &id.1) {
                let kind = if matches!(e.value, Value::Stored(_)) { "stored" } else { "generated" };
                let mut lines = vec![if id.2.is_empty() { format!("    {} ({})", id.1, kind) } else { format!("    {} ({}, revision: {})", id.1, kind, id.2) }];
                if show {
                    lines.push(format!("        {}", shown(id, e)));
                }
                want.entry(id.0.clone()).or_default().push(lines);
            }
        }
        // what was printed
        let text = o.stdout.strip_prefix("Your primary password: ").unwrap_or(&o.stdout);
        let mut got: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
        let mut site = None;
        let mut doubled = false;
        for l in text.split('\n') {
            if let Some(s) = l.strip_prefix("Passwords for ").and_then(|s| s.strip_suffix(':')) {
                doubled |= got.contains_key(s);
                got.entry(s.to_string()).or_default();
                site = Some(s.to_string());
            } else if let Some(s) = &site {
                let list = got.get_mut(s).unwrap();
                if l.starts_with("        ") {
                    if show && list.last().map(|x| x.len() == 1).unwrap_or(false) {
                        list.last_mut().unwrap().push(l.to_string());
                    }
                } else if l.starts_with("    ") && !l.starts_with("    Aliases: ") {
                    list.push(vec![l.to_string()]);
                }
            }
        }
        for v in got.values_mut().chain(want.values_mut()) {
            v.sort();
        }
        ctx.check(&["C20"], o.code == Some(0), || "list failed".into(), &say);
        ctx.check(&["C20", "C16"], got == want && !doubled, || format!("listed {:?} instead of {:?}", got, want), &say);
        if recovery && o.code == Some(0) {
            let k = key(PRIMARY, &SALT);
            let mut codes: Vec<String> = Vec::new();
            let mut lines = text.split('\n').peekable();
            while let Some(l) = lines.next() {
                if l == "        Recovery code:" {
                    let mut code = String::new();
                    while let Some(n) = lines.peek() {
                        if n.starts_with("        ") && n.len() <= 8 + 29 && kept(n.as_bytes()).len() >= 24 && !n.contains("Notes:") {
                            code.push_str(n);
                            code.push('\n');
                            let full = matches!(rows(code.as_bytes()), Rows::Complete(_));
                            lines.next();
                            if full {
                                break;
                            }
                        } else {
                            break;
                        }
                    }
                    codes.push(match decode(code.as_bytes(), |_| k.clone()) {
                        Decoded::Password(p) => p,
                        other => format!("{:?}", other),
                    });
                }
            }
            let mut want: Vec<String> = view.entries.iter().filter(|(i, _)| sites.contains(&i.0) && wild(name, &i.1)).filter_map(|(_, e)| match &e.value { Value::Stored(p) => Some(p.clone()), _ => None }).collect();
            codes.sort();
            want.sort();
            ctx.check(&["C20", "C03"], codes == want, || format!("recovery codes of {:?} instead of {:?}", codes, want), &say);
        }
        // what remains
        match case.read() {
            Err(e) => {
                ctx.check(&["C20"], false, || format!("storage unreadable: {}", e), &say);
            }
            Ok(after) => {
                let mut ok = after.entries == view.entries;
                for (s, a) in &view.sites {
                    let kept = after.sites.get(s) == Some(a);
                    let removable = a.is_none() && !view.has_passwords(s) && name == "*";
                    ok &= kept || (removable && !after.sites.contains_key(s));
                }
                ok &= after.sites.keys().all(|s| view.sites.contains_key(s));
                ctx.check(&["C20"], ok, || format!("storage holds {:?} afterwards", after), &say);
            }
        }
    }
}

pub fn render(text: &str) -> Option<String> {
    let qr = qrcodegen::QrCode::encode_text(text, qrcodegen::QrCodeEcc::Low).ok()?;
    let mut out = String::new();
    let mut y = 0;
    while y < qr.size() {
        for x in 0..qr.size() {
            out.push(match (qr.get_module(x, y), qr.get_module(x, y + 1)) {
                (false, false) => ' ',
                (true, false) => '\u{2580}',
                (false, true) => '\u{2584}',
                (true, true) => '\u{2588}',
            });
        }
        out.push('\n');
        y += 2;
    }
    Some(out)
}

/// C21: showing
pub fn show(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "show", seed);
    for _ in 0..8 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        let (site, name, rev) = identity(&mut rng, &case.view, 4);
        let id = case.view.id(&site, &name, &rev);
        let value = match rng.below(6) {
            0 => Value::Generated { length: 4 + rng.below(21), classes: 1 + rng.below(15) as u8 },
            1 => Value::Stored("x".repeat(rng.below(400))),
            2 => Value::Stored(format!(" {}  ", line(&mut rng))),
            3 => Value::Stored(format!("{}\t\n{}", line(&mut rng), line(&mut rng))),
            4 => Value::Stored((0..rng.below(30)).map(|_| char::from(48 + rng.below(10) as u8)).collect()),
            _ => Value::Stored(line(&mut rng)),
        };
        case.view.sites.entry(id.0.clone()).or_insert(None);
        case.view.entries.insert(id.clone(), Entry { value, notes: line(&mut rng) });
        case.store(&mut rng);
        let want = shown(&id, &case.view.entries[&id]);
        let qr = rng.chance(2);
        let rev_arg = format!("--revision={}", rev);
        let mut args = vec!["show"];
        if qr {
            args.push("-q");
        }
        if rev.is_empty() {
            args.extend(["-r", ""]);
        } else {
            args.push(&rev_arg);
        }
        args.extend(["--", &site, &name]);
        let answers = [UNLOCK];
        let before = case.bytes();
        ctx.case("show", || format!("{:?} {:?}", args, want));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || describe(&args, &answers, &case.view, &o);
        if qr {
            if let Some(code) = render(&want) {
                let ok = o.stdout.ends_with(&format!("\n{}", code)) && (want.chars().count() < 6 || !o.stdout.contains(&want));
                ctx.check(&["C21"], o.code == Some(0) && ok, || format!("QR code of {:?} expected:\n{}", want, code), &say);
            } else {
                ctx.check(&["C21"], o.code == Some(1), || "too long for a QR code".into(), &say);
            }
        } else {
            let ok = o.stdout.ends_with(&format!("\n{}\n", want));
            ctx.check(&["C21"], o.code == Some(0) && ok, || format!("password {:?} expected", want), &say);
        }
        ctx.check(&["C21", "C14"], case.bytes() == before, || "showing changed the storage".into(), &say);
    }
}

/// C22: recovery codes entered line by line
pub fn recovery(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "recovery", seed);
    for _ in 0..6 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        case.store(&mut rng);
        let before = case.bytes();
        let salt = if rng.chance(2) { SALT } else { *b"another salt 123" };
        let mut password = if rng.chance(4) { "long ".repeat(rng.below(20)) + "!" } else { line(&mut rng) };
        if rng.chance(6) {
            password = format!("  {} ", password);
        }
        let rows_ = code_rows(&mut rng, password.as_bytes(), &salt, &key(PRIMARY, &salt));
        let total = rows_.len();
        let mut lines: Vec<String> = Vec::new();
        let mut at = 0;
        let mut ended = false; // aborted on purpose
        let mut extra = None;
        let decorate = |rng: &mut Rng, t: &str| -> String {
            let t = if rng.chance(2) { punctuate(&kept(t.as_bytes())).replace('\n', " ") } else { t.to_string() };
            if rng.chance(3) { t.to_lowercase() } else { t }
        };
        while at < total {
            // wrong rows in between
            if rng.chance(3) {
                let mut wrong = if rng.chance(2) && at + 1 < total { rows_[at + 1].clone() } else { rows_[at].clone() };
                if wrong == rows_[at] {
                    let p = rng.below(24);
                    let c = ALPHABET.as_bytes()[rng.below(32)] as char;
                    wrong.replace_range(p..p + 1, &c.to_string());
                }
                let bytes = b32_decode(&wrong);
                if bytes[14] != pearson(&bytes[..14], at as u8) && bytes[14] != pearson(&bytes[..14], 255 - at as u8) {
                    // some right rows may come before the wrong one in the same line
                    let ahead = rng.below(total - at);
                    if ahead > 0 && rng.chance(2) {
                        let mut l = rows_[at..at + ahead].concat();
                        at += ahead;
                        let b = b32_decode(&wrong);
                        if b[14] != pearson(&b[..14], at as u8) && b[14] != pearson(&b[..14], 255 - at as u8) {
                            l.push_str(&wrong);
                        }
                        lines.push(decorate(&mut rng, &l));
                        continue;
                    }
                    lines.push(decorate(&mut rng, &wrong));
                    continue;
                }
            }
            if rng.chance(20) && at > 0 {
                lines.push(String::new());
                ended = true;
                break;
            }
            if rng.chance(5) {
                // a part of a row that the next line makes wrong: both are rejected
                let cut = 1 + rng.below(23);
                let mut wrong = rows_[at].clone();
                let p = rng.below(26);
                let c = ALPHABET.as_bytes()[rng.below(32)] as char;
                if p < 24 {
                    wrong.replace_range(p..p + 1, &c.to_string());
                } else {
                    wrong = rows_[at][..cut].to_string() + &rows_[at];
                }
                let b = b32_decode(&wrong[..24]);
                if b[14] != pearson(&b[..14], at as u8) && b[14] != pearson(&b[..14], 255 - at as u8) {
                    lines.push(decorate(&mut rng, &wrong[..cut]));
                    lines.push(decorate(&mut rng, &wrong[cut..]));
                    continue;
                }
            }
            if rng.chance(4) {
                // one row in several lines
                let cut = 1 + rng.below(23);
                lines.push(decorate(&mut rng, &rows_[at][..cut]));
                lines.push(decorate(&mut rng, &rows_[at][cut..]));
                at += 1;
                continue;
            }
            let n = 1 + rng.below(total - at);
            let mut l = decorate(&mut rng, &rows_[at..at + n].concat());
            at += n;
            if at == total && rng.chance(3) {
                l.push_str(if rng.chance(2) { "AB" } else { &rows_[0] });
                extra = Some(rng.pick(&["y", "", "n"]));
            }
            lines.push(l);
        }
        let (site, name, rev) = identity(&mut rng, &case.view, 2);
        let id = case.view.id(&site, &name, &rev);
        let rev_arg = format!("--revision={}", rev);
        let mut args = vec!["add-stored", "-y", "-c"];
        if rev.is_empty() {
            args.extend(["-r", ""]);
        } else {
            args.push(&rev_arg);
        }
        args.extend(["--", &site, &name]);
        let mut answers = vec![UNLOCK];
        for l in &lines {
            answers.push(("Next line of your recovery code", l.as_str()));
        }
        let mut refuse = ended;
        if let Some(reply) = extra {
            answers.push(("Ignore the extra data", reply));
            refuse |= reply == "n";
        }
        ctx.case("recovery code lines", || format!("{:?} for {:?}", lines, password));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || format!("password {:?}\n{}", password, describe(&args, &answers, &case.view, &o));
        if refuse {
            ctx.check(&["C22"], case.bytes() == before, || "aborted but the storage changed".into(), &say);
        } else {
            let mut want = case.view.clone();
            want.sites.entry(id.0.clone()).or_insert(None);
            want.entries.insert(id, Entry { value: Value::Stored(password.clone()), notes: String::new() });
            let got = case.read();
            ctx.check(&["C22"], o.code == Some(0) && got.as_ref() == Ok(&want), || format!("storage {:?} instead of {:?}", got, want), &say);
        }
    }
}

/// Notes, aliases and removal
pub fn misc(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "misc", seed);
    for _ in 0..8 {
        if ctx.stop() {
            return;
        }
        case.view = if rng.chance(8) { random_view(&mut rng) } else { cli_view(&mut rng) };
        case.store(&mut rng);
        let before = case.bytes();
        let (site, name, rev) = identity(&mut rng, &case.view, 8);
        if [&site, &name, &rev].iter().any(|t| t.contains('\0')) {
            continue;
        }
        let id = case.view.id(&site, &name, &rev);
        let rev_arg = format!("--revision={}", rev);
        let notes = line(&mut rng) + if rng.chance(3) { " " } else { "" };
        let mut want = case.view.clone();
        let mut answers = vec![UNLOCK];
        let mut args;
        let tags: &[&str];
        let exists = case.view.entries.contains_key(&id);
        let mut ok = exists;
        let target = rng.pick(SITES);
        match rng.below(4) {
            0 => {
                args = vec!["notes", "-s"];
                tags = &["C10"];
                if exists {
                    answers.push(("Please enter new notes to be stored:", &notes));
                    want.entries.get_mut(&id).unwrap().notes = notes.clone();
                }
            }
            1 => {
                args = vec!["remove"];
                tags = &["C07"];
                want.entries.remove(&id);
            }
            2 => {
                args = vec!["alias", "-r"];
                tags = &["C09"];
                let alias = norm_site(&site);
                ok = matches!(want.sites.get(alias), Some(Some(_)));
                if ok {
                    want.sites.remove(alias);
                }
            }
            _ => {
                args = vec!["alias"];
                tags = &["C09"];
                let alias = norm_site(&site).to_string();
                let resolved = case.view.resolve(target);
                let back = matches!(case.view.sites.get(&resolved), Some(Some(a)) if *a == alias);
                ok = !case.view.has_passwords(&alias) && resolved != alias && !back;
                if ok {
                    for other in want.sites.values_mut() {
                        if other.as_ref() == Some(&alias) {
                            *other = Some(resolved.clone());
                        }
                    }
                    want.sites.insert(alias, Some(resolved));
                }
            }
        }
        let command = args[0];
        if command != "alias" {
            if rev.is_empty() {
                args.extend(["-r", ""]);
            } else {
                args.push(&rev_arg);
            }
        }
        args.extend(["--", &site]);
        if command != "alias" {
            args.push(&name);
        } else if args[1] != "-r" {
            args.push(target);
        }
        ctx.case("command", || format!("{:?} {:?}", args, case.view));
        let o = run(ctx, &case.dir, &case.file, &args, &answers);
        let say = || describe(&args, &answers, &case.view, &o);
        let got = case.read();
        ctx.check(tags, (o.code == Some(0)) == ok && got.as_ref() == Ok(&want), || format!("storage {:?} instead of {:?}", got, want), &say);
        if !ok {
            ctx.check(tags, case.bytes() == before, || "refused but the storage file changed".into(), &say);
        }
        if command == "notes" && exists {
            let old = &case.view.entries[&id].notes;
            ctx.check(tags, old.is_empty() || o.stdout.contains(&format!("{}\n", old)), || "old notes not shown".into(), &say);
        }
    }
}

/// A word as it is typed into the shell
fn quoted(rng: &mut Rng, word: &str) -> String {
    let plain = !word.is_empty() && word.chars().all(|c| c.is_ascii_alphanumeric() || "-=.,@".contains(c));
    match rng.below(3) {
        0 if plain => word.to_string(),
        1 if !word.contains(|c| "\"\\$`".contains(c)) => format!("\"{}\"", word),
        _ => format!("'{}'", word.replace('\'', "'\\''")),
    }
}

/// C25: commands in the shell and one by one
pub fn shell(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut case = Case::new(ctx, "shell", seed);
    let single = Case::new(ctx, "single", seed);
    for _ in 0..3 {
        if ctx.stop() {
            return;
        }
        case.view = cli_view(&mut rng);
        case.store(&mut rng);
        std::fs::copy(&case.file, &single.file).unwrap();
        let history = format!("{}/history", case.dir.display());
        let mut answers: Vec<(&str, String)> = Vec::new();
        let mut locked = true;
        let mut sound = true;
        let mut last: Option<(String, String, String, String, usize)> = None;
        for _ in 0..1 + rng.below(9) {
            if rng.chance(4) {
                let noise = rng.pick(&["lock", "lock", "lock", "", "   ", "nonsense", "add 'x", "shell", "set-primary", "set-primary -y", "help", "help add", "add", "exit now", "lock it", "add -l 3 x y", "#", "lockx", "EXIT"]);
                answers.push(("pfp> ", noise.to_string()));
                locked |= noise == "lock";
                continue;
            }
            let before = match single.read() {
                Ok(view) => view,
                Err(_) => break,
            };
            let (mut site, mut name, mut rev) = identity(&mut rng, &before, 7);
            let mut kind = rng.below(9);
            let mut again = None;
            if let (Some(l), true) = (&last, rng.chance(4)) {
                // the same line once more
                (site, name, rev, kind) = (l.0.clone(), l.1.clone(), l.2.clone(), l.4);
                again = Some(l.3.clone());
            }
            let id = before.id(&site, &name, &rev);
            let value = line(&mut rng);
            let spelled = rev.clone();
            let rev = format!("--revision={}", rev);
            let target = SITES[site.len() % SITES.len()];
            let length = format!("--length={}", 4 + site.len() % 21);
            let mut args: Vec<&str>;
            let mut more: Vec<(&str, String)> = Vec::new();
            let exists = before.entries.contains_key(&id);
            match kind {
                0 | 1 => {
                    args = vec!["add", &rev, &length];
                    if name.is_empty() {
                        args.push("-d");
                    }
                    if kind == 0 {
                        args.push("-y");
                    } else if exists {
                        more.push(("Overwrite?", rng.pick(&["y", "n"]).to_string()));
                    }
                }
                2 => {
                    args = vec!["add-stored", "-y", &rev];
                    more.push(("Password to be stored: ", value.clone()));
                }
                3 => args = vec!["remove", &rev],
                4 => {
                    args = vec!["notes", "-s", &rev];
                    if exists {
                        more.push(("Please enter new notes to be stored:", value.clone()));
                    }
                }
                5 => args = vec!["alias", "-r"],
                6 => args = vec!["alias"],
                7 => args = vec!["show", &rev],
                _ => args = vec!["list"],
            }
            let command = args[0];
            if command == "list" {
                if name.is_empty() {
                    args.push("*");
                }
            } else {
                args.extend(["--", &site]);
                match command {
                    "alias" => if args[1] != "-r" { args.push(target) },
                    _ => args.push(&name),
                }
            }
            let mut answered: Vec<(&str, &str)> = vec![UNLOCK];
            answered.extend(more.iter().map(|a| (a.0, a.1.as_str())));
            let o = run(ctx, &single.dir, &single.file, &args, &answered);
            if o.hung || (o.unused > 0 && o.unused != answered.len()) {
                sound = false;
                break;
            }
            let mut text = String::new();
            for a in &args {
                text.push_str(&quoted(&mut rng, a));
                text.push_str(rng.pick(&[" ", "  "]));
            }
            let text = again.unwrap_or(text);
            answers.push(("pfp> ", text.clone()));
            last = Some((site.clone(), name.clone(), spelled, text, kind));
            if o.unused == 0 {
                if locked {
                    answers.push((UNLOCK.0, UNLOCK.1.to_string()));
                }
                locked = false;
                answers.extend(more);
            }
        }
        if !sound {
            continue;
        }
        answers.push(("pfp> ", "exit".to_string()));
        let answered: Vec<(&str, &str)> = answers.iter().map(|a| (a.0, a.1.as_str())).collect();
        let args = ["shell", "-s", history.as_str()];
        ctx.case("shell session", || format!("{:?} {:?}", answered, case.view));
        let o = run(ctx, &case.dir, &case.file, &args, &answered);
        let say = || describe(&args, &answered, &case.view, &o);
        let (got, want) = (case.read(), single.read());
        ctx.check(&["C25"], got == want, || format!("storage {:?} instead of {:?} as with separate commands", got, want), &say);
        ctx.check(&["C25"], o.unused == 0 && !o.hung && o.code == Some(0), || format!("other questions than expected: {} of the answers not asked for", o.unused), &say);
    }
}
