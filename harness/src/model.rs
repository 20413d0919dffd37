//! Random histories of library operations, compared with a model and with the decrypted storage.
use crate::ctx::Ctx;
use crate::mem::{free, leak, st, MemIO};
use crate::oracle::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_types::{CharacterSet, CharacterType, Password};
use secrecy::{ExposeSecret, SecretString};
use std::collections::{BTreeMap, HashMap};

pub const SITES: &[&str] = &[
    "example.com", "www.example.com", "www.www.example.com", "Example.com", "a", "ab", "b", "www.a", "sub.example.com",
    " a", "a ", "www.", "www", "", "example.net", "example.org", "*", "a:b", "b\u{fc}cher.de", "wwwa", "WWW.a", "www.www.www.a",
];
pub const NAMES: &[&str] = &["", "a", "b", "ab", "foo", "Foo", "foo ", "f*", "\u{1f600}", "me@example.com", "foobar", "?", "b\"\\\n"];
pub const REVS: &[&str] = &["", "1", "2", "01", "1 ", "10", "a", "11", "b"];
pub const TEXTS: &[&str] = &[
    "", "secret", " padded ", "tab\tnewline\n\"quote\"\\", "\u{0}nul\u{0}", "\u{1f600}\u{fc}\u{4e00}", "x",
    "long text long text long text long text long text long text long text", "null", "{\"a\":1}", "\u{7f}\u{80}\u{ffff}", "\r\n",
];
pub const PATTERNS: &[&str] = &["*", "", "a*", "?", "foo*", "*o*", "F*", "f??", "**", "foo", "*b", "a?", "??"];

pub fn text(rng: &mut Rng) -> String {
    if rng.chance(2) {
        rng.pick(TEXTS).to_string()
    } else {
        let n = rng.below(40);
        (0..n)
            .map(|_| match rng.below(6) {
                0 => char::from_u32(rng.below(0x250) as u32).unwrap(),
                1 => char::from_u32(0x4e00 + rng.below(0x100) as u32).unwrap(),
                2 => char::from_u32(0x1f600 + rng.below(0x40) as u32).unwrap(),
                _ => (32 + rng.below(95)) as u8 as char,
            })
            .collect()
    }
}

pub fn charset(classes: u8) -> CharacterSet {
    let mut set = CharacterSet::empty();
    let all = [CharacterType::Lower, CharacterType::Upper, CharacterType::Digit, CharacterType::Symbol];
    for (i, c) in all.iter().enumerate() {
        if classes >> i & 1 == 1 {
            set.insert(*c);
        }
    }
    set
}

pub fn secret(text: &str) -> SecretString {
    SecretString::new(text.to_string())
}

pub fn entry_of(password: &Password) -> (Id, Entry) {
    let id = password.id();
    let id = (id.site().to_string(), id.name().to_string(), id.revision().to_string());
    let notes = password.notes().expose_secret().clone();
    let value = match password {
        Password::Stored(p) => Value::Stored(p.password().expose_secret().clone()),
        Password::Generated(p) => {
            let mut classes = 0;
            let all = [CharacterType::Lower, CharacterType::Upper, CharacterType::Digit, CharacterType::Symbol];
            for (i, c) in all.iter().enumerate() {
                if p.charset().contains(*c) {
                    classes |= 1 << i;
                }
            }
            Value::Generated { length: p.length(), classes }
        }
    };
    (id, Entry { value, notes })
}

fn kind<T>(r: &Result<T, Error>) -> String {
    match r {
        Ok(_) => "Ok".to_string(),
        Err(e) => format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string(),
    }
}

pub fn random_view(rng: &mut Rng) -> View {
    let mut view = View::default();
    for _ in 0..rng.below(8) {
        let site = norm_site(rng.pick(SITES)).to_string();
        if matches!(view.sites.get(&site), Some(Some(_))) {
            continue;
        }
        view.sites.insert(site.clone(), None);
        if rng.chance(4) {
            continue;
        }
        let id = (site, rng.pick(NAMES).to_string(), norm_rev(rng.pick(REVS)).to_string());
        let value = if rng.chance(2) {
            Value::Stored(text(rng))
        } else {
            Value::Generated { length: 1 + rng.below(30), classes: 1 + rng.below(15) as u8 }
        };
        let notes = if rng.chance(2) { text(rng) } else { String::new() };
        view.entries.insert(id, Entry { value, notes });
    }
    for _ in 0..rng.below(4) {
        let site = norm_site(rng.pick(SITES)).to_string();
        let target = view.resolve(rng.pick(SITES));
        let is_target = view.sites.values().any(|a| a.as_ref() == Some(&site));
        if target != site && !view.has_passwords(&site) && !is_target {
            view.sites.insert(site, Some(target));
        }
    }
    view
}

struct Run<'a> {
    ctx: &'a Ctx,
    seed: u64,
    log: Vec<String>,
}

impl Run<'_> {
    fn check(&self, tags: &[&str], ok: bool, what: impl FnOnce() -> String) -> bool {
        let log = &self.log;
        let seed = self.seed;
        self.ctx.check(tags, ok, what, &|| format!("history (seed {}):\n{}", seed, log.join("\n")))
    }
}

const MUT: &[&str] = &["C06", "C07", "C08", "C09", "C10", "C14", "C16", "C17"];

fn diff(old: &View, want: &View, got: &View) -> Vec<&'static str> {
    let mut tags = Vec::new();
    let mut ids: Vec<&Id> = want.entries.keys().chain(got.entries.keys()).collect();
    ids.sort();
    ids.dedup();
    for id in ids {
        let (w, g, o) = (want.entries.get(id), got.entries.get(id), old.entries.get(id));
        if w == g {
            continue;
        }
        if w != o {
            // the entry the operation is about
            tags.push("C06");
            tags.push("C08");
            match (w, g) {
                (Some(w), Some(g)) if w.notes != g.notes => tags.push("C10"),
                (Some(w), Some(g)) if Some(&w.value) == o.map(|o| &o.value) && w.value != g.value => tags.push("C10"),
                (Some(w), None) if Some(&w.value) == o.map(|o| &o.value) => tags.push("C10"),
                (None, _) => tags.push("C07"),
                _ => {}
            }
        } else {
            tags.push("C07");
            if o.is_none() {
                tags.push("C08");
            }
        }
    }
    let mut sites: Vec<&String> = want.sites.keys().chain(got.sites.keys()).collect();
    sites.sort();
    sites.dedup();
    for site in sites {
        let (w, g, o) = (want.sites.get(site), got.sites.get(site), old.sites.get(site));
        if w == g {
            continue;
        }
        tags.push("C07");
        if matches!(w, Some(Some(_))) || matches!(g, Some(Some(_))) || matches!(o, Some(Some(_))) {
            tags.push("C09");
        }
    }
    tags.sort();
    tags.dedup();
    tags
}

pub fn history(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut run = Run { ctx, seed, log: Vec::new() };
    let mut primary = ["my primary", "p\u{e4}ss", "123456"][rng.below(3)].to_string();
    let mut view;
    let data;
    let mut initialized = true;
    if rng.chance(6) {
        data = HashMap::new();
        initialized = false;
        view = View::default();
    } else {
        view = random_view(&mut rng);
        let salt = rng.bytes(16);
        let key = enc_key(&primary, &salt);
        let secret = rng.bytes(32);
        data = write(&mut rng, &view, &salt, &key, &secret);
    }
    run.log.push(format!("storage: {:?}", if initialized { Some(&view) } else { None }));
    let state = leak(data);
    let mut passwords = Passwords::new(MemIO(state));
    let mut unlocked = false;
    let mut key: Vec<u8> = Vec::new();
    let mut all_nonces: std::collections::BTreeSet<Vec<u8>> = Default::default();
    let mut prev_secret: Option<Vec<u8>> = None;
    let mut good = true;
    let steps = 10 + rng.below(50);
    for step in 0..steps {
        if !good {
            break;
        }
        let before = st(state).data.clone();
        let saved_before = st(state).saved.clone();
        let flushes = st(state).flushes;
        let old = view.clone();
        let was_unlocked = unlocked;
        let site = rng.pick(SITES);
        let name = rng.pick(NAMES);
        let rev = rng.pick(REVS);
        // prefer existing entries, with varied spelling
        let (mut site, mut name, mut rev) = (site.to_string(), name.to_string(), rev.to_string());
        if !view.entries.is_empty() && rng.chance(2) {
            let ids: Vec<&Id> = view.entries.keys().collect();
            let id = ids[rng.below(ids.len())];
            site = id.0.clone();
            let aliases: Vec<&String> = view.sites.iter().filter(|(_, a)| a.as_ref() == Some(&id.0)).map(|(s, _)| s).collect();
            if !aliases.is_empty() && rng.chance(2) {
                site = aliases[rng.below(aliases.len())].clone();
            }
            if rng.chance(2) || site.starts_with("www.") {
                site = format!("www.{}", site);
            }
            name = id.1.clone();
            rev = if id.2.is_empty() && rng.chance(2) { "1".to_string() } else { id.2.clone() };
            match rng.below(10) {
                0 => rev = rng.pick(REVS).to_string(),
                1 => name = rng.pick(NAMES).to_string(),
                _ => {}
            }
        }
        let id = view.id(&site, &name, &rev);
        let fail = rng.chance(12);
        st(state).fail = fail;
        let mut op = rng.below(26);
        if step == 0 && initialized || (!unlocked && rng.chance(3)) {
            op = 0;
        }
        if !initialized && rng.chance(3) {
            op = 1;
        }
        let mut mutates = false; // the operation is expected to change or save something
        macro_rules! call {
            ($tags:expr, $log:expr, $call:expr) => {{
                run.log.push(format!("{}{}", $log, if fail { " [saving fails]" } else { "" }));
                ctx.case("operation", || format!("{} on {:?}", $log, old));
                match ctx.run(|| $call) {
                    Ok(r) => r,
                    Err(message) => {
                        run.check($tags, false, || format!("{} stopped the program: {}", $log, message));
                        break;
                    }
                }
            }};
        }
        macro_rules! locked {
            ($result:expr) => {
                if !unlocked {
                    good &= run.check(&["C11"], matches!($result, Err(Error::PasswordsLocked)), || format!("locked, but the result is {}", kind(&$result)));
                    good &= run.check(&["C11", "C14"], st(state).data == before && st(state).saved == saved_before && st(state).flushes == flushes, || "changed the storage while locked".to_string());
                    if !good {
                        break;
                    }
                    continue;
                }
            };
        }
        // outcome of an operation which should succeed unless saving fails
        macro_rules! success {
            ($result:expr, $tags:expr) => {
                mutates = true;
                if fail {
                    good &= run.check(&["C14"], $result.is_err(), || "success reported though saving failed".to_string());
                } else {
                    good &= run.check($tags, $result.is_ok(), || format!("should succeed but gives {}", kind(&$result)));
                }
            };
        }
        match op {
            0 => {
                let wrong = rng.chance(4);
                let given = if wrong { ["", "my primary ", "My primary", "x"][rng.below(4)].to_string() } else { primary.clone() };
                let r = call!(&["C12", "C17"], format!("unlock({:?})", given), passwords.unlock(secret(&given)));
                if !initialized {
                    good &= run.check(&["C12"], matches!(r, Err(Error::StorageNotInitialized)), || format!("unlocking an uninitialized storage gives {}", kind(&r)));
                    good &= run.check(&["C11"], !passwords.unlocked(), || "unlocked without being initialized".into());
                } else if wrong {
                    good &= run.check(&["C12"], r.is_err(), || "unlocked with the wrong primary password".into());
                    good &= run.check(&["C11"], passwords.unlocked() == was_unlocked, || "a failed unlock changes the lock state".into());
                } else {
                    good &= run.check(&["C12"], r.is_ok(), || format!("unlocking with the right primary password gives {}", kind(&r)));
                    good &= run.check(&["C11"], passwords.unlocked(), || "still locked after unlocking".into());
                    if good {
                        unlocked = true;
                        let salt = base64::decode(&before["salt"]).unwrap();
                        key = enc_key(&primary, &salt);
                    }
                }
            }
            1 => {
                if initialized && !rng.chance(3) {
                    continue;
                }
                st(state).fail = false;
                let new = ["my primary", "other one", "\u{e4}\u{1f600}", ""][rng.below(4)].to_string();
                let r = call!(&["C12", "C11"], format!("reset({:?})", new), passwords.reset(secret(&new)));
                mutates = true;
                good &= run.check(&["C12", "C11"], r.is_ok() && passwords.unlocked(), || format!("reset gives {}, unlocked {}", kind(&r), passwords.unlocked()));
                if !good {
                    break;
                }
                let data = &st(state).data;
                good &= run.check(&["C12", "C13"], data.len() == 2 && data.contains_key("salt") && data.contains_key("hmac-secret"), || format!("keys after reset: {:?}", data.keys()));
                if !good {
                    break;
                }
                good &= run.check(&["C12"], data.get("salt") != before.get("salt"), || "salt not renewed".into());
                let salt = base64::decode(&data["salt"]).unwrap_or_default();
                good &= run.check(&["C12", "C13"], salt.len() == 16, || format!("salt has {} bytes", salt.len()));
                primary = new;
                key = enc_key(&primary, &salt);
                view = View::default();
                initialized = true;
                unlocked = true;
            }
            2 => {
                call!(&["C11"], "lock", passwords.lock());
                unlocked = false;
                good &= run.check(&["C11"], !passwords.unlocked(), || "unlocked after lock".into());
            }
            3 | 4 | 5 | 6 => {
                let value = text(&mut rng);
                let r = call!(MUT, format!("set_stored({:?}, {:?}, {:?}, {:?})", site, name, rev, value), passwords.set_stored(&site, &name, &rev, secret(&value)));
                locked!(r);
                success!(r, &["C06", "C14"]);
                view.sites.entry(id.0.clone()).or_insert(None);
                view.entries.insert(id.clone(), Entry { value: Value::Stored(value), notes: String::new() });
            }
            7 | 8 => {
                let length = 1 + rng.below(30);
                let classes = 1 + rng.below(15) as u8;
                let r = call!(MUT, format!("set_generated({:?}, {:?}, {:?}, {}, {:04b})", site, name, rev, length, classes), passwords.set_generated(&site, &name, &rev, length, charset(classes)));
                locked!(r);
                success!(r, &["C06", "C14"]);
                view.sites.entry(id.0.clone()).or_insert(None);
                view.entries.insert(id.clone(), Entry { value: Value::Generated { length, classes }, notes: String::new() });
            }
            9 | 10 => {
                let notes = text(&mut rng);
                let r = call!(MUT, format!("set_notes({:?}, {:?}, {:?}, {:?})", site, name, rev, notes), passwords.set_notes(&site, &name, &rev, secret(&notes)));
                locked!(r);
                if let Some(entry) = view.entries.get_mut(&id) {
                    entry.notes = notes;
                    success!(r, &["C10", "C08", "C14"]);
                } else {
                    good &= run.check(&["C10", "C08"], r.is_err(), || "notes set for a missing password".into());
                }
            }
            11 | 12 => {
                let r = call!(MUT, format!("remove({:?}, {:?}, {:?})", site, name, rev), passwords.remove(&site, &name, &rev));
                locked!(r);
                if view.entries.remove(&id).is_some() {
                    success!(r, &["C07", "C08", "C14"]);
                } else {
                    good &= run.check(&["C07", "C08"], r.is_err(), || "removed a missing password".into());
                }
            }
            13 | 14 | 15 => {
                let target = if rng.chance(2) && !view.sites.is_empty() {
                    let all: Vec<&String> = view.sites.keys().collect();
                    all[rng.below(all.len())].clone()
                } else {
                    rng.pick(SITES).to_string()
                };
                let r = call!(MUT, format!("set_alias({:?}, {:?})", site, target), passwords.set_alias(&site, &target));
                locked!(r);
                let alias = norm_site(&site).to_string();
                let resolved = view.resolve(&target);
                let back = matches!(view.sites.get(&resolved), Some(Some(a)) if *a == alias);
                if view.has_passwords(&alias) || resolved == alias || back {
                    good &= run.check(&["C09"], r.is_err(), || "alias should have been refused".into());
                    if !back && r.is_err() {
                        let right = match &r {
                            Err(Error::SiteHasPasswords) => view.has_passwords(&alias),
                            Err(Error::AliasToSelf) => resolved == alias,
                            _ => false,
                        };
                        good &= run.check(&["C09"], right, || format!("alias refused with {}", kind(&r)));
                    }
                } else {
                    success!(r, &["C09", "C14"]);
                    for other in view.sites.values_mut() {
                        if other.as_ref() == Some(&alias) {
                            *other = Some(resolved.clone());
                        }
                    }
                    view.sites.insert(alias, Some(resolved));
                }
            }
            16 => {
                let r = call!(MUT, format!("remove_alias({:?})", site), passwords.remove_alias(&site));
                locked!(r);
                let alias = norm_site(&site).to_string();
                if matches!(view.sites.get(&alias), Some(Some(_))) {
                    success!(r, &["C09", "C14"]);
                    view.sites.remove(&alias);
                } else {
                    good &= run.check(&["C09"], matches!(r, Err(Error::NoSuchAlias)), || format!("removing a missing alias gives {}", kind(&r)));
                }
            }
            17 => {
                let r = call!(&["C09", "C08", "C17"], format!("get_alias({:?})", site), passwords.get_alias(&site));
                locked!(r);
                let want = view.sites.get(norm_site(&site)).cloned().flatten();
                good &= run.check(&["C09", "C08"], r.as_ref().ok() == want.as_ref() && (want.is_some() || matches!(r, Err(Error::NoSuchAlias))), || format!("alias is {:?} but get_alias gives {:?}", want, r));
            }
            18 | 19 => {
                let r = call!(&["C06", "C08", "C17"], format!("has({:?}, {:?}, {:?})", site, name, rev), passwords.has(&site, &name, &rev));
                locked!(r);
                let want = view.entries.contains_key(&id);
                good &= run.check(&["C06", "C08"], matches!(r, Ok(v) if v == want), || format!("has gives {:?} instead of {}", r, want));
            }
            20 | 21 => {
                if matches!(view.entries.get(&id), Some(Entry { value: Value::Generated { .. }, .. })) && !rng.chance(3) {
                    continue;
                }
                let r = call!(&["C06", "C08", "C17", "C01", "C02"], format!("get({:?}, {:?}, {:?})", site, name, rev), passwords.get(&site, &name, &rev));
                let r = r.map(|s| s.expose_secret().clone());
                locked!(r);
                match view.entries.get(&id) {
                    None => {
                        good &= run.check(&["C06", "C08", "C07"], r.is_err(), || format!("missing password gives {:?}", r));
                    }
                    Some(Entry { value: Value::Stored(value), .. }) => {
                        good &= run.check(&["C06", "C08", "C10"], matches!(&r, Ok(v) if v == value), || format!("stored password {:?} gives {:?}", value, r));
                    }
                    Some(Entry { value: Value::Generated { length, classes }, .. }) => {
                        let want = generated(&primary, &id.0, &id.1, &id.2, *length, *classes);
                        good &= run.check(&["C02", "C01"], matches!(&r, Ok(v) if *v == want), || format!("generated password gives {:?} instead of {:?}", r, want));
                    }
                }
            }
            22 => {
                let r = call!(&["C10", "C08", "C17"], format!("get_notes({:?}, {:?}, {:?})", site, name, rev), passwords.get_notes(&site, &name, &rev));
                let r = r.map(|s| s.expose_secret().clone());
                locked!(r);
                let want = view.entries.get(&id).map(|e| &e.notes);
                good &= run.check(&["C10", "C08"], r.as_ref().ok() == want, || format!("notes {:?} but get_notes gives {:?}", want, r));
            }
            23 => {
                let pattern = if rng.chance(3) { name.clone() } else { rng.pick(PATTERNS).to_string() };
                let site_pattern = if rng.chance(2) { site.clone() } else { rng.pick(PATTERNS).to_string() };
                if !unlocked {
                    run.log.push("list".into());
                    let r = ctx.run(|| passwords.list(&site, &pattern).count());
                    good &= run.check(&["C11"], !matches!(r, Ok(n) if n > 0), || "listed passwords while locked".into());
                    let r = ctx.run(|| passwords.list_sites(&site_pattern).count());
                    good &= run.check(&["C11"], !matches!(r, Ok(n) if n > 0), || "listed sites while locked".into());
                    continue;
                }
                let got = call!(&["C16", "C17"], format!("list({:?}, {:?})", site, pattern), passwords.list(&site, &pattern).map(|p| entry_of(&p)).collect::<Vec<_>>());
                let want: BTreeMap<Id, Entry> = view.entries.iter().filter(|(i, _)| i.0 == id.0 && wild(&pattern, &i.1)).map(|(i, e)| (i.clone(), e.clone())).collect();
                let count = got.len();
                let got: BTreeMap<Id, Entry> = got.into_iter().collect();
                let mut tags = vec!["C16"];
                if got.keys().ne(want.keys()) {
                    tags.push("C08");
                }
                good &= run.check(&tags, got == want && count == got.len(), || format!("list gives {:?} ({} entries) instead of {:?}", got, count, want));
                if good {
                    let got = call!(&["C16", "C17"], format!("list_sites({:?})", site_pattern), passwords.list_sites(&site_pattern).map(|s| (s.name().to_string(), s.alias().map(|a| a.to_string()))).collect::<Vec<_>>());
                    let want: BTreeMap<String, Option<String>> = view.sites.iter().filter(|(s, a)| wild(&site_pattern, s) || a.as_ref().map(|a| wild(&site_pattern, a)).unwrap_or(false)).map(|(s, a)| (s.clone(), a.clone())).collect();
                    let count = got.len();
                    let got: BTreeMap<String, Option<String>> = got.into_iter().collect();
                    good &= run.check(&["C16"], got == want && count == got.len(), || format!("list_sites gives {:?} ({} entries) instead of {:?}", got, count, want));
                }
            }
            24 => {
                // C07: cleanup of sites; only regular sites without passwords are named here
                let mut list: Vec<String> = view.sites.iter().filter(|(s, a)| a.is_none() && !view.has_passwords(s)).map(|(s, _)| s.clone()).collect();
                if rng.chance(3) {
                    list.push("no such site".into());
                }
                if rng.chance(4) {
                    list.clear();
                }
                let r = call!(MUT, format!("remove_sites({:?})", list), passwords.remove_sites(&list));
                if list.is_empty() {
                    good &= run.check(&["C07", "C11"], r.is_ok() || !unlocked, || "removing no sites failed".into());
                } else {
                    locked!(r);
                    success!(r, &["C14", "C20"]);
                    for site in &list {
                        view.sites.remove(site);
                    }
                }
            }
            _ => {
                let stored = pfp::storage_types::StoredPassword::new(&id.0, &name, &rev, secret("abc"));
                if initialized {
                    let r = call!(&["C03", "C11"], "get_recovery_code".to_string(), passwords.get_recovery_code(&stored));
                    locked!(r);
                    let want = ["abc".to_string()];
                    let got = r.as_ref().ok().map(|code| decode(code.as_bytes(), |_| key.clone()));
                    good &= run.check(&["C03"], got == Some(Decoded::Password(want[0].clone())), || format!("recovery code {:?} reads as {:?}", r, got));
                } else {
                    let r = call!(&["C11"], "decode_recovery_code".to_string(), passwords.decode_recovery_code("AAAA"));
                    locked!(r.as_ref().map(|_| ()).map_err(|e| match e { Error::PasswordsLocked => Error::PasswordsLocked, _ => Error::UnexpectedData }));
                }
            }
        }
        if !good {
            break;
        }
        let now = st(state);
        if !mutates {
            good &= run.check(&["C14", "C11", "C12"], now.data == before && now.saved == saved_before, || "an operation that was refused or only reads changed the storage".into());
            good &= run.check(&["C14"], now.flushes == flushes, || "an operation that was refused or only reads saved the storage".into());
            continue;
        }
        if fail && op != 1 {
            // memory may differ from the file now, start over from the file
            good &= run.check(&["C14"], now.saved == saved_before, || "storage saved though saving failed".into());
            break;
        }
        good &= run.check(&["C14"], now.saved == now.data, || "success reported but the result was not saved".into());
        match read(&now.data, &key) {
            Err(message) => {
                run.check(&["C13", "C06"], false, || format!("unreadable storage: {}", message));
            }
            Ok((got, hmac, nonces)) => {
                if got != view {
                    let mut tags = diff(&old, &view, &got);
                    if op == 1 {
                        tags.push("C12");
                    }
                    if (13..=16).contains(&op) && !tags.contains(&"C09") {
                        tags.push("C09");
                    }
                    if op == 24 && !tags.contains(&"C20") {
                        tags.push("C20");
                    }
                    good &= run.check(&tags, false, || format!("storage holds {:?}\ninstead of {:?}", got, view));
                }
                for (s, a) in &got.sites {
                    if let Some(a) = a {
                        good &= run.check(&["C09"], !matches!(got.sites.get(a), Some(Some(_))), || format!("alias {:?} leads to the alias {:?}", s, a));
                    }
                }
                if op == 1 {
                    good &= run.check(&["C12"], prev_secret.as_ref() != Some(&hmac) && hmac.len() == 32, || "secret not renewed".into());
                }
                prev_secret = Some(hmac);
                // values written by this operation have new nonces
                for (k, v) in &now.data {
                    if before.get(k) != Some(v) && k != "salt" {
                        let nonce = decrypt(&key, v).unwrap().0;
                        good &= run.check(&["C13"], all_nonces.insert(nonce), || format!("nonce of {} reused", k));
                    }
                }
                let _ = nonces;
            }
        }
    }
    let _ = ctx.run(move || drop(passwords));
    free(state);
}
