//! Bounded runs of single functions against the oracle.
use crate::ctx::Ctx;
use crate::mem::{free, leak, st, MemIO};
use crate::model::{charset, entry_of, random_view, secret, text, NAMES, REVS, SITES};
use crate::oracle::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::recovery_codes;
use pfp::storage_io::{FileIO, StorageIO};
use secrecy::{ExposeSecret, SecretVec};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! { static KEYS: RefCell<HashMap<(String, Vec<u8>), Vec<u8>>> = Default::default(); }

/// Encryption key, derived once per thread
pub fn key(primary: &str, salt: &[u8]) -> Vec<u8> {
    let id = (primary.to_string(), salt.to_vec());
    if let Some(k) = KEYS.with(|m| m.borrow().get(&id).cloned()) {
        return k;
    }
    let k = enc_key(primary, salt);
    KEYS.with(|m| m.borrow_mut().insert(id, k.clone()));
    k
}

const SALTS: [[u8; 16]; 2] = [*b"abcdefghijklmnop", [0x80, 0xff, 0, 1, 2, 200, 201, 202, 7, 8, 9, 10, 11, 12, 13, 254]];
const PRIMARY: &str = "my pr\u{ef}mary";

fn open(rng: &mut Rng, view: &View, salt: &[u8], primary: &str) -> (Passwords<MemIO>, *mut crate::mem::State, Vec<u8>) {
    let secret_bytes = rng.bytes(32);
    let k = key(primary, salt);
    let data = write(rng, view, salt, &k, &secret_bytes);
    let state = leak(data);
    let mut passwords = Passwords::new(MemIO(state));
    let _ = passwords.unlock(secret(primary));
    (passwords, state, secret_bytes)
}

/// C01, C02: generated passwords
pub fn generation(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let primary = ["my primary", "p\u{e4}ss", ""][rng.below(3)];
    let (mut passwords, state, _) = open(&mut rng, &View::default(), &SALTS[0], primary);
    for _ in 0..20 {
        if ctx.stop() {
            break;
        }
        let (site, name, rev) = (rng.pick(SITES), rng.pick(NAMES), rng.pick(REVS));
        let site = if rng.chance(2) { site.to_string() } else { format!("s{}.com", rng.next() % 100000) };
        let length = if rng.chance(3) { 1 + rng.below(4) } else if rng.chance(4) { 25 + rng.below(300) } else { 1 + rng.below(24) };
        let classes = 1 + rng.below(15) as u8;
        let input = format!("primary {:?}, site {:?}, name {:?}, revision {:?}, length {}, classes {:04b}", primary, site, name, rev, length, classes);
        ctx.case("generated password", || input.clone());
        let r = ctx.run(|| {
            passwords.set_generated(&site, name, rev, length, charset(classes))?;
            if rng.chance(4) {
                passwords.set_notes(&site, name, rev, secret("notes"))?;
            }
            passwords.get(&site, name, rev).map(|p| p.expose_secret().clone())
        });
        let got = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => {
                ctx.fail(&["C01", "C02"], format!("no password but {:?}", e), input);
                continue;
            }
            Err(e) => {
                ctx.fail(&["C01", "C02"], format!("stopped the program: {}", e), input);
                break;
            }
        };
        let want = generated(primary, norm_site(&site), name, rev, length, classes);
        ctx.check(&["C02"], got == want, || format!("password {:?} instead of {:?}", got, want), &|| input.clone());
        let chars: Vec<char> = got.chars().collect();
        let selected = classes.count_ones() as usize;
        let counts: Vec<usize> = (0..4).map(|c| chars.iter().filter(|ch| CLASSES[c].contains(**ch)).count()).collect();
        let mut ok = chars.len() == length && counts.iter().sum::<usize>() == length;
        for c in 0..4 {
            if classes >> c & 1 == 0 {
                ok &= counts[c] == 0;
            } else if length >= selected {
                ok &= counts[c] >= 1;
            } else {
                ok &= counts[c] <= 1;
            }
        }
        ctx.check(&["C01"], ok, || format!("password {:?} does not obey the parameters", got), &|| input.clone());
    }
    drop(passwords);
    free(state);
}

fn password_text(rng: &mut Rng) -> String {
    let mut out = match rng.below(4) {
        0 => text(rng),
        1 => "a".repeat(rng.below(60)),
        2 => "\u{1f600}".repeat(rng.below(20)),
        _ => {
            let n = rng.below(300);
            (0..n).map(|_| char::from(rng.below(128) as u8)).collect()
        }
    };
    while out.ends_with('\0') {
        out.pop();
    }
    out
}

/// C03: round trips
pub fn round_trip(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let salt = SALTS[rng.below(2)];
    let k = key(PRIMARY, &salt);
    for i in 0..40 {
        if ctx.stop() {
            return;
        }
        let mut password = password_text(&mut rng);
        if i == 0 && rng.chance(3) {
            password = "x".repeat(1500 + rng.below(3000)); // more than 128 or 256 rows
        }
        if i == 1 {
            password = String::new();
        }
        let input = format!("password {:?} ({} bytes), salt {:?}", password, password.len(), salt);
        ctx.case("recovery code round trip", || input.clone());
        let r = ctx.run(|| recovery_codes::generate(&secret(&password), &salt, &SecretVec::new(k.clone())));
        let code = match r {
            Ok(Ok(code)) => code,
            other => {
                ctx.fail(&["C03"], format!("generating gives {:?}", other.map(|r| r.map_err(|e| format!("{:?}", e)))), input);
                continue;
            }
        };
        let got = decode(code.as_bytes(), |s| if s == salt { k.clone() } else { vec![0; 32] });
        ctx.check(&["C03"], got == Decoded::Password(password.clone()), || format!("the code reads as {:?}", got), &|| format!("{}, code {}", input, code));
        ctx.check(&["C03", "C05"], code == punctuate(&kept(code.as_bytes())), || "the code is not formatted".into(), &|| format!("{}, code {}", input, code));
        if i < 3 {
            let r = ctx.run(|| recovery_codes::decode(&code, &secret(PRIMARY)).map(|p| p.expose_secret().clone()));
            ctx.check(&["C03"], matches!(&r, Ok(Ok(p)) if *p == password), || format!("decoding gives {:?}", r), &|| format!("{}, code {}", input, code));
        }
    }
}

fn noise(rng: &mut Rng, kept: &str) -> String {
    let mut out = String::new();
    for c in kept.chars() {
        while rng.chance(3) {
            out.push(['-', ':', '\n', ' ', '0', '1', 'O', 'i', 'I', 'o', '\u{e4}', '_', '\u{fb01}', '!', '\t', '\r', '@', '[', '`', '{', '/'][rng.below(21)]);
        }
        out.push(if rng.chance(2) { c.to_ascii_lowercase() } else { c });
    }
    out
}

fn compare(ctx: &Ctx, tags: &[&str], code: &str, full: bool) {
    let want = decode(code.as_bytes(), |s| if full || SALTS.iter().any(|x| x == s) { key(PRIMARY, s) } else { vec![0; 32] });
    let r = ctx.run(|| recovery_codes::decode(code, &secret(PRIMARY)).map(|p| p.expose_secret().clone()));
    let ok = match (&r, &want) {
        (Ok(Err(Error::RecoveryCodeChecksumMismatch { line })), Decoded::Rows(Rows::Mismatch(i))) => line == i,
        (Ok(Err(Error::RecoveryCodeExtraData { line })), Decoded::Rows(Rows::Extra(i))) => line == i,
        (Ok(Err(Error::RecoveryCodeIncomplete)), Decoded::Rows(Rows::Incomplete)) => true,
        (Ok(Err(_)), Decoded::WrongVersion | Decoded::Insufficient | Decoded::Undecryptable | Decoded::NotUtf8) => {
            !matches!(&r, Ok(Err(Error::RecoveryCodeChecksumMismatch { .. } | Error::RecoveryCodeExtraData { .. } | Error::RecoveryCodeIncomplete)))
        }
        (Ok(Ok(p)), Decoded::Password(w)) => p == w,
        _ => false,
    };
    ctx.check(tags, ok, || format!("decoding gives {:?} instead of {:?}", r, want), &|| format!("code {:?}, primary password {:?}", code, PRIMARY));
}

/// C04, C05: rows of recovery codes
pub fn code_check(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let salt = SALTS[rng.below(2)];
    let k = key(PRIMARY, &salt);
    for i in 0..60 {
        if ctx.stop() {
            return;
        }
        // rows of a valid code, or rows with valid checksums and arbitrary contents
        let mut rows = if rng.chance(2) {
            let p = password_text(&mut rng);
            code_rows(&mut rng, p.as_bytes(), &salt, &k)
        } else {
            let most = if rng.chance(8) { 126 } else { 8 };
            let n = 14 * (1 + rng.below(most));
            let payload = rng.bytes(n);
            make_rows(&payload, 0, rng.chance(2))
        };
        let (a, b) = (rng.below(rows.len()), rng.below(rows.len()));
        match rng.below(10) {
            0 => rows.swap(a, b),
            1 => {
                let row = rows[a].clone();
                rows.insert(b, row);
            }
            2 => {
                rows.remove(a);
            }
            3 => rows.truncate(a),
            4 => {
                let row = rows[a].clone();
                rows.push(row);
            }
            5 => {
                // replace one letter
                let at = rng.below(24);
                let c = ALPHABET.as_bytes()[rng.below(32)] as char;
                rows[a].replace_range(at..at + 1, &c.to_string());
            }
            6 => rows.push(ALPHABET[..1 + rng.below(23)].to_string()),
            7 => {
                let payload = rng.bytes(14);
                let at = rows.len();
                rows.extend(make_rows(&payload, at, true));
            }
            8 => {
                let keep = rng.below(24);
                let last = rows.len() - 1;
                rows[last].truncate(keep);
            }
            _ => {}
        }
        if rows.len() >= 128 {
            continue;
        }
        let text = noise(&mut rng, &rows.concat());
        let valid = matches!(crate::oracle::rows(text.as_bytes()), Rows::Complete(_));
        if valid && i > 4 {
            continue; // deriving the key takes long
        }
        ctx.case("code rows", || format!("{:?}", text));
        compare(ctx, &["C04", "C05"], &text, true);
    }
}

/// C05: formatting
pub fn formatting(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    for _ in 0..500 {
        if ctx.stop() {
            return;
        }
        let n = rng.below(100);
        let code: Vec<u8> = match rng.below(3) {
            0 => rng.bytes(n),
            1 => (0..n).map(|_| ALPHABET.as_bytes()[rng.below(32)]).collect(),
            _ => {
                let t: String = (0..n).map(|_| ALPHABET.as_bytes()[rng.below(32)] as char).collect();
                noise(&mut rng, &t).into_bytes()
            }
        };
        ctx.case("formatting", || format!("{:?}", code));
        let want = kept(&code);
        for punct in [false, true] {
            let want = if punct { punctuate(&want) } else { want.clone() };
            let r = ctx.run(|| recovery_codes::format_code(&code, punct));
            ctx.check(&["C05"], r.as_ref() == Ok(&want), || format!("formatted (punctuation {}) to {:?} instead of {:?}", punct, r, want), &|| format!("{:?}", code));
            let again = ctx.run(|| recovery_codes::format_code(want.as_bytes(), punct));
            ctx.check(&["C05"], again.as_ref() == Ok(&want), || format!("formatting again gives {:?}", again), &|| format!("{:?}", want));
        }
    }
}

/// C17 (and C04, C05): arbitrary codes
pub fn malformed_codes(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    for _ in 0..30 {
        if ctx.stop() {
            return;
        }
        let salt = SALTS[rng.below(2)];
        let k = key(PRIMARY, &salt);
        let mut expensive = true;
        let code = match rng.below(8) {
            0 => {
                expensive = false;
                text(&mut rng)
            }
            1 => {
                expensive = false;
                let n = rng.below(200);
                (0..n).map(|_| ALPHABET.as_bytes()[rng.below(32)] as char).collect()
            }
            2 => {
                // too short or wrong version
                expensive = false;
                let n = 14 * (1 + rng.below(6));
                let mut payload = rng.bytes(n);
                if payload.len() < 45 && rng.chance(2) {
                    payload[0] = 1;
                } else if payload[0] == 1 {
                    payload[0] = 2;
                }
                make_rows(&payload, 0, true).concat()
            }
            3 => {
                // does not decrypt
                let n = 14 * (4 + rng.below(4));
                let mut payload = rng.bytes(n);
                payload[0] = 1;
                payload[1..17].copy_from_slice(&salt);
                make_rows(&payload, 0, true).concat()
            }
            4 => {
                // decrypts to arbitrary bytes
                let n = rng.below(30);
                let bytes = rng.bytes(n);
                code_rows(&mut rng, &bytes, &salt, &k).concat()
            }
            5 => code_rows(&mut rng, &[], &salt, &k).concat(),
            6 => {
                // ciphertext made of nothing but padding
                code_rows(&mut rng, &vec![0; 11 + 14 * seed as usize % 2], &salt, &k).concat()
            }
            _ => {
                // many rows
                expensive = false;
                let n = 120 + rng.below(300);
                let payload = rng.bytes(14 * n);
                let mut r = make_rows(&payload, 0, false);
                r.push("A".repeat(rng.below(24)));
                r.concat()
            }
        };
        if expensive && rng.chance(2) {
            continue;
        }
        ctx.case("malformed code", || format!("{:?}", code));
        compare(ctx, &["C17"], &code, true);
    }
}

/// C06, C07, C13: values of many sizes, written repeatedly
pub fn value_sizes(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let salt = SALTS[rng.below(2)];
    let k = key(PRIMARY, &salt);
    let (mut passwords, state, _) = open(&mut rng, &View::default(), &salt, PRIMARY);
    let mut nonces: std::collections::HashSet<Vec<u8>> = Default::default();
    for v in st(state).data.values() {
        if let Some((n, _)) = decrypt(&k, v) {
            nonces.insert(n);
        }
    }
    let sizes: Vec<usize> = (0..40)
        .map(|i| match i {
            0..=9 => rng.below(64),
            10..=29 => [64, 128, 256, 512, 1024, 2048][rng.below(6)] - 8 + rng.below(24),
            30..=37 => 100 + rng.below(1500),
            _ => 4000 + rng.below(70000),
        })
        .collect();
    for n in sizes {
        if ctx.stop() {
            break;
        }
        let value: String = if rng.chance(2) { "x".repeat(n) } else { (0..n).map(|_| (33 + rng.below(94)) as u8 as char).collect() };
        let input = format!("a value of {} characters starting with {:?}, saved three times", n, value.chars().take(20).collect::<String>());
        ctx.case("value size", || input.clone());
        for round in 0..3 {
            let before = st(state).data.clone();
            let r = ctx.run(|| {
                match round {
                    0 => passwords.set_stored("example.com", "name", "", secret(&value)),
                    1 => passwords.set_stored("example.com", "name", "", secret(&value)),
                    _ => passwords.set_notes("example.com", "name", "", secret(&value)),
                }
                .map_err(|e| format!("{:?}", e))
            });
            if !ctx.check(&["C06"], matches!(r, Ok(Ok(_))), || format!("saving gives {:?}", r), &|| input.clone()) {
                break;
            }
            for (key, v) in &st(state).data {
                if before.get(key) == Some(v) {
                    continue;
                }
                match decrypt(&k, v) {
                    None => ctx.fail(&["C13", "C06"], "a saved value cannot be decrypted".into(), input.clone()),
                    Some((nonce, _)) => {
                        ctx.check(&["C13"], nonces.insert(nonce), || "the nonce of an earlier value was used again".into(), &|| input.clone());
                    }
                }
            }
            if round > 0 && st(state).data == before {
                ctx.fail(&["C13", "C06"], "saving the value again leaves the same encrypted text".into(), input.clone());
            }
        }
        let r = ctx.run(|| {
            let p = passwords.get("www.example.com", "name", "1").map(|s| s.expose_secret().clone());
            let n = passwords.get_notes("example.com", "name", "").map(|s| s.expose_secret().clone());
            (p.ok(), n.ok())
        });
        let fine = match &r {
            Ok((Some(p), Some(n))) => *p == value && *n == value,
            _ => false,
        };
        ctx.check(&["C06"], fine, || "the value saved is not the value read".into(), &|| input.clone());
    }
    if ctx.run(move || drop(passwords)).is_ok() {
        free(state);
    }
}

/// C17: malformed values in storage
pub fn malformed_values(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let salt = SALTS[0];
    let k = key(PRIMARY, &salt);
    for _ in 0..6 {
        if ctx.stop() {
            return;
        }
        let mut view = random_view(&mut rng);
        view.sites.insert("a".into(), None);
        view.entries.insert(("a".into(), "b".into(), "".into()), Entry { value: Value::Stored("stored".into()), notes: "n".into() });
        view.entries.insert(("a".into(), "g".into(), "2".into()), Entry { value: Value::Generated { length: 5, classes: 15 }, notes: "".into() });
        let hmac = rng.bytes(32);
        let mut data = write(&mut rng, &view, &salt, &k, &hmac);
        let mut keys: Vec<String> = data.keys().cloned().collect();
        keys.sort();
        let target = keys[rng.below(keys.len())].clone();
        let original = data[&target].clone();
        let valid_nonce = base64::encode(rng.bytes(12));
        let seal = |rng: &mut Rng, b: &[u8]| encrypt(rng, &k, b);
        let bad = match rng.below(22) {
            0 => String::new(),
            1 => "_".into(),
            2 => original.replace('_', ""),
            3 => original[..rng.below(original.len())].to_string(),
            4 => format!("{}_{}", &original, &original),
            5 => {
                let n = rng.below(40);
                let n = if n == 12 { 13 } else { n };
                format!("{}_{}", base64::encode(rng.bytes(n)), original.split('_').last().unwrap())
            }
            6 => format!("{}_", valid_nonce),
            7 => {
                let n = rng.below(40);
                format!("{}_{}", valid_nonce, base64::encode(rng.bytes(n)))
            }
            8 | 9 | 10 => {
                // flip one bit of nonce or ciphertext
                match original.split_once('_') {
                    Some((n, c)) => {
                        let mut n = base64::decode(n).unwrap();
                        let mut c = base64::decode(c).unwrap();
                        let at = rng.below(n.len() + c.len());
                        let bit = 1 << rng.below(8);
                        if at < n.len() {
                            n[at] ^= bit
                        } else {
                            c[at - n.len()] ^= bit
                        }
                        format!("{}_{}", base64::encode(n), base64::encode(c))
                    }
                    None => "\u{e4}".into(),
                }
            }
            11 => "\u{e4}\u{1f600}_\u{e4}".into(),
            12 => {
                let other = rng.bytes(32);
                encrypt(&mut rng, &other, b"{\"site\":\"a\"}")
            }
            13 => seal(&mut rng, b""),
            14 => seal(&mut rng, b"null"),
            15 => seal(&mut rng, b"\xff\xfe"),
            16 => seal(&mut rng, b"{}"),
            17 => seal(&mut rng, b"[1,2"),
            18 => seal(&mut rng, b"\"A*\""),
            19 => seal(&mut rng, b"{\"type\":\"stored\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\"}"),
            20 => seal(&mut rng, b"{\"type\":\"generated2\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\",\"length\":-1,\"lower\":true,\"upper\":true,\"number\":true,\"symbol\":true}"),
            _ => seal(&mut rng, b"{\"type\":\"generated\",\"site\":1,\"name\":\"b\"}"),
        };
        let input = format!("storage {:?}, value of {:?} replaced by {:?}", view, target, bad);
        if bad == original {
            continue;
        }
        ctx.case("malformed value", || input.clone());
        data.insert(target.clone(), bad.clone());
        let state = leak(data);
        let mut passwords = Passwords::new(MemIO(state));
        let r = ctx.run(|| passwords.unlock(secret(PRIMARY)).map_err(|e| format!("{:?}", e)));
        let fine = match &r {
            Err(_) => false,
            Ok(r) => {
                if target == "hmac-secret" {
                    // no replacement is base64 text in JSON under the right key
                    r.is_err()
                } else if target == "salt" {
                    r.is_err()
                } else {
                    r.is_ok()
                }
            }
        };
        ctx.check(&["C17"], fine, || format!("unlocking gives {:?}", r), &|| input.clone());
        if !fine || target == "hmac-secret" || target == "salt" {
            let locked = passwords.unlocked();
            ctx.check(&["C17", "C12"], !locked || fine, || "unlocked by malformed data".into(), &|| input.clone());
            if let Err(e) = ctx.run(move || drop(passwords)) {
                ctx.fail(&["C17"], format!("stopped the program: {}", e), input.clone());
            }
            free(state);
            continue;
        }
        // what remains readable
        let mut rest = view.clone();
        rest.sites.retain(|s, _| site_key(&hmac, s) != target);
        rest.entries.retain(|i, _| password_key(&hmac, &i.0, &i.1, &i.2) != target);
        for (id, entry) in &view.entries {
            if matches!(view.sites.get(&id.0), Some(Some(_))) {
                continue;
            }
            let site = format!("www.{}", id.0);
            let want = rest.entries.get(id);
            let r = ctx.run(|| passwords.get_notes(&site, &id.1, &id.2).map(|s| s.expose_secret().clone()).map_err(|e| format!("{:?}", e)));
            let ok = match (&r, want) {
                (Ok(Ok(n)), Some(e)) => *n == e.notes,
                (Ok(Err(_)), None) => true,
                _ => false,
            };
            ctx.check(&["C17"], ok, || format!("notes of {:?}: {:?}", id, r), &|| input.clone());
            if !matches!(entry.value, Value::Stored(_)) && want.is_some() {
                continue;
            }
            let r = ctx.run(|| passwords.get(&site, &id.1, &id.2).map(|s| s.expose_secret().clone()).map_err(|e| format!("{:?}", e)));
            let ok = match (&r, want) {
                (Ok(Ok(p)), Some(e)) => e.value == Value::Stored(p.clone()),
                (Ok(Err(_)), None) => true,
                _ => false,
            };
            ctx.check(&["C17"], ok, || format!("password of {:?}: {:?}", id, r), &|| input.clone());
        }
        let r = ctx.run(|| passwords.list_sites("*").map(|s| (s.name().to_string(), s.alias().map(|a| a.to_string()))).collect::<std::collections::BTreeMap<_, _>>());
        ctx.check(&["C17"], r.as_ref() == Ok(&rest.sites), || format!("sites {:?} instead of {:?}", r, rest.sites), &|| input.clone());
        for site in view.sites.keys() {
            let real = rest.resolve(&format!("www.{}", site));
            let r = ctx.run(|| passwords.list(&format!("www.{}", site), "*").map(|p| entry_of(&p)).collect::<std::collections::BTreeMap<_, _>>());
            let want: std::collections::BTreeMap<Id, Entry> = rest.entries.iter().filter(|(i, _)| i.0 == real).map(|(i, e)| (i.clone(), e.clone())).collect();
            ctx.check(&["C17"], r.as_ref() == Ok(&want), || format!("passwords of {:?}: {:?} instead of {:?}", site, r, want), &|| input.clone());
        }
        let r = ctx.run(|| {
            for site in ["a", "www.a", "ab", "x"] {
                let _ = passwords.get_alias(site);
                let _ = passwords.has(site, "b", "");
                let _ = passwords.set_alias(site, "y");
                let _ = passwords.set_notes(site, "b", "", secret("m"));
                let _ = passwords.set_stored(site, "b", "", secret("m"));
                let _ = passwords.remove_alias(site);
                let _ = passwords.remove(site, "b", "");
                let _ = passwords.remove_sites(&[site.to_string()]);
            }
        });
        ctx.check(&["C17"], r.is_ok(), || format!("stopped the program: {:?}", r), &|| input.clone());
        let _ = ctx.run(move || drop(passwords));
        free(state);
    }
}

/// C15: storage files
pub fn files(ctx: &Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let dir = std::path::PathBuf::from(format!("{}/files-{}", ctx.scratch, seed));
    let _ = std::fs::create_dir_all(&dir);
    for i in 0..20 {
        if ctx.stop() {
            break;
        }
        let mut data: HashMap<String, String> = HashMap::new();
        for _ in 0..rng.below(6) {
            data.insert(text(&mut rng), text(&mut rng));
        }
        let path = if rng.chance(2) { dir.join(format!("f{}", i)) } else { dir.join(format!("d{}/e/f", i)) };
        ctx.case("file", || format!("{:?}", data));
        let input = || format!("data {:?}", data);
        // save
        let r = ctx.run(|| {
            let mut io = FileIO::new(&path);
            for (k, v) in &data {
                io.set(k.clone(), v.clone());
            }
            io.flush().map_err(|e| format!("{:?}", e))
        });
        if !ctx.check(&["C15", "C14"], r == Ok(Ok(())), || format!("saving gives {:?}", r), &input) {
            break;
        }
        let contents = std::fs::read_to_string(&path).unwrap_or_default();
        let json: Option<serde_json::Value> = serde_json::from_str(&contents).ok();
        let want = serde_json::json!({"application": "pfp", "format": 3, "data": data});
        ctx.check(&["C15"], json.as_ref() == Some(&want), || format!("file contains {}", contents), &input);
        // load what the oracle and what the code has written
        for own in [true, false] {
            if own {
                std::fs::write(&path, serde_json::to_string_pretty(&want).unwrap() + "\n ").unwrap();
            } else {
                std::fs::write(&path, &contents).unwrap();
            }
            let before = std::fs::read(&path).unwrap();
            let r = ctx.run(|| FileIO::load(&path).map_err(|e| format!("{:?}", e)).map(|io| io.keys().map(|k| (k.clone(), io.get(k).unwrap().clone())).collect::<HashMap<String, String>>()));
            ctx.check(&["C15"], r.as_ref() == Ok(&Ok(data.clone())), || format!("loading gives {:?}", r), &input);
            ctx.check(&["C15"], std::fs::read(&path).ok() == Some(before), || "loading changes the file".into(), &input);
        }
        // saving again replaces everything
        let r = ctx.run(|| {
            let mut io = FileIO::load(&path).map_err(|e| format!("{:?}", e))?;
            io.clear();
            io.set("k".into(), "v".into());
            io.set("k".into(), "w".into());
            io.set("l".into(), "w".into());
            io.remove("l").map_err(|e| format!("{:?}", e))?;
            let state = (io.contains_key("k"), io.contains_key("l"), io.get("l").is_err(), io.remove("l").is_err());
            io.flush().map_err(|e| format!("{:?}", e))?;
            Ok::<_, String>(state)
        });
        let json: Option<serde_json::Value> = std::fs::read_to_string(&path).ok().and_then(|c| serde_json::from_str(&c).ok());
        ctx.check(&["C15"], r == Ok(Ok((true, false, true, true))) && json == Some(serde_json::json!({"application": "pfp", "format": 3, "data": {"k": "w"}})), || format!("changing gives {:?}, file {:?}", r, json), &input);
        // malformed files
        let good = want.clone();
        let mut bad: Vec<String> = Vec::new();
        for member in ["application", "format", "data"] {
            let mut j = good.clone();
            j.as_object_mut().unwrap().remove(member);
            bad.push(j.to_string());
            for value in [
                serde_json::json!(null), serde_json::json!("PfP"), serde_json::json!("pfp "), serde_json::json!(""), serde_json::json!(2), serde_json::json!(4),
                serde_json::json!(259), serde_json::json!(-3), serde_json::json!("3"), serde_json::json!([]), serde_json::json!(true), serde_json::json!(3.5),
                serde_json::json!({"a": 1}), serde_json::json!({"a": null}), serde_json::json!({"a": {"b": "c"}}), serde_json::json!(["a"]),
            ] {
                let mut j = good.clone();
                j[member] = value;
                bad.push(j.to_string());
            }
        }
        let mut j = good.clone();
        j[["extra", "path", "Data", "version"][rng.below(4)]] = serde_json::json!("x");
        bad.push(j.to_string());
        let full = good.to_string();
        bad.push(full[..full.char_indices().map(|(p, _)| p).nth(rng.below(full.chars().count())).unwrap()].to_string());
        bad.push(format!("{}x", full));
        bad.push(format!("{}{}", full, full));
        bad.push(String::new());
        bad.push("null".into());
        bad.push("\"pfp\"".into());
        for text in bad {
            std::fs::write(&path, &text).unwrap();
            let r = ctx.run(|| FileIO::load(&path).map(|_| ()).map_err(|_| ()));
            ctx.check(&["C15"], r == Ok(Err(())), || format!("loading a malformed file gives {:?}", r), &|| text.clone());
            ctx.check(&["C15"], std::fs::read_to_string(&path).ok() == Some(text.clone()), || "loading changes the file".into(), &|| text.clone());
        }
        std::fs::write(&path, b"\xff\xfe{}").unwrap();
        let r = ctx.run(|| FileIO::load(&path).is_err());
        ctx.check(&["C15"], r == Ok(true), || format!("loading bytes that are no text: error {:?}", r), &|| "file of bytes FF FE".into());
        let r = ctx.run(|| FileIO::load(&path.join("missing")).is_err());
        ctx.check(&["C15"], r == Ok(true), || format!("loading a missing file: error {:?}", r), &|| "missing file".into());
        // saving where this is impossible
        let r = ctx.run(|| FileIO::new(&path.join("below/a/file")).flush().is_err());
        ctx.check(&["C14", "C15"], r == Ok(true), || format!("saving below a file: error {:?}", r), &|| "path below a file".into());
        let sub = dir.join(format!("sub{}", i));
        let _ = std::fs::create_dir_all(&sub);
        let r = ctx.run(|| FileIO::new(&sub).flush().is_err());
        ctx.check(&["C14", "C15"], r == Ok(true), || format!("saving over a directory: error {:?}", r), &|| "path of a directory".into());
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = st;
}

/// What the other modules rely on when they change a storage file's entries
pub fn storage_ops(ctx: &Ctx, seed: u64) {
    const TAGS: &[&str] = &["C06", "C07", "C08", "C09", "C10", "C14", "C15"];
    let mut rng = Rng::new(seed);
    let dir = std::path::PathBuf::from(format!("{}/ops-{}", ctx.scratch, seed));
    let _ = std::fs::create_dir_all(&dir);
    for i in 0..20 {
        if ctx.stop() {
            break;
        }
        // keys that are close to each other
        let mut keys: Vec<String> = vec!["site:".into(), "site:A".into(), "site:A:b".into(), "site:AB:c".into(), "salt".into(), "hmac_secret".into()];
        for _ in 0..4 {
            let k = keys[rng.below(keys.len())].clone();
            keys.push(match rng.below(4) {
                0 => k + &text(&mut rng),
                1 => k.to_uppercase(),
                2 => k + ":",
                _ => text(&mut rng),
            });
        }
        let path = dir.join(format!("f{}", i));
        let mut want: HashMap<String, String> = HashMap::new();
        let mut done: Vec<String> = Vec::new();
        let mut io = FileIO::new(&path);
        for _ in 0..30 {
            let k = keys[rng.below(keys.len())].clone();
            let op = rng.below(24);
            let r = ctx.run(|| match op {
                0..=8 => {
                    let v = if rng.chance(3) { text(&mut rng) } else { format!("v{}", rng.below(100)) };
                    done.push(format!("set({:?}, {:?})", k, v));
                    io.set(k.clone(), v.clone());
                    want.insert(k.clone(), v);
                    true
                }
                9..=14 => {
                    done.push(format!("remove({:?})", k));
                    io.remove(&k).is_ok() == want.remove(&k).is_some()
                }
                15..=16 => {
                    done.push(format!("get({:?})", k));
                    io.get(&k).ok() == want.get(&k)
                }
                17..=18 => {
                    done.push(format!("contains_key({:?})", k));
                    io.contains_key(&k) == want.contains_key(&k)
                }
                19 if rng.chance(3) => {
                    done.push("clear()".into());
                    io.clear();
                    want.clear();
                    true
                }
                20 | 21 => {
                    done.push("flush(), load()".into());
                    let saved = io.flush().is_ok();
                    match FileIO::load(&path) {
                        Ok(x) => {
                            io = x;
                            saved
                        }
                        Err(_) => false,
                    }
                }
                _ => true,
            });
            let got: HashMap<String, String> = io.keys().map(|k| (k.clone(), io.get(k).unwrap().clone())).collect();
            let ok = ctx.check(TAGS, r == Ok(true) && got == want, || format!("entries {:?} instead of {:?}", got, want), &|| done.join(", "));
            if !ok {
                break;
            }
        }
        ctx.case("storage operations", || done.join(", "));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
