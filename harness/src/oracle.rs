//! Independent implementation of PfP's documented formats. Nothing here calls the code under test.
use aes_gcm::aead::{Aead, NewAead};
use hmac::Mac;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T: ?Sized>(&mut self, list: &[&'a T]) -> &'a T {
        list[self.below(list.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub const ALPHABET: &str = "ABCDEFGHJKLMNPQRSTUVWXYZ23456789";
pub const LOWER: &str = "abcdefghjkmnpqrstuvwxyz";
pub const UPPER: &str = "ABCDEFGHJKMNPQRSTUVWXYZ";
pub const DIGIT: &str = "23456789";
pub const SYMBOL: &str = "!#$%&()*+,-./:;<=>?@[]^_{|}~";
pub const CLASSES: [&str; 4] = [LOWER, UPPER, DIGIT, SYMBOL];

pub fn scrypt_bits(password: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    let params = scrypt::Params::new(15, 8, 1).unwrap();
    let mut out = vec![0; len];
    scrypt::scrypt(password, salt, &params, &mut out).unwrap();
    out
}

pub fn enc_key(primary: &str, salt: &[u8]) -> Vec<u8> {
    let text: String = salt.iter().map(|b| char::from(*b)).collect();
    scrypt_bits(primary.as_bytes(), text.as_bytes(), 32)
}

pub fn norm_rev(revision: &str) -> &str {
    if revision == "1" {
        ""
    } else {
        revision
    }
}

pub fn norm_site(site: &str) -> &str {
    site.strip_prefix("www.").unwrap_or(site)
}

pub fn salt_of(site: &str, name: &str, revision: &str) -> Vec<u8> {
    let mut parts = vec![site, name];
    if !norm_rev(revision).is_empty() {
        parts.push(revision);
    }
    parts.join("\0").into_bytes()
}

/// classes: bit 0 lower, 1 upper, 2 digit, 3 symbol
pub fn password_from_bits(bits: &[u8], classes: u8) -> String {
    let mut seen = 0u8;
    let mut out = String::new();
    for (i, byte) in bits.iter().enumerate() {
        let missing = classes & !seen;
        let allowed = if bits.len() - i <= missing.count_ones() as usize {
            missing
        } else {
            classes
        };
        let chars: Vec<(u8, char)> = (0..4)
            .filter(|c| allowed >> c & 1 == 1)
            .flat_map(|c| CLASSES[c as usize].chars().map(move |ch| (c, ch)))
            .collect();
        let (c, ch) = chars[*byte as usize % chars.len()];
        seen |= 1 << c;
        out.push(ch);
    }
    out
}

pub fn generated(primary: &str, site: &str, name: &str, rev: &str, len: usize, classes: u8) -> String {
    let bits = scrypt_bits(primary.as_bytes(), &salt_of(site, name, rev), len);
    password_from_bits(&bits, classes)
}

pub fn encrypt_with(key: &[u8], nonce: &[u8], data: &[u8]) -> Vec<u8> {
    aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key))
        .encrypt(aes_gcm::Nonce::from_slice(nonce), data)
        .unwrap()
}

pub fn encrypt(rng: &mut Rng, key: &[u8], data: &[u8]) -> String {
    let nonce = rng.bytes(12);
    format!("{}_{}", base64::encode(&nonce), base64::encode(encrypt_with(key, &nonce, data)))
}

pub fn decrypt_raw(key: &[u8], nonce: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key))
        .decrypt(aes_gcm::Nonce::from_slice(nonce), data)
        .ok()
}

/// (nonce, plaintext)
pub fn decrypt(key: &[u8], value: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let (n, c) = value.split_once('_')?;
    let nonce = base64::decode(n).ok()?;
    if nonce.len() != 12 {
        return None;
    }
    let plain = decrypt_raw(key, &nonce, &base64::decode(c).ok()?)?;
    Some((nonce, plain))
}

pub fn digest(secret: &[u8], text: &str) -> String {
    let mut mac = hmac::Hmac::<sha2::Sha256>::new_from_slice(secret).unwrap();
    mac.update(text.as_bytes());
    base64::encode(mac.finalize().into_bytes())
}

pub fn site_key(secret: &[u8], site: &str) -> String {
    format!("site:{}", digest(secret, site))
}

pub fn password_key(secret: &[u8], site: &str, name: &str, rev: &str) -> String {
    format!(
        "{}:{}",
        site_key(secret, site),
        digest(secret, &format!("{}\0{}\0{}", site, name, norm_rev(rev)))
    )
}

pub type Id = (String, String, String);

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Generated { length: usize, classes: u8 },
    Stored(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub value: Value,
    pub notes: String,
}

/// Decrypted view of a storage
#[derive(Clone, Debug, PartialEq, Default)]
pub struct View {
    pub sites: BTreeMap<String, Option<String>>,
    pub entries: BTreeMap<Id, Entry>,
}

impl View {
    pub fn resolve(&self, site: &str) -> String {
        let site = norm_site(site);
        match self.sites.get(site) {
            Some(Some(target)) => target.clone(),
            _ => site.to_string(),
        }
    }
    pub fn id(&self, site: &str, name: &str, rev: &str) -> Id {
        (self.resolve(site), name.to_string(), norm_rev(rev).to_string())
    }
    pub fn has_passwords(&self, site: &str) -> bool {
        self.entries.keys().any(|id| id.0 == site)
    }
}

pub fn class_bits(v: &serde_json::Value) -> Option<u8> {
    let mut bits = 0;
    for (i, key) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
        if v.get(*key)?.as_bool()? {
            bits |= 1 << i;
        }
    }
    Some(bits)
}

/// Reads the whole storage, strictly: anything unexpected is an error message.
pub fn read(data: &HashMap<String, String>, key: &[u8]) -> Result<(View, Vec<u8>, BTreeSet<Vec<u8>>), String> {
    let mut view = View::default();
    let mut nonces = BTreeSet::new();
    let hidden = data.get("hmac-secret").ok_or("no hmac-secret")?;
    let (_, plain) = decrypt(key, hidden).ok_or("hmac-secret does not decrypt")?;
    let text: String = serde_json::from_slice(&plain).map_err(|_| "hmac-secret is no JSON string")?;
    let secret = base64::decode(text).map_err(|_| "hmac-secret is no base64")?;
    for (k, value) in data {
        if k == "salt" {
            base64::decode(value).map_err(|_| "salt is no base64")?;
            continue;
        }
        let (nonce, plain) = decrypt(key, value).ok_or(format!("value of {} does not decrypt", k))?;
        if !nonces.insert(nonce) {
            return Err(format!("nonce of {} used twice", k));
        }
        if k == "hmac-secret" {
            continue;
        }
        let json: serde_json::Value =
            serde_json::from_slice(&plain).map_err(|_| format!("value of {} is no JSON", k))?;
        let text = |name: &str| -> Result<String, String> {
            json.get(name)
                .and_then(|v| v.as_str())
                .map(|v| v.to_string())
                .ok_or(format!("no {} in {}", name, json))
        };
        let site = text("site")?;
        if *k == site_key(&secret, &site) {
            let alias = match json.get("alias") {
                None => None,
                Some(v) => Some(v.as_str().ok_or("alias is no text")?.to_string()),
            };
            view.sites.insert(site, alias);
            continue;
        }
        let (name, rev) = (text("name")?, text("revision")?);
        if *k != password_key(&secret, &site, &name, &rev) || rev == "1" {
            return Err(format!("key {} does not belong to {}", k, json));
        }
        let notes = match json.get("notes") {
            None => String::new(),
            Some(_) => text("notes")?,
        };
        let value = match text("type")?.as_str() {
            "stored" => Value::Stored(text("password")?),
            "generated2" => Value::Generated {
                length: json.get("length").and_then(|v| v.as_u64()).ok_or("no length")? as usize,
                classes: class_bits(&json).ok_or("no classes")?,
            },
            other => return Err(format!("unknown type {}", other)),
        };
        view.entries.insert((site, name, rev), Entry { value, notes });
    }
    Ok((view, secret, nonces))
}

pub fn entry_json(id: &Id, entry: &Entry) -> serde_json::Value {
    let mut json = serde_json::json!({"site": id.0, "name": id.1, "revision": id.2});
    match &entry.value {
        Value::Stored(p) => {
            json["type"] = "stored".into();
            json["password"] = p.clone().into();
        }
        Value::Generated { length, classes } => {
            json["type"] = "generated2".into();
            json["length"] = (*length).into();
            for (i, key) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                json[*key] = (classes >> i & 1 == 1).into();
            }
        }
    }
    if !entry.notes.is_empty() {
        json["notes"] = entry.notes.clone().into();
    }
    json
}

/// Produces storage contents for a view.
pub fn write(rng: &mut Rng, view: &View, salt: &[u8], key: &[u8], secret: &[u8]) -> HashMap<String, String> {
    let mut data = HashMap::new();
    data.insert("salt".to_string(), base64::encode(salt));
    let text = serde_json::to_vec(&base64::encode(secret)).unwrap();
    data.insert("hmac-secret".to_string(), encrypt(rng, key, &text));
    for (site, alias) in &view.sites {
        let mut json = serde_json::json!({ "site": site });
        if let Some(alias) = alias {
            json["alias"] = alias.clone().into();
        }
        data.insert(site_key(secret, site), encrypt(rng, key, json.to_string().as_bytes()));
    }
    for (id, entry) in &view.entries {
        data.insert(
            password_key(secret, &id.0, &id.1, &id.2),
            encrypt(rng, key, entry_json(id, entry).to_string().as_bytes()),
        );
    }
    data
}

pub fn file_text(data: &HashMap<String, String>) -> String {
    serde_json::json!({"application": "pfp", "format": 3, "data": data}).to_string()
}

pub fn pearson(input: &[u8], virtual_byte: u8) -> u8 {
    let perm = |i: u8| ((i as usize + 379) * 467 % 256) as u8;
    input.iter().fold(perm(virtual_byte), |h, b| perm(h ^ b))
}

pub fn b32(input: &[u8]) -> String {
    let chars = ALPHABET.as_bytes();
    let mut out = String::new();
    let (mut acc, mut n) = (0u32, 0);
    for b in input {
        acc = acc << 8 | *b as u32;
        n += 8;
        while n >= 5 {
            n -= 5;
            out.push(chars[(acc >> n & 31) as usize] as char);
        }
        acc &= (1 << n) - 1;
    }
    assert_eq!(n, 0);
    out
}

pub fn b32_decode(text: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut n) = (0u32, 0);
    for c in text.chars() {
        acc = acc << 5 | ALPHABET.find(c).unwrap() as u32;
        n += 5;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
        acc &= (1 << n) - 1;
    }
    out
}

pub fn kept(code: &[u8]) -> String {
    code.iter()
        .map(|b| b.to_ascii_uppercase() as char)
        .filter(|c| ALPHABET.contains(*c))
        .collect()
}

pub fn punctuate(kept: &str) -> String {
    let mut out = String::new();
    for (i, c) in kept.chars().enumerate() {
        if i > 0 {
            if i % 24 == 0 {
                out.push('\n')
            } else if i % 12 == 0 {
                out.push(':')
            } else if i % 4 == 0 {
                out.push('-')
            }
        }
        out.push(c);
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rows {
    Mismatch(usize),
    Extra(usize),
    Incomplete,
    Complete(Vec<u8>),
}

/// Judges the rows of a recovery code
pub fn rows(code: &[u8]) -> Rows {
    let text = kept(code);
    let full = text.len() / 24;
    for i in 0..full {
        let row = b32_decode(&text[i * 24..i * 24 + 24]);
        if row[14] == pearson(&row[..14], 255 - i as u8) {
            return if text.len() > (i + 1) * 24 {
                Rows::Extra(i + 1)
            } else {
                let mut out = Vec::new();
                for r in 0..full {
                    out.extend_from_slice(&b32_decode(&text[r * 24..r * 24 + 24])[..14]);
                }
                Rows::Complete(out)
            };
        }
        if row[14] != pearson(&row[..14], i as u8) {
            return Rows::Mismatch(i);
        }
    }
    Rows::Incomplete
}

/// Makes rows with correct checksums
pub fn make_rows(payload: &[u8], first: usize, last: bool) -> Vec<String> {
    let n = payload.len() / 14;
    (0..n)
        .map(|r| {
            let i = first + r;
            let mut row = payload[r * 14..r * 14 + 14].to_vec();
            let v = if last && r == n - 1 { 255 - i as u8 } else { i as u8 };
            row.push(pearson(&row, v));
            b32(&row)
        })
        .collect()
}

/// Recovery code of a password, rows without punctuation
pub fn code_rows(rng: &mut Rng, password: &[u8], salt: &[u8], key: &[u8]) -> Vec<String> {
    let mut plain = password.to_vec();
    while (1 + 16 + 12 + 16 + plain.len()) % 14 != 0 {
        plain.push(0);
    }
    let nonce = rng.bytes(12);
    let mut payload = vec![1u8];
    payload.extend_from_slice(salt);
    payload.extend_from_slice(&nonce);
    payload.extend_from_slice(&encrypt_with(key, &nonce, &plain));
    make_rows(&payload, 0, true)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Decoded {
    Rows(Rows),
    WrongVersion,
    Insufficient,
    Undecryptable,
    NotUtf8,
    Password(String),
}

pub fn decode(code: &[u8], mut key: impl FnMut(&[u8]) -> Vec<u8>) -> Decoded {
    let payload = match rows(code) {
        Rows::Complete(p) => p,
        other => return Decoded::Rows(other),
    };
    if !payload.is_empty() && payload[0] != 1 {
        return Decoded::WrongVersion;
    }
    if payload.len() < 1 + 16 + 12 + 16 {
        return Decoded::Insufficient;
    }
    match decrypt_raw(&key(&payload[1..17]), &payload[17..29], &payload[29..]) {
        None => Decoded::Undecryptable,
        Some(mut plain) => {
            while plain.last() == Some(&0) {
                plain.pop();
            }
            match String::from_utf8(plain) {
                Ok(text) => Decoded::Password(text),
                Err(_) => Decoded::NotUtf8,
            }
        }
    }
}

pub fn wild(pattern: &str, text: &str) -> bool {
    fn go(p: &[char], t: &[char]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some('*') => go(&p[1..], t) || (!t.is_empty() && go(p, &t[1..])),
            Some('?') => !t.is_empty() && go(&p[1..], &t[1..]),
            Some(c) => t.first() == Some(c) && go(&p[1..], &t[1..]),
        }
    }
    go(&pattern.chars().collect::<Vec<_>>(), &text.chars().collect::<Vec<_>>())
}
