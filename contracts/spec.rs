pub mod spec {
use vstd::prelude::*;
use crate::storage_types::CharacterType;

// ---------------------------------------------------------------- bytes and text
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| utf8(s) == b }
pub open spec fn char_boundary(s: Seq<char>, i: int) -> bool { exists|n: int| 0 <= n <= s.len() && #[trigger] utf8(s.take(n)).len() == i }
pub open spec fn chunk_count(len: int, n: int) -> int { if len % n == 0 { len / n } else { len / n + 1 } }
pub open spec fn chunk_of<T>(s: Seq<T>, n: int, i: int) -> Seq<T> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
pub open spec fn upper(b: u8) -> u8 { if 97 <= b <= 122 { (b - 32) as u8 } else { b } }
pub open spec fn first_at(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> s[j] != c }
pub open spec fn cut(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> {
    if s.contains(c) { let i = choose|i: int| first_at(s, c, i); Some((s.take(i), s.skip(i + 1))) } else { None }
}
pub open spec fn trim_starts(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && p.is_prefix_of(s) { trim_starts(s.skip(p.len() as int), p) } else { s }
}
pub open spec fn has_part(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub open spec fn splits(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = splits(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// White space (Unicode)
pub uninterp spec fn white(c: char) -> bool;
pub closed spec fn trim_left(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { trim_left(s.skip(1)) } else { s } }
pub closed spec fn trim_right(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trim_right(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_right(trim_left(s)) }
// Further texts: case conversion, repetition, lines
pub uninterp spec fn lower_text(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper_text(s: Seq<char>) -> Seq<char>;
pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c <= 'z' { ((c as u8 - 32) as u8) as char } else { c } }
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8 + 32) as u8) as char } else { c } }
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub closed spec fn ascii_upper_text(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_upper(c)) }
pub closed spec fn ascii_lower_text(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| ascii_lower(c)) }
pub uninterp spec fn trim_ends(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn splits_at(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;
pub closed spec fn repeated(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { repeated(s, (n - 1) as nat) + s } }
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn joined(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), sep) + sep + p.last() }
}

pub proof fn lemma_cut(a: Seq<char>, c: char, b: Seq<char>)
    requires !a.contains(c)
    ensures cut(a.push(c) + b, c) == Some((a, b))
{
    let s = a.push(c) + b;
    assert(s[a.len() as int] == c);
    assert forall|j: int| 0 <= j < a.len() implies s[j] != c by { assert(s[j] == a[j]); assert(a.contains(a[j])); }
    assert(first_at(s, c, a.len() as int));
    let i = choose|i: int| first_at(s, c, i);
    assert(i == a.len());
    assert(s.take(i) =~= a);
    assert(s.skip(i + 1) =~= b);
}

// ---------------------------------------------------------------- cryptography and encodings (dependencies)
pub uninterp spec fn scrypt_of(pw: Seq<u8>, salt: Seq<u8>, log_n: int, r: int, p: int, len: nat) -> Seq<u8>;
pub axiom fn axiom_scrypt(pw: Seq<u8>, salt: Seq<u8>, log_n: int, r: int, p: int, len: nat) ensures scrypt_of(pw, salt, log_n, r, p, len).len() == len;
pub uninterp spec fn aead_enc(key: Seq<u8>, nonce: Seq<u8>, plain: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn aead_dec(key: Seq<u8>, nonce: Seq<u8>, cipher: Seq<u8>) -> Option<Seq<u8>>;
/// AES-GCM: a ciphertext decrypts to a plaintext exactly if it is the encryption of it.
pub axiom fn axiom_aead(key: Seq<u8>, nonce: Seq<u8>, plain: Seq<u8>, cipher: Seq<u8>)
    ensures aead_dec(key, nonce, cipher) == Some(plain) <==> cipher == aead_enc(key, nonce, plain), aead_enc(key, nonce, plain).len() == plain.len() + 16;
pub uninterp spec fn hmac_of(key: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_dec(b: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn b64_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '+' || c == '/' || c == '=' }
pub axiom fn axiom_b64(b: Seq<u8>)
    ensures b64_dec(utf8(b64(b))) == Some(b), forall|i: int| 0 <= i < b64(b).len() ==> b64_char(#[trigger] b64(b)[i]);
/// The bytes are the output of one call of the thread's random generator.
pub uninterp spec fn from_rng(b: Seq<u8>) -> bool;
/// wildmatch: `*` any text, `?` one character
pub uninterp spec fn wild(pattern: Seq<char>, text: Seq<char>) -> bool;

// ---------------------------------------------------------------- generated passwords
pub open spec fn cs_len(s: Set<CharacterType>) -> int {
    (if s.contains(CharacterType::Lower) { 1int } else { 0 }) + (if s.contains(CharacterType::Upper) { 1int } else { 0 })
    + (if s.contains(CharacterType::Digit) { 1int } else { 0 }) + (if s.contains(CharacterType::Symbol) { 1int } else { 0 })
}
pub open spec fn class(i: int) -> CharacterType { if i == 0 { CharacterType::Lower } else if i == 1 { CharacterType::Upper } else if i == 2 { CharacterType::Digit } else { CharacterType::Symbol } }
/// The characters of a class: abcdefghjkmnpqrstuvwxyz, ABCDEFGHJKMNPQRSTUVWXYZ, 23456789, !#$%&()*+,-./:;<=>?@[]^_{|}~
pub open spec fn class_bytes(t: CharacterType) -> Seq<u8> {
    match t {
        CharacterType::Lower => seq![97u8, 98, 99, 100, 101, 102, 103, 104, 106, 107, 109, 110, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122],
        CharacterType::Upper => seq![65u8, 66, 67, 68, 69, 70, 71, 72, 74, 75, 77, 78, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90],
        CharacterType::Digit => seq![50u8, 51, 52, 53, 54, 55, 56, 57],
        CharacterType::Symbol => seq![33u8, 35, 36, 37, 38, 40, 41, 42, 43, 44, 45, 46, 47, 58, 59, 60, 61, 62, 63, 64, 91, 93, 94, 95, 123, 124, 125, 126],
    }
}
pub open spec fn class_len(t: CharacterType) -> int { match t { CharacterType::Lower => 23, CharacterType::Upper => 23, CharacterType::Digit => 8, CharacterType::Symbol => 28 } }
pub open spec fn weight(a: Set<CharacterType>, i: int) -> int { if a.contains(class(i)) { class_len(class(i)) } else { 0 } }
/// Number of characters in the first k classes of the selection
pub open spec fn nchars(a: Set<CharacterType>, k: int) -> int {
    (if k >= 1 { weight(a, 0) } else { 0 }) + (if k >= 2 { weight(a, 1) } else { 0 }) + (if k >= 3 { weight(a, 2) } else { 0 }) + (if k >= 4 { weight(a, 3) } else { 0 })
}
pub open spec fn cs_all() -> Set<CharacterType> { Set::empty().insert(CharacterType::Lower).insert(CharacterType::Upper).insert(CharacterType::Digit).insert(CharacterType::Symbol) }
/// The class (0 to 3) the index-th character of the selection belongs to
pub open spec fn pick_class(a: Set<CharacterType>, index: int) -> int {
    if index < nchars(a, 1) { 0 } else if index < nchars(a, 2) { 1 } else if index < nchars(a, 3) { 2 } else { 3 }
}
pub open spec fn pick_char(a: Set<CharacterType>, index: int) -> char {
    let k = pick_class(a, index);
    class_bytes(class(k))[index - nchars(a, k)] as char
}
pub open spec fn allowed_at(cs: Set<CharacterType>, seen: Set<CharacterType>, left: int) -> Set<CharacterType> {
    if cs_len(cs) - cs_len(seen) >= left { cs.difference(seen) } else { cs }
}
pub struct GenState { pub text: Seq<char>, pub seen: Set<CharacterType> }
pub open spec fn gen_state(bytes: Seq<u8>, cs: Set<CharacterType>, i: int) -> GenState decreases i {
    if i <= 0 { GenState { text: Seq::empty(), seen: Set::empty() } } else {
        let p = gen_state(bytes, cs, i - 1);
        let a = allowed_at(cs, p.seen, bytes.len() - (i - 1));
        let index = bytes[i - 1] as int % nchars(a, 4);
        GenState { text: p.text.push(pick_char(a, index)), seen: p.seen.insert(class(pick_class(a, index))) }
    }
}
/// The password PfP derives from the bytes.
pub open spec fn gen_pw(bytes: Seq<u8>, cs: Set<CharacterType>) -> Seq<char> { gen_state(bytes, cs, bytes.len() as int).text }

#[verifier::opaque]
pub open spec fn in_class(c: char, t: CharacterType) -> bool { exists|j: int| 0 <= j < class_len(t) && c == #[trigger] class_bytes(t)[j] as char }
pub open spec fn some_class(cs: Set<CharacterType>, c: char) -> bool { exists|t: CharacterType| cs.contains(t) && #[trigger] in_class(c, t) }
/// The property of generated passwords: length, only selected classes, every class represented (or no class twice if too short).
pub open spec fn pw_ok(pw: Seq<char>, cs: Set<CharacterType>, len: int) -> bool {
    &&& pw.len() == len
    &&& forall|i: int| 0 <= i < pw.len() ==> some_class(cs, #[trigger] pw[i])
    &&& len >= cs_len(cs) ==> forall|t: CharacterType| cs.contains(t) ==> exists|i: int| 0 <= i < pw.len() && #[trigger] in_class(pw[i], t)
    &&& len < cs_len(cs) ==> no_class_twice(pw)
}

pub proof fn lemma_pick(a: Set<CharacterType>, index: int)
    requires 0 <= index < nchars(a, 4)
    ensures
        0 <= pick_class(a, index) < 4, a.contains(class(pick_class(a, index))),
        nchars(a, pick_class(a, index)) <= index < nchars(a, pick_class(a, index) + 1),
        index - nchars(a, pick_class(a, index)) < class_len(class(pick_class(a, index))),
        in_class(pick_char(a, index), class(pick_class(a, index))),
{
    reveal(in_class);
    let k = pick_class(a, index);
    let j = index - nchars(a, k);
    assert(0 <= j < class_len(class(k)));
    assert(pick_char(a, index) == class_bytes(class(k))[j] as char);
}
pub proof fn lemma_pick_at(a: Set<CharacterType>, index: int, k: int)
    requires 0 <= k < 4
    ensures
        nchars(a, 0) == 0,
        nchars(a, k + 1) == nchars(a, k) + (if a.contains(class(k)) { class_bytes(class(k)).len() as int } else { 0 }),
        0 <= nchars(a, k) <= nchars(a, 4) <= 82,
        nchars(a, k) <= index < nchars(a, k + 1) ==> pick_class(a, index) == k && pick_char(a, index) == class_bytes(class(k))[index - nchars(a, k)] as char,
{}
pub proof fn lemma_gen_step(bytes: Seq<u8>, cs: Set<CharacterType>, i: int)
    requires 0 <= i < bytes.len(), cs_len(cs) > 0
    ensures ({
        let p = gen_state(bytes, cs, i);
        let a = allowed_at(cs, p.seen, bytes.len() - i);
        let index = bytes[i] as int % nchars(a, 4);
        &&& p.seen.subset_of(cs) && cs_len(p.seen) <= cs_len(cs) && a.subset_of(cs)
        &&& nchars(a, 0) == 0 && 0 < nchars(a, 4) <= 82
        &&& 0 <= index < nchars(a, 4)
        &&& gen_state(bytes, cs, i + 1) == (GenState { text: p.text.push(pick_char(a, index)), seen: p.seen.insert(class(pick_class(a, index))) })
        &&& gen_state(bytes, cs, i + 1).seen.subset_of(cs)
        &&& a.contains(class(pick_class(a, index))) && in_class(pick_char(a, index), class(pick_class(a, index)))
    })
    decreases i
{
    let p = gen_state(bytes, cs, i);
    if i > 0 { lemma_gen_step(bytes, cs, i - 1); }
    let a = allowed_at(cs, p.seen, bytes.len() - i);
    assert(p.seen.subset_of(cs));
    assert(forall|t: CharacterType| p.seen.contains(t) ==> cs.contains(t));
    assert(forall|t: CharacterType| a.contains(t) ==> cs.contains(t));
    assert(exists|t: CharacterType| a.contains(t)) by {
        if forall|t: CharacterType| !a.contains(t) {
            assert(!a.contains(CharacterType::Lower) && !a.contains(CharacterType::Upper) && !a.contains(CharacterType::Digit) && !a.contains(CharacterType::Symbol));
        }
    }
    let t = choose|t: CharacterType| a.contains(t);
    assert(t == class(0) || t == class(1) || t == class(2) || t == class(3));
    assert(nchars(a, 4) > 0);
    vstd::arithmetic::div_mod::lemma_mod_bound(bytes[i] as int, nchars(a, 4));
    lemma_pick(a, bytes[i] as int % nchars(a, 4));
}
pub proof fn lemma_disjoint(c: char, t: CharacterType, u: CharacterType)
    requires in_class(c, t), in_class(c, u)
    ensures t == u
{
    reveal(in_class);
    let i = choose|i: int| 0 <= i < class_len(t) && c == #[trigger] class_bytes(t)[i] as char;
    let j = choose|j: int| 0 <= j < class_len(u) && c == #[trigger] class_bytes(u)[j] as char;
    lemma_class_range(t, i);
    lemma_class_range(u, j);
    assert(class_bytes(t)[i] as u32 == c as u32);
    assert(class_bytes(u)[j] as u32 == c as u32);
}
pub open spec fn class_range(t: CharacterType, b: u8) -> bool {
    match t { CharacterType::Lower => 97 <= b <= 122, CharacterType::Upper => 65 <= b <= 90, CharacterType::Digit => 50 <= b <= 57,
        CharacterType::Symbol => 33 <= b <= 47 || 58 <= b <= 64 || 91 <= b <= 95 || 123 <= b <= 126 }
}
pub proof fn lemma_class_range(t: CharacterType, i: int) requires 0 <= i < class_len(t) ensures class_range(t, class_bytes(t)[i]) {}
/// C01 and C02 agree: whatever the bytes, the derived password has the requested shape.
pub open spec fn inv_count(len: int, cs: Set<CharacterType>, s: GenState, i: int) -> bool {
    &&& s.text.len() == i && s.seen.subset_of(cs)
    &&& len >= cs_len(cs) ==> cs_len(cs) - cs_len(s.seen) <= len - i
    &&& len < cs_len(cs) ==> cs_len(s.seen) == i
}
pub open spec fn inv_classes(s: GenState) -> bool {
    &&& forall|j: int| 0 <= j < s.text.len() ==> some_class(s.seen, #[trigger] s.text[j])
    &&& forall|t: CharacterType| #[trigger] s.seen.contains(t) ==> exists|j: int| 0 <= j < s.text.len() && #[trigger] in_class(s.text[j], t)
}
pub open spec fn no_class_twice(text: Seq<char>) -> bool {
    forall|j: int, k: int, t: CharacterType| 0 <= j < k < text.len() && #[trigger] in_class(text[j], t) ==> !#[trigger] in_class(text[k], t)
}
pub open spec fn gstep(p: GenState, c: char, t: CharacterType) -> GenState { GenState { text: p.text.push(c), seen: p.seen.insert(t) } }
pub proof fn lemma_inv_count(len: int, cs: Set<CharacterType>, p: GenState, i: int, c: char, t: CharacterType)
    requires inv_count(len, cs, p, i), 0 <= i < len, allowed_at(cs, p.seen, len - i).contains(t)
    ensures inv_count(len, cs, gstep(p, c, t), i + 1), len < cs_len(cs) ==> !p.seen.contains(t)
{
    assert(forall|u: CharacterType| p.seen.contains(u) ==> cs.contains(u));
    let q = p.seen.insert(t);
    assert(q.contains(CharacterType::Lower) == (t == CharacterType::Lower || p.seen.contains(CharacterType::Lower)));
    assert(q.contains(CharacterType::Upper) == (t == CharacterType::Upper || p.seen.contains(CharacterType::Upper)));
    assert(q.contains(CharacterType::Digit) == (t == CharacterType::Digit || p.seen.contains(CharacterType::Digit)));
    assert(q.contains(CharacterType::Symbol) == (t == CharacterType::Symbol || p.seen.contains(CharacterType::Symbol)));
    assert(p.seen.contains(t) ==> cs_len(q) == cs_len(p.seen));
    assert(!p.seen.contains(t) ==> cs_len(q) == cs_len(p.seen) + 1);
}
pub proof fn lemma_inv_classes(p: GenState, c: char, t: CharacterType)
    requires inv_classes(p), in_class(c, t)
    ensures inv_classes(gstep(p, c, t))
{
    let s = gstep(p, c, t);
    assert(s.text[p.text.len() as int] == c);
    assert forall|j: int| 0 <= j < s.text.len() implies some_class(s.seen, #[trigger] s.text[j]) by {
        if j == p.text.len() { assert(s.seen.contains(t) && in_class(s.text[j], t)); }
        else { assert(s.text[j] == p.text[j]); assert(some_class(p.seen, p.text[j])); let u = choose|u: CharacterType| p.seen.contains(u) && #[trigger] in_class(p.text[j], u); assert(s.seen.contains(u) && in_class(s.text[j], u)); }
    }
    assert forall|u: CharacterType| #[trigger] s.seen.contains(u) implies exists|j: int| 0 <= j < s.text.len() && #[trigger] in_class(s.text[j], u) by {
        if u == t { assert(in_class(s.text[p.text.len() as int], u)); }
        else { assert(p.seen.contains(u)); let j = choose|j: int| 0 <= j < p.text.len() && #[trigger] in_class(p.text[j], u); assert(s.text[j] == p.text[j]); assert(in_class(s.text[j], u)); }
    }
}
pub proof fn lemma_no_class_twice(p: GenState, c: char, t0: CharacterType)
    requires inv_classes(p), no_class_twice(p.text), in_class(c, t0), !p.seen.contains(t0)
    ensures no_class_twice(p.text.push(c))
{
    let text = p.text.push(c);
    assert forall|j: int, k: int, t: CharacterType| 0 <= j < k < text.len() && #[trigger] in_class(text[j], t) implies !#[trigger] in_class(text[k], t) by {
        assert(text[j] == p.text[j]);
        assert(in_class(p.text[j], t));
        if k < p.text.len() { assert(text[k] == p.text[k]); if in_class(text[k], t) { assert(in_class(p.text[k], t)); } }
        else if in_class(text[k], t) {
            assert(some_class(p.seen, p.text[j]));
            let u = choose|u: CharacterType| p.seen.contains(u) && #[trigger] in_class(p.text[j], u);
            lemma_disjoint(c, t, t0);
            lemma_disjoint(p.text[j], t, u);
        }
    }
}
/// C01 and C02 agree: whatever the bytes, the derived password has the requested shape.
pub proof fn lemma_gen_inv(bytes: Seq<u8>, cs: Set<CharacterType>, i: int)
    requires 0 <= i <= bytes.len(), cs_len(cs) > 0
    ensures inv_count(bytes.len() as int, cs, gen_state(bytes, cs, i), i), inv_classes(gen_state(bytes, cs, i)),
        bytes.len() < cs_len(cs) ==> no_class_twice(gen_state(bytes, cs, i).text)
    decreases i
{
    if i > 0 {
        lemma_gen_inv(bytes, cs, i - 1);
        lemma_gen_step(bytes, cs, i - 1);
        let p = gen_state(bytes, cs, i - 1);
        let a = allowed_at(cs, p.seen, bytes.len() - (i - 1));
        let index = bytes[i - 1] as int % nchars(a, 4);
        let c = pick_char(a, index);
        let t = class(pick_class(a, index));
        assert(gen_state(bytes, cs, i) == gstep(p, c, t));
        lemma_inv_count(bytes.len() as int, cs, p, i - 1, c, t);
        lemma_inv_classes(p, c, t);
        if bytes.len() < cs_len(cs) { lemma_no_class_twice(p, c, t); }
    }
}
pub proof fn lemma_gen_ok(bytes: Seq<u8>, cs: Set<CharacterType>)
    requires cs_len(cs) > 0
    ensures pw_ok(gen_pw(bytes, cs), cs, bytes.len() as int)
{
    lemma_gen_inv(bytes, cs, bytes.len() as int);
    let s = gen_state(bytes, cs, bytes.len() as int);
    assert forall|i: int| 0 <= i < s.text.len() implies some_class(cs, #[trigger] s.text[i]) by {
        assert(some_class(s.seen, s.text[i]));
        let t = choose|t: CharacterType| s.seen.contains(t) && #[trigger] in_class(s.text[i], t);
        assert(cs.contains(t) && in_class(s.text[i], t));
    }
    if bytes.len() >= cs_len(cs) {
        assert forall|t: CharacterType| cs.contains(t) implies exists|i: int| 0 <= i < s.text.len() && #[trigger] in_class(s.text[i], t) by {
            assert(cs_len(s.seen) >= cs_len(cs));
            assert(forall|u: CharacterType| s.seen.contains(u) ==> cs.contains(u));
            assert(s.seen.contains(t));
        }
    }
}

/// The generated password for a primary password, salt, length and character classes
pub open spec fn derived_pw(primary: Seq<char>, salt: Seq<char>, length: int, cs: Set<CharacterType>) -> Seq<char> {
    gen_pw(scrypt_of(utf8(primary), utf8(salt), 15, 8, 1, length as nat), cs)
}
/// The encryption key for a primary password and the bytes salting it
pub open spec fn key_of(primary: Seq<char>, salt: Seq<u8>) -> Seq<u8> { scrypt_of(utf8(primary), salt, 15, 8, 1, 32) }

// ---------------------------------------------------------------- Base32 and checksums of recovery codes
/// Memory is limited: no byte slice is longer than isize::MAX.
pub axiom fn axiom_slice_len(s: &[u8]) ensures s@.len() <= 0x7fff_ffff_ffff_ffff;
pub axiom fn axiom_string_len(s: String) ensures utf8(s@).len() <= 0x7fff_ffff_ffff_ffff;
pub axiom fn axiom_str_len(s: &str) ensures utf8(s@).len() <= 0x7fff_ffff_ffff_ffff;
/// RFC 4648 with the alphabet ABCDEFGHJKLMNPQRSTUVWXYZ23456789
pub open spec fn b32_alpha() -> Seq<u8> {
    seq![65u8, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 50, 51, 52, 53, 54, 55, 56, 57]
}
/// The value of a letter, 255 if it is not one of the alphabet
pub open spec fn b32_value(b: u8) -> int {
    if 65 <= b <= 72 { b - 65 } else if 74 <= b <= 78 { b - 66 } else if 80 <= b <= 90 { b - 67 } else if 50 <= b <= 57 { b - 26 } else { 255 }
}
pub open spec fn b32_letter(b: u8) -> bool { b32_value(b) < 32 }
/// j-th of the eight five-bit digits of five bytes
pub open spec fn b32_digit(c: Seq<u8>, j: int) -> int {
    if j == 0 { c[0] as int / 8 } else if j == 1 { (c[0] as int % 8) * 4 + c[1] as int / 64 } else if j == 2 { (c[1] as int / 2) % 32 }
    else if j == 3 { (c[1] as int % 2) * 16 + c[2] as int / 16 } else if j == 4 { (c[2] as int % 16) * 2 + c[3] as int / 128 } else if j == 5 { (c[3] as int / 4) % 32 }
    else if j == 6 { (c[3] as int % 4) * 8 + c[4] as int / 32 } else { c[4] as int % 32 }
}
/// j-th of the five bytes of eight five-bit digits
pub open spec fn b32_byte(d: Seq<int>, j: int) -> int {
    if j == 0 { d[0] * 8 + d[1] / 4 } else if j == 1 { (d[1] % 4) * 64 + d[2] * 2 + d[3] / 16 } else if j == 2 { (d[3] % 16) * 16 + d[4] / 2 }
    else if j == 3 { (d[4] % 2) * 128 + d[5] * 4 + d[6] / 8 } else { (d[6] % 8) * 32 + d[7] }
}
#[verifier::opaque]
pub open spec fn b32_enc(b: Seq<u8>) -> Seq<u8> { Seq::new((b.len() / 5 * 8) as nat, |i: int| b32_alpha()[b32_digit(b.subrange(i / 8 * 5, i / 8 * 5 + 5), i % 8)]) }
pub open spec fn b32_values(b: Seq<u8>) -> Seq<int> { Seq::new(b.len(), |i: int| b32_value(b[i])) }
pub open spec fn b32_ok(b: Seq<u8>) -> bool { b.len() % 8 == 0 && forall|i: int| 0 <= i < b.len() ==> b32_letter(#[trigger] b[i]) }
#[verifier::opaque]
pub open spec fn b32_dec(b: Seq<u8>) -> Seq<u8> { Seq::new((b.len() / 8 * 5) as nat, |i: int| b32_byte(b32_values(b).subrange(i / 5 * 8, i / 5 * 8 + 8), i % 5) as u8) }

pub proof fn lemma_b32_len(b: Seq<u8>) ensures b32_enc(b).len() == b.len() / 5 * 8, b32_dec(b).len() == b.len() / 8 * 5 { reveal(b32_enc); reveal(b32_dec); }
pub proof fn lemma_alpha(v: int) requires 0 <= v < 32 ensures b32_value(b32_alpha()[v]) == v, b32_letter(b32_alpha()[v]) {}
pub proof fn lemma_alpha_inv(b: u8) requires b32_letter(b) ensures 0 <= b32_value(b) < 32, b32_alpha()[b32_value(b)] == b {}
pub proof fn lemma_b32_digits(c: Seq<u8>)
    requires c.len() == 5
    ensures
        b32_digit(c, 0) == c[0] >> 3, b32_digit(c, 1) == (c[0] & 0x07) << 2 | c[1] >> 6, b32_digit(c, 2) == c[1] >> 1 & 0x1F,
        b32_digit(c, 3) == (c[1] & 0x01) << 4 | c[2] >> 4, b32_digit(c, 4) == (c[2] & 0x0F) << 1 | c[3] >> 7, b32_digit(c, 5) == c[3] >> 2 & 0x1F,
        b32_digit(c, 6) == (c[3] & 0x03) << 3 | c[4] >> 5, b32_digit(c, 7) == c[4] & 0x1F,
        forall|j: int| 0 <= j < 8 ==> 0 <= #[trigger] b32_digit(c, j) < 32,
{
    let (a, b, d, e, f) = (c[0], c[1], c[2], c[3], c[4]);
    assert(a >> 3 == a / 8) by (bit_vector);
    assert((a & 0x07) << 2 | b >> 6 == (a % 8) * 4 + b / 64) by (bit_vector);
    assert(b >> 1 & 0x1F == (b / 2) % 32) by (bit_vector);
    assert((b & 0x01) << 4 | d >> 4 == (b % 2) * 16 + d / 16) by (bit_vector);
    assert((d & 0x0F) << 1 | e >> 7 == (d % 16) * 2 + e / 128) by (bit_vector);
    assert(e >> 2 & 0x1F == (e / 4) % 32) by (bit_vector);
    assert((e & 0x03) << 3 | f >> 5 == (e % 4) * 8 + f / 32) by (bit_vector);
    assert(f & 0x1F == f % 32) by (bit_vector);
}
pub proof fn lemma_b32_bytes(d: Seq<u8>)
    requires d.len() == 8, forall|i: int| 0 <= i < 8 ==> #[trigger] d[i] < 32
    ensures ({
        let v = Seq::new(8, |i: int| d[i] as int);
        &&& b32_byte(v, 0) == d[0] << 3 | d[1] >> 2
        &&& b32_byte(v, 1) == (d[1] & 0x03) << 6 | d[2] << 1 | d[3] >> 4
        &&& b32_byte(v, 2) == (d[3] & 0x0F) << 4 | d[4] >> 1
        &&& b32_byte(v, 3) == (d[4] & 0x01) << 7 | d[5] << 2 | d[6] >> 3
        &&& b32_byte(v, 4) == (d[6] & 0x07) << 5 | d[7]
        &&& forall|j: int| 0 <= j < 5 ==> 0 <= #[trigger] b32_byte(v, j) < 256
    })
{
    let (a, b, c, e, f, g, h, k) = (d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]);
    assert(a < 32 && b < 32 ==> a << 3 | b >> 2 == a * 8 + b / 4) by (bit_vector);
    assert(b < 32 && c < 32 && e < 32 ==> (b & 0x03) << 6 | c << 1 | e >> 4 == (b % 4) * 64 + c * 2 + e / 16) by (bit_vector);
    assert(e < 32 && f < 32 ==> (e & 0x0F) << 4 | f >> 1 == (e % 16) * 16 + f / 2) by (bit_vector);
    assert(f < 32 && g < 32 && h < 32 ==> (f & 0x01) << 7 | g << 2 | h >> 3 == (f % 2) * 128 + g * 4 + h / 8) by (bit_vector);
    assert(h < 32 && k < 32 ==> (h & 0x07) << 5 | k == (h % 8) * 32 + k) by (bit_vector);
}
/// Decoding what was encoded gives back the bytes.
pub proof fn lemma_b32_inverse(b: Seq<u8>)
    requires b.len() % 5 == 0
    ensures b32_ok(b32_enc(b)), b32_dec(b32_enc(b)) == b, b32_enc(b).len() == b.len() / 5 * 8
{
    reveal(b32_enc); reveal(b32_dec);
    let e = b32_enc(b);
    let v = b32_values(e);
    assert forall|i: int| 0 <= i < e.len() implies b32_letter(#[trigger] e[i]) && v[i] == b32_digit(b.subrange(i / 8 * 5, i / 8 * 5 + 5), i % 8) by {
        lemma_b32_digits(b.subrange(i / 8 * 5, i / 8 * 5 + 5));
        lemma_alpha(b32_digit(b.subrange(i / 8 * 5, i / 8 * 5 + 5), i % 8));
    }
    assert(e.len() % 8 == 0);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b32_dec(e)[i] == b[i] by {
        assert(forall|n: int| 0 <= n < e.len() ==> #[trigger] v[n] == b32_digit(b.subrange(n / 8 * 5, n / 8 * 5 + 5), n % 8)) by { assert forall|n: int| 0 <= n < e.len() implies #[trigger] v[n] == b32_digit(b.subrange(n / 8 * 5, n / 8 * 5 + 5), n % 8) by { assert(b32_letter(e[n])); } }
        lemma_b32_at(b, v, i);
        assert(b32_dec(e)[i] == b32_byte(v.subrange(i / 5 * 8, i / 5 * 8 + 8), i % 5) as u8);
    }
    assert(b32_dec(e) =~= b);
}
pub proof fn lemma_b32_at(b: Seq<u8>, v: Seq<int>, i: int)
    requires b.len() % 5 == 0, v.len() == b.len() / 5 * 8, 0 <= i < b.len(), forall|n: int| 0 <= n < v.len() ==> #[trigger] v[n] == b32_digit(b.subrange(n / 8 * 5, n / 8 * 5 + 5), n % 8)
    ensures b32_byte(v.subrange(i / 5 * 8, i / 5 * 8 + 8), i % 5) == b[i]
{
    hide(b32_digit); hide(b32_byte);
    let k = i / 5;
    let c = b.subrange(k * 5, k * 5 + 5);
    let d = v.subrange(k * 8, k * 8 + 8);
    assert forall|j: int| 0 <= j < 8 implies #[trigger] d[j] == b32_digit(c, j) by {
        let n = k * 8 + j;
        assert(n / 8 == k && n % 8 == j);
        assert(v[n] == b32_digit(b.subrange(n / 8 * 5, n / 8 * 5 + 5), n % 8));
    }
    assert(d[0] == b32_digit(c, 0) && d[1] == b32_digit(c, 1) && d[2] == b32_digit(c, 2) && d[3] == b32_digit(c, 3) && d[4] == b32_digit(c, 4) && d[5] == b32_digit(c, 5) && d[6] == b32_digit(c, 6) && d[7] == b32_digit(c, 7));
    lemma_b32_group(c, d, i % 5);
    assert(c[i % 5] == b[i]);
}
#[verifier::spinoff_prover]
pub proof fn lemma_b32_group(c: Seq<u8>, d: Seq<int>, j: int)
    requires 0 <= j < 5, d[0] == b32_digit(c, 0), d[1] == b32_digit(c, 1), d[2] == b32_digit(c, 2), d[3] == b32_digit(c, 3), d[4] == b32_digit(c, 4), d[5] == b32_digit(c, 5), d[6] == b32_digit(c, 6), d[7] == b32_digit(c, 7)
    ensures b32_byte(d, j) == c[j]
{
    let (a, b, e, f, g) = (c[0], c[1], c[2], c[3], c[4]);
    if j == 0 { assert((a / 8) * 8 + ((a % 8) * 4 + b / 64) / 4 == a) by (bit_vector); }
    else if j == 1 { assert((((a % 8) * 4 + b / 64) % 4) * 64 + ((b / 2) % 32) * 2 + ((b % 2) * 16 + e / 16) / 16 == b) by (bit_vector); }
    else if j == 2 { assert((((b % 2) * 16 + e / 16) % 16) * 16 + ((e % 16) * 2 + f / 128) / 2 == e) by (bit_vector); }
    else if j == 3 { assert((((e % 16) * 2 + f / 128) % 2) * 128 + ((f / 4) % 32) * 4 + ((f % 4) * 8 + g / 32) / 8 == f) by (bit_vector); }
    else { assert((((f % 4) * 8 + g / 32) % 8) * 32 + g % 32 == g) by (bit_vector); }
}

pub proof fn lemma_b32_push(b: Seq<u8>, k: int, e: Seq<u8>)
    requires
        b.len() % 5 == 0, 0 <= k < b.len() / 5, e.len() == 8 * k + 8, e.take(8 * k) == b32_enc(b).take(8 * k),
        forall|j: int| 0 <= j < 8 ==> e[8 * k + j] == b32_alpha()[#[trigger] b32_digit(chunk_of(b, 5, k), j)],
    ensures e == b32_enc(b).take(8 * k + 8)
{
    reveal(b32_enc);
    let f = b32_enc(b);
    assert forall|i: int| 0 <= i < e.len() implies e[i] == f[i] by {
        if i < 8 * k { assert(e[i] == e.take(8 * k)[i]); assert(f[i] == f.take(8 * k)[i]); }
        else { let j = i - 8 * k; assert(i / 8 == k && i % 8 == j); assert(e[8 * k + j] == b32_alpha()[b32_digit(chunk_of(b, 5, k), j)]); }
    }
    assert(e =~= f.take(8 * k + 8));
}
pub proof fn lemma_b32_unpush(b: Seq<u8>, k: int, e: Seq<u8>)
    requires
        b.len() % 8 == 0, 0 <= k < b.len() / 8, e.len() == 5 * k + 5, e.take(5 * k) == b32_dec(b).take(5 * k),
        forall|j: int| 0 <= j < 5 ==> e[5 * k + j] == #[trigger] b32_byte(b32_values(b).subrange(8 * k, 8 * k + 8), j) as u8,
    ensures e == b32_dec(b).take(5 * k + 5)
{
    reveal(b32_dec);
    let f = b32_dec(b);
    assert forall|i: int| 0 <= i < e.len() implies e[i] == f[i] by {
        if i < 5 * k { assert(e[i] == e.take(5 * k)[i]); assert(f[i] == f.take(5 * k)[i]); }
        else { let j = i - 5 * k; assert(i / 5 == k && i % 5 == j); assert(e[5 * k + j] == b32_byte(b32_values(b).subrange(8 * k, 8 * k + 8), j) as u8); }
    }
    assert(e =~= f.take(5 * k + 5));
}

/// Pearson hash with the permutation x -> (x + 379) * 467 mod 256
pub open spec fn perm(x: u8) -> u8 { ((x + 379) * 467 % 256) as u8 }
#[verifier::opaque]
pub open spec fn pearson(row: Seq<u8>, v: u8) -> u8 decreases row.len() { if row.len() == 0 { perm(v) } else { perm(pearson(row.drop_last(), v) ^ row.last()) } }

// ---------------------------------------------------------------- storage
pub struct PidV { pub site: Seq<char>, pub name: Seq<char>, pub revision: Seq<char> }
pub enum KindV { Gen { length: int, charset: Set<CharacterType> }, Stored { password: Seq<char> } }
pub struct PwV { pub id: PidV, pub kind: KindV, pub notes: Seq<char> }
pub struct SiteV { pub name: Seq<char>, pub alias: Option<Seq<char>> }
pub enum JV { Text(Seq<char>), Site(SiteV), Pw(PwV), File(Map<Seq<char>, Seq<char>>) }
pub enum JT { Text, Site, Pw, File }
pub open spec fn jt_of(v: JV) -> JT { match v { JV::Text(_) => JT::Text, JV::Site(_) => JT::Site, JV::Pw(_) => JT::Pw, JV::File(_) => JT::File } }
/// The JSON text of a value and the value a text is read as (serde_json together with the attributes on the types)
pub uninterp spec fn json_enc(v: JV) -> Seq<u8>;
pub uninterp spec fn json_dec(t: JT, b: Seq<u8>) -> Option<JV>;
pub axiom fn axiom_json(v: JV) ensures json_dec(jt_of(v), json_enc(v)) == Some(v);

pub struct PathV { pub p: Seq<u8> }
pub uninterp spec fn path_parent(p: PathV) -> Option<PathV>;
/// Reading the file gave this content / the directory exists / this content was written to the file
pub uninterp spec fn fs_read(p: PathV, content: Seq<u8>) -> bool;
pub uninterp spec fn fs_unreadable(p: PathV) -> bool;
/// No previous data can be read from there: no file, or not in the storage format
pub open spec fn not_loadable(p: PathV) -> bool { fs_unreadable(p) || exists|c: Seq<u8>| #[trigger] fs_read(p, c) && json_dec(JT::File, c) is None }
pub uninterp spec fn fs_dir(p: PathV) -> bool;
pub uninterp spec fn fs_wrote(p: PathV, content: Seq<u8>) -> bool;
/// Only saving may write files: nothing but the contract of StorageIO::flush provides this.
pub uninterp spec fn saving() -> bool;

pub type Data = Map<Seq<char>, Seq<char>>;
pub open spec fn texts(m: Map<Seq<char>, String>) -> Data { m.map_values(|s: String| s@) }
pub axiom fn axiom_saving() ensures saving();

pub open spec fn enc_text(nonce: Seq<u8>, plain: Seq<u8>, key: Seq<u8>) -> Seq<char> { b64(nonce).push('_') + b64(aead_enc(key, nonce, plain)) }
/// The text is an encryption of the plaintext with a fresh random 12-byte nonce.
pub open spec fn enc_of(v: Seq<char>, plain: Seq<u8>, key: Seq<u8>) -> bool { exists|n: Seq<u8>| n.len() == 12 && from_rng(n) && v == #[trigger] enc_text(n, plain, key) }
pub open spec fn decval(v: Seq<char>, key: Seq<u8>) -> Option<Seq<u8>> {
    match cut(v, '_') {
        None => None,
        Some((a, b)) => match (b64_dec(utf8(a)), b64_dec(utf8(b))) { (Some(n), Some(c)) => if n.len() == 12 { aead_dec(key, n, c) } else { None }, _ => None },
    }
}
pub proof fn lemma_b64_no(b: Seq<u8>, c: char) requires !b64_char(c) ensures !b64(b).contains(c) {
    axiom_b64(b);
    if b64(b).contains(c) { let i = choose|i: int| 0 <= i < b64(b).len() && b64(b)[i] == c; assert(b64_char(b64(b)[i])); }
}
pub proof fn lemma_enc_text(n: Seq<u8>, plain: Seq<u8>, key: Seq<u8>)
    requires n.len() == 12
    ensures decval(enc_text(n, plain, key), key) == Some(plain)
{
    let c = aead_enc(key, n, plain);
    lemma_b64_no(n, '_');
    lemma_cut(b64(n), '_', b64(c));
    axiom_b64(n); axiom_b64(c); axiom_aead(key, n, plain, c);
}
pub proof fn lemma_enc_of(v: Seq<char>, plain: Seq<u8>, key: Seq<u8>) requires enc_of(v, plain, key) ensures decval(v, key) == Some(plain) {
    let n = choose|n: Seq<u8>| n.len() == 12 && from_rng(n) && v == #[trigger] enc_text(n, plain, key);
    lemma_enc_text(n, plain, key);
}

/// The two parts of an encrypted value
pub proof fn lemma_enc_parts(v: Seq<char>, plain: Seq<u8>, key: Seq<u8>) -> (n: Seq<u8>)
    requires enc_of(v, plain, key)
    ensures
        n.len() == 12, from_rng(n), aead_enc(key, n, plain).len() == plain.len() + 16, cut(v, '_') == Some((b64(n), b64(aead_enc(key, n, plain)))),
        b64_dec(utf8(b64(n))) == Some(n), b64_dec(utf8(b64(aead_enc(key, n, plain)))) == Some(aead_enc(key, n, plain)),
{
    let n = choose|n: Seq<u8>| n.len() == 12 && from_rng(n) && v == #[trigger] enc_text(n, plain, key);
    let c = aead_enc(key, n, plain);
    lemma_b64_no(n, '_');
    lemma_cut(b64(n), '_', b64(c));
    axiom_b64(n); axiom_b64(c); axiom_aead(key, n, plain, c);
    n
}
/// Joining the parts: reading gives back both.
pub proof fn lemma_joined(n: Seq<u8>, c: Seq<u8>, key: Seq<u8>)
    ensures decval(b64(n).push('_') + b64(c), key) == if n.len() == 12 { aead_dec(key, n, c) } else { None }
{
    lemma_b64_no(n, '_');
    lemma_cut(b64(n), '_', b64(c));
    axiom_b64(n); axiom_b64(c);
}

// Keys
pub open spec fn digest(h: Seq<u8>, text: Seq<char>) -> Seq<char> { b64(hmac_of(h, utf8(text))) }
pub open spec fn skey(h: Seq<u8>, site: Seq<char>) -> Seq<char> { "site:"@ + digest(h, site) }
pub open spec fn sprefix(h: Seq<u8>, site: Seq<char>) -> Seq<char> { skey(h, site).push(':') }
pub open spec fn id_text(id: PidV) -> Seq<char> { id.site.push('\0') + id.name.push('\0') + id.revision }
pub open spec fn pkey(h: Seq<u8>, id: PidV) -> Seq<char> { sprefix(h, id.site) + digest(h, id_text(id)) }

/// Salt of a generated password
pub open spec fn gen_salt(id: PidV) -> Seq<char> {
    if id.revision.len() == 0 { id.site.push('\0') + id.name } else { (id.site.push('\0') + id.name).push('\0') + id.revision }
}

// Text and bytes
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b {
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
pub proof fn lemma_utf8_ascii(a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> '\0' <= #[trigger] a[i] <= '\x7f'
    ensures utf8(a).len() == a.len()
{
    assert(vstd::utf8::is_ascii_chars(a));
    vstd::utf8::is_ascii_chars_encode_utf8(a);
}
/// Cutting the bytes behind an ASCII prefix is cutting the text.
pub proof fn lemma_utf8_skip(s: Seq<char>, p: Seq<char>)
    requires p.is_prefix_of(s), forall|i: int| 0 <= i < p.len() ==> '\0' <= #[trigger] p[i] <= '\x7f'
    ensures char_boundary(s, p.len() as int), utf8(s).skip(p.len() as int) == utf8(s.skip(p.len() as int)), utf8(p).len() == p.len()
{
    let r = s.skip(p.len() as int);
    lemma_utf8_ascii(p);
    assert(s =~= p + r);
    assert(s.take(p.len() as int) =~= p);
    vstd::utf8::encode_utf8_concat(p, r);
    assert(utf8(s).skip(p.len() as int) =~= utf8(r));
    assert(utf8(s.take(p.len() as int)).len() == p.len());
}
// The two fixed keys
pub open spec fn k_salt() -> Seq<char> { "salt"@ }
pub open spec fn k_hmac() -> Seq<char> { "hmac-secret"@ }
pub open spec fn salt_of(d: Data) -> Option<Seq<u8>> { if d.dom().contains(k_salt()) { b64_dec(utf8(d[k_salt()])) } else { None } }
pub open spec fn secret_of(d: Data, key: Seq<u8>) -> Option<Seq<u8>> { match as_text(entry(d, key, k_hmac(), JT::Text)) { Some(t) => b64_dec(utf8(t)), None => None } }
/// A storage holding nothing but the salt and the encrypted secret
pub open spec fn is_reset(d: Data, salt: Seq<u8>, h: Seq<u8>, key: Seq<u8>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] d.dom().contains(k) <==> k == k_salt() || k == k_hmac()
    &&& d[k_salt()] == b64(salt)
    &&& enc_of(d[k_hmac()], json_enc(JV::Text(b64(h))), key)
}
pub proof fn lemma_fixed_keys() ensures k_salt() != k_hmac() { reveal_strlit("salt"); reveal_strlit("hmac-secret"); assert(k_salt().len() != k_hmac().len()); }

// Enumerations: the keys in some order, and what is selected from them in this order
pub open spec fn names(ks: Seq<&String>) -> Seq<Seq<char>> { Seq::new(ks.len(), |i: int| ks[i]@) }
pub open spec fn order_of(ks: Seq<Seq<char>>, dom: Set<Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] ks.contains(k) <==> dom.contains(k)
    &&& ks.no_duplicates()
}
pub open spec fn sel<K, V>(ks: Seq<K>, f: spec_fn(K) -> Option<V>) -> Seq<V> decreases ks.len() {
    if ks.len() == 0 { Seq::empty() } else { match f(ks.last()) { Some(v) => sel(ks.drop_last(), f).push(v), None => sel(ks.drop_last(), f) } }
}
pub proof fn lemma_sel_step<K, V>(ks: Seq<K>, f: spec_fn(K) -> Option<V>, i: int)
    requires 0 <= i < ks.len()
    ensures sel(ks.take(i + 1), f) == match f(ks[i]) { Some(v) => sel(ks.take(i), f).push(v), None => sel(ks.take(i), f) }
{ assert(ks.take(i + 1).drop_last() =~= ks.take(i)); }
pub open spec fn pw_sel(d: Data, key: Seq<u8>, prefix: Seq<char>) -> spec_fn(Seq<char>) -> Option<PwV> { |k: Seq<char>| if prefix.is_prefix_of(k) { pw_in(d, key, k) } else { None } }
pub open spec fn site_key(k: Seq<char>) -> bool { "site:"@.is_prefix_of(k) && !k.skip(5).contains(':') }
pub open spec fn site_sel(d: Data, key: Seq<u8>) -> spec_fn(Seq<char>) -> Option<SiteV> { |k: Seq<char>| if site_key(k) { site_in(d, key, k) } else { None } }
pub open spec fn is_pw_list(vs: Seq<PwV>, d: Data, key: Seq<u8>, prefix: Seq<char>) -> bool { exists|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && vs == sel(ks, pw_sel(d, key, prefix)) }
pub open spec fn is_site_list(vs: Seq<SiteV>, d: Data, key: Seq<u8>) -> bool { exists|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && vs == sel(ks, site_sel(d, key)) }

// Entries
pub open spec fn entry(d: Data, key: Seq<u8>, k: Seq<char>, t: JT) -> Option<JV> {
    if d.dom().contains(k) { match decval(d[k], key) { Some(p) => json_dec(t, p), None => None } } else { None }
}
pub open spec fn as_site(v: Option<JV>) -> Option<SiteV> { match v { Some(JV::Site(s)) => Some(s), _ => None } }
pub open spec fn as_pw(v: Option<JV>) -> Option<PwV> { match v { Some(JV::Pw(s)) => Some(s), _ => None } }
pub open spec fn as_text(v: Option<JV>) -> Option<Seq<char>> { match v { Some(JV::Text(s)) => Some(s), _ => None } }
pub open spec fn site_in(d: Data, key: Seq<u8>, k: Seq<char>) -> Option<SiteV> { as_site(entry(d, key, k, JT::Site)) }
pub open spec fn pw_in(d: Data, key: Seq<u8>, k: Seq<char>) -> Option<PwV> { as_pw(entry(d, key, k, JT::Pw)) }
pub open spec fn site_at(d: Data, h: Seq<u8>, key: Seq<u8>, site: Seq<char>) -> Option<SiteV> { site_in(d, key, skey(h, site)) }
pub open spec fn pw_at(d: Data, h: Seq<u8>, key: Seq<u8>, id: PidV) -> Option<PwV> { pw_in(d, key, pkey(h, id)) }
pub open spec fn alias_of(d: Data, h: Seq<u8>, key: Seq<u8>, site: Seq<char>) -> Option<Seq<char>> { match site_at(d, h, key, site) { Some(s) => s.alias, None => None } }
pub open spec fn normalize(site: Seq<char>) -> Seq<char> { if "www."@.is_prefix_of(site) { site.skip(4) } else { site } }
pub open spec fn resolve(d: Data, h: Seq<u8>, key: Seq<u8>, site: Seq<char>) -> Seq<char> {
    match alias_of(d, h, key, normalize(site)) { Some(a) => a, None => normalize(site) }
}
pub open spec fn norm_rev(r: Seq<char>) -> Seq<char> { if r == "1"@ { Seq::empty() } else { r } }
pub open spec fn pid(site: Seq<char>, name: Seq<char>, revision: Seq<char>) -> PidV { PidV { site: site, name: name, revision: norm_rev(revision) } }
/// d is d0 with exactly the value of k replaced by a fresh encryption of v.
pub open spec fn put(d0: Data, d: Data, k: Seq<char>, v: JV, key: Seq<u8>) -> bool {
    d.dom().contains(k) && d == d0.insert(k, d[k]) && enc_of(d[k], json_enc(v), key)
}
pub proof fn lemma_put(d0: Data, d: Data, k: Seq<char>, v: JV, key: Seq<u8>)
    requires put(d0, d, k, v, key)
    ensures entry(d, key, k, jt_of(v)) == Some(v), forall|k2: Seq<char>, t: JT| k2 != k ==> #[trigger] entry(d, key, k2, t) == entry(d0, key, k2, t)
{
    lemma_enc_of(d[k], json_enc(v), key); axiom_json(v);
}


// ---------------------------------------------------------------- passwords
/// Some attempt to save the storage failed in this run.
pub uninterp spec fn save_failed() -> bool;
pub open spec fn latin1(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
/// The encryption key: the salt's bytes are taken as characters and hashed as UTF-8.
pub open spec fn enc_key(p: Seq<char>, salt: Seq<u8>) -> Seq<u8> { key_of(p, utf8(latin1(salt))) }
/// The key is untouched.
pub open spec fn same_at(d0: Data, d: Data, k: Seq<char>) -> bool { d.dom().contains(k) == d0.dom().contains(k) && (d0.dom().contains(k) ==> d[k] == d0[k]) }
pub open spec fn site_v(name: Seq<char>, alias: Option<Seq<char>>) -> JV { JV::Site(SiteV { name: name, alias: alias }) }
pub open spec fn holds(d: Data, k: Seq<char>, v: JV, key: Seq<u8>) -> bool { d.dom().contains(k) && enc_of(d[k], json_enc(v), key) }
/// A password entry was saved: its entry, the entry of its site if there was none, nothing else.
pub open spec fn stored(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, pw: PwV) -> bool {
    &&& holds(d, pkey(h, pw.id), JV::Pw(pw), key)
    &&& site_at(d0, h, key, pw.id.site) is Some || holds(d, skey(h, pw.id.site), site_v(pw.id.site, None), key)
    &&& forall|k: Seq<char>| k != pkey(h, pw.id) && (k != skey(h, pw.id.site) || site_at(d0, h, key, pw.id.site) is Some) ==> #[trigger] same_at(d0, d, k)
}
/// One entry was replaced, everything else is untouched.
pub open spec fn only_put(d0: Data, d: Data, k: Seq<char>, v: JV, key: Seq<u8>) -> bool { holds(d, k, v, key) && forall|k2: Seq<char>| k2 != k ==> #[trigger] same_at(d0, d, k2) }
pub open spec fn only_removed(d0: Data, d: Data, k: Seq<char>) -> bool { d0.dom().contains(k) && !d.dom().contains(k) && forall|k2: Seq<char>| k2 != k ==> #[trigger] same_at(d0, d, k2) }
/// There is a readable password below the prefix.
pub open spec fn has_pw(d: Data, key: Seq<u8>, prefix: Seq<char>) -> bool { exists|k: Seq<char>| d.dom().contains(k) && prefix.is_prefix_of(k) && (#[trigger] pw_in(d, key, k)) is Some }
/// `m` is an entry listed as an alias of `n`.
pub open spec fn leads_to(d: Data, key: Seq<u8>, m: Seq<char>, n: Seq<char>) -> bool {
    exists|k: Seq<char>| d.dom().contains(k) && site_key(k) && #[trigger] site_in(d, key, k) == Some(SiteV { name: m, alias: Some(n) })
}
/// `m` becomes an alias if `n` does.
pub open spec fn follows(d: Data, key: Seq<u8>, m: Seq<char>, n: Seq<char>) -> bool { m == n || leads_to(d, key, m, n) }
/// Site n and all aliases of n were made aliases of t, everything else is untouched.
pub open spec fn aliased(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, t: Seq<char>) -> bool {
    &&& forall|k: Seq<char>| (exists|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m)) ==> #[trigger] is_alias_entry(d0, d, h, key, n, t, k)
    &&& forall|k: Seq<char>| (forall|m: Seq<char>| #[trigger] follows(d0, key, m, n) ==> k != skey(h, m)) ==> #[trigger] same_at(d0, d, k)
}
pub open spec fn is_alias_entry(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, t: Seq<char>, k: Seq<char>) -> bool {
    exists|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m) && holds(d, k, site_v(m, Some(t)), key)
}
pub proof fn lemma_sel_empty<K, V>(ks: Seq<K>, f: spec_fn(K) -> Option<V>)
    ensures sel(ks, f).len() == 0 <==> forall|i: int| 0 <= i < ks.len() ==> f(#[trigger] ks[i]) is None
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        lemma_sel_empty(r, f);
        if sel(ks, f).len() == 0 { assert forall|i: int| 0 <= i < ks.len() implies f(#[trigger] ks[i]) is None by { if i < r.len() { assert(r[i] == ks[i]); } } }
        else if forall|i: int| 0 <= i < ks.len() ==> f(#[trigger] ks[i]) is None { assert(f(ks.last()) is None); assert forall|i: int| 0 <= i < r.len() implies f(#[trigger] r[i]) is None by { assert(r[i] == ks[i]); } }
    }
}
/// What is selected: every element of the selection comes from the sequence, and everything in the sequence that can be is selected.
pub proof fn lemma_sel_has<K, V>(ks: Seq<K>, f: spec_fn(K) -> Option<V>)
    ensures
        forall|v: V| #[trigger] sel(ks, f).contains(v) <==> exists|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v),
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.drop_last();
        lemma_sel_has(r, f);
        let s = sel(r, f);
        assert forall|v: V| #[trigger] sel(ks, f).contains(v) <==> exists|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v) by {
            if sel(ks, f).contains(v) {
                if s.contains(v) { let i = choose|i: int| 0 <= i < r.len() && f(#[trigger] r[i]) == Some(v); assert(ks[i] == r[i]); }
                else { let j = choose|j: int| 0 <= j < sel(ks, f).len() && sel(ks, f)[j] == v; if j < s.len() { assert(s[j] == v); } assert(f(ks[ks.len() - 1]) == Some(v)); }
            }
            if exists|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v) {
                let i = choose|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v);
                if i < r.len() { assert(r[i] == ks[i]); assert(s.contains(v)); let j = choose|j: int| 0 <= j < s.len() && s[j] == v; assert(sel(ks, f)[j] == v); }
                else { assert(sel(ks, f).last() == v); assert(sel(ks, f)[sel(ks, f).len() - 1] == v); }
            }
        }
    } else {
        assert forall|v: V| #[trigger] sel(ks, f).contains(v) <==> exists|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v) by {}
    }
}
pub proof fn lemma_pw_list_empty(vs: Seq<PwV>, d: Data, key: Seq<u8>, prefix: Seq<char>)
    requires is_pw_list(vs, d, key, prefix)
    ensures vs.len() == 0 <==> !has_pw(d, key, prefix)
{
    let ks = choose|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && vs == sel(ks, pw_sel(d, key, prefix));
    let f = pw_sel(d, key, prefix);
    lemma_sel_empty(ks, f);
    if has_pw(d, key, prefix) {
        let k = choose|k: Seq<char>| d.dom().contains(k) && prefix.is_prefix_of(k) && (#[trigger] pw_in(d, key, k)) is Some;
        assert(ks.contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(f(ks[i]) is Some);
    }
    if vs.len() > 0 {
        let i = choose|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) is Some;
        assert(ks.contains(ks[i]));
        assert(pw_in(d, key, ks[i]) is Some);
    }
}
pub proof fn lemma_site_list(vs: Seq<SiteV>, d: Data, key: Seq<u8>)
    requires is_site_list(vs, d, key)
    ensures forall|m: Seq<char>, n: Seq<char>| #[trigger] leads_to(d, key, m, n) <==> vs.contains(SiteV { name: m, alias: Some(n) })
{
    let ks = choose|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && vs == sel(ks, site_sel(d, key));
    let f = site_sel(d, key);
    lemma_sel_has(ks, f);
    assert forall|m: Seq<char>, n: Seq<char>| #[trigger] leads_to(d, key, m, n) <==> vs.contains(SiteV { name: m, alias: Some(n) }) by {
        let v = SiteV { name: m, alias: Some(n) };
        if leads_to(d, key, m, n) {
            let k = choose|k: Seq<char>| d.dom().contains(k) && site_key(k) && #[trigger] site_in(d, key, k) == Some(v);
            assert(ks.contains(k));
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(f(ks[i]) == Some(v));
            assert(sel(ks, f).contains(v));
        }
        if vs.contains(v) {
            assert(sel(ks, f).contains(v));
            let i = choose|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]) == Some(v);
            assert(ks.contains(ks[i]));
            assert(site_in(d, key, ks[i]) == Some(v));
        }
    }
}
pub open spec fn named(s: Seq<Seq<char>>, h: Seq<u8>, k: Seq<char>) -> bool { exists|m: Seq<char>| #[trigger] s.contains(m) && k == skey(h, m) }
pub open spec fn named_alias(s: Seq<Seq<char>>, d: Data, h: Seq<u8>, key: Seq<u8>, t: Seq<char>, k: Seq<char>) -> bool { exists|m: Seq<char>| #[trigger] s.contains(m) && k == skey(h, m) && holds(d, k, site_v(m, Some(t)), key) }
/// The sites of the list were made aliases of t, everything else is untouched.
pub open spec fn aliased_list(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, s: Seq<Seq<char>>, t: Seq<char>) -> bool {
    forall|k: Seq<char>| if #[trigger] named(s, h, k) { named_alias(s, d, h, key, t, k) } else { same_at(d0, d, k) }
}
pub proof fn lemma_aliased_first(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, t: Seq<char>)
    requires put(d0, d, skey(h, n), site_v(n, Some(t)), key)
    ensures aliased_list(d0, d, h, key, seq![n], t)
{
    let s = seq![n];
    assert(s[0] == n && s.contains(n));
    assert forall|k: Seq<char>| if #[trigger] named(s, h, k) { named_alias(s, d, h, key, t, k) } else { same_at(d0, d, k) } by {
        if named(s, h, k) { let m = choose|m: Seq<char>| #[trigger] s.contains(m) && k == skey(h, m); assert(m == n); assert(holds(d, k, site_v(n, Some(t)), key)); }
        else { assert(k != skey(h, n)); }
    }
}
pub proof fn lemma_aliased_step(d0: Data, d1: Data, d: Data, h: Seq<u8>, key: Seq<u8>, s: Seq<Seq<char>>, n: Seq<char>, t: Seq<char>)
    requires aliased_list(d0, d1, h, key, s, t), put(d1, d, skey(h, n), site_v(n, Some(t)), key)
    ensures aliased_list(d0, d, h, key, s.push(n), t)
{
    let z = s.push(n);
    assert(z[s.len() as int] == n && z.contains(n));
    assert forall|m: Seq<char>| #[trigger] s.contains(m) implies z.contains(m) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(z[i] == m); }
    assert forall|m: Seq<char>| #[trigger] z.contains(m) implies s.contains(m) || m == n by { let i = choose|i: int| 0 <= i < z.len() && z[i] == m; if i < s.len() { assert(s[i] == m); } }
    assert forall|k: Seq<char>| if #[trigger] named(z, h, k) { named_alias(z, d, h, key, t, k) } else { same_at(d0, d, k) } by {
        if k == skey(h, n) { assert(holds(d, k, site_v(n, Some(t)), key)); assert(named(z, h, k)); }
        else {
            assert(same_at(d1, d, k));
            if named(s, h, k) {
                let m = choose|m: Seq<char>| #[trigger] s.contains(m) && k == skey(h, m) && holds(d1, k, site_v(m, Some(t)), key);
                assert(z.contains(m) && holds(d, k, site_v(m, Some(t)), key));
            } else { assert(same_at(d0, d1, k)); assert(!named(z, h, k)); }
        }
    }
}
pub proof fn lemma_aliased(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, l: Seq<Seq<char>>, t: Seq<char>)
    requires aliased_list(d0, d, h, key, seq![n] + l, t), forall|m: Seq<char>| #[trigger] leads_to(d0, key, m, n) <==> l.contains(m)
    ensures aliased(d0, d, h, key, n, t)
{
    let s = seq![n] + l;
    assert forall|m: Seq<char>| #[trigger] s.contains(m) <==> follows(d0, key, m, n) by {
        if s.contains(m) { let i = choose|i: int| 0 <= i < s.len() && s[i] == m; if i > 0 { assert(l[i - 1] == m); assert(l.contains(m)); assert(leads_to(d0, key, m, n)); } }
        if m == n { assert(s[0] == m); }
        if leads_to(d0, key, m, n) { assert(l.contains(m)); let i = choose|i: int| 0 <= i < l.len() && l[i] == m; assert(s[i + 1] == m); }
    }
    assert forall|k: Seq<char>| (exists|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m)) implies #[trigger] is_alias_entry(d0, d, h, key, n, t, k) by {
        let m = choose|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m);
        assert(s.contains(m)); assert(named(s, h, k));
        let x = choose|x: Seq<char>| #[trigger] s.contains(x) && k == skey(h, x) && holds(d, k, site_v(x, Some(t)), key);
        assert(follows(d0, key, x, n));
    }
    assert forall|k: Seq<char>| (forall|m: Seq<char>| #[trigger] follows(d0, key, m, n) ==> k != skey(h, m)) implies #[trigger] same_at(d0, d, k) by {
        if named(s, h, k) { let m = choose|m: Seq<char>| #[trigger] s.contains(m) && k == skey(h, m); assert(follows(d0, key, m, n)); }
    }
}
pub open spec fn alias_sel(n: Seq<char>) -> spec_fn(SiteV) -> Option<Seq<char>> { |s: SiteV| if s.alias == Some(n) { Some(s.name) } else { None } }
pub proof fn lemma_alias_names(vs: Seq<SiteV>, d: Data, key: Seq<u8>, n: Seq<char>)
    requires is_site_list(vs, d, key)
    ensures forall|m: Seq<char>| #[trigger] leads_to(d, key, m, n) <==> sel(vs, alias_sel(n)).contains(m)
{
    lemma_site_list(vs, d, key);
    let f = alias_sel(n);
    lemma_sel_has(vs, f);
    assert forall|m: Seq<char>| #[trigger] leads_to(d, key, m, n) <==> sel(vs, f).contains(m) by {
        let v = SiteV { name: m, alias: Some(n) };
        if leads_to(d, key, m, n) { assert(vs.contains(v)); let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(f(vs[i]) == Some(m)); }
        if sel(vs, f).contains(m) { let i = choose|i: int| 0 <= i < vs.len() && f(#[trigger] vs[i]) == Some(m); assert(vs[i] == v); assert(vs.contains(v)); }
    }
}
/// Removing the entries of the first i named sites
pub open spec fn without_sites(d0: Data, h: Seq<u8>, sites: Seq<Seq<char>>) -> Data decreases sites.len() {
    if sites.len() == 0 { d0 } else { without_sites(d0, h, sites.drop_last()).remove(skey(h, sites.last())) }
}
pub open spec fn strings<T: View<V = Seq<char>>>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|s: T| s@) }
pub open spec fn gen_ok(v: Option<PwV>) -> bool { match v { Some(p) => match p.kind { KindV::Gen { length, charset } => cs_len(charset) > 0 && 0 < length <= 0x1f_ffff_ffe0, _ => true }, None => true } }
/// The password an entry stands for
pub open spec fn pw_value(primary: Seq<char>, v: PwV) -> Seq<char> { match v.kind { KindV::Gen { length, charset } => derived_pw(primary, gen_salt(v.id), length, charset), KindV::Stored { password } => password } }
pub open spec fn name_sel(pattern: Seq<char>) -> spec_fn(PwV) -> Option<PwV> { |p: PwV| if wild(pattern, p.id.name) { Some(p) } else { None } }
pub open spec fn site_match(pattern: Seq<char>) -> spec_fn(SiteV) -> Option<SiteV> { |s: SiteV| if wild(pattern, s.name) || (s.alias is Some && wild(pattern, s.alias->0)) { Some(s) } else { None } }
pub open spec fn is_pw_match(vs: Seq<PwV>, d: Data, key: Seq<u8>, prefix: Seq<char>, pattern: Seq<char>) -> bool { exists|all: Seq<PwV>| #[trigger] is_pw_list(all, d, key, prefix) && vs == sel(all, name_sel(pattern)) }
pub open spec fn is_site_match(vs: Seq<SiteV>, d: Data, key: Seq<u8>, pattern: Seq<char>) -> bool { exists|all: Seq<SiteV>| #[trigger] is_site_list(all, d, key) && vs == sel(all, site_match(pattern)) }

// ---------------------------------------------------------------- keys do not collide
/// The keyed digest tells the texts in use apart.
pub open spec fn distinct(h: Seq<u8>, u: Set<Seq<char>>) -> bool { forall|a: Seq<char>, b: Seq<char>| u.contains(a) && u.contains(b) && #[trigger] hmac_of(h, utf8(a)) == #[trigger] hmac_of(h, utf8(b)) ==> a == b }
pub proof fn lemma_digest(h: Seq<u8>, a: Seq<char>, b: Seq<char>) requires digest(h, a) == digest(h, b) ensures hmac_of(h, utf8(a)) == hmac_of(h, utf8(b))
{ axiom_b64(hmac_of(h, utf8(a))); axiom_b64(hmac_of(h, utf8(b))); }
pub proof fn lemma_skey(h: Seq<u8>, a: Seq<char>)
    ensures site_key(skey(h, a)), skey(h, a).skip(5) == digest(h, a), skey(h, a).len() == 5 + digest(h, a).len(), !digest(h, a).contains(':'), "site:"@.len() == 5
{
    reveal_strlit("site:");
    lemma_b64_no(hmac_of(h, utf8(a)), ':');
    assert("site:"@.is_prefix_of(skey(h, a)));
    assert(skey(h, a).skip(5) =~= digest(h, a));
}
pub proof fn lemma_skey_inj(h: Seq<u8>, u: Set<Seq<char>>, a: Seq<char>, b: Seq<char>) requires distinct(h, u), u.contains(a), u.contains(b), skey(h, a) == skey(h, b) ensures a == b
{ lemma_skey(h, a); lemma_skey(h, b); lemma_digest(h, a, b); }
/// Keys of passwords are never keys of sites.
pub proof fn lemma_prefix_not_site(h: Seq<u8>, a: Seq<char>, k: Seq<char>) requires sprefix(h, a).is_prefix_of(k) ensures !site_key(k), forall|b: Seq<char>| k != #[trigger] skey(h, b)
{
    lemma_skey(h, a);
    let x = digest(h, a);
    assert(k[5 + x.len() as int] == sprefix(h, a)[5 + x.len() as int]);
    assert(k.skip(5)[x.len() as int] == ':');
    assert(k.skip(5).contains(':'));
    assert forall|b: Seq<char>| k != #[trigger] skey(h, b) by { lemma_skey(h, b); }
}
pub proof fn lemma_pkey_prefix(h: Seq<u8>, id: PidV) ensures sprefix(h, id.site).is_prefix_of(pkey(h, id)), !site_key(pkey(h, id))
{ assert(sprefix(h, id.site).is_prefix_of(pkey(h, id))); lemma_prefix_not_site(h, id.site, pkey(h, id)); }
/// The prefix of a site belongs to the passwords of this site only.
pub proof fn lemma_prefix_own(h: Seq<u8>, a: Seq<char>, id: PidV) requires sprefix(h, a).is_prefix_of(pkey(h, id)) ensures digest(h, a) == digest(h, id.site)
{
    lemma_skey(h, a); lemma_skey(h, id.site);
    reveal_strlit("site:");
    let x = digest(h, a); let y = digest(h, id.site); let k = pkey(h, id);
    assert(forall|i: int| 0 <= i < sprefix(h, a).len() ==> k[i] == sprefix(h, a)[i]);
    assert(k[5 + y.len() as int] == ':');
    assert(k[5 + x.len() as int] == ':') by { assert(sprefix(h, a)[5 + x.len() as int] == ':'); }
    if x.len() < y.len() { assert(k[5 + x.len() as int] == y[x.len() as int]); assert(y.contains(y[x.len() as int])); }
    if x.len() > y.len() { assert(sprefix(h, a)[5 + y.len() as int] == x[y.len() as int]); assert(x.contains(x[y.len() as int])); }
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { assert(sprefix(h, a)[5 + i] == x[i]); assert(k[5 + i] == y[i]); }
    assert(x =~= y);
}
/// Different identities have different keys.
pub proof fn lemma_pkey_inj(h: Seq<u8>, u: Set<Seq<char>>, a: PidV, b: PidV)
    requires pkey(h, a) == pkey(h, b), distinct(h, u), u.contains(id_text(a)), u.contains(id_text(b)), no_nul(a), no_nul(b)
    ensures a == b
{
    lemma_pkey_prefix(h, a); lemma_pkey_prefix(h, b);
    lemma_prefix_own(h, a.site, b);
    let n = sprefix(h, a.site).len() as int;
    assert(pkey(h, a).skip(n) =~= digest(h, id_text(a)));
    assert(pkey(h, b).skip(n) =~= digest(h, id_text(b)));
    lemma_digest(h, id_text(a), id_text(b));
    lemma_id_text(a, b);
}
pub open spec fn no_nul(a: PidV) -> bool { !a.site.contains('\0') && !a.name.contains('\0') && !a.revision.contains('\0') }
pub proof fn lemma_id_text(a: PidV, b: PidV) requires id_text(a) == id_text(b), no_nul(a), no_nul(b) ensures a == b
{
    let ra = a.name.push('\0') + a.revision; let rb = b.name.push('\0') + b.revision;
    assert(id_text(a) =~= a.site.push('\0') + ra);
    assert(id_text(b) =~= b.site.push('\0') + rb);
    lemma_cut(a.site, '\0', ra); lemma_cut(b.site, '\0', rb);
    lemma_cut(a.name, '\0', a.revision); lemma_cut(b.name, '\0', b.revision);
}

// ---------------------------------------------------------------- aliases
/// Entries are filed under their own name; the target of an alias is not an alias; an alias has no passwords. (u: the site names in use)
pub open spec fn alias_wf(d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some ==> alias_ok(d, h, key, u, k, site_in(d, key, k)->0) }
pub open spec fn alias_ok(d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, k: Seq<char>, s: SiteV) -> bool {
    &&& u.contains(s.name) && k == skey(h, s.name)
    &&& s.alias matches Some(t) ==> u.contains(t) && alias_of(d, h, key, t) is None && !has_pw(d, key, sprefix(h, s.name))
}
pub proof fn lemma_resolved(d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, site: Seq<char>)
    requires alias_wf(d, h, key, u), u.contains(normalize(site))
    ensures u.contains(resolve(d, h, key, site)), alias_of(d, h, key, resolve(d, h, key, site)) is None
{
    let n = normalize(site);
    lemma_skey(h, n);
    if alias_of(d, h, key, n) is Some { assert(alias_ok(d, h, key, u, skey(h, n), site_in(d, key, skey(h, n))->0)); }
}
pub proof fn lemma_same_pw(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>)
    requires forall|k: Seq<char>| sprefix(h, n).is_prefix_of(k) && (#[trigger] pw_in(d, key, k)) is Some ==> d0.dom().contains(k) && pw_in(d0, key, k) is Some
    ensures has_pw(d, key, sprefix(h, n)) ==> has_pw(d0, key, sprefix(h, n))
{
    if has_pw(d, key, sprefix(h, n)) {
        let k = choose|k: Seq<char>| d.dom().contains(k) && sprefix(h, n).is_prefix_of(k) && (#[trigger] pw_in(d, key, k)) is Some;
        assert(pw_in(d0, key, k) is Some);
    }
}
pub proof fn lemma_wf_aliased(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, n: Seq<char>, alias: Seq<char>)
    requires
        alias_wf(d0, h, key, u), distinct(h, u), u.contains(n), u.contains(normalize(alias)),
        aliased(d0, d, h, key, n, resolve(d0, h, key, alias)), !has_pw(d0, key, sprefix(h, n)), !follows(d0, key, resolve(d0, h, key, alias), n)
    ensures alias_wf(d, h, key, u)
{
    let t = resolve(d0, h, key, alias);
    lemma_resolved(d0, h, key, u, alias);
    // every follower is a known name, filed under its own key
    assert forall|m: Seq<char>| #[trigger] follows(d0, key, m, n) implies u.contains(m) && (m != n ==> alias_of(d0, h, key, m) == Some(n) && !has_pw(d0, key, sprefix(h, m))) by {
        if m != n {
            let k = choose|k: Seq<char>| d0.dom().contains(k) && site_key(k) && #[trigger] site_in(d0, key, k) == Some(SiteV { name: m, alias: Some(n) });
            assert(alias_ok(d0, h, key, u, k, site_in(d0, key, k)->0));
        }
    }
    assert forall|x: Seq<char>| u.contains(x) && !follows(d0, key, x, n) implies #[trigger] same_at(d0, d, skey(h, x)) by {
        assert forall|m: Seq<char>| #[trigger] follows(d0, key, m, n) implies skey(h, x) != skey(h, m) by { if skey(h, x) == skey(h, m) { lemma_skey_inj(h, u, x, m); } }
    }
    assert forall|a: Seq<char>| !has_pw(d0, key, sprefix(h, a)) implies !#[trigger] has_pw(d, key, sprefix(h, a)) by {
        assert forall|k: Seq<char>| sprefix(h, a).is_prefix_of(k) && (#[trigger] pw_in(d, key, k)) is Some implies d0.dom().contains(k) && pw_in(d0, key, k) is Some by { lemma_prefix_not_site(h, a, k); assert(same_at(d0, d, k)); }
        lemma_same_pw(d0, d, h, key, a);
    }
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies alias_ok(d, h, key, u, k, site_in(d, key, k)->0) by {
        if exists|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m) {
            assert(is_alias_entry(d0, d, h, key, n, t, k));
            let m = choose|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m) && holds(d, k, site_v(m, Some(t)), key);
            lemma_enc_of(d[k], json_enc(site_v(m, Some(t))), key); axiom_json(site_v(m, Some(t)));
            assert(site_in(d, key, k) == Some(SiteV { name: m, alias: Some(t) }));
            assert(same_at(d0, d, skey(h, t)));
        } else {
            assert(same_at(d0, d, k));
            let s = site_in(d0, key, k)->0;
            assert(alias_ok(d0, h, key, u, k, s));
            if s.alias is Some {
                let t2 = s.alias->0;
                if t2 == n { assert(leads_to(d0, key, s.name, n)); assert(follows(d0, key, s.name, n)); }
                assert(!follows(d0, key, t2, n));
                assert(same_at(d0, d, skey(h, t2)));
            }
        }
    }
}
pub proof fn lemma_wf_stored(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, site: Seq<char>, pw: PwV)
    requires alias_wf(d0, h, key, u), distinct(h, u), u.contains(normalize(site)), pw.id.site == resolve(d0, h, key, site), stored(d0, d, h, key, pw)
    ensures alias_wf(d, h, key, u)
{
    let n = pw.id.site;
    let none = site_at(d0, h, key, n) is None;
    lemma_resolved(d0, h, key, u, site);
    lemma_pkey_prefix(h, pw.id);
    lemma_skey(h, n);
    if none { lemma_enc_of(d[skey(h, n)], json_enc(site_v(n, None)), key); axiom_json(site_v(n, None)); assert(site_in(d, key, skey(h, n)) == Some(SiteV { name: n, alias: None })); }
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies alias_ok(d, h, key, u, k, site_in(d, key, k)->0) by {
        if !(none && k == skey(h, n)) {
            assert(same_at(d0, d, k));
            let s = site_in(d0, key, k)->0;
            assert(alias_ok(d0, h, key, u, k, s));
            if s.alias is Some {
                let t = s.alias->0;
                lemma_skey(h, t);
                if !(none && skey(h, t) == skey(h, n)) { assert(same_at(d0, d, skey(h, t))); }
                assert(alias_of(d, h, key, t) is None);
                assert forall|k2: Seq<char>| sprefix(h, s.name).is_prefix_of(k2) && (#[trigger] pw_in(d, key, k2)) is Some implies d0.dom().contains(k2) && pw_in(d0, key, k2) is Some by {
                    lemma_prefix_not_site(h, s.name, k2);
                    if k2 == pkey(h, pw.id) { lemma_prefix_own(h, s.name, pw.id); assert(skey(h, s.name) == skey(h, n)); }
                    else { assert(same_at(d0, d, k2)); }
                }
                lemma_same_pw(d0, d, h, key, s.name);
            }
        }
    }
}
/// Rewriting an existing password entry, or removing any entry
pub proof fn lemma_wf_kept(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>)
    requires
        alias_wf(d0, h, key, u),
        forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some ==> site_in(d0, key, k) == site_in(d, key, k),
        forall|k: Seq<char>| !site_key(k) && (#[trigger] pw_in(d, key, k)) is Some ==> pw_in(d0, key, k) is Some,
    ensures alias_wf(d, h, key, u)
{
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies alias_ok(d, h, key, u, k, site_in(d, key, k)->0) by {
        let s = site_in(d0, key, k)->0;
        assert(alias_ok(d0, h, key, u, k, s));
        if s.alias is Some {
            lemma_skey(h, s.alias->0);
            assert(alias_of(d, h, key, s.alias->0) is None);
            assert forall|k2: Seq<char>| sprefix(h, s.name).is_prefix_of(k2) && (#[trigger] pw_in(d, key, k2)) is Some implies d0.dom().contains(k2) && pw_in(d0, key, k2) is Some by { lemma_prefix_not_site(h, s.name, k2); }
            lemma_same_pw(d0, d, h, key, s.name);
        }
    }
}
pub proof fn lemma_wf_only_put(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, id: PidV, v: JV)
    requires alias_wf(d0, h, key, u), only_put(d0, d, pkey(h, id), v, key), pw_at(d0, h, key, id) is Some
    ensures alias_wf(d, h, key, u)
{
    lemma_pkey_prefix(h, id);
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies site_in(d0, key, k) == site_in(d, key, k) by { assert(same_at(d0, d, k)); }
    assert forall|k: Seq<char>| !site_key(k) && (#[trigger] pw_in(d, key, k)) is Some implies pw_in(d0, key, k) is Some by { if k != pkey(h, id) { assert(same_at(d0, d, k)); } }
    lemma_wf_kept(d0, d, h, key, u);
}
pub proof fn lemma_wf_only_removed(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, k0: Seq<char>)
    requires alias_wf(d0, h, key, u), only_removed(d0, d, k0)
    ensures alias_wf(d, h, key, u)
{
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies site_in(d0, key, k) == site_in(d, key, k) by { if k != k0 { assert(same_at(d0, d, k)); } }
    assert forall|k: Seq<char>| !site_key(k) && (#[trigger] pw_in(d, key, k)) is Some implies pw_in(d0, key, k) is Some by { if k != k0 { assert(same_at(d0, d, k)); } }
    lemma_wf_kept(d0, d, h, key, u);
}
pub proof fn lemma_wf_without(d: Data, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>, sites: Seq<Seq<char>>)
    requires alias_wf(d, h, key, u)
    ensures alias_wf(without_sites(d, h, sites), h, key, u)
    decreases sites.len()
{
    if sites.len() > 0 {
        let p = without_sites(d, h, sites.drop_last());
        lemma_wf_without(d, h, key, u, sites.drop_last());
        let r = without_sites(d, h, sites);
        assert(r == p.remove(skey(h, sites.last())));
        assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(r, key, k) is Some implies site_in(p, key, k) == site_in(r, key, k) by { assert(r.dom().contains(k)); assert(k != skey(h, sites.last())); }
        assert forall|k: Seq<char>| !site_key(k) && (#[trigger] pw_in(r, key, k)) is Some implies pw_in(p, key, k) is Some by { assert(r.dom().contains(k)); assert(k != skey(h, sites.last())); }
        lemma_wf_kept(p, r, h, key, u);
    }
}
pub proof fn lemma_wf_reset(d: Data, salt: Seq<u8>, h: Seq<u8>, key: Seq<u8>, u: Set<Seq<char>>)
    requires is_reset(d, salt, h, key)
    ensures alias_wf(d, h, key, u)
{
    reveal_strlit("salt"); reveal_strlit("hmac-secret"); reveal_strlit("site:");
    assert forall|k: Seq<char>| #[trigger] site_key(k) && site_in(d, key, k) is Some implies alias_ok(d, h, key, u, k, site_in(d, key, k)->0) by {
        assert(d.dom().contains(k));
        assert(k[0] == "site:"@[0] && k[1] == "site:"@[1]);
    }
}

// ---------------------------------------------------------------- recovery codes
/// The letters and digits of the code alphabet, upper-cased, in their order
pub open spec fn kept(code: Seq<u8>) -> Seq<u8> decreases code.len() {
    if code.len() == 0 { Seq::empty() } else { let p = kept(code.drop_last()); if b32_letter(upper(code.last())) { p.push(upper(code.last())) } else { p } }
}
pub open spec fn sep_after(n: int) -> Seq<char> { if n % 24 == 0 { seq!['\n'] } else if n % 12 == 0 { seq![':'] } else if n % 4 == 0 { seq!['-'] } else { Seq::empty() } }
/// Every letter with the separator behind it
pub open spec fn separated(k: Seq<u8>) -> Seq<char> decreases k.len() {
    if k.len() == 0 { Seq::empty() } else { separated(k.drop_last()).push(k.last() as char) + sep_after(k.len() as int) }
}
/// A line break behind every 24th, a colon behind every other 12th, a dash behind every other 4th character, but no separator at the end
pub open spec fn punctuated(k: Seq<u8>) -> Seq<char> { if k.len() == 0 { Seq::empty() } else { separated(k.drop_last()).push(k.last() as char) } }
pub open spec fn format_of(k: Seq<u8>, punctuation: bool) -> Seq<char> { if punctuation { punctuated(k) } else { latin1(k) } }
pub open spec fn all_letters(k: Seq<u8>) -> bool { forall|i: int| 0 <= i < k.len() ==> b32_letter(#[trigger] k[i]) }
pub open spec fn is_sep(c: char) -> bool { c == '\n' || c == ':' || c == '-' }

pub proof fn lemma_kept(code: Seq<u8>) ensures all_letters(kept(code)), kept(code).len() <= code.len() decreases code.len() {
    if code.len() > 0 { lemma_kept(code.drop_last()); }
}
pub proof fn lemma_ascii_bytes(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> '\0' <= #[trigger] s[i] <= '\x7f'
    ensures utf8(s) == Seq::new(s.len(), |i: int| s[i] as u8)
    decreases s.len()
{
    if s.len() == 0 { assert(utf8(s) =~= Seq::new(s.len(), |i: int| s[i] as u8)); }
    else {
        let p = s.drop_last(); let c = s.last();
        assert forall|i: int| 0 <= i < p.len() implies '\0' <= #[trigger] p[i] <= '\x7f' by { assert(p[i] == s[i]); }
        lemma_ascii_bytes(p);
        assert(s =~= p + seq![c]);
        vstd::utf8::encode_utf8_concat(p, seq![c]);
        lemma_ascii_byte(c);
        assert(utf8(s) =~= Seq::new(s.len(), |i: int| s[i] as u8));
    }
}
pub proof fn lemma_ascii_byte(c: char) requires '\0' <= c <= '\x7f' ensures utf8(seq![c]) == seq![c as u8] {
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    let s = c as u32;
    assert(utf8(seq![c]) =~= vstd::utf8::encode_scalar(s));
    assert(s <= 0x7f ==> (s & 0x7f) as u8 == s) by (bit_vector);
    assert(utf8(seq![c]) =~= seq![c as u8]);
}
pub proof fn lemma_letter(b: u8) requires b32_letter(b) ensures upper(b) == b, 50 <= b <= 90, b != 58 {}
pub proof fn lemma_separated(k: Seq<u8>) requires all_letters(k)
    ensures forall|i: int| 0 <= i < separated(k).len() ==> '\0' <= #[trigger] separated(k)[i] <= '\x7f'
    decreases k.len()
{
    if k.len() > 0 {
        let q = k.drop_last();
        assert(b32_letter(k[k.len() - 1])); lemma_letter(k.last());
        assert forall|i: int| 0 <= i < q.len() implies b32_letter(#[trigger] q[i]) by { assert(q[i] == k[i]); }
        lemma_separated(q);
        let (a, b, s) = (separated(q), k.last() as char, separated(k));
        assert(s == a.push(b) + sep_after(k.len() as int));
        assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\x7f' by {
            if i < a.len() { assert(s[i] == a[i]); } else if i == a.len() { assert(s[i] == b); } else { assert(s[i] == sep_after(k.len() as int)[i - a.len() - 1]); }
        }
    }
}
pub open spec fn byte_of(c: char) -> u8 { c as u8 }
pub proof fn lemma_kept_push(b: Seq<u8>, c: u8)
    ensures kept(b.push(c)) == (if b32_letter(upper(c)) { kept(b).push(upper(c)) } else { kept(b) })
{ assert(b.push(c).drop_last() =~= b); }
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub proof fn lemma_kept_separated(k: Seq<u8>) requires all_letters(k) ensures kept(bytes_of(separated(k))) == k decreases k.len() {
    if k.len() == 0 { assert(bytes_of(separated(k)) =~= Seq::empty()); assert(kept(bytes_of(separated(k))) =~= k); }
    else {
        let p = k.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies b32_letter(#[trigger] p[i]) by { assert(p[i] == k[i]); }
        lemma_kept_separated(p);
        assert(b32_letter(k.last())); lemma_letter(k.last());
        let b = bytes_of(separated(p)).push(k.last());
        lemma_kept_push(bytes_of(separated(p)), k.last());
        assert(kept(b) =~= k);
        let s = sep_after(k.len() as int);
        if s.len() == 0 { assert(bytes_of(separated(k)) =~= b); }
        else {
            assert(s.len() == 1 && is_sep(s[0]));
            assert(bytes_of(separated(k)) =~= b.push(s[0] as u8));
            lemma_kept_push(b, s[0] as u8);
        }
    }
}
/// Formatting keeps exactly the letters: what is kept of a formatted code is the code.
pub proof fn lemma_format(k: Seq<u8>, punctuation: bool)
    requires all_letters(k)
    ensures utf8(format_of(k, punctuation)) == bytes_of(format_of(k, punctuation)), kept(utf8(format_of(k, punctuation))) == k, !punctuation ==> utf8(format_of(k, punctuation)) == k
{
    let s = format_of(k, punctuation);
    if punctuation {
        if k.len() > 0 {
            let p = k.drop_last();
            assert forall|i: int| 0 <= i < p.len() implies b32_letter(#[trigger] p[i]) by { assert(p[i] == k[i]); }
            assert(b32_letter(k.last())); lemma_letter(k.last());
            lemma_separated(p); lemma_kept_separated(p);
            assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\x7f' by {}
            lemma_ascii_bytes(s);
            assert(bytes_of(s) =~= bytes_of(separated(p)).push(k.last()));
            lemma_kept_push(bytes_of(separated(p)), k.last());
            assert(kept(bytes_of(s)) =~= k);
        } else { lemma_ascii_bytes(s); assert(bytes_of(s) =~= Seq::empty()); assert(kept(bytes_of(s)) =~= k); }
    } else {
        assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\x7f' by { assert(b32_letter(k[i])); lemma_letter(k[i]); }
        lemma_ascii_bytes(s);
        assert(bytes_of(s) =~= k) by { assert forall|i: int| 0 <= i < k.len() implies bytes_of(s)[i] == k[i] by { assert(b32_letter(k[i])); lemma_letter(k[i]); } }
        lemma_kept_self(k);
    }
}
pub proof fn lemma_kept_self(k: Seq<u8>) requires all_letters(k) ensures kept(k) == k decreases k.len() {
    if k.len() > 0 {
        let p = k.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies b32_letter(#[trigger] p[i]) by { assert(p[i] == k[i]); }
        lemma_kept_self(p); assert(b32_letter(k.last())); lemma_letter(k.last());
        assert(kept(k) =~= k);
    } else { assert(kept(k) =~= k); }
}
/// The end of a formatted text: at most one separator too many
pub proof fn lemma_format_end(k: Seq<u8>, punctuation: bool, s: Seq<char>)
    requires all_letters(k), s == if punctuation { separated(k) } else { latin1(k) }
    ensures
        utf8(s).len() == s.len(), s.len() > 0 ==> utf8(s).last() == s.last() as u8,
        s.len() == 0 ==> format_of(k, punctuation) == s,
        s.len() > 0 && is_sep(s.last()) ==> s.drop_last() == format_of(k, punctuation),
        s.len() > 0 && !is_sep(s.last()) ==> s == format_of(k, punctuation) && s.last() as u8 != 10 && s.last() as u8 != 58 && s.last() as u8 != 45,
{
    if punctuation { lemma_separated(k); }
    else { assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\x7f' by { assert(b32_letter(k[i])); lemma_letter(k[i]); } }
    lemma_ascii_bytes(s);
    if k.len() > 0 {
        assert(b32_letter(k.last())); lemma_letter(k.last());
        let e = sep_after(k.len() as int);
        if punctuation {
            if e.len() > 0 { assert(s.last() == e[0]); assert(s.drop_last() =~= format_of(k, true)); }
            else { assert(s =~= format_of(k, true)); assert(s.last() == k.last() as char); }
        } else { assert(s.last() == k.last() as char); }
    } else { assert(s =~= format_of(k, punctuation)); }
}

// Rows: 14 bytes and their checksum
pub open spec fn row_of(d: Seq<u8>, i: int) -> Seq<u8> { d.subrange(15 * i, 15 * i + 14) }
pub open spec fn check_of(d: Seq<u8>, i: int) -> u8 { d[15 * i + 14] }
pub open spec fn fits_final(d: Seq<u8>, i: int) -> bool { check_of(d, i) == pearson(row_of(d, i), (255 - i % 256) as u8) }
pub open spec fn fits_inner(d: Seq<u8>, i: int) -> bool { check_of(d, i) == pearson(row_of(d, i), (i % 256) as u8) }
pub enum RowsV { Final(int), Mismatch(int), Incomplete }
/// The rows from the i-th one on, judged one after the other
pub open spec fn scan_rows(d: Seq<u8>, i: int) -> RowsV decreases d.len() / 15 - i {
    if i < 0 || i >= d.len() / 15 { RowsV::Incomplete } else if fits_final(d, i) { RowsV::Final(i) } else if !fits_inner(d, i) { RowsV::Mismatch(i) } else { scan_rows(d, i + 1) }
}
pub enum CodeV { Good(Seq<u8>), Mismatch(int), Extra(int), Incomplete }
pub open spec fn code_rows(k: Seq<u8>) -> Seq<u8> { b32_dec(k.take(k.len() as int / 24 * 24)) }
/// What a code stands for, by its kept letters
pub open spec fn code_v(k: Seq<u8>) -> CodeV {
    let d = code_rows(k);
    match scan_rows(d, 0) {
        RowsV::Incomplete => CodeV::Incomplete,
        RowsV::Mismatch(i) => CodeV::Mismatch(i),
        RowsV::Final(i) => if i + 1 < d.len() / 15 { CodeV::Extra(i + 1) } else if k.len() % 24 != 0 { CodeV::Extra(k.len() as int / 24) } else { CodeV::Good(d) },
    }
}
pub proof fn lemma_code_rows(k: Seq<u8>) requires all_letters(k)
    ensures b32_ok(k.take(k.len() as int / 24 * 24)), code_rows(k).len() == 15 * (k.len() as int / 24)
{
    let t = k.take(k.len() as int / 24 * 24);
    lemma_b32_len(t);
    assert forall|i: int| 0 <= i < t.len() implies b32_letter(#[trigger] t[i]) by { assert(t[i] == k[i]); }
}
pub proof fn lemma_row(d: Seq<u8>, i: int) requires 0 <= i < d.len() / 15
    ensures chunk_of(d, 15, i).len() == 15, chunk_of(d, 15, i).subrange(0, 14) == row_of(d, i), chunk_of(d, 15, i)[14] == check_of(d, i)
{ assert(chunk_of(d, 15, i).subrange(0, 14) =~= row_of(d, i)); }
pub proof fn lemma_trunc(i: usize) ensures i as u8 == (i as int % 256) as u8 { assert(i as u8 == (i % 256) as u8) by (bit_vector); }
pub proof fn lemma_perm_inj(a: u8, b: u8) requires perm(a) == perm(b) ensures a == b
{
    assert((a as u32 + 379) * 467 % 256 == (b as u32 + 379) * 467 % 256 ==> a == b) by (bit_vector);
}
/// The position counts: rows at different positions have different checksums.
pub proof fn lemma_pearson_inj(r: Seq<u8>, a: u8, b: u8) requires pearson(r, a) == pearson(r, b) ensures a == b decreases r.len()
{
    reveal(pearson);
    if r.len() == 0 { lemma_perm_inj(a, b); }
    else {
        let x = pearson(r.drop_last(), a); let y = pearson(r.drop_last(), b); let z = r.last();
        lemma_perm_inj(x ^ z, y ^ z);
        assert(x ^ z == y ^ z ==> x == y) by (bit_vector);
        lemma_pearson_inj(r.drop_last(), a, b);
    }
}
pub proof fn lemma_fits(d: Seq<u8>, i: int) requires 0 <= i < d.len() / 15 ensures !(fits_final(d, i) && fits_inner(d, i))
{
    if fits_final(d, i) && fits_inner(d, i) { lemma_pearson_inj(row_of(d, i), (255 - i % 256) as u8, (i % 256) as u8); assert(false); }
}
/// The bytes without the checksums
pub open spec fn without_checks(d: Seq<u8>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else if (d.len() - 1) % 15 == 14 { without_checks(d.drop_last()) } else { without_checks(d.drop_last()).push(d.last()) }
}
pub open spec fn strip_zeros(d: Seq<u8>) -> Seq<u8> decreases d.len() { if d.len() > 0 && d.last() == 0 { strip_zeros(d.drop_last()) } else { d } }
/// The bytes with the checksum of each block, n of them so far; `blocks` is the number of all blocks
#[verifier::opaque]
pub open spec fn with_checks(x: Seq<u8>, n: int, blocks: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = with_checks(x, n - 1, blocks).push(x[n - 1]);
        if n % 14 == 0 { p.push(pearson(x.subrange(n - 14, n), row_byte(n / 14 - 1, blocks))) } else { p }
    }
}
pub open spec fn row_byte(i: int, blocks: int) -> u8 { if i == blocks - 1 { (255 - i % 256) as u8 } else { (i % 256) as u8 } }
/// What the letters of a code decode to with a primary password: version 1, 16 bytes salt, 12 bytes nonce, ciphertext
pub open spec fn code_plain(x: Seq<u8>, p: Seq<char>) -> Option<Seq<u8>> {
    if x.len() < 45 || x[0] != 1 { None } else { aead_dec(enc_key(p, x.subrange(1, 17)), x.subrange(17, 29), x.skip(29)) }
}
pub open spec fn code_text(k: Seq<u8>, p: Seq<char>) -> Option<Seq<char>> {
    match code_v(k) {
        CodeV::Good(d) => match code_plain(without_checks(d), p) { Some(b) => if is_utf8(strip_zeros(b)) { Some(vstd::utf8::decode_utf8(strip_zeros(b))) } else { None }, None => None },
        _ => None,
    }
}
pub open spec fn fill_of(len: int) -> int { if (45 + len) % 14 == 0 { 0 } else { 14 - (45 + len) % 14 } }
pub open spec fn pad_of(b: Seq<u8>) -> Seq<u8> { b + Seq::new(fill_of(b.len() as int) as nat, |i: int| 0u8) }
#[verifier::opaque]
pub open spec fn code_bytes(pw: Seq<char>, salt: Seq<u8>, nonce: Seq<u8>, key: Seq<u8>) -> Seq<u8> { seq![1u8] + salt + nonce + aead_enc(key, nonce, pad_of(utf8(pw))) }
#[verifier::opaque]
pub open spec fn code_of(pw: Seq<char>, salt: Seq<u8>, nonce: Seq<u8>, key: Seq<u8>) -> Seq<char> {
    let x = code_bytes(pw, salt, nonce, key);
    punctuated(b32_enc(with_checks(x, x.len() as int, x.len() as int / 14)))
}
pub open spec fn no_trailing_nul(pw: Seq<char>) -> bool { pw.len() > 0 ==> pw.last() != '\0' }

#[verifier::spinoff_prover]
pub proof fn lemma_checked(x: Seq<u8>, n: int, blocks: int)
    requires 0 <= n <= x.len()
    ensures
        with_checks(x, n, blocks).len() == n + n / 14,
        without_checks(with_checks(x, n, blocks)) == x.take(n),
        n % 14 != 0 ==> with_checks(x, n, blocks).skip(15 * (n / 14)) == x.subrange(14 * (n / 14), n),
        forall|i: int| 0 <= i < n / 14 ==> #[trigger] row_of(with_checks(x, n, blocks), i) == x.subrange(14 * i, 14 * i + 14) && check_of(with_checks(x, n, blocks), i) == pearson(x.subrange(14 * i, 14 * i + 14), row_byte(i, blocks)),
    decreases n
{
    reveal_with_fuel(with_checks, 1);
    let c = with_checks(x, n, blocks);
    if n == 0 { assert(without_checks(c) =~= x.take(0)); }
    else {
        lemma_checked(x, n - 1, blocks);
        let q = with_checks(x, n - 1, blocks);
        let p = q.push(x[n - 1]);
        let m = (n - 1) / 14;
        assert(p.drop_last() =~= q);
        assert(q.len() == (n - 1) + m);
        assert(q.len() % 15 == (n - 1) % 14) by { assert(n - 1 == 14 * m + (n - 1) % 14); assert(q.len() == 15 * m + (n - 1) % 14); }
        assert(without_checks(p) =~= x.take(n)) by { assert(x.take(n) =~= x.take(n - 1).push(x[n - 1])); }
        assert(p.skip(15 * m) =~= x.subrange(14 * m, n)) by {
            if (n - 1) % 14 == 0 { assert(q.len() == 15 * m); }
            else { assert forall|i: int| 0 <= i < n - 14 * m implies #[trigger] p.skip(15 * m)[i] == x[14 * m + i] by { if i < n - 1 - 14 * m { assert(q.skip(15 * m)[i] == x.subrange(14 * m, n - 1)[i]); } } }
        }
        if n % 14 == 0 {
            assert(n == 14 * (m + 1)); assert(n / 14 == m + 1);
            assert(c.drop_last() =~= p);
            assert(p.len() == 15 * m + 14);
            assert(without_checks(c) == without_checks(p));
            assert forall|i: int| 0 <= i < n / 14 implies #[trigger] row_of(c, i) == x.subrange(14 * i, 14 * i + 14) && check_of(c, i) == pearson(x.subrange(14 * i, 14 * i + 14), row_byte(i, blocks)) by {
                if i < m { assert(row_of(q, i) == x.subrange(14 * i, 14 * i + 14)); assert(row_of(c, i) =~= row_of(q, i)); assert(check_of(c, i) == check_of(q, i)); }
                else { assert(row_of(c, i) =~= p.skip(15 * m)); }
            }
        } else {
            assert(n / 14 == m);
            assert forall|i: int| 0 <= i < n / 14 implies #[trigger] row_of(c, i) == x.subrange(14 * i, 14 * i + 14) && check_of(c, i) == pearson(x.subrange(14 * i, 14 * i + 14), row_byte(i, blocks)) by {
                assert(row_of(q, i) == x.subrange(14 * i, 14 * i + 14)); assert(row_of(c, i) =~= row_of(q, i)); assert(check_of(c, i) == check_of(q, i));
            }
        }
    }
}
/// The last block before its checksum
pub proof fn lemma_block(x: Seq<u8>, n: int, blocks: int)
    requires 1 <= n <= x.len(), n % 14 == 0
    ensures ({
        let q = with_checks(x, n - 1, blocks).push(x[n - 1]);
        q.len() >= 14 && q.subrange(q.len() - 14, q.len() as int) == x.subrange(n - 14, n)
    })
{
    lemma_checked(x, n - 1, blocks);
    let q = with_checks(x, n - 1, blocks).push(x[n - 1]);
    let m = (n - 1) / 14;
    let o = with_checks(x, n - 1, blocks).skip(15 * m);
    assert(n == 14 * m + 14);
    assert(o == x.subrange(14 * m, n - 1));
    assert(q.len() == 15 * m + 14);
    assert forall|i: int| 0 <= i < 14 implies #[trigger] q.subrange(15 * m, q.len() as int)[i] == x.subrange(14 * m, n)[i] by {
        if i < 13 { assert(o[i] == with_checks(x, n - 1, blocks)[15 * m + i]); assert(o[i] == x[14 * m + i]); }
    }
    assert(q.subrange(15 * m, q.len() as int) =~= x.subrange(14 * m, n));
}
/// One more byte, with the checksum behind it if it ends a block
pub proof fn lemma_checks_step(x: Seq<u8>, n: int, blocks: int)
    requires 1 <= n <= x.len()
    ensures ({
        let q = with_checks(x, n - 1, blocks).push(x[n - 1]);
        if n % 14 == 0 { q.len() >= 14 && with_checks(x, n, blocks) == q.push(pearson(q.subrange(q.len() - 14, q.len() as int), row_byte(n / 14 - 1, blocks))) } else { with_checks(x, n, blocks) == q }
    })
{ reveal_with_fuel(with_checks, 2); if n % 14 == 0 { lemma_block(x, n, blocks); } }
pub proof fn lemma_checks_start(x: Seq<u8>, blocks: int) ensures with_checks(x, 0, blocks) == Seq::<u8>::empty() { reveal(with_checks); }
/// Skipping checksums
pub proof fn lemma_without(d: Seq<u8>, n: int)
    requires 0 < n <= d.len()
    ensures without_checks(d.take(n)) == if (n - 1) % 15 == 14 { without_checks(d.take(n - 1)) } else { without_checks(d.take(n - 1)).push(d[n - 1]) }
{ assert(d.take(n).drop_last() =~= d.take(n - 1)); }
pub proof fn lemma_strip_step(d: Seq<u8>, n: int)
    requires 0 < n <= d.len(), d[n - 1] == 0
    ensures strip_zeros(d.take(n)) == strip_zeros(d.take(n - 1))
{ assert(d.take(n).drop_last() =~= d.take(n - 1)); assert(d.take(n).last() == d[n - 1]); }
pub proof fn lemma_scan_checked(x: Seq<u8>, i: int)
    requires x.len() % 14 == 0, 0 <= i < x.len() / 14
    ensures scan_rows(with_checks(x, x.len() as int, x.len() as int / 14), i) == RowsV::Final(x.len() as int / 14 - 1)
    decreases x.len() / 14 - i
{
    let b = x.len() as int / 14;
    let c = with_checks(x, x.len() as int, b);
    lemma_checked(x, x.len() as int, b);
    assert(c.len() == 15 * b); assert(c.len() / 15 == b);
    assert(row_of(c, i) == x.subrange(14 * i, 14 * i + 14));
    if i < b - 1 { assert(fits_inner(c, i)); lemma_fits(c, i); lemma_scan_checked(x, i + 1); } else { assert(fits_final(c, i)); }
}
pub proof fn lemma_last_byte(s: Seq<char>) requires s.len() > 0, s.last() != '\0' ensures utf8(s).len() > 0, utf8(s).last() != 0
{
    let p = s.drop_last(); let c = s.last();
    assert(s =~= p + seq![c]);
    vstd::utf8::encode_utf8_concat(p, seq![c]);
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
    let v = c as u32;
    assert(utf8(seq![c]) =~= vstd::utf8::encode_scalar(v));
    assert(0x80u8 | ((v & 0x3f) as u8) != 0) by (bit_vector);
    assert(v <= 0x7f ==> (v & 0x7f) as u8 == v) by (bit_vector);
    assert(vstd::utf8::encode_scalar(v).last() != 0);
}
pub proof fn lemma_strip_zeros(b: Seq<u8>, n: nat) requires b.len() > 0 ==> b.last() != 0 ensures strip_zeros(b + Seq::new(n, |i: int| 0u8)) == b decreases n
{
    let z = b + Seq::new(n, |i: int| 0u8);
    if n == 0 { assert(z =~= b); }
    else { assert(z.last() == 0); assert(z.drop_last() =~= b + Seq::new((n - 1) as nat, |i: int| 0u8)); lemma_strip_zeros(b, (n - 1) as nat); }
}
/// C04: rows of a valid code of up to 128 rows which are missing, swapped, duplicated or appended do not make a good code again.
pub proof fn lemma_rows_moved(x: Seq<u8>, d: Seq<u8>, src: Seq<int>)
    requires
        x.len() % 14 == 0, 0 < x.len() / 14 <= 128, d.len() % 15 == 0, src.len() == d.len() / 15, src.len() <= 128,
        ({
            let c = with_checks(x, x.len() as int, x.len() as int / 14);
            forall|i: int| 0 <= i < src.len() ==> 0 <= #[trigger] src[i] < x.len() / 14 && row_of(d, i) == row_of(c, src[i]) && check_of(d, i) == check_of(c, src[i])
        }),
        scan_rows(d, 0) == RowsV::Final(src.len() - 1),
    ensures d == with_checks(x, x.len() as int, x.len() as int / 14)
{
    let b = x.len() as int / 14;
    let c = with_checks(x, x.len() as int, b);
    lemma_checked(x, x.len() as int, b);
    lemma_scanned(d, 0);
    let n = src.len() as int;
    assert forall|i: int| 0 <= i < n implies src[i] == i && (i == n - 1 ==> b == n) by {
        let s = src[i];
        assert(row_of(c, s) == x.subrange(14 * s, 14 * s + 14));
        if i < n - 1 { assert(fits_inner(d, i)); lemma_pearson_inj(row_of(d, i), row_byte(s, b), (i % 256) as u8); }
        else { assert(fits_final(d, i)); lemma_pearson_inj(row_of(d, i), row_byte(s, b), (255 - i % 256) as u8); }
    }
    assert(n >= 1); assert(src[n - 1] == n - 1); assert(b == n);
    assert forall|j: int| 0 <= j < d.len() implies d[j] == c[j] by {
        let i = j / 15;
        assert(src[i] == i);
        if j % 15 == 14 { assert(d[j] == check_of(d, i)); } else { assert(d[j] == row_of(d, i)[j % 15]); assert(c[j] == row_of(c, i)[j % 15]); }
    }
    assert(d =~= c);
}
pub proof fn lemma_scanned(d: Seq<u8>, i: int)
    requires scan_rows(d, i) is Final, 0 <= i
    ensures scan_rows(d, i)->Final_0 < d.len() / 15, scan_rows(d, i)->Final_0 >= i, fits_final(d, scan_rows(d, i)->Final_0), forall|j: int| i <= j < scan_rows(d, i)->Final_0 ==> #[trigger] fits_inner(d, j)
    decreases d.len() / 15 - i
{ if i < d.len() / 15 && !fits_final(d, i) && fits_inner(d, i) { lemma_scanned(d, i + 1); } }
/// C05: formatting again changes nothing.
pub proof fn lemma_format_again(code: Seq<u8>, p: bool, q: bool)
    ensures format_of(kept(utf8(format_of(kept(code), p))), q) == format_of(kept(code), q)
{ lemma_kept(code); lemma_format(kept(code), p); }
/// The layout of the bytes of a code
pub proof fn lemma_code_bytes(pw: Seq<char>, salt: Seq<u8>, nonce: Seq<u8>, key: Seq<u8>)
    requires salt.len() == 16, nonce.len() == 12
    ensures ({
        let x = code_bytes(pw, salt, nonce, key);
        &&& x.len() == 45 + utf8(pw).len() + fill_of(utf8(pw).len() as int) && x.len() % 14 == 0 && x.len() >= 45
        &&& x[0] == 1 && x.subrange(1, 17) == salt && x.subrange(17, 29) == nonce && x.skip(29) == aead_enc(key, nonce, pad_of(utf8(pw)))
    })
{
    reveal(code_bytes);
    let x = code_bytes(pw, salt, nonce, key);
    let n = utf8(pw).len() as int;
    let ct = aead_enc(key, nonce, pad_of(utf8(pw)));
    axiom_aead(key, nonce, pad_of(utf8(pw)), ct);
    lemma_fill(n);
    assert(pad_of(utf8(pw)).len() == n + fill_of(n));
    assert(ct.len() == n + fill_of(n) + 16);
    assert(x[0] == 1);
    assert(x.subrange(1, 17) =~= salt);
    assert(x.subrange(17, 29) =~= nonce);
    assert(x.skip(29) =~= ct);
}
pub proof fn lemma_fill(n: int) requires n >= 0 ensures 0 <= fill_of(n) < 14, (45 + n + fill_of(n)) % 14 == 0 {}
/// Complete rows with their checksums make a good code.
pub proof fn lemma_code_good(x: Seq<u8>)
    requires x.len() % 14 == 0, x.len() > 0
    ensures ({
        let c = with_checks(x, x.len() as int, x.len() as int / 14);
        code_v(kept(utf8(punctuated(b32_enc(c))))) == CodeV::Good(c) && without_checks(c) == x
    })
{
    let b = x.len() as int / 14;
    let c = with_checks(x, x.len() as int, b);
    lemma_checked(x, x.len() as int, b);
    assert(x.take(x.len() as int) =~= x);
    assert(c.len() == 15 * b);
    lemma_good_rows(c, b);
    lemma_scan_checked(x, 0);
}
pub proof fn lemma_good_rows(c: Seq<u8>, b: int)
    requires c.len() == 15 * b, b >= 1
    ensures scan_rows(c, 0) == RowsV::Final(b - 1) ==> code_v(kept(utf8(punctuated(b32_enc(c))))) == CodeV::Good(c)
{
    let e = b32_enc(c);
    lemma_b32_inverse(c);
    assert(e.len() == 24 * b);
    assert(all_letters(e));
    lemma_format(e, true);
    assert(format_of(e, true) == punctuated(e));
    assert(e.take(e.len() as int / 24 * 24) =~= e);
    assert(code_rows(e) == c);
    assert(c.len() / 15 == b);
}
/// A generated code decodes, with the same primary password, to the password.
pub proof fn lemma_round_trip(pw: Seq<char>, salt: Seq<u8>, nonce: Seq<u8>, key: Seq<u8>, p: Seq<char>)
    requires salt.len() == 16, nonce.len() == 12, key == enc_key(p, salt), no_trailing_nul(pw)
    ensures code_text(kept(utf8(code_of(pw, salt, nonce, key))), p) == Some(pw)
{
    reveal(code_of);
    let x = code_bytes(pw, salt, nonce, key);
    let b = pad_of(utf8(pw));
    lemma_code_bytes(pw, salt, nonce, key);
    lemma_code_good(x);
    axiom_aead(key, nonce, b, aead_enc(key, nonce, b));
    assert(code_plain(x, p) == Some(b));
    lemma_padding(pw);
}
pub proof fn lemma_padding(pw: Seq<char>)
    requires no_trailing_nul(pw)
    ensures strip_zeros(pad_of(utf8(pw))) == utf8(pw), is_utf8(utf8(pw)), vstd::utf8::decode_utf8(utf8(pw)) == pw
{
    if pw.len() > 0 { lemma_last_byte(pw); } else { assert(utf8(pw).len() == 0); }
    lemma_fill(utf8(pw).len() as int);
    lemma_strip_zeros(utf8(pw), fill_of(utf8(pw).len() as int) as nat);
    vstd::utf8::encode_utf8_decode_utf8(pw);
}

// ---------------------------------------------------------------- command line
/// The user answered a question, whose default is not yes, with yes.
pub uninterp spec fn num_text(n: int) -> Seq<char>;
/// The order of strings
pub uninterp spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body] pub proof fn axiom_text_le()
    ensures forall|a: Seq<char>| #[trigger] text_le(a, a), forall|a: Seq<char>, b: Seq<char>| #[trigger] text_le(a, b) && text_le(b, a) ==> a == b,
        forall|a: Seq<char>, b: Seq<char>| #[trigger] text_le(a, b) || text_le(b, a), forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] text_le(a, b) && #[trigger] text_le(b, c) ==> text_le(a, c) {}
pub open spec fn is_perm(p: Seq<int>) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && #[trigger] p[i] == #[trigger] p[j] ==> i == j) && (forall|j: int| 0 <= j < p.len() ==> #[trigger] p.contains(j)) }
pub open spec fn picked<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i]]) }
/// A stable sort of the keys
pub open spec fn sorting(p: Seq<int>, keys: Seq<Seq<char>>) -> bool {
    is_perm(p) && p.len() == keys.len() && (forall|i: int, j: int| 0 <= i < j < p.len() ==> text_le(keys[#[trigger] p[i]], keys[#[trigger] p[j]]) && (keys[p[i]] == keys[p[j]] ==> p[i] < p[j]))
}
/// Of equal neighbours the first one stays
pub open spec fn dedup_by<T>(s: Seq<T>, keys: Seq<Seq<char>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else {
        let d = dedup_by(s.drop_last(), keys.drop_last());
        if s.len() > 1 && keys.last() == keys[keys.len() - 2] { d } else { d.push(s.last()) }
    }
}
pub proof fn lemma_scan_row(d: Seq<u8>, i: int) requires 0 <= i ensures match scan_rows(d, i) { RowsV::Mismatch(j) => i <= j < d.len() / 15, RowsV::Final(j) => i <= j < d.len() / 15, _ => true } decreases d.len() / 15 - i { if i < d.len() / 15 && !fits_final(d, i) && fits_inner(d, i) { lemma_scan_row(d, i + 1); } }
pub proof fn lemma_code_v_row(k: Seq<u8>) requires all_letters(k) ensures match code_v(k) { CodeV::Mismatch(i) => 0 <= i && 24 * i <= k.len(), CodeV::Extra(i) => 0 <= i && 24 * i <= k.len(), _ => true } { lemma_code_rows(k); lemma_scan_row(code_rows(k), 0); }
pub proof fn lemma_no_lines() ensures kept(utf8(Seq::<char>::empty())) == entered(Seq::<Seq<char>>::empty()) { assert(utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
pub open spec fn row_error(e: crate::error::Error) -> bool { e is RecoveryCodeChecksumMismatch || e is RecoveryCodeExtraData || e is RecoveryCodeIncomplete }
/// Lines typed by the user
pub open spec fn with_line(lines: Seq<Seq<char>>, a: Option<crate::ext::question::Answer>) -> Seq<Seq<char>> { match a { Some(crate::ext::question::Answer::RESPONSE(s)) => lines.push(s@), _ => lines } }
/// The letters accepted so far when another line is entered: everything before the first row that is wrong or too much
pub open spec fn enter_line(k: Seq<u8>, line: Seq<char>) -> Seq<u8> {
    let n = k + kept(utf8(line));
    match code_v(n) { CodeV::Mismatch(i) => n.take(24 * i), CodeV::Extra(i) => n.take(24 * i), _ => n }
}
pub proof fn lemma_entered(lines: Seq<Seq<char>>, accepted: Seq<char>, line: Seq<char>)
    requires kept(utf8(accepted)) == entered(lines)
    ensures ({
        let n = kept(utf8(accepted + line));
        &&& n == entered(lines) + kept(utf8(line))
        &&& kept(utf8(format_of(n, true))) == n
        &&& (match code_v(n) {
            CodeV::Mismatch(i) => rows_kept(n, i) && entered(lines.push(line)) == n.take(24 * i),
            CodeV::Extra(i) => rows_kept(n, i) && entered(lines.push(line)) == n.take(24 * i),
            _ => entered(lines.push(line)) == n,
        })
    })
{
    vstd::utf8::encode_utf8_concat(accepted, line); lemma_kept_cat(utf8(accepted), utf8(line));
    lemma_kept(utf8(accepted + line));
    let n = kept(utf8(accepted + line));
    assert(lines.push(line).drop_last() =~= lines);
    lemma_format(n, true);
    lemma_code_v_row(n);
    match code_v(n) { CodeV::Mismatch(i) => { lemma_rows_kept(n, i); }, CodeV::Extra(i) => { lemma_rows_kept(n, i); }, _ => {} }
}
/// The first lines of the formatted letters carry exactly the first rows
pub open spec fn rows_kept(n: Seq<u8>, i: int) -> bool { 0 <= i <= splits(format_of(n, true), '\n').len() && kept(utf8(joined(splits(format_of(n, true), '\n').take(i), "\n"@))) == n.take(24 * i) }
pub proof fn lemma_rows_kept(n: Seq<u8>, i: int) requires all_letters(n), 0 <= i, 24 * i <= n.len() ensures rows_kept(n, i) {
    lemma_code_lines(n, i);
    let m = n.take(24 * i);
    assert forall|j: int| 0 <= j < m.len() implies b32_letter(#[trigger] m[j]) by { assert(m[j] == n[j]); }
    lemma_format(m, true);
}
pub open spec fn entered(lines: Seq<Seq<char>>) -> Seq<u8> decreases lines.len() { if lines.len() == 0 { Seq::empty() } else { enter_line(entered(lines.drop_last()), lines.last()) } }
pub proof fn lemma_kept_cat(a: Seq<u8>, b: Seq<u8>) ensures kept(a + b) == kept(a) + kept(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(kept(a) + kept(b) =~= kept(a)); } else {
        lemma_kept_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(kept(a + b) =~= kept(a) + kept(b));
    }
}
pub proof fn lemma_split_some(s: Seq<char>, c: char) ensures splits(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { lemma_split_some(s.drop_last(), c); } }
pub proof fn lemma_split_join(s: Seq<char>, c: char) ensures joined(splits(s, c), seq![c]) == s decreases s.len() {
    lemma_split_some(s, c);
    if s.len() > 0 {
        let p = splits(s.drop_last(), c); let q = splits(s, c);
        lemma_split_some(s.drop_last(), c); lemma_split_join(s.drop_last(), c);
        assert(q.drop_last() =~= if s.last() == c { p } else { p.drop_last() });
        if s.last() == c { assert(joined(q, seq![c]) =~= s); }
        else if p.len() == 1 { assert(joined(q, seq![c]) =~= s); }
        else { assert(joined(p, seq![c]) == joined(p.drop_last(), seq![c]) + seq![c] + p.last()); assert(joined(q, seq![c]) == joined(q.drop_last(), seq![c]) + seq![c] + q.last()); assert(s =~= s.drop_last().push(s.last())); assert(q.last() == p.last().push(s.last())); assert(joined(q, seq![c]) =~= joined(p, seq![c]).push(s.last())); }
    }
}
pub proof fn lemma_split_cat(a: Seq<char>, c: char, b: Seq<char>) ensures splits(a.push(c) + b, c) == splits(a, c) + splits(b, c) decreases b.len() {
    let s = a.push(c) + b;
    if b.len() == 0 { assert(s =~= a.push(c)); assert(s.drop_last() =~= a); assert(splits(s, c) =~= splits(a, c) + splits(b, c)); }
    else {
        lemma_split_cat(a, c, b.drop_last());
        lemma_split_some(b.drop_last(), c);
        assert(s.drop_last() =~= a.push(c) + b.drop_last());
        assert(splits(s, c) =~= splits(a, c) + splits(b, c));
    }
}
pub proof fn lemma_split_one(s: Seq<char>, c: char) requires !s.contains(c) ensures splits(s, c) == seq![s] decreases s.len() {
    if s.len() > 0 {
        assert(s.contains(s.last()));
        assert forall|x: char| s.drop_last().contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x); }
        lemma_split_one(s.drop_last(), c);
        assert(s.drop_last().push(s.last()) =~= s);
        assert(splits(s, c) =~= seq![s]);
    } else { assert(s =~= Seq::<char>::empty()); assert(splits(s, c) =~= seq![s]); }
}
pub proof fn lemma_sep_mod(m: int, n: int) requires n % 24 == 0 ensures sep_after(m) == sep_after(m - n) {
    let q = n / 24; let r = m - n;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, r, 24);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(2 * q, r, 12);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(6 * q, r, 4);
    assert(24 * q + r == m && 12 * (2 * q) + r == m && 4 * (6 * q) + r == m);
}
pub proof fn lemma_separated_cat(k: Seq<u8>, n: int) requires 0 <= n <= k.len(), n % 24 == 0 ensures separated(k) == separated(k.take(n)) + separated(k.skip(n)) decreases k.len() {
    hide(sep_after);
    if n == k.len() { assert(k.take(n) =~= k); assert(k.skip(n) =~= Seq::<u8>::empty()); assert(separated(k) =~= separated(k) + separated(k.skip(n))); }
    else {
        let q = k.drop_last();
        lemma_separated_cat(q, n);
        assert(q.take(n) =~= k.take(n)); assert(q.skip(n) =~= k.skip(n).drop_last());
        lemma_sep_mod(k.len() as int, n);
        let (a, b, c, e) = (separated(k.take(n)), separated(q.skip(n)), k.last() as char, sep_after(k.len() as int));
        assert(separated(k) == (a + b).push(c) + e);
        assert(k.skip(n).last() == k.last());
        assert(separated(k.skip(n)) == b.push(c) + e);
        assert((a + b).push(c) + e =~= a + (b.push(c) + e));
    }
}
/// The first `i` lines of a formatted code are the formatted first `i` rows
pub proof fn lemma_code_lines(k: Seq<u8>, i: int)
    requires all_letters(k), 0 <= i, 24 * i <= k.len()
    ensures i <= splits(punctuated(k), '\n').len(), joined(splits(punctuated(k), '\n').take(i), "\n"@) == punctuated(k.take(24 * i))
    decreases k.len()
{
    reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    let p = punctuated(k); let ps = splits(p, '\n');
    lemma_split_some(p, '\n');
    if i == 0 { assert(ps.take(0).len() == 0); assert(punctuated(k.take(0)) =~= Seq::empty()); assert(joined(ps.take(i), "\n"@) =~= Seq::empty()); }
    else {
        let a = punctuated(k.take(24 * i));
        lemma_code_line_count(k.take(24 * i), i);
        lemma_split_join(a, '\n');
        if 24 * i == k.len() { assert(k.take(24 * i) =~= k); assert(ps.take(i) =~= ps); }
        else {
            let b = punctuated(k.skip(24 * i));
            lemma_punctuated_cat(k, i);
            lemma_split_cat(a, '\n', b);
            assert(ps.take(i) =~= splits(a, '\n'));
        }
    }
}
pub proof fn lemma_punctuated_cat(k: Seq<u8>, i: int) requires 0 < i, 24 * i < k.len() ensures punctuated(k) == punctuated(k.take(24 * i)).push('\n') + punctuated(k.skip(24 * i)) {
    let n = 24 * i; let q = k.drop_last();
    lemma_separated_cat(q, n);
    assert(q.take(n) =~= k.take(n)); assert(q.skip(n) =~= k.skip(n).drop_last());
    assert(n % 24 == 0);
    assert(separated(k.take(n)) =~= punctuated(k.take(n)).push('\n'));
    assert(punctuated(k) =~= punctuated(k.take(n)).push('\n') + punctuated(k.skip(n)));
}
pub proof fn lemma_no_break(k: Seq<u8>) requires all_letters(k), k.len() < 24 ensures !separated(k).contains('\n') decreases k.len() {
    if k.len() > 0 {
        let q = k.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies b32_letter(#[trigger] q[i]) by { assert(q[i] == k[i]); }
        lemma_no_break(q); assert(b32_letter(k[k.len() - 1])); lemma_letter(k.last());
        let (a, s) = (separated(q), separated(k));
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '\n' by { if i < a.len() { assert(s[i] == a[i]); assert(a.contains(a[i])); } else if i == a.len() { assert(s[i] == k.last() as char); } else { assert(s[i] == sep_after(k.len() as int)[i - a.len() - 1]); } }
    }
}
pub proof fn lemma_code_line_count(k: Seq<u8>, i: int) requires all_letters(k), k.len() == 24 * i, i > 0 ensures splits(punctuated(k), '\n').len() == i decreases i {
    let p = punctuated(k);
    if i == 1 {
        let q = k.drop_last();
        assert forall|j: int| 0 <= j < q.len() implies b32_letter(#[trigger] q[j]) by { assert(q[j] == k[j]); }
        lemma_no_break(q); assert(b32_letter(k[k.len() - 1])); lemma_letter(k.last());
        assert(!p.contains('\n')) by { assert forall|j: int| 0 <= j < p.len() implies p[j] != '\n' by { if j < separated(q).len() { assert(p[j] == separated(q)[j]); assert(separated(q).contains(separated(q)[j])); } } }
        lemma_split_one(p, '\n');
    } else {
        lemma_punctuated_cat(k, i - 1);
        let (a, b) = (k.take(24 * (i - 1)), k.skip(24 * (i - 1)));
        assert forall|j: int| 0 <= j < a.len() implies b32_letter(#[trigger] a[j]) by { assert(a[j] == k[j]); }
        assert forall|j: int| 0 <= j < b.len() implies b32_letter(#[trigger] b[j]) by { assert(b[j] == k[j + 24 * (i - 1)]); }
        lemma_code_line_count(a, i - 1); lemma_code_line_count(b, 1);
        lemma_split_cat(punctuated(a), '\n', punctuated(b));
    }
}
/// The key was derived from a password in this run.
pub uninterp spec fn computed(key: Seq<u8>) -> bool;
/// The key decrypts the storage's secret.
pub open spec fn opens(d: Data, key: Seq<u8>) -> bool { computed(key) && secret_of(d, key) is Some }
/// Generated passwords are saved with parameters that can be used, and only one key derived in this run decrypts the storage.
pub open spec fn entries_ok(d: Data) -> bool {
    &&& forall|key: Seq<u8>, k: Seq<char>| opens(d, key) && !site_key(k) ==> gen_ok(#[trigger] pw_in(d, key, k))
    &&& forall|a: Seq<u8>, b: Seq<u8>| #[trigger] opens(d, a) && #[trigger] opens(d, b) ==> a == b
}
/// What the commands change: no fixed entry, and password entries only to usable ones
pub open spec fn change_at(d0: Data, d: Data, key: Seq<u8>, k: Seq<char>) -> bool {
    same_at(d0, d, k) || (k != k_salt() && k != k_hmac() && (!d.dom().contains(k) || site_key(k) || exists|v: PwV| gen_ok(Some(v)) && #[trigger] holds(d, k, JV::Pw(v), key)))
}
pub open spec fn changes(d0: Data, d: Data, key: Seq<u8>) -> bool { forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) }
pub proof fn lemma_changes(d0: Data, d: Data, key: Seq<u8>)
    requires entries_ok(d0), opens(d0, key), changes(d0, d, key)
    ensures entries_ok(d), opens(d, key)
{
    assert(change_at(d0, d, key, k_hmac()));
    assert(same_at(d0, d, k_hmac()));
    assert forall|a: Seq<u8>| secret_of(d, a) == secret_of(d0, a) by {}
    assert forall|a: Seq<u8>| #[trigger] opens(d, a) implies a == key by { assert(opens(d0, a)); }
    assert forall|a: Seq<u8>, k: Seq<char>| opens(d, a) && !site_key(k) implies gen_ok(#[trigger] pw_in(d, a, k)) by {
        assert(a == key);
        assert(change_at(d0, d, key, k));
        if same_at(d0, d, k) { assert(gen_ok(pw_in(d0, a, k))); assert(pw_in(d, a, k) == pw_in(d0, a, k)); }
        else if d.dom().contains(k) {
            let v = choose|v: PwV| gen_ok(Some(v)) && #[trigger] holds(d, k, JV::Pw(v), key);
            lemma_enc_of(d[k], json_enc(JV::Pw(v)), key); axiom_json(JV::Pw(v));
        }
    }
}
pub proof fn lemma_not_fixed(h: Seq<u8>, n: Seq<char>, id: PidV)
    ensures skey(h, n) != k_salt(), skey(h, n) != k_hmac(), pkey(h, id) != k_salt(), pkey(h, id) != k_hmac(), site_key(skey(h, n)), !site_key(pkey(h, id))
{
    reveal_strlit("site:"); reveal_strlit("salt"); reveal_strlit("hmac-secret");
    lemma_skey(h, n); lemma_skey(h, id.site);
    assert(skey(h, n)[1] == 'i' && skey(h, n)[0] == 's');
    assert(skey(h, id.site)[0] == 's' && skey(h, id.site)[1] == 'i');
    let p = pkey(h, id);
    assert(p[0] == 's' && p[1] == 'i');
    assert(k_salt()[1] == 'a'); assert(k_hmac()[0] == 'h');
    let j = skey(h, id.site).len() - 5;
    assert(p.skip(5)[j] == ':');
}
pub proof fn lemma_under_prefix(h: Seq<u8>, site: Seq<char>, k: Seq<char>)
    requires sprefix(h, site).is_prefix_of(k)
    ensures !site_key(k)
{
    lemma_skey(h, site);
    let j = skey(h, site).len() - 5;
    assert(sprefix(h, site)[j + 5] == ':');
    assert(k.skip(5)[j] == ':');
}
/// The entries that can be read can be used.
pub open spec fn all_ok(d: Data, h: Seq<u8>, key: Seq<u8>) -> bool { forall|id: PidV| gen_ok(#[trigger] pw_at(d, h, key, id)) }
pub proof fn lemma_all_ok(d: Data, h: Seq<u8>, key: Seq<u8>)
    requires entries_ok(d), opens(d, key)
    ensures all_ok(d, h, key)
{ assert forall|id: PidV| gen_ok(#[trigger] pw_at(d, h, key, id)) by { lemma_not_fixed(h, id.site, id); assert(gen_ok(pw_in(d, key, pkey(h, id)))); } }
pub proof fn lemma_ok_at(d: Data, h: Seq<u8>, key: Seq<u8>, id: PidV) requires all_ok(d, h, key) ensures gen_ok(pw_at(d, h, key, id)) {}
// What the commands do are such changes.
pub proof fn lemma_stored_changes(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, pw: PwV)
    requires stored(d0, d, h, key, pw), gen_ok(Some(pw))
    ensures changes(d0, d, key)
{
    lemma_not_fixed(h, pw.id.site, pw.id);
    assert forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) by {
        if k == pkey(h, pw.id) { assert(holds(d, k, JV::Pw(pw), key)); }
        else if k == skey(h, pw.id.site) && site_at(d0, h, key, pw.id.site) is None {}
        else { assert(same_at(d0, d, k)); }
    }
}
pub proof fn lemma_put_changes(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, pw: PwV)
    requires only_put(d0, d, pkey(h, pw.id), JV::Pw(pw), key), gen_ok(Some(pw))
    ensures changes(d0, d, key)
{
    lemma_not_fixed(h, pw.id.site, pw.id);
    assert forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) by { if k == pkey(h, pw.id) { assert(holds(d, k, JV::Pw(pw), key)); } else { assert(same_at(d0, d, k)); } }
}
pub proof fn lemma_removed_changes(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, id: PidV, k0: Seq<char>)
    requires only_removed(d0, d, k0), k0 == skey(h, n) || k0 == pkey(h, id)
    ensures changes(d0, d, key)
{
    lemma_not_fixed(h, n, id);
    assert forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) by { if k != k0 { assert(same_at(d0, d, k)); } }
}
pub proof fn lemma_aliased_changes(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, t: Seq<char>)
    requires aliased(d0, d, h, key, n, t)
    ensures changes(d0, d, key)
{
    assert forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) by {
        if exists|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m) {
            let m = choose|m: Seq<char>| #[trigger] follows(d0, key, m, n) && k == skey(h, m);
            lemma_not_fixed(h, m, PidV { site: m, name: m, revision: m });
        } else { assert(same_at(d0, d, k)); }
    }
}
pub proof fn lemma_discarded_changes(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>)
    requires discarded(d0, d, h, key)
    ensures changes(d0, d, key)
{
    assert forall|k: Seq<char>| #[trigger] change_at(d0, d, key, k) by {
        if !same_at(d0, d, k) {
            let n = choose|n: Seq<char>| #[trigger] discard_at(d0, h, key, n, k);
            lemma_not_fixed(h, n, PidV { site: n, name: n, revision: n });
        }
    }
}

// ---------------------------------------------------------------- the interactive shell
/// A clap command: its name, whether the words start with the name of a program, subcommands added to the declared ones
pub ghost struct CmdV { pub name: Seq<char>, pub no_binary: bool, pub subs: Set<Seq<char>> }
/// What clap understood
pub ghost struct MatchV { pub words: Seq<Seq<char>> }
/// The words of a line, if its quotes match
pub uninterp spec fn words_of(line: Seq<char>) -> Option<Seq<Seq<char>>>;
/// The words are a command line, given subcommands added to the declared ones
pub uninterp spec fn understood(words: Seq<Seq<char>>, subs: Set<Seq<char>>) -> bool;
/// The subcommand the words select, and the declared command they give
pub uninterp spec fn sub_name(words: Seq<Seq<char>>) -> Option<Seq<char>>;
pub uninterp spec fn command_of(words: Seq<Seq<char>>) -> Option<crate::cli::args::Commands>;
pub open spec fn no_command(words: Seq<Seq<char>>) -> bool { command_of(words) is None }
pub uninterp spec fn at_eof() -> bool;
pub open spec fn with_read(lines: Seq<Seq<char>>, r: crate::ext::rustyline::Result<String>) -> Seq<Seq<char>> { match r { Ok(s) => lines.push(s@), Err(_) => lines } }
/// The subcommands of the shell
pub open spec fn shell_subs() -> Set<Seq<char>> { Set::empty().insert("exit"@).insert("lock"@) }
/// What is done for a line: the subcommand, if the line is one
pub open spec fn line_name(line: Seq<char>) -> Option<Seq<char>> { match words_of(line) { Some(w) => if understood(w, shell_subs()) { sub_name(w) } else { None }, None => None } }
pub open spec fn is_exit(line: Seq<char>) -> bool { line_name(line) == Some("exit"@) }
pub open spec fn is_lock(line: Seq<char>) -> bool { line_name(line) == Some("lock"@) }
/// The command to run for a line
pub open spec fn line_command(line: Seq<char>) -> Option<crate::cli::args::Commands> {
    match words_of(line) { Some(w) => if understood(w, shell_subs()) && !is_exit(line) && !is_lock(line) && sub_name(w) != Some("shell"@) && sub_name(w) != Some("set-primary"@) { command_of(w) } else { None }, None => None }
}
pub open spec fn disk_ok() -> bool { forall|p: PathV, c: Seq<u8>| #[trigger] fs_read(p, c) ==> (json_dec(JT::File, c) matches Some(JV::File(d)) ==> entries_ok(d)) }
pub uninterp spec fn user_consented() -> bool;
/// A symbol: the text in it and its error correction level
pub ghost struct QrV { pub text: Seq<char>, pub level: crate::ext::qrcodegen::QrCodeEcc }
pub uninterp spec fn qr_size(t: QrV) -> int;
pub uninterp spec fn qr_module(t: QrV, x: int, y: int) -> bool;
/// The block character for two modules, one above the other
pub open spec fn qr_block(upper: bool, lower: bool) -> Seq<u8> { if upper { if lower { utf8("\u{2588}"@) } else { utf8("\u{2580}"@) } } else { if lower { utf8("\u{2584}"@) } else { utf8(" "@) } } }
pub open spec fn qr_row(t: QrV, y: int, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { qr_row(t, y, n - 1) + qr_block(qr_module(t, n - 1, y), qr_module(t, n - 1, y + 1)) } }
pub open spec fn qr_rows(t: QrV, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { qr_rows(t, n - 1) + qr_row(t, 2 * (n - 1), qr_size(t)) + seq![10u8] } }
pub open spec fn qr_all(t: QrV) -> Seq<u8> { qr_rows(t, chunk_count(qr_size(t), 2)) }
/// Some symbol of this text was printed
pub open spec fn qr_printed(out: Seq<u8>, text: Seq<char>) -> bool { exists|q: QrV| q.text == text && #[trigger] qr_size(q) > 0 && printed(out, qr_all(q)) }
/// What was printed, after complete lines of its own
pub open spec fn printed(out: Seq<u8>, what: Seq<u8>) -> bool { out.len() >= what.len() && out.skip(out.len() - what.len()) =~= what && (out.len() > what.len() ==> out[out.len() - what.len() - 1] == 10) }

// ---------------------------------------------------------------- the list command
pub axiom fn axiom_wild_any(t: Seq<char>) ensures wild("*"@, t);
pub open spec fn alias_wf_some(d: Data, h: Seq<u8>, key: Seq<u8>) -> bool { exists|u: Set<Seq<char>>| #[trigger] alias_wf(d, h, key, u) }
/// What the storage says about the site, and a target is no alias
pub open spec fn true_site(d: Data, h: Seq<u8>, key: Seq<u8>, s: SiteV) -> bool { alias_of(d, h, key, s.name) == s.alias && (s.alias matches Some(t) ==> alias_of(d, h, key, t) is None) }
pub open spec fn true_sites(d: Data, h: Seq<u8>, key: Seq<u8>, v: Seq<crate::storage_types::Site>) -> bool { alias_wf_some(d, h, key) ==> forall|i: int| 0 <= i < v.len() ==> true_site(d, h, key, (#[trigger] v[i])@) }
/// A site the clean-up may remove
pub open spec fn discardable(d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>) -> bool { alias_of(d, h, key, n) is None && !has_pw(d, key, sprefix(h, n)) }
pub open spec fn discardables(d: Data, h: Seq<u8>, key: Seq<u8>, v: Seq<String>) -> bool { alias_wf_some(d, h, key) ==> forall|i: int| 0 <= i < v.len() ==> discardable(d, h, key, (#[trigger] v[i])@) }
pub open spec fn discard_at(d: Data, h: Seq<u8>, key: Seq<u8>, n: Seq<char>, k: Seq<char>) -> bool { k == skey(h, n) && (alias_wf_some(d, h, key) ==> discardable(d, h, key, n)) }
/// Only entries of regular sites without passwords are gone
pub open spec fn discarded(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>) -> bool {
    forall|k: Seq<char>| #[trigger] same_at(d0, d, k) || (!d.dom().contains(k) && exists|n: Seq<char>| #[trigger] discard_at(d0, h, key, n, k))
}
pub proof fn lemma_sel_from<K, V>(ks: Seq<K>, f: spec_fn(K) -> Option<V>, i: int)
    requires 0 <= i < sel(ks, f).len()
    ensures exists|j: int| 0 <= j < ks.len() && f(#[trigger] ks[j]) == Some(sel(ks, f)[i])
    decreases ks.len()
{
    let l = ks.drop_last();
    match f(ks.last()) {
        Some(v) => { if i == sel(l, f).len() { assert(ks[ks.len() - 1] == ks.last()); } else { lemma_sel_from(l, f, i); let j = choose|j: int| 0 <= j < l.len() && f(#[trigger] l[j]) == Some(sel(l, f)[i]); assert(ks[j] == l[j]); } }
        None => { lemma_sel_from(l, f, i); let j = choose|j: int| 0 <= j < l.len() && f(#[trigger] l[j]) == Some(sel(l, f)[i]); assert(ks[j] == l[j]); }
    }
}
pub proof fn lemma_listed_sites(d: Data, h: Seq<u8>, key: Seq<u8>, pattern: Seq<char>, s: Seq<crate::storage_types::Site>)
    requires is_site_match(site_views(s), d, key, pattern)
    ensures true_sites(d, h, key, s)
{
    let v = site_views(s);
    if alias_wf_some(d, h, key) {
        let u = choose|u: Set<Seq<char>>| #[trigger] alias_wf(d, h, key, u);
        let all = choose|all: Seq<SiteV>| #[trigger] is_site_list(all, d, key) && v == sel(all, site_match(pattern));
        let ks = choose|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && all == sel(ks, site_sel(d, key));
        assert forall|i: int| 0 <= i < s.len() implies true_site(d, h, key, (#[trigger] s[i])@) by {
            assert(v[i] == s[i]@);
            lemma_sel_from(all, site_match(pattern), i);
            let j = choose|j: int| 0 <= j < all.len() && site_match(pattern)(#[trigger] all[j]) == Some(v[i]);
            assert(all[j] == v[i]);
            lemma_sel_from(ks, site_sel(d, key), j);
            let m = choose|m: int| 0 <= m < ks.len() && site_sel(d, key)(#[trigger] ks[m]) == Some(all[j]);
            assert(site_key(ks[m]) && site_in(d, key, ks[m]) is Some);
            assert(alias_ok(d, h, key, u, ks[m], v[i]));
        }
    }
}
/// Nothing listed means there is nothing
pub proof fn lemma_nothing_listed(d: Data, key: Seq<u8>, prefix: Seq<char>, v: Seq<PwV>)
    requires is_pw_match(v, d, key, prefix, "*"@), v.len() == 0
    ensures !has_pw(d, key, prefix)
{
    let all = choose|all: Seq<PwV>| #[trigger] is_pw_list(all, d, key, prefix) && v == sel(all, name_sel("*"@));
    let ks = choose|ks: Seq<Seq<char>>| #[trigger] order_of(ks, d.dom()) && all == sel(ks, pw_sel(d, key, prefix));
    lemma_sel_empty(all, name_sel("*"@));
    if all.len() > 0 { axiom_wild_any(all[0].id.name); }
    lemma_sel_empty(ks, pw_sel(d, key, prefix));
    assert forall|k: Seq<char>| d.dom().contains(k) && prefix.is_prefix_of(k) implies (#[trigger] pw_in(d, key, k)) is None by {
        assert(ks.contains(k)); let m = ks.index_of(k); assert(pw_sel(d, key, prefix)(ks[m]) is None);
    }
}
pub proof fn lemma_www(n: Seq<char>) ensures normalize("www."@ + n) == n { reveal_strlit("www."); assert(("www."@ + n).skip(4) =~= n); assert("www."@.is_prefix_of("www."@ + n)); }
pub proof fn lemma_without_at(d0: Data, h: Seq<u8>, v: Seq<Seq<char>>, k: Seq<char>)
    ensures same_at(d0, without_sites(d0, h, v), k) || (!without_sites(d0, h, v).dom().contains(k) && exists|i: int| 0 <= i < v.len() && k == skey(h, #[trigger] v[i]))
    decreases v.len()
{
    if v.len() > 0 {
        lemma_without_at(d0, h, v.drop_last(), k);
        if k == skey(h, v.last()) { assert(v[v.len() - 1] == v.last()); }
        else if !same_at(d0, without_sites(d0, h, v.drop_last()), k) { let i = choose|i: int| 0 <= i < v.len() - 1 && k == skey(h, #[trigger] v.drop_last()[i]); assert(v[i] == v.drop_last()[i]); }
    }
}
pub proof fn lemma_discarded(d0: Data, d: Data, h: Seq<u8>, key: Seq<u8>, v: Seq<Seq<char>>)
    requires d == without_sites(d0, h, v), alias_wf_some(d0, h, key) ==> forall|i: int| 0 <= i < v.len() ==> discardable(d0, h, key, #[trigger] v[i])
    ensures discarded(d0, d, h, key)
{
    assert forall|k: Seq<char>| #[trigger] same_at(d0, d, k) || (!d.dom().contains(k) && exists|n: Seq<char>| #[trigger] discard_at(d0, h, key, n, k)) by {
        lemma_without_at(d0, h, v, k);
        if !same_at(d0, d, k) { let i = choose|i: int| 0 <= i < v.len() && k == skey(h, #[trigger] v[i]); assert(discard_at(d0, h, key, v[i], k)); }
    }
}
pub open spec fn site_views(v: Seq<crate::storage_types::Site>) -> Seq<SiteV> { v.map_values(|s: crate::storage_types::Site| s@) }
pub open spec fn pw_views(v: Seq<crate::storage_types::Password>) -> Seq<PwV> { v.map_values(|s: crate::storage_types::Password| s@) }
/// Every element of the first is one of the second
pub open spec fn within<T>(a: Seq<T>, b: Seq<T>) -> bool { forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) }
pub proof fn lemma_dedup_within<T>(s: Seq<T>, keys: Seq<Seq<char>>)
    requires s.len() == keys.len()
    ensures within(dedup_by(s, keys), s)
    decreases s.len()
{
    if s.len() > 0 {
        let d = dedup_by(s.drop_last(), keys.drop_last());
        lemma_dedup_within(s.drop_last(), keys.drop_last());
        assert forall|i: int| 0 <= i < dedup_by(s, keys).len() implies s.contains(#[trigger] dedup_by(s, keys)[i]) by {
            if i < d.len() { assert(s.drop_last().contains(d[i])); let j = s.drop_last().index_of(d[i]); assert(s[j] == d[i]); } else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}

// ---------------------------------------------------------------- what the list command prints
/// An entry as it is shown: its lines of a recovery code are those of some code that gives the password back.
pub ghost struct ShownV { pub e: PwV, pub lines: Seq<Seq<char>> }
/// The part for one site: `found` are its matching entries, shown in the order `order`; `at` is its place among the sites looked at.
pub ghost struct BlockV { pub at: int, pub site: Seq<char>, pub aliases: Seq<Seq<char>>, pub found: Seq<PwV>, pub order: Seq<int>, pub es: Seq<ShownV> }
pub ghost struct ListV { pub listed: Seq<SiteV>, pub sites: Seq<Seq<char>>, pub bs: Seq<BlockV> }
pub ghost struct HowV { pub show: bool, pub recovery: bool, pub verbose: bool }
pub open spec fn sv(name: Seq<char>, alias: Option<Seq<char>>) -> SiteV { SiteV { name: name, alias: alias } }
pub open spec fn nl() -> Seq<u8> { seq![10u8] }
/// What was printed with what comes next after it
pub open spec fn put_lines(o: Seq<u8>, lines: Seq<Seq<char>>, n: int) -> Seq<u8> decreases n { if n <= 0 { o } else { put_lines(o, lines, n - 1) + B!("        ") + utf8(lines[n - 1]) + nl() } }
pub open spec fn class_names(cs: Set<CharacterType>) -> Seq<Seq<char>> {
    (if cs.contains(CharacterType::Lower) { seq!["abc"@] } else { Seq::empty() }) + (if cs.contains(CharacterType::Upper) { seq!["ABC"@] } else { Seq::empty() })
    + (if cs.contains(CharacterType::Digit) { seq!["789"@] } else { Seq::empty() }) + (if cs.contains(CharacterType::Symbol) { seq!["+^;"@] } else { Seq::empty() })
}
pub open spec fn kind_name(k: KindV) -> Seq<char> { match k { KindV::Gen { .. } => "generated"@, KindV::Stored { .. } => "stored"@ } }
pub open spec fn put_head(o: Seq<u8>, e: PwV) -> Seq<u8> {
    if e.id.revision.len() > 0 { o + B!("    ") + utf8(e.id.name) + B!(" (") + utf8(kind_name(e.kind)) + B!(", revision: ") + utf8(e.id.revision) + B!(")\n") }
    else { o + B!("    ") + utf8(e.id.name) + B!(" (") + utf8(kind_name(e.kind)) + B!(")\n") }
}
pub open spec fn put_value(o: Seq<u8>, show: bool, v: Seq<char>) -> Seq<u8> { if show { o + B!("        ") + utf8(v) + nl() } else { o } }
pub open spec fn put_code(o: Seq<u8>, how: HowV, s: ShownV) -> Seq<u8> { if how.recovery && s.e.kind is Stored { put_lines(o + B!("        Recovery code:\n"), s.lines, s.lines.len() as int) } else { o } }
pub open spec fn put_notes(o: Seq<u8>, how: HowV, e: PwV) -> Seq<u8> { if how.verbose && e.notes.len() > 0 { o + B!("        Notes: ") + utf8(e.notes) + nl() } else { o } }
pub open spec fn put_params(o: Seq<u8>, how: HowV, e: PwV) -> Seq<u8> {
    match e.kind { KindV::Gen { length, charset } => if how.verbose { o + B!("        Length: ") + utf8(num_text(length)) + nl() + B!("        Allowed characters: ") + utf8(joined(class_names(charset), " "@)) + nl() } else { o }, _ => o }
}
pub open spec fn put_entry(o: Seq<u8>, x: CtxV, how: HowV, site: Seq<char>, s: ShownV) -> Seq<u8> {
    put_params(put_notes(put_code(put_value(put_head(o, s.e), how.show, x.value(pid(site, s.e.id.name, s.e.id.revision))), how, s), how, s.e), how, s.e)
}
pub open spec fn put_entries(o: Seq<u8>, x: CtxV, how: HowV, site: Seq<char>, es: Seq<ShownV>) -> Seq<u8> decreases es.len() { if es.len() == 0 { o } else { put_entry(put_entries(o, x, how, site, es.drop_last()), x, how, site, es.last()) } }
pub open spec fn put_site(o: Seq<u8>, how: HowV, site: Seq<char>, aliases: Seq<Seq<char>>) -> Seq<u8> {
    let p = o + B!("Passwords for ") + utf8(site) + B!(":\n");
    if how.verbose && aliases.len() > 0 { p + B!("    Aliases: ") + utf8(joined(aliases, ",\n             "@)) + nl() } else { p }
}
pub open spec fn blocks_text(x: CtxV, how: HowV, bs: Seq<BlockV>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { Seq::empty() } else { put_entries(put_site(blocks_text(x, how, bs.drop_last()), how, bs.last().site, bs.last().aliases), x, how, bs.last().site, bs.last().es) } }
pub open spec fn list_text(x: CtxV, how: HowV, bs: Seq<BlockV>) -> Seq<u8> { if bs.len() == 0 { blocks_text(x, how, bs) + B!("No matching passwords found.\n") } else { blocks_text(x, how, bs) } }
/// Storage, keys and primary password
pub ghost struct CtxV { pub d: Data, pub h: Seq<u8>, pub k: Seq<u8>, pub p: Seq<char> }
impl CtxV {
    /// The password the tool gives for the entry
    pub open spec fn value(&self, id: PidV) -> Seq<char> { match pw_at(self.d, self.h, self.k, id) { Some(v) => pw_value(self.p, v), None => arbitrary() } }
    pub open spec fn code_of(&self, lines: Seq<Seq<char>>, password: Seq<char>) -> bool { exists|c: Seq<char>| lines == #[trigger] splits(c, '\n') && self.decodes(c, password) }
    pub open spec fn decodes(&self, c: Seq<char>, password: Seq<char>) -> bool { salt_of(self.d) matches Some(salt) && salt.len() == 16 ==> forall|p: Seq<char>| self.k == #[trigger] enc_key(p, salt_of(self.d)->0) && no_trailing_nul(password) ==> code_text(kept(utf8(c)), p) == Some(password) }
}

pub open spec fn text_lt(a: Seq<char>, b: Seq<char>) -> bool { text_le(a, b) && a != b }
pub open spec fn increasing(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> text_lt(#[trigger] v[i], #[trigger] v[j]) }
pub open spec fn site_names(v: Seq<SiteV>) -> Seq<Seq<char>> { v.map_values(|s: SiteV| s.name) }
pub open spec fn target(s: SiteV) -> Seq<char> { match s.alias { Some(t) => t, None => s.name } }
pub open spec fn target_sel() -> spec_fn(SiteV) -> Option<SiteV> { |s: SiteV| match s.alias { Some(t) => Some(sv(t, None)), None => None } }
pub open spec fn regular_sel() -> spec_fn(SiteV) -> Option<SiteV> { |s: SiteV| if s.alias is None { Some(s) } else { None } }
/// The sites looked at: what the listed ones are or lead to, each once and in order
pub open spec fn considered(listed: Seq<SiteV>, sites: Seq<Seq<char>>) -> bool {
    increasing(sites) && (forall|s: SiteV| #[trigger] listed.contains(s) ==> sites.contains(target(s))) && (forall|n: Seq<char>| #[trigger] sites.contains(n) ==> exists|s: SiteV| #[trigger] listed.contains(s) && target(s) == n)
}
/// The listed aliases of a site, each once and in order
pub open spec fn listed_aliases(listed: Seq<SiteV>, t: Seq<char>, a: Seq<Seq<char>>) -> bool {
    increasing(a) && forall|n: Seq<char>| #[trigger] a.contains(n) <==> listed.contains(sv(n, Some(t)))
}
pub open spec fn entry_keys(v: Seq<PwV>) -> Seq<Seq<char>> { v.map_values(|e: PwV| e.id.name + " "@ + e.id.revision) }
/// The matching entries of the site, all of them, in the order of name and revision
pub open spec fn block_ok(x: CtxV, how: HowV, pattern: Seq<char>, b: BlockV) -> bool {
    b.found.len() > 0 && is_pw_match(b.found, x.d, x.k, sprefix(x.h, b.site), pattern) && sorting(b.order, entry_keys(b.found)) && b.es.len() == b.found.len()
    && forall|i: int| 0 <= i < b.es.len() ==> shown_ok(x, how, b.site, #[trigger] b.es[i], b.found[b.order[i]])
}
pub open spec fn shown_ok(x: CtxV, how: HowV, site: Seq<char>, s: ShownV, e: PwV) -> bool {
    s.e == e && (how.show ==> pw_at(x.d, x.h, x.k, pid(site, e.id.name, e.id.revision)) is Some) && (how.recovery ==> (e.kind matches KindV::Stored { password } ==> x.code_of(s.lines, password)))
}
/// Each site looked at has its part, in order, unless no entry of it matches.
pub open spec fn blocks_for(x: CtxV, how: HowV, pattern: Seq<char>, sites: Seq<Seq<char>>, n: int, bs: Seq<BlockV>) -> bool {
    (forall|i: int| 0 <= i < bs.len() ==> 0 <= (#[trigger] bs[i]).at < n && bs[i].site == sites[bs[i].at] && block_ok(x, how, pattern, bs[i]))
    && (forall|i: int, j: int| 0 <= i < j < bs.len() ==> (#[trigger] bs[i]).at < (#[trigger] bs[j]).at)
    && (forall|m: int| 0 <= m < n ==> #[trigger] part_at(bs, m) || is_pw_match(Seq::empty(), x.d, x.k, sprefix(x.h, sites[m]), pattern))
}
pub open spec fn part_at(bs: Seq<BlockV>, m: int) -> bool { exists|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).at == m }
pub open spec fn aliases_for(l: ListV) -> bool { forall|i: int| 0 <= i < l.bs.len() ==> listed_aliases(l.listed, (#[trigger] l.bs[i]).site, l.bs[i].aliases) }
pub open spec fn listing(x: CtxV, how: HowV, sites: Seq<char>, names: Seq<char>, l: ListV) -> bool {
    is_site_match(l.listed, x.d, x.k, sites) && considered(l.listed, l.sites) && blocks_for(x, how, names, l.sites, l.sites.len() as int, l.bs) && (how.verbose ==> aliases_for(l))
}
/// What the list command prints
pub open spec fn listed_as(x: CtxV, how: HowV, sites: Seq<char>, names: Seq<char>, out: Seq<u8>) -> bool { exists|l: ListV| #[trigger] listing(x, how, sites, names, l) && out == list_text(x, how, l.bs) }

// its proof
pub open spec fn true_views(d: Data, h: Seq<u8>, k: Seq<u8>, v: Seq<SiteV>) -> bool { forall|s: SiteV| #[trigger] v.contains(s) ==> true_site(d, h, k, s) }
pub open spec fn going_up(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> text_le(#[trigger] v[i], #[trigger] v[j]) }
pub proof fn lemma_dedup_map(v: Seq<crate::storage_types::Site>, keys: Seq<Seq<char>>)
    requires v.len() == keys.len()
    ensures site_views(dedup_by(v, keys)) == dedup_by(site_views(v), keys)
    decreases v.len()
{
    if v.len() > 0 {
        lemma_dedup_map(v.drop_last(), keys.drop_last());
        assert(site_views(v).drop_last() =~= site_views(v.drop_last()));
        assert(site_views(dedup_by(v, keys)) =~= dedup_by(site_views(v), keys));
    } else { assert(site_views(dedup_by(v, keys)) =~= dedup_by(site_views(v), keys)); }
}
pub proof fn lemma_dedup_sorted(s: Seq<SiteV>)
    requires going_up(site_names(s))
    ensures
        increasing(site_names(dedup_by(s, site_names(s)))), s.len() > 0 ==> dedup_by(s, site_names(s)).len() > 0 && dedup_by(s, site_names(s)).last().name == s.last().name,
        forall|i: int| 0 <= i < s.len() ==> site_names(dedup_by(s, site_names(s))).contains((#[trigger] s[i]).name),
        within(dedup_by(s, site_names(s)), s),
    decreases s.len()
{
    lemma_dedup_within(s, site_names(s));
    if s.len() > 0 {
        axiom_text_le();
        let r = s.drop_last();
        let n = site_names(s);
        let d = dedup_by(r, site_names(r));
        let e = dedup_by(s, n);
        assert(n.drop_last() =~= site_names(r));
        assert(going_up(site_names(r))) by { assert forall|i: int, j: int| 0 <= i < j < site_names(r).len() implies text_le(#[trigger] site_names(r)[i], #[trigger] site_names(r)[j]) by { assert(n[i] == site_names(r)[i] && n[j] == site_names(r)[j]); } }
        lemma_dedup_sorted(r);
        if s.len() > 1 {
            assert(n[s.len() - 2] == r.last().name && n.last() == s.last().name && n[s.len() - 1] == n.last());
            assert(text_le(n[s.len() - 2], n[s.len() - 1]));
        }
        if s.len() > 1 && n.last() == n[n.len() - 2] {
            assert(e == d);
            assert forall|i: int| 0 <= i < s.len() implies site_names(e).contains((#[trigger] s[i]).name) by {
                if i < r.len() { assert(r[i] == s[i]); } else { assert(site_names(d)[d.len() - 1] == s.last().name); }
            }
        } else {
            assert(e == d.push(s.last()));
            assert forall|i: int, j: int| 0 <= i < j < site_names(e).len() implies text_lt(#[trigger] site_names(e)[i], #[trigger] site_names(e)[j]) by {
                let a = site_names(d);
                assert(i < d.len() ==> site_names(e)[i] == a[i]);
                if j < d.len() { assert(site_names(e)[j] == a[j]); }
                else {
                    assert(a[d.len() - 1] == r.last().name);
                    if i < d.len() - 1 { assert(text_lt(a[i], a[d.len() - 1])); }
                    assert(text_le(a[i], r.last().name) && text_le(r.last().name, s.last().name));
                    assert(text_le(a[i], s.last().name));
                    if a[i] == s.last().name { assert(text_le(s.last().name, r.last().name)); }
                }
            }
            assert forall|i: int| 0 <= i < s.len() implies site_names(e).contains((#[trigger] s[i]).name) by {
                if i < r.len() { assert(r[i] == s[i]); let m = site_names(d).index_of(s[i].name); assert(site_names(d).contains(s[i].name)); assert(site_names(e)[m] == site_names(d)[m]); } else { assert(site_names(e)[d.len() as int] == s.last().name); }
            }
        }
    }
}
/// What is selected of a sequence ordered by name is ordered by name.
pub proof fn lemma_sel_regular(v: Seq<SiteV>)
    requires increasing(site_names(v))
    ensures increasing(site_names(sel(v, regular_sel()))), forall|s: SiteV| #[trigger] sel(v, regular_sel()).contains(s) <==> v.contains(s) && s.alias is None
    decreases v.len()
{
    let f = regular_sel();
    lemma_sel_has(v, f);
    assert forall|s: SiteV| #[trigger] sel(v, f).contains(s) <==> v.contains(s) && s.alias is None by {
        if v.contains(s) && s.alias is None { let i = v.index_of(s); assert(f(v[i]) == Some(s)); }
    }
    if v.len() > 0 {
        let r = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < site_names(r).len() implies text_lt(#[trigger] site_names(r)[i], #[trigger] site_names(r)[j]) by { assert(site_names(v)[i] == site_names(r)[i] && site_names(v)[j] == site_names(r)[j]); }
        lemma_sel_regular(r);
        let (a, b) = (sel(v, f), sel(r, f));
        assert forall|i: int, j: int| 0 <= i < j < site_names(a).len() implies text_lt(#[trigger] site_names(a)[i], #[trigger] site_names(a)[j]) by {
            assert(site_names(b)[i] == site_names(a)[i]);
            if j < b.len() { assert(site_names(b)[j] == site_names(a)[j]); }
            else { assert(b.contains(b[i])); let m = r.index_of(b[i]); assert(site_names(v)[m] == b[i].name && site_names(v)[v.len() - 1] == v.last().name); }
        }
    }
}
pub proof fn lemma_sel_aliases(v: Seq<SiteV>, t: Seq<char>)
    requires increasing(site_names(v))
    ensures increasing(sel(v, alias_sel(t))), forall|n: Seq<char>| #[trigger] sel(v, alias_sel(t)).contains(n) <==> v.contains(sv(n, Some(t)))
    decreases v.len()
{
    let f = alias_sel(t);
    lemma_sel_has(v, f);
    assert forall|n: Seq<char>| #[trigger] sel(v, f).contains(n) <==> v.contains(sv(n, Some(t))) by {
        if v.contains(sv(n, Some(t))) { let i = v.index_of(sv(n, Some(t))); assert(f(v[i]) == Some(n)); }
        if sel(v, f).contains(n) { let i = choose|i: int| 0 <= i < v.len() && f(#[trigger] v[i]) == Some(n); assert(v[i] == sv(n, Some(t))); }
    }
    if v.len() > 0 {
        let r = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < site_names(r).len() implies text_lt(#[trigger] site_names(r)[i], #[trigger] site_names(r)[j]) by { assert(site_names(v)[i] == site_names(r)[i] && site_names(v)[j] == site_names(r)[j]); }
        lemma_sel_aliases(r, t);
        let (a, b) = (sel(v, f), sel(r, f));
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies text_lt(#[trigger] a[i], #[trigger] a[j]) by {
            assert(b[i] == a[i]);
            if j < b.len() { assert(b[j] == a[j]); }
            else { assert(b.contains(b[i])); let m = r.index_of(sv(b[i], Some(t))); assert(r[m] == sv(b[i], Some(t))); assert(site_names(v)[m] == b[i] && site_names(v)[v.len() - 1] == v.last().name); }
        }
    }
}
/// Listed sites with the targets of aliases, sorted and without repetition, regular ones kept
pub proof fn lemma_considered(d: Data, h: Seq<u8>, k: Seq<u8>, l: Seq<SiteV>, p: Seq<int>)
    requires
        true_views(d, h, k, l + sel(l, target_sel())),
        sorting(p, site_names(l + sel(l, target_sel()))),
    ensures ({
        let s = picked(l + sel(l, target_sel()), p);
        let v = dedup_by(s, site_names(s));
        considered(l, site_names(sel(v, regular_sel()))) && forall|t: Seq<char>| listed_aliases(l, t, #[trigger] sel(v, alias_sel(t)))
    })
{
    let a = l + sel(l, target_sel());
    let s = picked(a, p);
    let n = site_names(s);
    let v = dedup_by(s, n);
    let m = sel(v, regular_sel());
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies text_le(#[trigger] n[i], #[trigger] n[j]) by { assert(n[i] == site_names(a)[p[i]] && n[j] == site_names(a)[p[j]]); }
    lemma_dedup_sorted(s);
    lemma_sel_regular(v);
    lemma_sel_has(l, target_sel());
    assert forall|e: SiteV| #[trigger] v.contains(e) <==> a.contains(e) by {
        if v.contains(e) { let i = v.index_of(e); assert(s.contains(v[i])); let j = s.index_of(e); assert(a[p[j]] == e); }
        if a.contains(e) {
            let i = a.index_of(e);
            assert(p.contains(i)); let j = p.index_of(i);
            assert(s[j] == e);
            assert(site_names(v).contains(s[j].name));
            let q = site_names(v).index_of(e.name);
            let o = v[q];
            assert(o.name == e.name);
            assert(s.contains(v[q])); let w = s.index_of(o); assert(a[p[w]] == o); assert(a.contains(o));
            assert(true_site(d, h, k, o) && true_site(d, h, k, e));
            assert(o == e);
        }
    }
    assert forall|e: SiteV| #[trigger] l.contains(e) implies site_names(m).contains(target(e)) by {
        let i = l.index_of(e);
        let t = sv(target(e), None);
        if e.alias is None { assert(a[i] == e); assert(t == e); }
        else { assert(target_sel()(l[i]) == Some(t)); assert(sel(l, target_sel()).contains(t)); let j = sel(l, target_sel()).index_of(t); assert(a[l.len() + j] == t); }
        assert(a.contains(t)); assert(v.contains(t)); assert(m.contains(t));
        let j = m.index_of(t); assert(site_names(m)[j] == target(e));
    }
    assert forall|x: Seq<char>| #[trigger] site_names(m).contains(x) implies exists|e: SiteV| #[trigger] l.contains(e) && target(e) == x by {
        let i = site_names(m).index_of(x);
        let e = m[i];
        assert(m.contains(e)); assert(v.contains(e)); assert(a.contains(e));
        let j = a.index_of(e);
        if j < l.len() { assert(l[j] == e); assert(l.contains(e)); }
        else { assert(sel(l, target_sel())[j - l.len()] == e); assert(sel(l, target_sel()).contains(e)); let z = choose|z: int| 0 <= z < l.len() && target_sel()(#[trigger] l[z]) == Some(e); assert(l.contains(l[z])); }
    }
    assert forall|t: Seq<char>| listed_aliases(l, t, #[trigger] sel(v, alias_sel(t))) by {
        lemma_sel_aliases(v, t);
        assert forall|x: Seq<char>| #[trigger] sel(v, alias_sel(t)).contains(x) <==> l.contains(sv(x, Some(t))) by {
            let e = sv(x, Some(t));
            if v.contains(e) {
                let j = a.index_of(e); assert(a.contains(e));
                if j >= l.len() { assert(sel(l, target_sel()).contains(sel(l, target_sel())[j - l.len()])); assert(false); }
                assert(l[j] == e);
            }
            if l.contains(e) { let j = l.index_of(e); assert(a[j] == e); assert(v.contains(e)); }
        }
    }
}
/// What the map of aliases holds: for each target the listed names leading to it
pub open spec fn alias_map_ok(m: Map<Seq<char>, Vec<String>>, v: Seq<SiteV>) -> bool {
    forall|t: Seq<char>| (#[trigger] m.dom().contains(t) <==> sel(v, alias_sel(t)).len() > 0) && (m.dom().contains(t) ==> strings(m[t]@) == sel(v, alias_sel(t)))
}
pub proof fn lemma_picked_views()
    ensures forall|v: Seq<crate::storage_types::Site>, p: Seq<int>| is_perm(p) && p.len() == v.len() ==> site_views(#[trigger] picked(v, p)) == picked(site_views(v), p),
        forall|v: Seq<crate::storage_types::Password>, p: Seq<int>| is_perm(p) && p.len() == v.len() ==> pw_views(#[trigger] picked(v, p)) == picked(pw_views(v), p),
{
    assert forall|v: Seq<crate::storage_types::Site>, p: Seq<int>| is_perm(p) && p.len() == v.len() implies site_views(#[trigger] picked(v, p)) == picked(site_views(v), p) by { assert(site_views(picked(v, p)) =~= picked(site_views(v), p)); }
    assert forall|v: Seq<crate::storage_types::Password>, p: Seq<int>| is_perm(p) && p.len() == v.len() implies pw_views(#[trigger] picked(v, p)) == picked(pw_views(v), p) by { assert(pw_views(picked(v, p)) =~= picked(pw_views(v), p)); }
}
/// The sites in order, each once, in some order that sorts them
pub open spec fn tidied(a: Seq<SiteV>, v: Seq<SiteV>) -> bool { exists|p: Seq<int>| #[trigger] sorting(p, site_names(a)) && v == dedup_by(picked(a, p), site_names(picked(a, p))) }
pub open spec fn ordered(a: Seq<SiteV>, v: Seq<SiteV>) -> bool { exists|p: Seq<int>| #[trigger] sorting(p, site_names(a)) && v == picked(a, p) }
pub proof fn lemma_tidied(d: Data, h: Seq<u8>, k: Seq<u8>, l: Seq<SiteV>, v: Seq<SiteV>)
    requires tidied(l + sel(l, target_sel()), v), alias_wf_some(d, h, k) ==> true_views(d, h, k, l + sel(l, target_sel()))
    ensures alias_wf_some(d, h, k) ==> considered(l, site_names(sel(v, regular_sel()))) && forall|t: Seq<char>| listed_aliases(l, t, #[trigger] sel(v, alias_sel(t)))
{
    let a = l + sel(l, target_sel());
    let p = choose|p: Seq<int>| #[trigger] sorting(p, site_names(a)) && v == dedup_by(picked(a, p), site_names(picked(a, p)));
    if alias_wf_some(d, h, k) { lemma_considered(d, h, k, l, p); }
}
pub open spec fn shuffled(a: Seq<PwV>, v: Seq<PwV>) -> bool { a.len() == v.len() && exists|q: Seq<int>| #[trigger] sorting(q, entry_keys(a)) && v == picked(a, q) }
pub open spec fn first_keys(acc: Seq<String>, keys: Seq<Seq<char>>, n: int) -> bool { acc.len() == n && n <= keys.len() && forall|i: int| 0 <= i < n ==> (#[trigger] acc[i])@ == keys[i] }
pub open spec fn all_shown(x: CtxV, how: HowV, site: Seq<char>, es: Seq<ShownV>, v: Seq<PwV>) -> bool { es.len() <= v.len() && forall|i: int| 0 <= i < es.len() ==> shown_ok(x, how, site, #[trigger] es[i], v[i]) }
pub open spec fn aliases_from(bs: Seq<BlockV>, v: Seq<SiteV>) -> bool { forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).aliases == sel(v, alias_sel(bs[i].site)) }
pub proof fn lemma_no_blocks(x: CtxV, how: HowV, pattern: Seq<char>, sites: Seq<Seq<char>>, v: Seq<SiteV>)
    ensures blocks_for(x, how, pattern, sites, 0, Seq::empty()), aliases_from(Seq::empty(), v), blocks_text(x, how, Seq::empty()) == Seq::<u8>::empty() {}
pub proof fn lemma_no_entries(o: Seq<u8>, x: CtxV, how: HowV, site: Seq<char>, v: Seq<PwV>)
    ensures put_entries(o, x, how, site, Seq::empty()) == o, all_shown(x, how, site, Seq::empty(), v) {}
pub proof fn lemma_entry_step(o: Seq<u8>, x: CtxV, how: HowV, site: Seq<char>, v: Seq<PwV>, es: Seq<ShownV>, s: ShownV)
    requires all_shown(x, how, site, es, v), es.len() < v.len(), shown_ok(x, how, site, s, v[es.len() as int])
    ensures put_entries(o, x, how, site, es.push(s)) == put_entry(put_entries(o, x, how, site, es), x, how, site, s), all_shown(x, how, site, es.push(s), v)
{ assert(es.push(s).drop_last() =~= es); }
pub proof fn lemma_skip_block(x: CtxV, how: HowV, pattern: Seq<char>, sites: Seq<Seq<char>>, n: int, bs: Seq<BlockV>)
    requires blocks_for(x, how, pattern, sites, n, bs), is_pw_match(Seq::empty(), x.d, x.k, sprefix(x.h, sites[n]), pattern)
    ensures blocks_for(x, how, pattern, sites, n + 1, bs) {}
pub proof fn lemma_add_block(x: CtxV, how: HowV, pattern: Seq<char>, sites: Seq<Seq<char>>, n: int, bs: Seq<BlockV>, b: BlockV)
    requires blocks_for(x, how, pattern, sites, n, bs), block_ok(x, how, pattern, b), b.at == n, b.site == sites[n], n >= 0
    ensures blocks_for(x, how, pattern, sites, n + 1, bs.push(b))
{
    let c = bs.push(b);
    assert(c[bs.len() as int] == b);
    assert forall|m: int| 0 <= m < n + 1 implies #[trigger] part_at(c, m) || is_pw_match(Seq::empty(), x.d, x.k, sprefix(x.h, sites[m]), pattern) by {
        if m < n && part_at(bs, m) { let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).at == m; assert(c[i] == bs[i]); }
    }
}
pub proof fn lemma_add_text(x: CtxV, how: HowV, bs: Seq<BlockV>, b: BlockV, v: Seq<SiteV>)
    requires aliases_from(bs, v), b.aliases == sel(v, alias_sel(b.site))
    ensures aliases_from(bs.push(b), v), blocks_text(x, how, bs.push(b)) == put_entries(put_site(blocks_text(x, how, bs), how, b.site, b.aliases), x, how, b.site, b.es)
{ assert(bs.push(b).drop_last() =~= bs); }
pub proof fn lemma_site_block(x: CtxV, how: HowV, pattern: Seq<char>, b: BlockV, v: Seq<PwV>)
    requires b.found.len() > 0, is_pw_match(b.found, x.d, x.k, sprefix(x.h, b.site), pattern), sorting(b.order, entry_keys(b.found)), v == picked(b.found, b.order), b.es.len() == b.found.len(), all_shown(x, how, b.site, b.es, v)
    ensures block_ok(x, how, pattern, b)
{ assert forall|i: int| 0 <= i < b.es.len() implies shown_ok(x, how, b.site, #[trigger] b.es[i], b.found[b.order[i]]) by { assert(v[i] == b.found[b.order[i]]); } }
pub proof fn lemma_alias_map(m: Map<Seq<char>, Vec<String>>, v: Seq<SiteV>, t: Seq<char>)
    requires alias_map_ok(m, v)
    ensures m.dom().contains(t) <==> sel(v, alias_sel(t)).len() > 0, m.dom().contains(t) ==> m[t]@.len() == sel(v, alias_sel(t)).len() && forall|i: int| 0 <= i < m[t]@.len() ==> #[trigger] m[t]@[i]@ == sel(v, alias_sel(t))[i]
{ if m.dom().contains(t) { assert forall|i: int| 0 <= i < m[t]@.len() implies #[trigger] m[t]@[i]@ == sel(v, alias_sel(t))[i] by { assert(strings(m[t]@)[i] == m[t]@[i]@); } } }
/// The map after an alias was looked at
pub open spec fn alias_added(m0: Map<Seq<char>, Vec<String>>, m: Map<Seq<char>, Vec<String>>, s: SiteV) -> bool {
    match s.alias {
        None => m == m0,
        Some(t) => m.dom() == m0.dom().insert(t) && (forall|u: Seq<char>| u != t && m0.dom().contains(u) ==> m[u] == m0[u]) && strings(m[t]@) == (if m0.dom().contains(t) { strings(m0[t]@) } else { Seq::empty() }).push(s.name),
    }
}
pub proof fn lemma_alias_added(m0: Map<Seq<char>, Vec<String>>, m: Map<Seq<char>, Vec<String>>, v: Seq<SiteV>, i: int)
    requires 0 <= i < v.len(), alias_map_ok(m0, v.take(i)), alias_added(m0, m, v[i])
    ensures alias_map_ok(m, v.take(i + 1))
{
    assert forall|t: Seq<char>| (#[trigger] m.dom().contains(t) <==> sel(v.take(i + 1), alias_sel(t)).len() > 0) && (m.dom().contains(t) ==> strings(m[t]@) == sel(v.take(i + 1), alias_sel(t))) by {
        lemma_sel_step(v, alias_sel(t), i);
        assert(m0.dom().contains(t) <==> sel(v.take(i), alias_sel(t)).len() > 0);
        if v[i].alias == Some(t) { if !m0.dom().contains(t) { assert(sel(v.take(i), alias_sel(t)) =~= Seq::empty()); } }
    }
}
pub proof fn lemma_listed_as(x: CtxV, how: HowV, sites: Seq<char>, names: Seq<char>, l: ListV, v: Seq<SiteV>)
    requires is_site_match(l.listed, x.d, x.k, sites), considered(l.listed, l.sites), blocks_for(x, how, names, l.sites, l.sites.len() as int, l.bs), aliases_from(l.bs, v), forall|t: Seq<char>| listed_aliases(l.listed, t, #[trigger] sel(v, alias_sel(t)))
    ensures forall|out: Seq<u8>| out == list_text(x, how, l.bs) ==> #[trigger] listed_as(x, how, sites, names, out)
{
    assert(aliases_for(l));
    assert(listing(x, how, sites, names, l));
}
pub proof fn lemma_no_aliases(v: Seq<SiteV>) ensures alias_map_ok(Map::empty(), v.take(0)) { assert(v.take(0) =~= Seq::empty()); }
pub proof fn lemma_sorted_sites(d: Data, h: Seq<u8>, k: Seq<u8>, all: Seq<crate::storage_types::Site>, keys: Seq<Seq<char>>)
    requires true_sites(d, h, k, all), keys == site_names(site_views(all))
    ensures forall|p: Seq<int>| #[trigger] sorting(p, keys) ==> true_sites(d, h, k, picked(all, p)) && ordered(site_views(all), site_views(picked(all, p)))
{
    lemma_picked_views();
    assert forall|p: Seq<int>| #[trigger] sorting(p, keys) implies true_sites(d, h, k, picked(all, p)) && ordered(site_views(all), site_views(picked(all, p))) by {
        assert(site_views(picked(all, p)) == picked(site_views(all), p));
    }
}
pub proof fn lemma_tidy(a: Seq<SiteV>, s: Seq<SiteV>) requires ordered(a, s) ensures tidied(a, dedup_by(s, site_names(s))) {}
pub proof fn lemma_sorted_pws(l: Seq<crate::storage_types::Password>)
    ensures forall|p: Seq<int>| #[trigger] sorting(p, entry_keys(pw_views(l))) ==> shuffled(pw_views(l), pw_views(picked(l, p)))
{
    lemma_picked_views();
    assert forall|p: Seq<int>| #[trigger] sorting(p, entry_keys(pw_views(l))) implies shuffled(pw_views(l), pw_views(picked(l, p))) by { assert(pw_views(picked(l, p)) == picked(pw_views(l), p)); }
}
} // mod spec
