## recovery_codes
@fn recovery_codes::format_code tags=C03,C04,C05,C17
@ensures C03,C04,C05 kept letters, punctuated
r@ == format_of(kept(code@), insert_punctuation)
@at start
proof { axiom_slice_len(code); }
@inv 0
__s0@ == Seq::new(code@.len(), |i: int| &code@[i]), code@.len() <= 0x7fff_ffff_ffff_ffff,
pos as int == kept(code@.take(__i0 as int)).len(), kept(code@.take(__i0 as int)).len() <= __i0,
result@ == if insert_punctuation { separated(kept(code@.take(__i0 as int))) } else { latin1(kept(code@.take(__i0 as int))) },
@at loop 0 start
let ghost k0 = kept(code@.take(__i0 - 1));
proof { assert(code@.take(__i0 as int) =~= code@.take(__i0 - 1).push(code@[__i0 - 1])); lemma_kept_push(code@.take(__i0 - 1), code@[__i0 - 1]); }
@at loop 0 end
proof {
    let k = kept(code@.take(__i0 as int));
    if k != k0 { assert(k.drop_last() =~= k0); }
    if insert_punctuation { assert(result@ =~= separated(k)); } else { assert(result@ =~= latin1(k)); }
}
@at loop 0 after
let ghost k = kept(code@);
proof { assert(code@.take(code@.len() as int) =~= code@); lemma_kept(code@); lemma_separated(k); lemma_format_end(k, insert_punctuation, result@); }

@fn recovery_codes::validate tags=C03,C04,C05,C17
@ensures C03,C04,C05,C17 rows judged one after the other
match r {
    Ok(v) => code_v(kept(utf8(code@))) == CodeV::Good(v@),
    Err(Error::RecoveryCodeChecksumMismatch { line }) => code_v(kept(utf8(code@))) == CodeV::Mismatch(line as int),
    Err(Error::RecoveryCodeExtraData { line }) => code_v(kept(utf8(code@))) == CodeV::Extra(line as int),
    Err(Error::RecoveryCodeIncomplete) => code_v(kept(utf8(code@))) == CodeV::Incomplete,
    Err(_) => false,
}
@at let formatted after
let ghost k = kept(utf8(code@));
let ghost d = code_rows(k);
proof { lemma_kept(utf8(code@)); lemma_format(k, false); lemma_code_rows(k); axiom_str_len(code); }
@inv 0
decoded@ == d, d == code_rows(k), k == kept(utf8(code@)), d.len() == 15 * (k.len() as int / 24), formatted@ == format_of(k, false), utf8(formatted@) == k,
__s0@.len() == d.len() / 15, k.len() <= 0x7fff_ffff_ffff_ffff,
forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == chunk_of(d, 15, i),
@inveb 0
!seen_last ==> scan_rows(d, 0) == scan_rows(d, __i0 as int),
seen_last ==> __i0 > 0 && scan_rows(d, 0) == RowsV::Final(__i0 - 1),
extra_row is None,
@lens 0
extra_row is None ==> __i0 == __s0@.len() && (if seen_last { __i0 > 0 && scan_rows(d, 0) == RowsV::Final(__i0 - 1) } else { scan_rows(d, 0) == scan_rows(d, __i0 as int) }),
extra_row is Some ==> seen_last && extra_row->0 > 0 && extra_row->0 < __s0@.len() && scan_rows(d, 0) == RowsV::Final(extra_row->0 - 1),
@at loop 0 start
proof { lemma_row(d, __i0 - 1); lemma_fits(d, __i0 - 1); lemma_trunc((__i0 - 1) as usize); }
@at loop 0 after
proof {
    let n = d.len() as int / 15;
    assert(n == k.len() as int / 24); assert(n == __s0@.len());
    assert(scan_rows(d, n) == RowsV::Incomplete);
    assert(extra_data == (k.len() % 24 != 0));
    if !seen_last { assert(scan_rows(d, 0) == RowsV::Incomplete); }
    else if extra_row is None { assert(scan_rows(d, 0) == RowsV::Final(n - 1)); assert(formatted@.len() >= 0); }
    else { assert(scan_rows(d, 0) == RowsV::Final(extra_row->0 - 1)); }
}

@fn recovery_codes::generate tags=C03,C17
@requires key size
encryption_key.inner@.len() == 32
@ensures C03,C13 the encrypted password in checked rows
if salt@.len() == 16 { r is Ok && exists|nonce: Seq<u8>| nonce.len() == 12 && from_rng(nonce) && r->Ok_0@ == #[trigger] code_of(password.inner@, salt@, nonce, encryption_key.inner@) } else { r is Err }
@ensures C03 decodes to the password
salt@.len() == 16 && no_trailing_nul(password.inner@) ==> r is Ok && forall|p: Seq<char>| encryption_key.inner@ == #[trigger] enc_key(p, salt@) ==> code_text(kept(utf8(r->Ok_0@)), p) == Some(password.inner@)
@at start
proof { axiom_string_len(password.inner); lemma_fill(utf8(password.inner@).len() as int); }
let ghost pw = password.inner@;
let ghost key = encryption_key.inner@;
@at let fill_bytes after
proof { assert(fill_bytes as int == fill_of(utf8(pw).len() as int)); }
@at let encrypted after
proof { assert(password_vec.inner@ =~= pad_of(utf8(pw))); }
let ghost n = lemma_enc_parts(encrypted@, pad_of(utf8(pw)), key);
proof { lemma_code_bytes(pw, salt@, n, key); }
@at let blocks after
let ghost x = input@;
proof { reveal(code_bytes); assert(x =~= code_bytes(pw, salt@, n, key)); lemma_checks_start(x, blocks as int); }
@inv 0
__s0@ == Seq::new(x.len(), |i: int| &x[i]), x.len() % 14 == 0, x.len() > 0, blocks == x.len() / 14,
output@ == with_checks(x, __i0 as int, blocks as int),
@at loop 0 start
proof {
    lemma_checks_step(x, __i0 as int, blocks as int);
    if __i0 % 14 == 0 { lemma_trunc((__i0 / 14 - 1) as usize); }
}
@at loop 0 after
proof { lemma_checked(x, x.len() as int, blocks as int); assert(output@.len() == 15 * (x.len() as int / 14)); assert(output@.len() % 5 == 0); }
@at end
proof {
    lemma_b32_inverse(output@);
    lemma_kept_self(b32_enc(output@));
    reveal(code_of);
    assert(r is Ok && r->Ok_0@ == code_of(pw, salt@, n, key));
    if no_trailing_nul(pw) { assert forall|p: Seq<char>| key == #[trigger] enc_key(p, salt@) implies code_text(kept(utf8(r->Ok_0@)), p) == Some(pw) by { lemma_round_trip(pw, salt@, n, key, p); } }
}

@fn recovery_codes::decode tags=C03,C04,C05,C17
@ensures C03,C04,C05,C17 what the letters stand for
match r { Ok(v) => code_text(kept(utf8(code@)), primary_password.inner@) == Some(v.inner@), Err(_) => code_text(kept(utf8(code@)), primary_password.inner@) is None }
@ensures C04,C05 first wrong row
match code_v(kept(utf8(code@))) {
    CodeV::Mismatch(i) => r matches Err(Error::RecoveryCodeChecksumMismatch { line }) && line == i,
    CodeV::Extra(i) => r matches Err(Error::RecoveryCodeExtraData { line }) && line == i,
    CodeV::Incomplete => r == Err::<SecretString, Error>(Error::RecoveryCodeIncomplete),
    CodeV::Good(_) => r matches Err(e) ==> !row_error(e),
}
@at let decoded after
let ghost d = decoded@;
let ghost x = without_checks(d);
let ghost pp = primary_password.inner@;
@inv 0
decoded@ == d, __s0@ == Seq::new(d.len(), |i: int| &d[i]),
__acc0@ == without_checks(d.take(__i0 as int)),
@at loop 0 start
proof { lemma_without(d, __i0 as int); }
@at loop 0 after
proof { assert(d.take(d.len() as int) =~= d); }
@at let encrypted after
proof { assert(without_checksums@ == x); }
@at let decrypted before
proof { lemma_joined(nonce@, ciphertext@, encryption_key.inner@); assert(encrypted@ =~= b64(nonce@).push('_') + b64(ciphertext@)); assert(x.skip(29) =~= ciphertext@); }
@at let end_pos before
let ghost b = decrypted.inner@;
proof { assert(code_plain(x, pp) == Some(b)); assert(b.take(b.len() as int) =~= b); }
@inv 1
end_pos <= decrypted_len, decrypted.inner@ == b, decrypted_len == b.len(), strip_zeros(b.take(end_pos as int)) == strip_zeros(b),
@at loop 1 start
proof { lemma_strip_step(b, end_pos as int); }
@at let decrypted_str before
proof {
    assert(stripped.inner@ =~= b.take(end_pos as int));
    assert(strip_zeros(b.take(end_pos as int)) == b.take(end_pos as int));
    assert forall|s: Seq<char>| #[trigger] utf8(s) == stripped.inner@ implies vstd::utf8::decode_utf8(stripped.inner@) == s by { vstd::utf8::encode_utf8_decode_utf8(s); }
}
