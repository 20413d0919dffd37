@fn crypto::derive_bits tags=C02
@requires output length scrypt supports
0 < size <= 0x1f_ffff_ffe0
@ensures C02,C12 scrypt with N=2^15, r=8, p=1
r.inner@ == scrypt_of(utf8(password.inner@), salt@, 15, 8, 1, size as nat)
@ensures C25 in this run
computed(r.inner@)
@ensures C01,C02,C13 length
r.inner@.len() == size
@at end
proof { axiom_scrypt(utf8(password.inner@), salt@, 15, 8, 1, size as nat); }

@fn crypto::derive_password tags=C01,C02
@requires at least one class, supported length
cs_len(charset@) > 0 && 0 < length <= 0x1f_ffff_ffe0
@ensures C02 fixed function
r.inner@ == derived_pw(primary_password.inner@, salt@, length as int, charset@)
@ensures C01 shape
pw_ok(r.inner@, charset@, length as int)

@fn crypto::to_password tags=C01,C02
@attr #[verifier::spinoff_prover]
@hide gen_state pw_ok gen_pw nchars pick_class pick_char weight
@requires at least one class
cs_len(charset@) > 0
@ensures C02 fixed function
r.inner@ == gen_pw(bytes.inner@, charset@)
@ensures C01 shape
pw_ok(r.inner@, charset@, bytes.inner@.len() as int)
@at start
proof { reveal_with_fuel(gen_state, 1); }
@at end
proof { lemma_gen_ok(bytes.inner@, charset@); reveal(gen_pw); }
@inv 0
result@ == gen_state(bytes.inner@, charset@, __i0 as int).text, seen@ == gen_state(bytes.inner@, charset@, __i0 as int).seen,
@at loop 0 start
proof { lemma_gen_step(bytes.inner@, charset@, __i0 - 1); }
@inv 1
__acc1 as int == nchars(allowed@, __i1 as int),
@at loop 1 start
proof { lemma_pick_at(allowed@, 0, __i1 - 1); }
@at let index after
let ghost index0 = index as int;
let ghost state0 = gen_state(bytes.inner@, charset@, __i0 - 1);
proof { lemma_pick(allowed@, index0); }
@at loop 2 start
proof { lemma_pick_at(allowed@, index0, __i2 - 1); }
@inv 2
0 <= index0 < nchars(allowed@, 4), 
@inveb 2
index as int == index0 - nchars(allowed@, __i2 as int), result@ == state0.text, seen@ == state0.seen,
@lens 2
result@ == state0.text.push(pick_char(allowed@, index0)), seen@ == state0.seen.insert(class(pick_class(allowed@, index0))),

@fn crypto::derive_key
@ensures C12,C13 key
r.inner@ == key_of(primary_password.inner@, salt@)
@ensures C12,C13 key length
r.inner@.len() == 32
@ensures C25 in this run
computed(r.inner@)

@fn crypto::encrypt_data tags=C13
@requires key length
encryption_key.inner@.len() == 32
@ensures C13,C06,C03 fresh encryption
enc_of(r@, value.inner@, encryption_key.inner@)
@at end
proof {
    let n = nonce_data@;
    reveal_strlit("_");
    assert(r@ =~= enc_text(n, value.inner@, encryption_key.inner@));
}

@fn crypto::decrypt_data tags=C17
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C12,C15,C17 exactly what was encrypted
match decval(value@, encryption_key.inner@) { Some(p) => r is Ok && r->Ok_0.inner@ == p, None => r is Err }
@ensures C22 not an error about code rows
r matches Err(e) ==> !row_error(e)

@fn crypto::get_digest
@ensures C06,C07,C08,C13 digest
r@ == digest(hmac_secret.inner@, data@)

@fn crypto::base32_encode tags=C03,C17
@ensures C03 RFC 4648
match r { Ok(v) => input@.len() % 5 == 0 && v@ == b32_enc(input@), Err(_) => input@.len() % 5 != 0 }
@at start
proof { axiom_slice_len(input); lemma_b32_len(input@); }
@inv 0
input@.len() % 5 == 0, __s0@.len() == input@.len() / 5,
forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == chunk_of(input@, 5, i),
encoded@ == b32_enc(input@).take(8 * __i0),
@at loop 0 start
proof { lemma_b32_digits(__it0@); }
let ghost encoded0 = encoded@;
@at loop 0 end
proof {
    let k = __i0 - 1;
    assert(encoded@.take(8 * k) =~= encoded0);
    assert forall|j: int| 0 <= j < 8 implies encoded@[8 * k + j] == b32_alpha()[#[trigger] b32_digit(chunk_of(input@, 5, k), j)] by {}
    lemma_b32_push(input@, k, encoded@);
}
@at end
proof { lemma_b32_len(input@); assert(b32_enc(input@).take(8 * (input@.len() as int / 5)) =~= b32_enc(input@)); }

@fn crypto::base32_decode tags=C03,C04,C05,C17
@ensures C03,C04,C05,C17 RFC 4648
match r { Ok(v) => b32_ok(input@) && v@ == b32_dec(input@), Err(_) => !b32_ok(input@) }
@at start
proof { axiom_slice_len(input); lemma_b32_len(input@); }

@inv 0
__s0@ == Seq::new(input@.len(), |i: int| &input@[i]),
__acc0@.len() == __i0,
forall|i: int| 0 <= i < __i0 ==> #[trigger] __acc0@[i] == b32_value(input@[i]),
invalid_bytes == exists|i: int| 0 <= i < __i0 && !b32_letter(#[trigger] input@[i]),
@at loop 0 end
proof {
    if !b32_letter(input@[__i0 - 1]) { assert(invalid_bytes); }
    assert(b32_value(input@[__i0 - 1]) == __acc0@[__i0 - 1]);
}
@inv 1
b32_ok(input@), input_converted@.len() == input@.len(), __s1@.len() == input@.len() / 8,
forall|i: int| 0 <= i < input@.len() ==> #[trigger] input_converted@[i] == b32_value(input@[i]),
forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i])@ == chunk_of(input_converted@, 8, i),
encoded@ == b32_dec(input@).take(5 * __i1),
@at loop 1 start
let ghost encoded0 = encoded@;
proof {
    let k = __i1 - 1;
    assert forall|i: int| 0 <= i < 8 implies #[trigger] __it1@[i] < 32 by { assert(__it1@[i] == input_converted@[8 * k + i]); assert(b32_letter(input@[8 * k + i])); }
    lemma_b32_bytes(__it1@);
    assert(Seq::new(8, |i: int| __it1@[i] as int) =~= b32_values(input@).subrange(8 * k, 8 * k + 8));
}
@at loop 1 end
proof {
    let k = __i1 - 1;
    assert(encoded@.take(5 * k) =~= encoded0);
    assert forall|j: int| 0 <= j < 5 implies encoded@[5 * k + j] == #[trigger] b32_byte(b32_values(input@).subrange(8 * k, 8 * k + 8), j) as u8 by {}
    lemma_b32_unpush(input@, k, encoded@);
}
@at end
proof { lemma_b32_len(input@); assert(b32_dec(input@).take(5 * (input@.len() as int / 8)) =~= b32_dec(input@)); }

@fn crypto::base32_decode::LOOKUP
@ensures C03,C04,C05 inverse of the alphabet
forall|b: u8| #[trigger] BASE32_DECODE_LOOKUP[b as int] == b32_value(b)
@inv 0
i <= 32,
forall|b: int| 0 <= b < 256 ==> #[trigger] array[b] == if b32_letter(b as u8) && b32_value(b as u8) < i { b32_value(b as u8) } else { 255 },
@at end
proof { assert forall|b: u8| #[trigger] array[b as int] == b32_value(b) by {} }

@fn crypto::pearson_hash tags=C03,C04,C17
@ensures C03,C04 checksum
r == pearson(input@, virtual_byte)
@at start
proof { reveal(pearson); }
@inv 0
hash == pearson(input@.take(__i0 as int), virtual_byte),
@at loop 0 end
proof { assert(input@.take(__i0 as int).drop_last() =~= input@.take(__i0 - 1)); }
@at end
proof { assert(input@.take(input@.len() as int) =~= input@); }

@fn crypto::pearson_hash::PERMUTATIONS
@ensures C03,C04 permutation
forall|i: int| 0 <= i < 256 ==> #[trigger] PEARSON_HASH_PERMUTATIONS[i] == perm(i as u8)
@inv 0
i <= 256,
forall|j: int| 0 <= j < i ==> #[trigger] array[j] == perm(j as u8),
@at loop 0 start
proof { let n = ((i + 379) * 467) as usize; assert(n as u8 == n % 256) by (bit_vector); }
