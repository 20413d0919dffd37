## passwords: the operations a user of the crate performs
@inject impl passwords::Passwords
pub open spec fn data(&self) -> Data { self.storage.data() }
pub open spec fn saved(&self) -> Option<Data> { self.storage.saved() }
pub open spec fn locked(&self) -> bool { self.key is None }
pub open spec fn k(&self) -> Seq<u8> { self.key->0.inner@ }
pub open spec fn h(&self) -> Seq<u8> { self.hmac_secret->0.inner@ }
pub open spec fn p(&self) -> Seq<char> { self.primary_password->0.inner@ }
/// Locked means nothing is kept, unlocked means everything is there.
pub open spec fn wf(&self) -> bool { (self.key is None <==> self.hmac_secret is None) && (self.key is None <==> self.primary_password is None) && (self.key is Some ==> self.k().len() == 32) }
pub open spec fn same_lock(&self, o: &Self) -> bool { self.locked() == o.locked() && (!self.locked() ==> self.k() == o.k() && self.h() == o.h() && self.p() == o.p()) }
pub open spec fn same(&self, o: &Self) -> bool { self.data() == o.data() && self.saved() == o.saved() }
pub open spec fn resolved(&self, site: Seq<char>) -> Seq<char> { resolve(self.data(), self.h(), self.k(), site) }
pub open spec fn id_of(&self, site: Seq<char>, name: Seq<char>, revision: Seq<char>) -> PidV { pid(self.resolved(site), name, revision) }
/// Unlocked with a key that opens the storage
pub open spec fn sound(&self) -> bool { !self.locked() ==> opens(self.data(), self.k()) }
pub open spec fn pw_of(&self, id: PidV) -> Option<PwV> { pw_at(self.data(), self.h(), self.k(), id) }

@fn passwords::get_encryption_key tags=C12,C13
@ensures C12,C13 key
r.inner@ == enc_key(primary_password.inner@, salt@)
@ensures C12,C13 length
r.inner@.len() == 32
@ensures C25 in this run
computed(r.inner@)
@inv 0
__s0@ == Seq::new(salt@.len(), |i: int| &salt@[i]), __acc0@ == latin1(salt@).take(__i0 as int),
@at loop 0 end
proof { assert(__acc0@ =~= latin1(salt@).take(__i0 as int)); }
@at end
proof { assert(latin1(salt@).take(salt@.len() as int) =~= latin1(salt@)); }

@fn passwords::Passwords::new
@ensures C11 locked
r.wf() && r.locked() && r.data() == io.data() && r.saved() == io.saved()
@fn passwords::Passwords::initialized
@ensures C12,C18 both present
r == (self.data().dom().contains(k_salt()) && self.data().dom().contains(k_hmac()))
@fn passwords::Passwords::unlocked
@ensures C11 state
r == !self.locked()
@fn passwords::Passwords::lock
@ensures C11 nothing kept
final(self).wf() && final(self).locked()
@ensures C11,C14 storage unchanged
final(self).same(old(self))

@fn passwords::Passwords::reset
@requires invariant
old(self).wf()
@ensures C11 unlocked
final(self).wf() && (r is Ok ==> !final(self).locked()) && (r is Err ==> final(self).same_lock(old(self)))
@ensures C12,C13 nothing but a new salt and a new secret
r is Ok ==> final(self).p() == primary_password.inner@ && from_rng(final(self).h()) && final(self).h().len() == 32
    && exists|salt: Seq<u8>| salt.len() == 16 && from_rng(salt) && final(self).k() == enc_key(primary_password.inner@, salt) && #[trigger] is_reset(final(self).data(), salt, final(self).h(), final(self).k())
@ensures C14 saved
(r is Ok ==> final(self).saved() == Some(final(self).data())) && (r is Err ==> save_failed())
@ensures C09 no aliases
r is Ok ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(final(self).data(), final(self).h(), final(self).k(), u))
@at end
proof { assert(is_reset(self.data(), salt@, self.h(), self.k())); }
proof { assert forall|u: Set<Seq<char>>| #[trigger] alias_wf(self.data(), self.h(), self.k(), u) by { lemma_wf_reset(self.data(), salt@, self.h(), self.k(), u); } }

@fn passwords::Passwords::unlock
@requires invariant
old(self).wf()
@ensures C11,C12 unlocked with what decrypts
&&& final(self).wf()
&&& (match r {
    Ok(_) => !final(self).locked() && final(self).p() == primary_password.inner@ && (salt_of(old(self).data()) matches Some(salt) && final(self).k() == enc_key(primary_password.inner@, salt) && secret_of(old(self).data(), enc_key(primary_password.inner@, salt)) == Some(final(self).h())),
    Err(_) => final(self).same_lock(old(self)),
})
@ensures C25 a key of this run
r is Ok ==> computed(final(self).k())
@ensures C12,C17 success exactly if the secret decrypts
r is Ok <==> (salt_of(old(self).data()) matches Some(salt) && secret_of(old(self).data(), enc_key(primary_password.inner@, salt)) is Some)
@ensures C12 not initialized
!old(self).data().dom().contains(k_salt()) || (salt_of(old(self).data()) is Some && !old(self).data().dom().contains(k_hmac())) ==> r == Err::<(), Error>(Error::StorageNotInitialized)
@ensures C11,C14 storage unchanged
final(self).same(old(self))

@fn passwords::Passwords::set_generated tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C06,C07,C08,C10,C16 entry
!old(self).locked() ==> stored(old(self).data(), final(self).data(), old(self).h(), old(self).k(), PwV { id: old(self).id_of(site@, name@, revision@), kind: KindV::Gen { length: length as int, charset: charset@ }, notes: Seq::empty() })
@ensures C06,C14 success
!old(self).locked() ==> r is Ok || save_failed()
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_stored(old(self).data(), self.data(), old(self).h(), old(self).k(), u, site@, PwV { id: old(self).id_of(site@, name@, revision@), kind: KindV::Gen { length: length as int, charset: charset@ }, notes: Seq::empty() }); }
}

@fn passwords::Passwords::set_stored tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C06,C07,C08,C10,C16 entry
!old(self).locked() ==> stored(old(self).data(), final(self).data(), old(self).h(), old(self).k(), PwV { id: old(self).id_of(site@, name@, revision@), kind: KindV::Stored { password: password.inner@ }, notes: Seq::empty() })
@ensures C06,C14 success
!old(self).locked() ==> r is Ok || save_failed()
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_stored(old(self).data(), self.data(), old(self).h(), old(self).k(), u, site@, PwV { id: old(self).id_of(site@, name@, revision@), kind: KindV::Stored { password: password.inner@ }, notes: Seq::empty() }); }
}

@fn passwords::Passwords::set_notes tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C10 entry
!old(self).locked() ==> (match old(self).pw_of(old(self).id_of(site@, name@, revision@)) {
    Some(v) => v.id == old(self).id_of(site@, name@, revision@) ==> only_put(old(self).data(), final(self).data(), pkey(old(self).h(), v.id), JV::Pw(PwV { notes: notes.inner@, ..v }), old(self).k()) && (r is Ok || save_failed()),
    None => r is Err && final(self).same(old(self)),
})
@ensures C25 entries stay valid
!old(self).locked() ==> gen_ok(old(self).pw_of(old(self).id_of(site@, name@, revision@))) ==> changes(old(self).data(), final(self).data(), old(self).k())
@ensures C14 nothing in between
r is Ok || final(self).same(old(self)) || save_failed()
@ensures C07 only password entries
!old(self).locked() ==> (forall|k2: Seq<char>| (forall|id: PidV| #[trigger] pkey(old(self).h(), id) != k2) ==> #[trigger] same_at(old(self).data(), final(self).data(), k2))
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && (old(self).pw_of(old(self).id_of(site@, name@, revision@)) matches Some(v) ==> v.id == old(self).id_of(site@, name@, revision@)) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at end
proof {
    if !old(self).locked() { match old(self).pw_of(old(self).id_of(site@, name@, revision@)) {
        Some(v) => { if gen_ok(Some(v)) { lemma_put_changes(old(self).data(), self.data(), old(self).h(), old(self).k(), PwV { notes: notes.inner@, ..v }); } }
        None => { assert forall|k: Seq<char>| #[trigger] change_at(old(self).data(), self.data(), old(self).k(), k) by {} }
    } }
}
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && (old(self).pw_of(old(self).id_of(site@, name@, revision@)) matches Some(v) ==> v.id == old(self).id_of(site@, name@, revision@)) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { let v = old(self).pw_of(old(self).id_of(site@, name@, revision@))->0; lemma_wf_only_put(old(self).data(), self.data(), old(self).h(), old(self).k(), u, v.id, JV::Pw(PwV { notes: notes.inner@, ..v })); }
}

@fn passwords::Passwords::remove tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C07 only this entry
!old(self).locked() ==> (if old(self).data().dom().contains(pkey(old(self).h(), old(self).id_of(site@, name@, revision@))) { only_removed(old(self).data(), final(self).data(), pkey(old(self).h(), old(self).id_of(site@, name@, revision@))) && (r is Ok || save_failed()) } else { r is Err && final(self).same(old(self)) })
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_only_removed(old(self).data(), self.data(), old(self).h(), old(self).k(), u, pkey(old(self).h(), old(self).id_of(site@, name@, revision@))); }
}

@fn passwords::Passwords::remove_alias tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C07,C09 only the alias
!old(self).locked() ==> (match alias_of(old(self).data(), old(self).h(), old(self).k(), normalize(site@)) {
    Some(_) => only_removed(old(self).data(), final(self).data(), skey(old(self).h(), normalize(site@))) && (r is Ok || save_failed()),
    None => r == Err::<(), Error>(Error::NoSuchAlias) && final(self).same(old(self)),
})
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_only_removed(old(self).data(), self.data(), old(self).h(), old(self).k(), u, skey(old(self).h(), normalize(site@))); }
}

@fn passwords::Passwords::set_alias tags=C14
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 saved
r is Ok ==> final(self).saved() == Some(final(self).data())
@ensures C09,C14 refused
!old(self).locked() ==> ({
    let n = normalize(site@);
    let t = old(self).resolved(alias@);
    if has_pw(old(self).data(), old(self).k(), sprefix(old(self).h(), n)) { r == Err::<(), Error>(Error::SiteHasPasswords) && final(self).same(old(self)) }
    else if follows(old(self).data(), old(self).k(), t, n) { r == Err::<(), Error>(Error::AliasToSelf) && final(self).same(old(self)) }
    else { r is Ok || save_failed() }
})
@ensures C07,C09 only the alias and its own aliases
!old(self).locked() ==> (!has_pw(old(self).data(), old(self).k(), sprefix(old(self).h(), normalize(site@))) && !follows(old(self).data(), old(self).k(), old(self).resolved(alias@), normalize(site@)) ==> aliased(old(self).data(), final(self).data(), old(self).h(), old(self).k(), normalize(site@), old(self).resolved(alias@)))
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) && u.contains(normalize(alias@)) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@at start
let ghost d0 = old(self).data();
let ghost n = normalize(site@);
let ghost t = old(self).resolved(alias@);
proof {
    assert forall|vs: Seq<PwV>| #[trigger] is_pw_list(vs, d0, old(self).k(), sprefix(old(self).h(), n)) implies (vs.len() == 0 <==> !has_pw(d0, old(self).k(), sprefix(old(self).h(), n))) by { lemma_pw_list_empty(vs, d0, old(self).k(), sprefix(old(self).h(), n)); }
}
@at loop 0 before
proof { assert(!has_pw(d0, old(self).k(), sprefix(old(self).h(), n))); }
let ghost all = __s0@.map_values(|p: Site| p@);
@inv 0
is_site_list(all, d0, key.inner@), all == __s0@.map_values(|p: Site| p@), site_normalized@ == n,
strings(__acc0@) == sel(all.take(__i0 as int), alias_sel(n)),
@at loop 0 start
let ghost acc = strings(__acc0@);
proof { lemma_sel_step(all, alias_sel(n), __i0 - 1); }
@at loop 0 end
proof {
    if __acc0@.len() > acc.len() { assert(strings(__acc0@) =~= acc.push(__acc0@.last()@)); }
    else { assert(strings(__acc0@) =~= acc); }
}
@at loop 0 after
proof { assert(all.take(all.len() as int) =~= all); lemma_alias_names(all, d0, old(self).k(), n); }
@at let aliases after
let ghost al = strings(aliases@);
@at loop 1 before
let ghost l = strings(__s1@);
proof { assert(l =~= al); }
proof { lemma_aliased_first(d0, self.data(), old(self).h(), old(self).k(), n, t); assert(seq![n] + l.take(0) =~= seq![n]); }
@inv 1
self.key == old(self).key, self.hmac_secret == old(self).hmac_secret, self.primary_password == old(self).primary_password,
old(self).hmac_secret is Some, *hmac_secret == old(self).hmac_secret->0, old(self).key is Some, *key == old(self).key->0, old(self).wf(),
alias_resolved@ == t, l == strings(__s1@), !l.contains(t),
aliased_list(d0, self.data(), old(self).h(), old(self).k(), seq![n] + l.take(__i1 as int), t), self.saved() == old(self).saved(),
@at loop 1 start
let ghost d1 = self.data();
proof { assert(l[__i1 - 1] == __it1@); assert(l.contains(__it1@)); }
@at loop 1 end
proof {
    lemma_aliased_step(d0, d1, self.data(), old(self).h(), old(self).k(), seq![n] + l.take(__i1 - 1), other@, t);
    assert((seq![n] + l.take(__i1 - 1)).push(other@) =~= seq![n] + l.take(__i1 as int));
}
@at loop 1 after
proof { assert(l.take(l.len() as int) =~= l); lemma_aliased(d0, self.data(), old(self).h(), old(self).k(), n, l, t); }
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) && u.contains(normalize(site@)) && u.contains(normalize(alias@)) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_aliased(old(self).data(), self.data(), old(self).h(), old(self).k(), u, normalize(site@), alias@); }
}

@fn passwords::Passwords::remove_sites tags=C07,C14,C20
@requires invariant
old(self).wf()
@ensures C11 lock state
final(self).wf() && final(self).same_lock(old(self))
@ensures C11 locked
old(self).locked() && sites@.len() > 0 ==> r == Err::<(), Error>(Error::PasswordsLocked) && final(self).same(old(self))
@ensures C14 nothing to do
sites@.len() == 0 ==> r is Ok && final(self).same(old(self))
@ensures C14 saved
r is Ok && sites@.len() > 0 ==> final(self).saved() == Some(final(self).data())
@ensures C07,C20 only these site entries
!old(self).locked() ==> final(self).data() == without_sites(old(self).data(), old(self).h(), strings(sites@)) && (r is Ok || save_failed())
@ensures C09 aliases stay single-step
!old(self).locked() ==> (forall|u: Set<Seq<char>>| #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) ==> alias_wf(final(self).data(), old(self).h(), old(self).k(), u))
@inv 0
self.key == old(self).key, self.hmac_secret == old(self).hmac_secret, self.primary_password == old(self).primary_password, old(self).hmac_secret is Some, *hmac_secret == old(self).hmac_secret->0,
__s0@ == Seq::new(sites@.len(), |i: int| &sites@[i]),
self.data() == without_sites(old(self).data(), old(self).h(), strings(sites@).take(__i0 as int)), self.saved() == old(self).saved(),
@at loop 0 end
proof { assert(strings(sites@).take(__i0 as int).drop_last() =~= strings(sites@).take(__i0 - 1)); assert(strings(sites@).take(__i0 as int).last() == site@);
    let a = without_sites(old(self).data(), old(self).h(), strings(sites@).take(__i0 - 1));
    if !a.dom().contains(skey(old(self).h(), site@)) { assert(a.remove(skey(old(self).h(), site@)) =~= a); } }
@at loop 0 after
proof { assert(strings(sites@).take(__i0 as int) =~= strings(sites@)); }
@at end
proof {
    assert forall|u: Set<Seq<char>>| !old(self).locked() && #[trigger] alias_wf(old(self).data(), old(self).h(), old(self).k(), u) && distinct(old(self).h(), u) implies alias_wf(self.data(), old(self).h(), old(self).k(), u) by { lemma_wf_without(old(self).data(), old(self).h(), old(self).k(), u, strings(sites@)); }
}

@fn passwords::Passwords::get_alias
@requires invariant
self.wf()
@ensures C11 locked
self.locked() ==> r == Err::<String, Error>(Error::PasswordsLocked)
@ensures C08,C09 alias
!self.locked() ==> (match r { Ok(a) => alias_of(self.data(), self.h(), self.k(), normalize(site@)) == Some(a@), Err(e) => alias_of(self.data(), self.h(), self.k(), normalize(site@)) is None && e == Error::NoSuchAlias })

@fn passwords::Passwords::has
@requires invariant
self.wf()
@ensures C11 locked
self.locked() ==> r == Err::<bool, Error>(Error::PasswordsLocked)
@ensures C06,C08,C18 presence
!self.locked() ==> r == Ok::<bool, Error>(self.data().dom().contains(pkey(self.h(), self.id_of(site@, name@, revision@))))

@fn passwords::Passwords::get
@requires invariant
self.wf()
@requires valid parameters
!self.locked() ==> gen_ok(self.pw_of(self.id_of(site@, name@, revision@)))
@ensures C11 locked
self.locked() ==> r == Err::<SecretString, Error>(Error::PasswordsLocked)
@ensures C02,C06,C08,C17 password
!self.locked() ==> (match r { Ok(v) => self.pw_of(self.id_of(site@, name@, revision@)) matches Some(e) && v.inner@ == pw_value(self.p(), e), Err(_) => self.pw_of(self.id_of(site@, name@, revision@)) is None })

@fn passwords::Passwords::get_notes
@requires invariant
self.wf()
@ensures C11 locked
self.locked() ==> r == Err::<SecretString, Error>(Error::PasswordsLocked)
@ensures C08,C10,C17 notes
!self.locked() ==> (match r { Ok(v) => self.pw_of(self.id_of(site@, name@, revision@)) matches Some(e) && v.inner@ == e.notes, Err(_) => self.pw_of(self.id_of(site@, name@, revision@)) is None })

@fn passwords::Passwords::list
@requires invariant
self.wf()
@requires unlocked
!self.locked()
@ensures C16,C20 exactly the matching passwords of the site
is_pw_match(r@.map_values(|p: Password| p@), self.data(), self.k(), sprefix(self.h(), self.resolved(site@)), name@)
@at loop 0 before
let ghost all = __s0@.map_values(|p: Password| p@);
@inv 0
is_pw_list(all, self.data(), self.k(), sprefix(self.h(), self.resolved(site@))), all == __s0@.map_values(|p: Password| p@), matcher.p@ == name@,
__acc0@.map_values(|p: Password| p@) == sel(all.take(__i0 as int), name_sel(name@)),
@at loop 0 start
let ghost acc = __acc0@.map_values(|p: Password| p@);
proof { lemma_sel_step(all, name_sel(name@), __i0 - 1); }
@at loop 0 end
proof {
    if __acc0@.len() > acc.len() { assert(__acc0@.map_values(|p: Password| p@) =~= acc.push(__acc0@.last()@)); }
    else { assert(__acc0@.map_values(|p: Password| p@) =~= acc); }
}
@at loop 0 after
proof { assert(all.take(all.len() as int) =~= all); }

@fn passwords::Passwords::list_sites
@requires invariant
self.wf()
@requires unlocked
!self.locked()
@ensures C16,C20 exactly the matching sites
is_site_match(r@.map_values(|p: Site| p@), self.data(), self.k(), site@)
@at loop 0 before
let ghost all = __s0@.map_values(|p: Site| p@);
@inv 0
is_site_list(all, self.data(), self.k()), all == __s0@.map_values(|p: Site| p@), matcher.p@ == site@,
__acc0@.map_values(|p: Site| p@) == sel(all.take(__i0 as int), site_match(site@)),
@at start
let ghost pattern = site@;
@at loop 0 start
let ghost acc = __acc0@.map_values(|p: Site| p@);
proof { lemma_sel_step(all, site_match(pattern), __i0 - 1); }
@at loop 0 end
proof {
    if __acc0@.len() > acc.len() { assert(__acc0@.map_values(|p: Site| p@) =~= acc.push(__acc0@.last()@)); }
    else { assert(__acc0@.map_values(|p: Site| p@) =~= acc); }
}
@at loop 0 after
proof { assert(all.take(all.len() as int) =~= all); }

@fn passwords::Passwords::get_recovery_code
@requires invariant
self.wf()
@ensures C11 locked
self.locked() ==> r is Err
@ensures C03,C11 decodes to the password
!self.locked() && (salt_of(self.data()) matches Some(salt) && salt.len() == 16) ==> r is Ok && (forall|p: Seq<char>| self.k() == #[trigger] enc_key(p, salt_of(self.data())->0) && no_trailing_nul(password.password.inner@) ==> code_text(kept(utf8(r->Ok_0@)), p) == Some(password.password.inner@))
@ensures C12,C17 no salt
salt_of(self.data()) is None ==> r is Err

@fn passwords::Passwords::decode_recovery_code
@requires invariant
self.wf()
@ensures C11 locked
self.locked() ==> r == Err::<SecretString, Error>(Error::PasswordsLocked)
@ensures C03,C04,C05,C17 what the letters stand for
!self.locked() ==> (match r { Ok(v) => code_text(kept(utf8(code@)), self.p()) == Some(v.inner@), Err(_) => code_text(kept(utf8(code@)), self.p()) is None })
@ensures C04,C05,C22 first wrong row
!self.locked() ==> (match code_v(kept(utf8(code@))) {
    CodeV::Mismatch(i) => r matches Err(Error::RecoveryCodeChecksumMismatch { line }) && line == i,
    CodeV::Extra(i) => r matches Err(Error::RecoveryCodeExtraData { line }) && line == i,
    CodeV::Incomplete => r == Err::<SecretString, Error>(Error::RecoveryCodeIncomplete),
    CodeV::Good(_) => r matches Err(e) ==> !row_error(e),
})
