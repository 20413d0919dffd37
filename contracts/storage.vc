## storage_io: the storage file, and the file based implementation
@inject mod storage_io::file
pub use crate::storage_io::StorageIO;
pub struct ApplicationName;
pub struct Format;
@inject trait storage_io::StorageIO
spec fn data(&self) -> Data;
spec fn saved(&self) -> Option<Data>;
@inject impl StorageIO for storage_io::file::FileIO
open spec fn data(&self) -> Data { texts(self.data@) }
open spec fn saved(&self) -> Option<Data> { self.saved_g@ }
@ghost storage_io::file::FileIO saved_g: Ghost<Option<Data>> = Ghost(None)

@fn storage_io::StorageIO::contains_key
@ensures C06,C12,C18 presence
r == self.data().dom().contains(key@)
@fn storage_io::StorageIO::get
@ensures C06,C12 value
match r { Ok(v) => self.data().dom().contains(key@) && v@ == self.data()[key@], Err(e) => !self.data().dom().contains(key@) && e == Error::KeyMissing }
@fn storage_io::StorageIO::set
@ensures C06,C07,C13,C14 only this value
final(self).data() == old(self).data().insert(key@, value@) && final(self).saved() == old(self).saved()
@fn storage_io::StorageIO::remove
@ensures C07,C09,C14 only this value
&&& (final(self).saved() == old(self).saved())
&&& (match r { Ok(_) => old(self).data().dom().contains(key@) && final(self).data() == old(self).data().remove(key@), Err(e) => !old(self).data().dom().contains(key@) && final(self).data() == old(self).data() && e == Error::KeyMissing })
@fn storage_io::StorageIO::clear
@ensures C12,C14 nothing left
final(self).data() == Map::<Seq<char>, Seq<char>>::empty() && final(self).saved() == old(self).saved()
@fn storage_io::StorageIO::keys
@ensures C16 every key once
order_of(names(r@), self.data().dom())
@fn storage_io::StorageIO::flush
@ensures C14,C15 saved
final(self).data() == old(self).data() && (r is Ok ==> final(self).saved() == Some(final(self).data())) && (r is Err ==> save_failed())

@fn storage_io::file::FileIO::new tags=C15
@ensures C15 empty
r.data() == Map::<Seq<char>, Seq<char>>::empty() && r.path@ == path@
@at end
proof { assert(texts(r.data@) =~= Map::empty()); }
@fn storage_io::file::FileIO::load tags=C15,C17
@ensures C15,C17 exactly the content of the file
r matches Ok(f) ==> f.path@ == path@ && exists|content: Seq<u8>| #[trigger] fs_read(path@, content) && json_dec(JT::File, content) == Some(JV::File(f.data()))
@ensures C17,C18 otherwise there is nothing to load
r is Err ==> not_loadable(path@)

@fn storage_io::file::FileIO::contains_key tags=C06,C12,C18
@at start
proof { assert(texts(self.data@).dom() =~= self.data@.dom()); }
@fn storage_io::file::FileIO::get tags=C06,C12
@at start
proof { assert(texts(self.data@).dom() =~= self.data@.dom()); }
@fn storage_io::file::FileIO::set tags=C06,C07,C13,C14
@at end
proof { assert(texts(self.data@) =~= texts(old(self).data@).insert(key@, value@)); }
@fn storage_io::file::FileIO::remove tags=C07,C09,C14
@at end
proof {
    assert(texts(old(self).data@).dom() =~= old(self).data@.dom());
    if r is Ok { assert(texts(self.data@) =~= texts(old(self).data@).remove(key@)); } else { assert(texts(self.data@) =~= texts(old(self).data@)); }
}
@fn storage_io::file::FileIO::clear tags=C12,C14
@at end
proof { assert(texts(self.data@) =~= Map::<Seq<char>, Seq<char>>::empty()); }
@fn storage_io::file::FileIO::keys tags=C16
@at start
proof { assert(texts(self.data@).dom() =~= self.data@.dom()); }
@fn storage_io::file::FileIO::flush tags=C14,C15
@at start
proof { axiom_saving(); }
@at end
proof {
    if r is Ok {
        assert(fs_wrote(self.path@, json_enc(JV::File(texts(self.data@)))));
        self.saved_g@ = Some(texts(self.data@));
    }
}

## storage: entries
@inject impl storage::Storage
pub open spec fn data(&self) -> Data { self.io.data() }
pub open spec fn saved(&self) -> Option<Data> { self.io.saved() }

@fn storage::Storage::new
@ensures C11 unchanged
r.io == io
@fn storage::Storage::clear tags=C12,C13,C14
@requires key length
encryption_key.inner@.len() == 32
@ensures C12,C13 nothing but salt and secret
r is Ok && is_reset(final(self).data(), salt@, hmac_secret.inner@, encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@at end
proof { lemma_fixed_keys(); }
@fn storage::Storage::flush
@ensures C14 saved
final(self).data() == old(self).data() && (r is Ok ==> final(self).saved() == Some(final(self).data())) && (r is Err ==> save_failed())
@fn storage::Storage::initialized
@ensures C12,C18 both present
r == (self.data().dom().contains(k_salt()) && self.data().dom().contains(k_hmac()))
@fn storage::Storage::contains
@ensures C06 presence
r == self.data().dom().contains(key@)
@fn storage::Storage::get
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C17 decrypted entry
match r { Ok(v) => entry(self.data(), encryption_key.inner@, key@, T::jt()) == Some(v.djv()), Err(_) => entry(self.data(), encryption_key.inner@, key@, T::jt()) is None }
@fn storage::Storage::set
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C07,C13 only this value, encrypted
r is Ok && put(old(self).data(), final(self).data(), key@, value.jv(), encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::remove
@ensures C07,C14 only this value
&&& (final(self).saved() == old(self).saved())
&&& (match r { Ok(_) => old(self).data().dom().contains(key@) && final(self).data() == old(self).data().remove(key@), Err(e) => !old(self).data().dom().contains(key@) && final(self).data() == old(self).data() && e == Error::KeyMissing })
@fn storage::Storage::get_salt
@ensures C12,C17 stored salt
match r { Ok(v) => salt_of(self.data()) == Some(v@), Err(e) => salt_of(self.data()) is None && (!self.data().dom().contains(k_salt()) ==> e == Error::StorageNotInitialized) }
@fn storage::Storage::set_salt
@ensures C12,C13 stored salt
final(self).data() == old(self).data().insert(k_salt(), b64(salt@)) && final(self).saved() == old(self).saved()
@fn storage::Storage::get_hmac_secret
@requires key length
encryption_key.inner@.len() == 32
@ensures C12,C17 stored secret
match r { Ok(v) => secret_of(self.data(), encryption_key.inner@) == Some(v.inner@), Err(e) => secret_of(self.data(), encryption_key.inner@) is None && (!self.data().dom().contains(k_hmac()) ==> e == Error::StorageNotInitialized) }
@fn storage::Storage::set_hmac_secret
@requires key length
encryption_key.inner@.len() == 32
@ensures C12,C13 only the secret, encrypted
r is Ok && put(old(self).data(), final(self).data(), k_hmac(), JV::Text(b64(hmac_secret.inner@)), encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::get_site_key
@ensures C07,C08,C13,C16 key
r@ == skey(hmac_secret.inner@, site@)
@fn storage::Storage::get_site_prefix
@ensures C07,C08,C13,C16 key
r@ == sprefix(hmac_secret.inner@, site@)
@fn storage::Storage::get_password_key
@ensures C06,C07,C08,C13 key
r@ == pkey(hmac_secret.inner@, id@)
@at start
proof { reveal_strlit("\0"); }
@at end
proof { assert(input@ =~= id_text(id@)); }
@fn storage::Storage::get_alias
@requires key length
encryption_key.inner@.len() == 32
@ensures C09 alias
match r { Ok(a) => alias_of(self.data(), hmac_secret.inner@, encryption_key.inner@, site@) == Some(a@), Err(e) => alias_of(self.data(), hmac_secret.inner@, encryption_key.inner@, site@) is None && e == Error::NoSuchAlias }
@fn storage::Storage::normalize_site
@ensures C08 one leading www.
r@ == normalize(site@)
@at start
proof { reveal_strlit("www."); }
@fn storage::Storage::resolve_site
@requires key length
encryption_key.inner@.len() == 32
@ensures C08,C09 www. and alias
r@ == resolve(self.data(), hmac_secret.inner@, encryption_key.inner@, site@)
@fn storage::Storage::ensure_site_data
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C07,C09,C16 site entry
&&& (r is Ok)
&&& (site_at(old(self).data(), hmac_secret.inner@, encryption_key.inner@, site@) is Some ==> final(self).data() == old(self).data())
&&& (site_at(old(self).data(), hmac_secret.inner@, encryption_key.inner@, site@) is None ==> put(old(self).data(), final(self).data(), skey(hmac_secret.inner@, site@), JV::Site(SiteV { name: site@, alias: None }), encryption_key.inner@))
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::get_site
@requires key length
encryption_key.inner@.len() == 32
@ensures C09,C16 site entry
match r { Ok(s) => site_at(self.data(), hmac_secret.inner@, encryption_key.inner@, site@) == Some(s@), Err(_) => site_at(self.data(), hmac_secret.inner@, encryption_key.inner@, site@) is None }
@fn storage::Storage::set_alias
@requires key length
encryption_key.inner@.len() == 32
@ensures C07,C09 alias entry
match r { Ok(_) => site@ != alias@ && put(old(self).data(), final(self).data(), skey(hmac_secret.inner@, site@), JV::Site(SiteV { name: site@, alias: Some(alias@) }), encryption_key.inner@), Err(e) => site@ == alias@ && e == Error::AliasToSelf && final(self).data() == old(self).data() }
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::remove_alias
@requires key length
encryption_key.inner@.len() == 32
@ensures C07,C09 alias entry
match r {
    Ok(_) => alias_of(old(self).data(), hmac_secret.inner@, encryption_key.inner@, site@) is Some && final(self).data() == old(self).data().remove(skey(hmac_secret.inner@, site@)),
    Err(e) => alias_of(old(self).data(), hmac_secret.inner@, encryption_key.inner@, site@) is None && final(self).data() == old(self).data() && e == Error::NoSuchAlias,
}
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::remove_site
@ensures C07,C20 only the site entry
match r { Ok(_) => old(self).data().dom().contains(skey(hmac_secret.inner@, site@)) && final(self).data() == old(self).data().remove(skey(hmac_secret.inner@, site@)), Err(e) => !old(self).data().dom().contains(skey(hmac_secret.inner@, site@)) && final(self).data() == old(self).data() && e == Error::KeyMissing }
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::has_password
@ensures C06,C18 presence
r == self.data().dom().contains(pkey(hmac_secret.inner@, id@))
@fn storage::Storage::set_generated
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C07,C13 entry
r is Ok && put(old(self).data(), final(self).data(), pkey(hmac_secret.inner@, password@.id), JV::Pw(password@), encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::set_stored
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C07,C13 entry
r is Ok && put(old(self).data(), final(self).data(), pkey(hmac_secret.inner@, password@.id), JV::Pw(password@), encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::get_password
@requires key length
encryption_key.inner@.len() == 32
@ensures C06,C08,C10 entry
match r { Ok(p) => pw_at(self.data(), hmac_secret.inner@, encryption_key.inner@, id@) == Some(p@), Err(_) => pw_at(self.data(), hmac_secret.inner@, encryption_key.inner@, id@) is None }
@fn storage::Storage::set_password
@requires key length
encryption_key.inner@.len() == 32
@ensures C07,C10,C13 entry
r is Ok && put(old(self).data(), final(self).data(), pkey(hmac_secret.inner@, password@.id), JV::Pw(password@), encryption_key.inner@)
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::remove_password
@ensures C07 only this entry
match r { Ok(_) => old(self).data().dom().contains(pkey(hmac_secret.inner@, id@)) && final(self).data() == old(self).data().remove(pkey(hmac_secret.inner@, id@)), Err(e) => !old(self).data().dom().contains(pkey(hmac_secret.inner@, id@)) && final(self).data() == old(self).data() && e == Error::KeyMissing }
@ensures C14 not saved yet
final(self).saved() == old(self).saved()
@fn storage::Storage::list_passwords
@requires key length
encryption_key.inner@.len() == 32
@ensures C16,C17,C20 every readable password of the site once
is_pw_list(r@.map_values(|p: Password| p@), self.data(), encryption_key.inner@, sprefix(hmac_secret.inner@, site@))
@inv 0
order_of(names(__s0@), self.data().dom()),
__acc0@.map_values(|p: Password| p@) == sel(names(__s0@).take(__i0 as int), pw_sel(self.data(), encryption_key.inner@, prefix@)),
@at loop 0 start
let ghost acc = __acc0@.map_values(|p: Password| p@);
proof { lemma_sel_step(names(__s0@), pw_sel(self.data(), encryption_key.inner@, prefix@), __i0 - 1); }
@at loop 0 end
proof {
    if __acc0@.len() > acc.len() { assert(__acc0@.map_values(|p: Password| p@) =~= acc.push(__acc0@.last()@)); }
    else { assert(__acc0@.map_values(|p: Password| p@) =~= acc); }
}
@at loop 0 after
proof { assert(names(__s0@).take(__s0@.len() as int) =~= names(__s0@)); }
@fn storage::Storage::list_sites
@requires key length
encryption_key.inner@.len() == 32
@ensures C16,C17,C20 every readable site once
is_site_list(r@.map_values(|p: Site| p@), self.data(), encryption_key.inner@)
@inv 0
order_of(names(__s0@), self.data().dom()),
__acc0@.map_values(|p: Site| p@) == sel(names(__s0@).take(__i0 as int), site_sel(self.data(), encryption_key.inner@)),
@at loop 0 start
let ghost acc = __acc0@.map_values(|p: Site| p@);
proof {
    lemma_sel_step(names(__s0@), site_sel(self.data(), encryption_key.inner@), __i0 - 1);
    reveal_strlit("site:");
    if "site:"@.is_prefix_of(__it0@) {
        lemma_utf8_skip(__it0@, "site:"@);
        vstd::utf8::encode_utf8_decode_utf8(__it0@.skip(5));
    }
}
@at loop 0 end
proof {
    if __acc0@.len() > acc.len() { assert(__acc0@.map_values(|p: Site| p@) =~= acc.push(__acc0@.last()@)); }
    else { assert(__acc0@.map_values(|p: Site| p@) =~= acc); }
}
@at loop 0 after
proof { assert(names(__s0@).take(__s0@.len() as int) =~= names(__s0@)); }
