## storage_types: identities, entries and their views
@derive storage_types::character_set::CharacterType Clone, Copy, PartialEq, Eq
@inject storage_types::password::PasswordId
impl View for PasswordId { type V = PidV; open spec fn view(&self) -> PidV { PidV { site: self.site@, name: self.name@, revision: self.revision@ } } }
@inject storage_types::password::GeneratedPassword
impl View for GeneratedPassword { type V = PwV; open spec fn view(&self) -> PwV { PwV { id: self.id@, kind: KindV::Gen { length: self.length as int, charset: self.charset@ }, notes: self.notes.inner@ } } }
@inject storage_types::password::StoredPassword
impl View for StoredPassword { type V = PwV; open spec fn view(&self) -> PwV { PwV { id: self.id@, kind: KindV::Stored { password: self.password.inner@ }, notes: self.notes.inner@ } } }
@inject storage_types::password::Password
impl View for Password { type V = PwV; open spec fn view(&self) -> PwV { match *self { Password::Generated(p) => p@, Password::Stored(p) => p@ } } }
@inject storage_types::site::Site
impl View for Site { type V = SiteV; open spec fn view(&self) -> SiteV { SiteV { name: self.name@, alias: match self.alias { Some(a) => Some(a@), None => None } } } }

@fn storage_types::password::empty_secret tags=C10
@ensures C10 only empty secrets are left out
r == (str.inner@.len() == 0)

@fn storage_types::password::PasswordId::new tags=C02,C08
@ensures C02,C08 identity
r@ == pid(site@, name@, revision@)
@at start
proof { reveal_strlit("1"); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }

@fn storage_types::password::PasswordId::site
@ensures C08 site
r@ == self.site@
@fn storage_types::password::PasswordId::name
@ensures C08 name
r@ == self.name@
@fn storage_types::password::PasswordId::revision
@ensures C08 revision
r@ == self.revision@

@fn storage_types::password::GeneratedPassword::new tags=C06,C10
@ensures C06,C10 entry without notes
r@ == (PwV { id: pid(site@, name@, revision@), kind: KindV::Gen { length: length as int, charset: charset@ }, notes: Seq::empty() })
@fn storage_types::password::GeneratedPassword::id
@ensures C08 id
r == &self.id
@fn storage_types::password::GeneratedPassword::length
@ensures C02,C06 length
r == self.length
@fn storage_types::password::GeneratedPassword::charset
@ensures C02,C06 charset
r@ == self.charset@
@fn storage_types::password::GeneratedPassword::salt tags=C02
@ensures C02 salt
r@ == gen_salt(self.id@)
@at start
proof { reveal_strlit("1"); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn storage_types::password::GeneratedPassword::notes
@ensures C10 notes
r.inner@ == self.notes.inner@
@fn storage_types::password::GeneratedPassword::set_notes
@ensures C10 notes
final(self)@ == (PwV { notes: notes.inner@, ..old(self)@ })

@fn storage_types::password::StoredPassword::new tags=C06,C10
@ensures C06,C10 entry without notes
r@ == (PwV { id: pid(site@, name@, revision@), kind: KindV::Stored { password: password.inner@ }, notes: Seq::empty() })
@fn storage_types::password::StoredPassword::id
@ensures C08 id
r == &self.id
@fn storage_types::password::StoredPassword::password
@ensures C06 password
r.inner@ == self.password.inner@
@fn storage_types::password::StoredPassword::notes
@ensures C10 notes
r.inner@ == self.notes.inner@
@fn storage_types::password::StoredPassword::set_notes
@ensures C10 notes
final(self)@ == (PwV { notes: notes.inner@, ..old(self)@ })

@fn storage_types::password::Password::id
@ensures C08 id
r@ == self@.id
@fn storage_types::password::Password::notes
@ensures C10 notes
r.inner@ == self@.notes
@fn storage_types::password::Password::set_notes
@ensures C10 notes
final(self)@ == (PwV { notes: notes.inner@, ..old(self)@ })

@fn storage_types::site::Site::new
@ensures C09 entry
r@ == (SiteV { name: name@, alias: match alias { Some(a) => Some(a@), None => None } })
@fn storage_types::site::Site::name
@ensures C09,C16 name
r@ == self@.name
@fn storage_types::site::Site::alias
@ensures C09,C16 alias
match r { Some(a) => self@.alias == Some(a@), None => self@.alias is None }
