## the command line
@inject mod cli
#[verifier::external_body] pub fn get_default_storage_path() -> crate::ext::std::path::PathBuf { unimplemented!() }

@inject mod cli::args
impl crate::ext::clap::CommandFactory for Args { #[verifier::external_body] fn command<'help>() -> (r: crate::ext::clap::Command<'help>) { unimplemented!() } }
/// The names clap derives from the declaration
pub open spec fn command_name(c: Commands) -> Seq<char> { match c { Commands::SetPrimary { .. } => "set-primary"@, Commands::Shell { .. } => "shell"@, _ => other_name(c) } }
pub uninterp spec fn other_name(c: Commands) -> Seq<char>;
impl crate::ext::clap::FromArgMatches for Args {
    open spec fn meant(&self, words: Seq<Seq<char>>) -> bool { command_of(words) == Some(self.command) && sub_name(words) == Some(command_name(self.command)) && crate::cli::processor::args_ok(*self) }
    #[verifier::external_body] fn from_arg_matches(m: &crate::ext::clap::ArgMatches) -> (r: Result<Self, crate::ext::clap::Error>) { unimplemented!() }
}
@fn cli::args::validate_length tags=C19
@ensures C19 only lengths from 4 to 24
parse_usize(arg@) matches Some(n) ==> (r is Ok <==> 4 <= n <= 24)

@fn cli::processor::utils::format_error
@fn cli::processor::utils::Result::convert_error tags=C17
@ensures C17,C18,C19,C21 value kept
(self matches Ok(v) ==> r == Ok::<T, String>(v)) && (self is Err ==> r is Err)
@fn cli::processor::utils::prompt_secret_text mayabort
@fn cli::processor::utils::prompt_password mayabort
@fn cli::processor::utils::ensure_unlocked_passwords tags=C11,C12
@requires invariant
old(passwords).wf()
@ensures C11,C14 storage unchanged
final(passwords).wf() && final(passwords).same(old(passwords))
@ensures C11,C12 unlocked with what decrypts
&&& (r is Ok ==> !final(passwords).locked())
&&& (r is Err ==> final(passwords).same_lock(old(passwords)))
&&& (r is Ok && old(passwords).locked() ==> (salt_of(old(passwords).data()) matches Some(salt) && final(passwords).k() == enc_key(final(passwords).p(), salt) && secret_of(old(passwords).data(), final(passwords).k()) == Some(final(passwords).h())))
&&& (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C25 unlocked with a key of this run
old(passwords).sound() ==> final(passwords).sound()
@inv 0
passwords.wf(), passwords.same(old(passwords)), old(passwords).wf(), passwords.data().dom().contains(k_salt()) && passwords.data().dom().contains(k_hmac()),
passwords.locked() ==> passwords.same_lock(old(passwords)),
!old(passwords).locked() ==> passwords.same_lock(old(passwords)),
!passwords.locked() && old(passwords).locked() ==> (salt_of(passwords.data()) matches Some(salt) && passwords.k() == enc_key(passwords.p(), salt) && secret_of(passwords.data(), passwords.k()) == Some(passwords.h()) && computed(passwords.k())),

@fn cli::processor::utils::prompt_recovery_code tags=C22
@requires invariant
passwords.wf()
@requires unlocked
!passwords.locked()
@post C22 the password the accepted rows stand for
r matches Ok(v) ==> __lines.len() > 0 && code_text(entered(__lines), passwords.p()) == Some(v.inner@)
@post C22 an error in a line never ends it
r is Err ==> __lines.len() > 0 && (__lines.last().len() == 0 || !(code_v(entered(__lines.drop_last()) + kept(utf8(__lines.last()))) is Mismatch || code_v(entered(__lines.drop_last()) + kept(utf8(__lines.last()))) is Incomplete))
@post C22 an empty line ends it
__lines.len() > 0 && __lines.last().len() == 0 ==> r is Err
@inv 0
passwords.wf(), !passwords.locked(), kept(utf8(accepted@)) == entered(__lines), __lines.len() > 0 ==> __lines.last().len() > 0,
@hide code_v entered enter_line format_of splits joined kept
@at start
proof { lemma_no_lines(); }
@at loop 0 start
let ghost __l0 = __lines;
@at let code after
proof {
    assert(__lines == __l0.push(line@)); assert(__lines.drop_last() =~= __l0);
    lemma_entered(__l0, accepted@, line@);
}
@ensures C22 a password some accepted code stands for
r matches Ok(v) ==> super::of_code(v.inner@, passwords.p())

@inject mod cli::processor
/// The identity a command means, with the keys the passwords are unlocked with
pub open spec fn the_id<IO: storage_io::StorageIO>(d: Data, p: &Passwords<IO>, domain: Seq<char>, name: Seq<char>, revision: Seq<char>) -> PidV { pid(resolve(d, p.h(), p.k(), domain), name, revision) }
/// There was an entry of this identity before the command
pub open spec fn had<IO: storage_io::StorageIO>(d: Data, p: &Passwords<IO>, domain: Seq<char>, name: Seq<char>, revision: Seq<char>) -> bool { !p.locked() && d.dom().contains(pkey(p.h(), the_id(d, p, domain, name, revision))) }
pub open spec fn classes(no_lower: bool, no_upper: bool, no_digit: bool, no_symbol: bool) -> Set<CT> {
    let a = Set::<CT>::empty();
    let a = if no_lower { a } else { a.insert(CT::Lower) };
    let a = if no_upper { a } else { a.insert(CT::Upper) };
    let a = if no_digit { a } else { a.insert(CT::Digit) };
    if no_symbol { a } else { a.insert(CT::Symbol) }
}
pub use crate::storage_types::CharacterType as CT;
/// Some lines accepted together make a code of this password
pub open spec fn of_code(v: Seq<char>, p: Seq<char>) -> bool { exists|lines: Seq<Seq<char>>| code_text(#[trigger] entered(lines), p) == Some(v) }
/// A stored password was put there, with --recovery one that a code stands for
pub open spec fn stored_some(d0: Data, d: Data, h: Seq<u8>, k: Seq<u8>, id: PidV, recovery: bool, p: Seq<char>) -> bool { exists|v: Seq<char>| (recovery ==> of_code(v, p)) && #[trigger] stored(d0, d, h, k, PwV { id: id, kind: KindV::Stored { password: v }, notes: Seq::empty() }) }
/// What a command does to the storage and the lock
pub open spec fn effect<IO: storage_io::StorageIO>(c: Commands, a: Passwords<IO>, b: Passwords<IO>, ok: bool) -> bool {
    let (d0, d, h, k) = (a.data(), b.data(), b.h(), b.k());
    &&& b.wf() && (b.same(&a) || b.saved() == Some(d) || save_failed())
    &&& (!ok ==> b.same(&a) || save_failed())
    &&& (!a.locked() ==> b.same_lock(&a))
    &&& (b.same(&a) || !b.locked())
    &&& match c {
        Commands::Add { domain, name, revision, length, no_lower, no_upper, no_digit, no_symbol, .. } => b.same(&a) || (!(no_lower && no_upper && no_digit && no_symbol) && stored(d0, d, h, k, PwV { id: the_id(d0, &b, domain@, name@, revision@), kind: KindV::Gen { length: length as int, charset: classes(no_lower, no_upper, no_digit, no_symbol) }, notes: Seq::empty() })),
        Commands::AddStored { domain, name, revision, recovery, .. } => b.same(&a) || stored_some(d0, d, h, k, the_id(d0, &b, domain@, name@, revision@), recovery, b.p()),
        Commands::Remove { domain, name, revision } => (b.same(&a) && !ok) || (!b.locked() && only_removed(d0, d, pkey(h, the_id(d0, &b, domain@, name@, revision@)))),
        Commands::Alias { domain, alias_target, remove } => (b.same(&a) && !(ok && (alias_target is Some || remove))) || (!b.locked() && (match alias_target {
            Some(t) => aliased(d0, d, h, k, normalize(domain@), resolve(d0, h, k, t@)),
            None => remove && only_removed(d0, d, skey(h, normalize(domain@))),
        })),
        Commands::Notes { domain, name, revision, set } => (b.same(&a) && !(ok && set)) || (set && !b.locked() && changes(d0, d, k) && ({
            let id = the_id(d0, &b, domain@, name@, revision@);
            pw_at(d0, h, k, id) matches Some(v) && (v.id == id ==> exists|t: Seq<char>| #[trigger] only_put(d0, d, pkey(h, id), JV::Pw(PwV { notes: t, ..v }), k))
        })),
        Commands::List { .. } => b.same(&a) || discarded(d0, d, h, k),
        _ => b.same(&a),
    }
}
pub proof fn lemma_classes(no_lower: bool, no_upper: bool, no_digit: bool, no_symbol: bool)
    requires !(no_lower && no_upper && no_digit && no_symbol)
    ensures cs_len(classes(no_lower, no_upper, no_digit, no_symbol)) > 0
{ }
pub proof fn lemma_ready<IO: storage_io::StorageIO>(args: Args, a: Passwords<IO>, b: Passwords<IO>, ok: bool)
    requires args_ok(args), a.wf(), a.sound(), entries_ok(a.data()), effect(args.command, a, b, ok), !b.locked() ==> opens(a.data(), b.k())
    ensures b.sound(), entries_ok(b.data())
{
    let (d0, d, h, k) = (a.data(), b.data(), b.h(), b.k());
    if !b.same(&a) {
        match args.command {
            Commands::Add { domain, name, revision, length, no_lower, no_upper, no_digit, no_symbol, .. } => {
                let pw = PwV { id: the_id(d0, &b, domain@, name@, revision@), kind: KindV::Gen { length: length as int, charset: classes(no_lower, no_upper, no_digit, no_symbol) }, notes: Seq::empty() };
                lemma_classes(no_lower, no_upper, no_digit, no_symbol);
                lemma_stored_changes(d0, d, h, k, pw);
            }
            Commands::AddStored { domain, name, revision, recovery, .. } => {
                let id = the_id(d0, &b, domain@, name@, revision@);
                let v = choose|v: Seq<char>| (recovery ==> of_code(v, b.p())) && #[trigger] stored(d0, d, h, k, PwV { id: id, kind: KindV::Stored { password: v }, notes: Seq::empty() });
                lemma_stored_changes(d0, d, h, k, PwV { id: id, kind: KindV::Stored { password: v }, notes: Seq::empty() });
            }
            Commands::Remove { domain, name, revision } => { let id = the_id(d0, &b, domain@, name@, revision@); lemma_removed_changes(d0, d, h, k, domain@, id, pkey(h, id)); }
            Commands::Alias { domain, alias_target, remove } => match alias_target {
                Some(t) => { lemma_aliased_changes(d0, d, h, k, normalize(domain@), resolve(d0, h, k, t@)); }
                None => { let n = normalize(domain@); lemma_removed_changes(d0, d, h, k, n, PidV { site: n, name: n, revision: n }, skey(h, n)); }
            },
            Commands::List { .. } => { lemma_discarded_changes(d0, d, h, k); }
            _ => {}
        }
        lemma_changes(d0, d, k);
    }
}
/// What a line entered into the shell does
pub open spec fn line_effect<IO: storage_io::StorageIO>(line: Seq<char>, a: Passwords<IO>, b: Passwords<IO>) -> bool {
    match line_command(line) {
        Some(c) => exists|ok: bool| #[trigger] effect(c, a, b, ok),
        None => if is_lock(line) { b.same(&a) && b.wf() && b.locked() } else { b == a },
    }
}
/// The states the lines lead through, each line doing what its command does on its own
pub open spec fn leads<IO: storage_io::StorageIO>(a: Passwords<IO>, lines: Seq<Seq<char>>, states: Seq<Passwords<IO>>, b: Passwords<IO>) -> bool {
    &&& states.len() == lines.len() + 1 && states[0] == a && states.last() == b
    &&& forall|i: int| 0 <= i < lines.len() ==> #[trigger] line_effect(lines[i], states[i], states[i + 1])
}
/// The lines lead from one state to the other.
pub open spec fn reached<IO: storage_io::StorageIO>(a: Passwords<IO>, lines: Seq<Seq<char>>, b: Passwords<IO>) -> bool { exists|states: Seq<Passwords<IO>>| #[trigger] leads(a, lines, states, b) }
pub proof fn lemma_start<IO: storage_io::StorageIO>(a: Passwords<IO>)
    ensures reached(a, Seq::empty(), a)
{ assert(leads(a, Seq::empty(), seq![a], a)); }
pub proof fn lemma_reached<IO: storage_io::StorageIO>(a: Passwords<IO>, lines: Seq<Seq<char>>, m: Passwords<IO>, line: Seq<char>, b: Passwords<IO>)
    requires reached(a, lines, m), line_effect(line, m, b)
    ensures reached(a, lines.push(line), b)
{
    let states = choose|states: Seq<Passwords<IO>>| #[trigger] leads(a, lines, states, m);
    let all = lines.push(line); let next = states.push(b);
    assert forall|i: int| 0 <= i < all.len() implies #[trigger] line_effect(all[i], next[i], next[i + 1]) by { if i < lines.len() { assert(all[i] == lines[i]); assert(line_effect(lines[i], states[i], states[i + 1])); } }
    assert(leads(a, all, next, b));
}
/// What clap's declarations guarantee (checked by the harness)
pub open spec fn args_ok(args: Args) -> bool { args.command matches Commands::Add { length, .. } ==> 4 <= length <= 24 }

@fn cli::processor::add::processor tags=C18,C19
@requires invariant
old(passwords).wf()
@requires length checked by the declaration of the option
super::args_ok(*args)
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C18,C19 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C18 no overwriting without consent
args.command matches Commands::Add { domain, name, revision, assume_yes, .. } ==> !assume_yes && !user_consented() && super::had(old(passwords).data(), final(passwords), domain@, name@, revision@) ==> final(passwords).same(old(passwords))
@ensures C19 some character class
args.command matches Commands::Add { no_lower, no_upper, no_digit, no_symbol, .. } ==> no_lower && no_upper && no_digit && no_symbol ==> r is Err && final(passwords).same(old(passwords))
@ensures C18,C19 exactly this entry
args.command matches Commands::Add { domain, name, revision, length, no_lower, no_upper, no_digit, no_symbol, .. } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && stored(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), PwV { id: super::the_id(old(passwords).data(), final(passwords), domain@, name@, revision@), kind: KindV::Gen { length: length as int, charset: super::classes(no_lower, no_upper, no_digit, no_symbol) }, notes: Seq::empty() }))
@post C18 asked only if there is an entry
__yes.len() > 0 ==> (args.command matches Commands::Add { domain, name, revision, assume_yes, .. } && !assume_yes && super::had(old(passwords).data(), passwords, domain@, name@, revision@))
@post C18 declined
__yes.len() > 0 && !__yes.last() ==> r is Ok && passwords.same(old(passwords))
@post C19 done otherwise
args.command matches Commands::Add { domain, name, revision, length, no_lower, no_upper, no_digit, no_symbol, .. } ==> r is Ok && (__yes.len() == 0 || __yes.last()) ==> passwords.saved() == Some(passwords.data()) && stored(old(passwords).data(), passwords.data(), passwords.h(), passwords.k(), PwV { id: super::the_id(old(passwords).data(), passwords, domain@, name@, revision@), kind: KindV::Gen { length: length as int, charset: super::classes(no_lower, no_upper, no_digit, no_symbol) }, notes: Seq::empty() })

@fn cli::processor::add_stored::processor tags=C18,C22
@requires invariant
old(passwords).wf()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C18,C22 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C18 no overwriting without consent
args.command matches Commands::AddStored { domain, name, revision, assume_yes, .. } ==> !assume_yes && !user_consented() && super::had(old(passwords).data(), final(passwords), domain@, name@, revision@) ==> final(passwords).same(old(passwords))
@ensures C18,C22 only this entry, and what a code stands for
args.command matches Commands::AddStored { domain, name, revision, recovery, .. } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && super::stored_some(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), super::the_id(old(passwords).data(), final(passwords), domain@, name@, revision@), recovery, final(passwords).p()))
@post C18 asked only if there is an entry
__yes.len() > 0 ==> (args.command matches Commands::AddStored { domain, name, revision, assume_yes, .. } && !assume_yes && super::had(old(passwords).data(), passwords, domain@, name@, revision@))
@post C18 declined
__yes.len() > 0 && !__yes.last() ==> r is Ok && passwords.same(old(passwords))
@post C18,C22 done otherwise
args.command is AddStored && r is Ok && (__yes.len() == 0 || __yes.last()) ==> passwords.saved() == Some(passwords.data())

@fn cli::processor::alias::processor tags=C09
@requires invariant
old(passwords).wf()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C09,C14 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C09 only the alias
args.command matches Commands::Alias { domain, alias_target, remove } ==> (final(passwords).same(old(passwords)) && !(r is Ok && (alias_target is Some || remove))) || (!final(passwords).locked() && (match alias_target {
    Some(t) => !has_pw(old(passwords).data(), final(passwords).k(), sprefix(final(passwords).h(), normalize(domain@))) && aliased(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), normalize(domain@), resolve(old(passwords).data(), final(passwords).h(), final(passwords).k(), t@)),
    None => remove && only_removed(old(passwords).data(), final(passwords).data(), skey(final(passwords).h(), normalize(domain@))),
}))

@fn cli::processor::notes::processor tags=C10
@requires invariant
old(passwords).wf()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C10,C14 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C10 shown only unless set
args.command matches Commands::Notes { set, .. } ==> !set ==> final(passwords).same(old(passwords))
@ensures C07,C10 only the notes of this entry
args.command matches Commands::Notes { domain, name, revision, set } ==> (final(passwords).same(old(passwords)) && !(r is Ok && set)) || (!final(passwords).locked() && ({
    let id = super::the_id(old(passwords).data(), final(passwords), domain@, name@, revision@);
    pw_at(old(passwords).data(), final(passwords).h(), final(passwords).k(), id) matches Some(v) && (v.id == id ==> exists|t: Seq<char>| #[trigger] only_put(old(passwords).data(), final(passwords).data(), pkey(final(passwords).h(), id), JV::Pw(PwV { notes: t, ..v }), final(passwords).k()))
}))
@at let notes after
proof { if old(passwords).sound() && entries_ok(passwords.data()) { lemma_all_ok(passwords.data(), passwords.h(), passwords.k()); } }
@ensures C25 entries stay valid
args.command is Notes && old(passwords).sound() && entries_ok(old(passwords).data()) ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && changes(old(passwords).data(), final(passwords).data(), final(passwords).k()))

@fn cli::processor::remove::processor tags=C07
@requires invariant
old(passwords).wf()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C07,C14 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C07 only this entry
args.command matches Commands::Remove { domain, name, revision } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && only_removed(old(passwords).data(), final(passwords).data(), pkey(final(passwords).h(), super::the_id(old(passwords).data(), final(passwords), domain@, name@, revision@))))
@ensures C07 done
args.command is Remove && r is Ok ==> !final(passwords).same(old(passwords))

@fn cli::processor::set_primary::processor tags=C18,C19
@requires invariant
old(passwords).wf()
@requires consent
args.command matches crate::cli::args::Commands::SetPrimary { assume_yes } ==> assume_yes || user_consented() || not_loadable(storage_path@)
@ensures C11,C14 saved
final(passwords).wf() && (r is Ok ==> final(passwords).saved() == Some(final(passwords).data()))
@ensures C19 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C12,C19 a long enough password, and nothing but a new salt and a new secret
r is Ok ==> !final(passwords).locked() && utf8(final(passwords).p()).len() >= 6 && exists|salt: Seq<u8>| salt.len() == 16 && from_rng(salt) && final(passwords).k() == enc_key(final(passwords).p(), salt) && #[trigger] is_reset(final(passwords).data(), salt, final(passwords).h(), final(passwords).k())
@post C19 entered twice
r is Ok ==> __pw.len() == 2 && __pw[0] == passwords.p() && __pw[1] == passwords.p()
@post C19 refused
__pw.len() > 0 && (utf8(__pw[0]).len() < 6 || __pw.len() > 1 && __pw[0] != __pw[1]) ==> r is Err && passwords.same(old(passwords))
@post C19 accepted
__pw.len() == 2 && __pw[0] == __pw[1] && utf8(__pw[0]).len() >= 6 ==> r is Ok || save_failed()

@fn cli::processor::show::processor tags=C21
@requires invariant
old(passwords).wf()
@requires valid entries
entries_ok(old(passwords).data()) && old(passwords).sound()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 storage unchanged
final(passwords).wf() && final(passwords).same(old(passwords))
@post C21 exactly the password
args.command matches Commands::Show { domain, name, revision, qrcode } ==> !qrcode && r is Ok ==> !passwords.locked() && (passwords.pw_of(super::the_id(old(passwords).data(), passwords, domain@, name@, revision@)) matches Some(e) && printed(__out, utf8(pw_value(passwords.p(), e)) + seq![10u8]))
@post C21 its QR code
args.command matches Commands::Show { domain, name, revision, qrcode } ==> qrcode && r is Ok ==> !passwords.locked() && (passwords.pw_of(super::the_id(old(passwords).data(), passwords, domain@, name@, revision@)) matches Some(e) && qr_printed(__out, pw_value(passwords.p(), e)))
@post C21 it is there
args.command matches Commands::Show { domain, name, revision, qrcode } ==> !passwords.locked() && passwords.pw_of(super::the_id(old(passwords).data(), passwords, domain@, name@, revision@)) is Some && !qrcode ==> r is Ok
@at let password before
proof { lemma_all_ok(passwords.data(), passwords.h(), passwords.k()); }
@at loop 0 before
let ghost __h = __out; let ghost __t = qr@;
@inv 0
__t == qr@, __out == __h + qr_rows(__t, __i0 as int), __h.len() > 0 ==> __h.last() == 10, __s0@.len() == chunk_count(qr_size(__t), 2), forall|i: int| 0 <= i < __s0@.len() ==> #[trigger] __s0@[i] == 2 * i, 21 <= qr_size(__t) <= 177,
@inv 1
__t == qr@, y == 2 * (__i0 - 1), 0 < __i0 <= __s0@.len(), __s0@.len() == chunk_count(qr_size(__t), 2), 21 <= qr_size(__t) <= 177, __s1@.len() == qr_size(__t), forall|i: int| 0 <= i < __s1@.len() ==> #[trigger] __s1@[i] == i,
__out == __h + qr_rows(__t, __i0 - 1) + qr_row(__t, 2 * (__i0 - 1), __i1 as int),
@at loop 1 start
proof { assert(1usize | 2usize == 3 && 1usize | 0usize == 1 && 0usize | 2usize == 2 && 0usize | 0usize == 0) by (bit_vector); }

@fn cli::processor::process_command tags=C18,C25
@requires invariant
old(passwords).wf()
@requires length checked by the declaration of the option
args_ok(args)
@requires valid entries
entries_ok(old(passwords).data()) && old(passwords).sound()
@requires consent
args.command matches Commands::SetPrimary { assume_yes } ==> assume_yes || user_consented() || not_loadable(storage_path@)
@ensures C11,C14 saved or unchanged
!(args.command is Shell || args.command is SetPrimary) ==> final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C06,C07,C09,C10,C14,C18,C19,C20 an error changes nothing
!(args.command is Shell) ==> r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C18,C20,C21 looking changes nothing
args.command is Show ==> final(passwords).same(old(passwords))
@ensures C18 add: no overwriting without consent
args.command matches Commands::Add { domain, name, revision, assume_yes, .. } ==> !assume_yes && !user_consented() && had(old(passwords).data(), final(passwords), domain@, name@, revision@) ==> final(passwords).same(old(passwords))
@ensures C19 add: some character class
args.command matches Commands::Add { no_lower, no_upper, no_digit, no_symbol, .. } ==> no_lower && no_upper && no_digit && no_symbol ==> r is Err && final(passwords).same(old(passwords))
@ensures C06,C18,C19 add: exactly this entry
args.command matches Commands::Add { domain, name, revision, length, no_lower, no_upper, no_digit, no_symbol, .. } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && stored(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), PwV { id: the_id(old(passwords).data(), final(passwords), domain@, name@, revision@), kind: KindV::Gen { length: length as int, charset: classes(no_lower, no_upper, no_digit, no_symbol) }, notes: Seq::empty() }))
@ensures C18 add_stored: no overwriting without consent
args.command matches Commands::AddStored { domain, name, revision, assume_yes, .. } ==> !assume_yes && !user_consented() && had(old(passwords).data(), final(passwords), domain@, name@, revision@) ==> final(passwords).same(old(passwords))
@ensures C06,C18,C22 add_stored: only this entry, and what a code stands for
args.command matches Commands::AddStored { domain, name, revision, recovery, .. } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && stored_some(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), the_id(old(passwords).data(), final(passwords), domain@, name@, revision@), recovery, final(passwords).p()))
@ensures C09 alias: only the alias
args.command matches Commands::Alias { domain, alias_target, remove } ==> (final(passwords).same(old(passwords)) && !(r is Ok && (alias_target is Some || remove))) || (!final(passwords).locked() && (match alias_target {
    Some(t) => !has_pw(old(passwords).data(), final(passwords).k(), sprefix(final(passwords).h(), normalize(domain@))) && aliased(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k(), normalize(domain@), resolve(old(passwords).data(), final(passwords).h(), final(passwords).k(), t@)),
    None => remove && only_removed(old(passwords).data(), final(passwords).data(), skey(final(passwords).h(), normalize(domain@))),
}))
@ensures C10 notes: shown only unless set
args.command matches Commands::Notes { set, .. } ==> !set ==> final(passwords).same(old(passwords))
@ensures C07,C10 notes: only the notes of this entry
args.command matches Commands::Notes { domain, name, revision, set } ==> (final(passwords).same(old(passwords)) && !(r is Ok && set)) || (!final(passwords).locked() && ({
    let id = the_id(old(passwords).data(), final(passwords), domain@, name@, revision@);
    pw_at(old(passwords).data(), final(passwords).h(), final(passwords).k(), id) matches Some(v) && (v.id == id ==> exists|t: Seq<char>| #[trigger] only_put(old(passwords).data(), final(passwords).data(), pkey(final(passwords).h(), id), JV::Pw(PwV { notes: t, ..v }), final(passwords).k()))
}))
@ensures C07 remove: only this entry
args.command matches Commands::Remove { domain, name, revision } ==> final(passwords).same(old(passwords)) || (!final(passwords).locked() && only_removed(old(passwords).data(), final(passwords).data(), pkey(final(passwords).h(), the_id(old(passwords).data(), final(passwords), domain@, name@, revision@))))
@ensures C07 remove: done
args.command is Remove && r is Ok ==> !final(passwords).same(old(passwords))
@ensures C12,C19 set_primary: a long enough password, and nothing but a new salt and a new secret
args.command is SetPrimary ==> (r is Ok ==> !final(passwords).locked() && utf8(final(passwords).p()).len() >= 6 && exists|salt: Seq<u8>| salt.len() == 16 && from_rng(salt) && final(passwords).k() == enc_key(final(passwords).p(), salt) && #[trigger] is_reset(final(passwords).data(), salt, final(passwords).h(), final(passwords).k()))
@ensures C20 list: nothing discarded with a filter for names
args.command matches Commands::List { name, .. } ==> name@ != "*"@ ==> final(passwords).same(old(passwords))
@ensures C07,C20 list: only empty sites discarded
args.command is List ==> (final(passwords).same(old(passwords)) || (!final(passwords).locked() && discarded(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k())))
@ensures C25 ready for the next command
!(args.command is SetPrimary) ==> final(passwords).wf() && final(passwords).sound() && entries_ok(final(passwords).data())
@ensures C25 in total
!(args.command is SetPrimary || args.command is Shell) ==> effect(args.command, *old(passwords), *final(passwords), r is Ok)
@attr #[verifier::exec_allows_no_decreases_clause]
@at end
proof { if !(args.command is SetPrimary || args.command is Shell) { lemma_ready(args, *old(passwords), *passwords, r is Ok); } }

@fn cli::processor::shell::get_default_history_path mayabort
@fn cli::processor::shell::processor tags=C25
@requires invariant
old(passwords).wf() && old(passwords).sound()
@requires valid entries
entries_ok(old(passwords).data())
@ensures C25 ready for the next command
final(passwords).wf() && final(passwords).sound() && entries_ok(final(passwords).data())
@post C25 every line has the effect of its command, one after the other
super::reached(*old(passwords), __lines, *passwords)
@post C25 ended by exit or the end of the input
at_eof() || (__lines.len() > 0 && is_exit(__lines.last()))
@post C25 no line after exit
forall|i: int| 0 <= i < __lines.len() - 1 ==> !is_exit(#[trigger] __lines[i])
@hide crate::cli::processor::effect crate::cli::processor::reached
@at loop 0 before
proof { super::lemma_start(*old(passwords)); }
@inveb 0
forall|i: int| 0 <= i < __lines.len() ==> !is_exit(#[trigger] __lines[i]),
@inv 0
passwords.wf(), passwords.sound(), entries_ok(passwords.data()), super::reached(*old(passwords), __lines, *passwords),
@lens 0
at_eof() || (__lines.len() > 0 && is_exit(__lines.last())),
forall|i: int| 0 <= i < __lines.len() - 1 ==> !is_exit(#[trigger] __lines[i]),
@at loop 0 start
let ghost l0 = __lines; let ghost p0 = *passwords;
proof {
    reveal_strlit("exit"); reveal_strlit("lock"); assert("exit"@[0] == 'e' && "lock"@[0] == 'l');
    assert forall|line: Seq<char>, p: Passwords<IO>| super::line_effect(line, p0, p) implies #[trigger] super::reached(*old(passwords), l0.push(line), p) by { super::lemma_reached(*old(passwords), l0, p0, line, p); }
}

@fn cli::main_inner tags=C18
@requires length checked by the declaration of the option
processor::args_ok(args)
@requires valid entries in the file
disk_ok()

@fn cli::processor::list::processor tags=C20
@requires invariant
old(passwords).wf()
@requires valid entries
entries_ok(old(passwords).data()) && old(passwords).sound()
@ensures C25 the key opens the storage and is kept
(old(passwords).sound() && !final(passwords).locked() ==> opens(old(passwords).data(), final(passwords).k())) && (!old(passwords).locked() ==> final(passwords).same_lock(old(passwords)))
@ensures C11,C14 saved or unchanged
final(passwords).wf() && (final(passwords).same(old(passwords)) || final(passwords).saved() == Some(final(passwords).data()) || save_failed())
@ensures C20 an error changes nothing
r is Err ==> final(passwords).same(old(passwords)) || save_failed()
@ensures C20 nothing discarded with a filter for names
args.command matches Commands::List { name, .. } ==> name@ != "*"@ ==> final(passwords).same(old(passwords))
@ensures C07,C20 only empty sites discarded
final(passwords).same(old(passwords)) || (!final(passwords).locked() && discarded(old(passwords).data(), final(passwords).data(), final(passwords).h(), final(passwords).k()))
@post C16,C20 exactly what matches is printed
args.command matches Commands::List { domain, name, show, recovery, verbose } ==> r is Ok && alias_wf_some(old(passwords).data(), passwords.h(), passwords.k()) ==> listed_as(CtxV { d: old(passwords).data(), h: passwords.h(), k: passwords.k(), p: passwords.p() }, HowV { show: show, recovery: recovery, verbose: verbose }, domain@, name@, __out)
@hide all_shown aliases_from blocks_for block_ok blocks_text put_entries listed_aliases considered listed_as alias_map_ok tidied is_site_match is_pw_match sorting dedup_by code_text kept splits joined entries_ok opens all_ok
@at let additions before
proof { lemma_all_ok(old(passwords).data(), passwords.h(), passwords.k()); }
let ghost d0 = old(passwords).data(); let ghost hh = passwords.h(); let ghost kk = passwords.k(); let ghost listed = sites@;
let ghost ok = alias_wf_some(d0, hh, kk);
let ghost cx = CtxV { d: d0, h: hh, k: kk, p: passwords.p() }; let ghost hw = HowV { show: *show, recovery: *recovery, verbose: *verbose };
let ghost lv = site_views(listed); let ghost av = lv + sel(lv, target_sel());
proof { assert(site_views(listed) =~= listed.map_values(|p: Site| p@)); lemma_listed_sites(d0, hh, kk, domain@, listed); }
@at loop 0 before
proof { assert(site_views(additions@) =~= sel(lv.take(0), target_sel())); }
@inv 0
true_sites(d0, hh, kk, additions@), true_sites(d0, hh, kk, listed), sites@ == listed, __s0@.len() == listed.len(), forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == listed[i],
site_views(additions@) == sel(lv.take(__i0 as int), target_sel()),
@at loop 0 start
proof { assert(__it0@ == listed[__i0 - 1]@); assert(lv[__i0 - 1] == listed[__i0 - 1]@); lemma_sel_step(lv, target_sel(), __i0 - 1); }
@at loop 0 end
proof { assert(site_views(additions@) =~= sel(lv.take(__i0 as int), target_sel())); }
@at loop 0 after
proof { assert(lv.take(__i0 as int) =~= lv); }
@at loop 1 before
let ghost all = sites@;
proof {
    assert(true_sites(d0, hh, kk, all));
    assert(site_views(all) =~= av);
    assert forall|s: SiteV| alias_wf_some(d0, hh, kk) && #[trigger] av.contains(s) implies true_site(d0, hh, kk, s) by { let i = av.index_of(s); assert(site_views(all)[i] == all[i]@); }
    assert(alias_wf_some(d0, hh, kk) ==> true_views(d0, hh, kk, av));
}
@inv 1
__acc1@.len() == __i1, __s1@.len() == sites@.len(), sites@ == all,
forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == all[i],
first_keys(__acc1@, site_names(site_views(all)), __i1 as int),
@at loop 1 after
proof { assert(strings(__acc1@) =~= site_names(av)); lemma_sorted_sites(d0, hh, kk, all, site_names(av)); }
@at loop 2 before
let ghost sorted = sites@;
proof { assert(true_sites(d0, hh, kk, sorted)); assert(ordered(av, site_views(sorted))); }
@inv 2
__acc2@.len() == __i2, __s2@.len() == sites@.len(), sites@ == sorted,
forall|i: int| 0 <= i < __s2@.len() ==> *(#[trigger] __s2@[i]) == sorted[i],
first_keys(__acc2@, site_names(site_views(sorted)), __i2 as int),
@at loop 2 after
proof {
    lemma_dedup_within(sorted, strings(__acc2@));
    assert(strings(__acc2@) =~= site_names(site_views(sorted)));
    lemma_dedup_map(sorted, strings(__acc2@)); lemma_tidy(av, site_views(sorted));
}
@at let aliases before
let ghost single = sites@;
let ghost vv = site_views(single);
proof { assert(true_sites(d0, hh, kk, single)); assert(tidied(av, vv)); lemma_tidied(d0, hh, kk, lv, vv); }
@at loop 3 before
proof { assert(site_views(__acc3@) =~= sel(vv.take(0), regular_sel())); lemma_no_aliases(vv); }
@inv 3
true_sites(d0, hh, kk, __acc3@), forall|i: int| 0 <= i < __acc3@.len() ==> (#[trigger] __acc3@[i])@.alias is None, __s3@ == single,
site_views(__acc3@) == sel(vv.take(__i3 as int), regular_sel()), alias_map_ok(aliases@, vv.take(__i3 as int)),
@at loop 3 start
let ghost m0 = aliases@;
proof { assert(vv[__i3 - 1] == __it3@); lemma_sel_step(vv, regular_sel(), __i3 - 1); }
@at loop 3 end
proof {
    assert(site_views(__acc3@) =~= sel(vv.take(__i3 as int), regular_sel()));
    if vv[__i3 - 1].alias is Some { assert(strings(aliases@[vv[__i3 - 1].alias->0]@) =~= (if m0.dom().contains(vv[__i3 - 1].alias->0) { strings(m0[vv[__i3 - 1].alias->0]@) } else { Seq::empty() }).push(vv[__i3 - 1].name)); assert(aliases@.dom() =~= m0.dom().insert(vv[__i3 - 1].alias->0)); }
    assert(alias_added(m0, aliases@, vv[__i3 - 1]));
    lemma_alias_added(m0, aliases@, vv, __i3 - 1);
}
@at loop 3 after
proof { assert(vv.take(__i3 as int) =~= vv); }
@at loop 4 before
let ghost mv = site_views(__s4@); let ghost mut bs: Seq<BlockV> = Seq::empty();
proof { lemma_no_blocks(cx, hw, name@, site_names(mv), vv); }
@isolate 4
@inv 4
true_sites(d0, hh, kk, __s4@), forall|i: int| 0 <= i < __s4@.len() ==> (#[trigger] __s4@[i])@.alias is None,
passwords.wf(), passwords.same(old(passwords)), d0 == old(passwords).data(), !passwords.locked(), hh == passwords.h(), kk == passwords.k(),
discardables(d0, hh, kk, empty_sites@), name@ != "*"@ ==> empty_sites@.len() == 0,
mv == site_views(__s4@), ok ==> blocks_for(cx, hw, name@, site_names(mv), __i4 as int, bs), ok ==> __out == blocks_text(cx, hw, bs), found == (bs.len() > 0),
alias_map_ok(aliases@, vv), aliases_from(bs, vv), all_ok(d0, hh, kk), opens(d0, kk), !old(passwords).locked() ==> passwords.same_lock(old(passwords)), ok == alias_wf_some(d0, hh, kk), 
cx == (CtxV { d: d0, h: passwords.h(), k: passwords.k(), p: passwords.p() }), hw == (HowV { show: *show, recovery: *recovery, verbose: *verbose }),
@at let site_query after
proof { lemma_www(site@.name); }
@at let list after
let ghost fv = pw_views(list@); let ghost o4 = __out;
proof {
    assert(pw_views(list@) =~= list@.map_values(|p: Password| p@));
    if list@.len() == 0 && name@ == "*"@ { lemma_nothing_listed(d0, kk, sprefix(hh, passwords.resolved(site_query@)), pw_views(list@)); }
    assert(site_names(mv)[__i4 - 1] == site@.name);
    assert(alias_wf_some(d0, hh, kk) ==> passwords.resolved(site_query@) == site@.name);
    if fv.len() == 0 && alias_wf_some(d0, hh, kk) { assert(fv =~= Seq::empty()); lemma_skip_block(cx, hw, name@, site_names(mv), __i4 - 1, bs); }
    lemma_alias_map(aliases@, vv, site@.name);
}
@at loop 5 before
let ghost l5 = list@;
@inv 5
__acc5@.len() == __i5, __s5@.len() == list@.len(), list@ == l5,
forall|i: int| 0 <= i < __s5@.len() ==> *(#[trigger] __s5@[i]) == l5[i],
first_keys(__acc5@, entry_keys(fv), __i5 as int),
@at loop 5 after
proof { assert(strings(__acc5@) =~= entry_keys(fv)); lemma_sorted_pws(l5); }
@at loop 6 before
let ghost ss = pw_views(__s6@); let ghost q = choose|q: Seq<int>| #[trigger] sorting(q, entry_keys(fv)) && ss == picked(fv, q); let ghost mut es: Seq<ShownV> = Seq::empty(); let ghost o6 = __out;
let ghost al = sel(vv, alias_sel(site@.name));
proof {
    assert(shuffled(fv, ss));
    lemma_no_entries(o6, cx, hw, site@.name, ss);
    assert(__out == put_site(o4, hw, site@.name, al));
}
@isolate 6
@inv 6
ok ==> __out == put_entries(o6, cx, hw, site@.name, es), es.len() == __i6, ss == pw_views(__s6@),
ok ==> all_shown(cx, hw, site@.name, es, ss),
passwords.wf(), passwords.same(old(passwords)), d0 == old(passwords).data(), !passwords.locked(),
cx == (CtxV { d: d0, h: passwords.h(), k: passwords.k(), p: passwords.p() }), hw == (HowV { show: *show, recovery: *recovery, verbose: *verbose }),
all_ok(d0, hh, kk), opens(d0, kk), !old(passwords).locked() ==> passwords.same_lock(old(passwords)), hh == passwords.h(), kk == passwords.k(),
ok ==> passwords.resolved(site_query@) == site@.name,
@at loop 6 start
let ghost o = __out; let ghost mut lines = Seq::<Seq<char>>::empty(); let ghost ev = __it6@;
proof { lemma_ok_at(d0, hh, kk, passwords.id_of(site_query@, ev.id.name, ev.id.revision)); }
@at loop 6 end
proof {
    let s = ShownV { e: ev, lines: lines };
    if ok {
        assert(__out == put_entry(o, cx, hw, site@.name, s));
        assert(shown_ok(cx, hw, site@.name, s, ss[__i6 - 1]));
        lemma_entry_step(o6, cx, hw, site@.name, ss, es, s);
    }
    es = es.push(s);
}
@at loop 7 before
let ghost o7 = __out;
proof { lines = strings(__s7@); assert(lines =~= splits(__r7@, '\n')); }
@inv 7
__out == put_lines(o7, lines, __i7 as int), lines == strings(__s7@),
@at loop 7 start
proof { assert(lines[__i7 - 1] == __it7@); }
@at loop 6 after
proof {
    let b = BlockV { at: __i4 - 1, site: site@.name, aliases: al, found: fv, order: q, es: es };
    lemma_add_text(cx, hw, bs, b, vv);
    if ok { lemma_site_block(cx, hw, name@, b, ss); lemma_add_block(cx, hw, name@, site_names(mv), __i4 - 1, bs, b); }
    bs = bs.push(b);
}
@at loop 4 after
proof {
    assert forall|i: int| 0 <= i < strings(empty_sites@).len() && alias_wf_some(d0, hh, kk) implies discardable(d0, hh, kk, #[trigger] strings(empty_sites@)[i]) by { assert(strings(empty_sites@)[i] == empty_sites@[i]@); }
    lemma_discarded(d0, without_sites(d0, hh, strings(empty_sites@)), hh, kk, strings(empty_sites@));
    let l = ListV { listed: lv, sites: site_names(mv), bs: bs };
    if alias_wf_some(d0, hh, kk) { lemma_listed_as(cx, hw, domain@, name@, l, vv); }
}
