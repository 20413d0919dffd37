import json
def P(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L="pfp/src/"
ps=[
P("C01","Generated passwords obey the requested length and character classes",
"For every primary password, site, user name, revision, every length of at least 1 and every non-empty selection of character classes, the generated password has exactly the requested number of characters and each of them belongs to a selected class (lower abcdefghjkmnpqrstuvwxyz, upper ABCDEFGHJKMNPQRSTUVWXYZ, digits 23456789, symbols !#$%&()*+,-./:;<=>?@[]^_{|}~). Whenever the length is at least the number of selected classes, every selected class is represented by at least one character. If the length is smaller than that, no class occurs twice.",
["inputs"],"all byte strings the key derivation may yield, all 15 non-empty class selections, all lengths >= 1",
"The tests check a handful of fixed primary password/site combinations; the forcing of a missing class only triggers for particular derived bytes near the end of the password.",
[L+"crypto.rs"],[("class forcing near the end of the password","to_password in pfp/src/crypto.rs")],["result of retrieving a generated password"],None),
P("C02","Generated passwords are a fixed function of their six parameters",
"A generated password depends only on primary password, resolved site, user name, revision, length and character classes: the same six values give the same password in every storage, at any time and after any history, whatever the notes or other entries are. It is derived as PfP documents it: scrypt (N=32768, r=8, p=1) of the primary password with salt site NUL name, followed by NUL revision if there is a revision (revision \"1\" counting as none), as many bytes as the password has characters; each byte in turn, modulo the number of currently allowed characters, picks one from lower, upper, digit, symbol characters in this order, where only the selected classes not yet represented are allowed as soon as no more positions remain than there are such classes, and all selected classes otherwise.",
["inputs","histories"],"all primary passwords, sites, names, revisions, lengths, class selections; all histories producing the entry",
"Tests fix a few expected passwords with one primary password; they cannot show that no other state leaks in or that all salts, lengths and classes follow the scheme.",
[L+"crypto.rs",L+"passwords.rs",L+"storage_types/password.rs"],[("scrypt derivation","derive_bits, derive_password in pfp/src/crypto.rs"),("salt","GeneratedPassword::salt in pfp/src/storage_types/password.rs"),("dispatch","Passwords::get in pfp/src/passwords.rs")],["Passwords::get"],None),
P("C03","Recovery codes give back the password they were made from",
"For every stored password that does not end in a NUL character (the empty one included), any salt of 16 bytes and any primary password, the recovery code generated for it decodes, with the same primary password, to exactly that password. This holds for passwords of any length, and it does not require the storage that produced the code.",
["inputs"],"all UTF-8 passwords without trailing NUL, all lengths, salts, nonces, primary passwords",
"Tests decode one code of a four-character password; padding, row checksums, final-row marking and multi-row codes are exercised at one or two lengths only.",
[L+"recovery_codes.rs",L+"crypto.rs"],[("zero padding and stripping","generate and decode in pfp/src/recovery_codes.rs"),("row checksums","generate and validate in pfp/src/recovery_codes.rs"),("base32","base32_encode/base32_decode in pfp/src/crypto.rs")],["recovery_codes::generate","recovery_codes::decode"],None),
P("C04","Recovery code rows are checked for position and completeness",
"Reading a recovery code (fewer than 128 rows of 24 letters), rows are judged one after the other by their checksum: the first row whose checksum fits neither its position nor a final row at its position is reported as a checksum mismatch with its zero-based index, and the row fitting as a final row ends the code. Letters after the final row are reported as extra data with the index of the first extra row, a code ending before a final row as incomplete; none of these yields a password. In particular rows of a valid code which are missing at the end, swapped, duplicated or appended never go unnoticed.",
["inputs"],"all sequences of rows over the code alphabet of fewer than 128 rows, all partial rows",
"The tests try one code with a few manipulations; row checksums have 2^120 inputs per row and all positions matter.",
[L+"recovery_codes.rs",L+"crypto.rs"],[("checksum with position as virtual byte","validate in pfp/src/recovery_codes.rs, pearson_hash in pfp/src/crypto.rs")],["recovery_codes::decode"],None),
P("C05","Recovery codes are read regardless of case, spacing and punctuation",
"Formatting a recovery code keeps exactly its letters and digits from the code alphabet (A-Z without I and O, 2-9), upper-cased and in their original order, and drops everything else. With punctuation requested, a line break follows every 24th, a colon every other 12th and a dash every other 4th character, with no separator at the end; formatting again changes nothing. The outcome of decoding a code depends only on the kept characters.",
["inputs"],"all byte strings",
"Tests format a few short strings.",
[L+"recovery_codes.rs"],[("canonical format","format_code in pfp/src/recovery_codes.rs")],["recovery_codes::format_code","recovery_codes::decode"],None),
P("C06","Saved password entries are returned exactly as saved",
"After a stored password is saved for a site, user name and revision, retrieving it with the same site, name and revision yields exactly the saved text, and the entry is reported as present; after a generated password is saved its length and character classes are the ones requested. This holds for arbitrary Unicode content, survives locking and unlocking as well as reloading the storage, and lasts until that entry is overwritten or removed; saving over an existing entry replaces it entirely, notes included.",
["inputs","histories"],"all texts, sites, names, revisions; all histories of operations on other entries in between",
"Tests save a few ASCII passwords.",
[L+"passwords.rs",L+"storage.rs",L+"crypto.rs",L+"storage_types/password.rs"],[("entry encryption and key derivation","Storage::set/get, get_password_key in pfp/src/storage.rs")],["Passwords::get","Passwords::has","Passwords::list"],None),
P("C07","An operation on one entry leaves all other entries alone",
"Saving, annotating or removing the password with one site, user name and revision (without NUL characters) never changes, adds or removes a password with a different identity, an alias, or another site; removing deletes exactly that password and fails, changing nothing, if it does not exist. Creating or removing an alias never changes or removes any password. Cleaning up site entries touches only the named sites' entries.",
["inputs","histories"],"all pairs of distinct identities, including ones whose concatenations coincide; all storage contents",
"Tests use a few fixed identities and look at a few of the other entries only.",
[L+"passwords.rs",L+"storage.rs"],[("one storage key per identity","get_site_key/get_password_key in pfp/src/storage.rs"),("frame of every mutation","Storage methods in pfp/src/storage.rs")],["storage content before and after an operation"],None),
P("C08","Which spellings address the same password is fixed",
"All operations identify a password by resolved site, user name and revision: one leading \"www.\" of the given site is ignored, a site that is an alias stands for its target, and revision \"1\" is the same as no revision. Nothing else is identified: sites, names and revisions that differ in any other way (letter case, whitespace, subdomains, characters moved from one component to the next) address different passwords. (Sites, user names and revisions contain no NUL character here.)",
["inputs"],"all pairs of (site, name, revision) triples",
"Tests use a few fixed spellings.",
[L+"storage.rs",L+"storage_types/password.rs",L+"passwords.rs"],[("site normalization","normalize_site/resolve_site in pfp/src/storage.rs"),("revision normalization","PasswordId::new in pfp/src/storage_types/password.rs")],["Passwords::get/has/set_*/remove/get_notes/set_notes"],None),
P("C09","Aliases always lead to a regular site and never hide passwords",
"Marking a site (one leading \"www.\" removed) as an alias is refused if that site has passwords or if the target, after following the target's own alias, is the site itself; otherwise looking up the alias yields the resolved target and later operations given the alias work on the target. In every storage produced by these operations the target of an alias is not itself an alias. Removing an alias succeeds exactly for aliases, after which the name is a regular site again; both refusals change nothing.",
["inputs","histories"],"all sequences of alias and password operations on any set of site names",
"Tests create one or two aliases; chains arise only from particular orders of operations.",
[L+"passwords.rs",L+"storage.rs"],[("alias resolution and checks","Passwords::set_alias in pfp/src/passwords.rs, set_alias/remove_alias/get_alias in pfp/src/storage.rs")],["Passwords::get_alias, set_alias, remove_alias"],None),
P("C10","Notes are kept with their password and do not affect it",
"After notes are set for an existing password, reading the notes returns exactly that text, and the password itself (value, or length and character classes) is unchanged; empty notes remove them. Setting or reading notes of a password that does not exist fails and changes nothing. A newly saved password has no notes.",
["inputs","histories"],"all note texts, all entries of both kinds",
"Tests set a few short notes.",
[L+"passwords.rs",L+"storage_types/password.rs",L+"storage.rs"],[("notes update","Passwords::set_notes/get_notes in pfp/src/passwords.rs; set_notes in pfp/src/storage_types/password.rs")],["Passwords::get_notes, set_notes"],None),
P("C11","Nothing is readable or changeable while locked",
"As long as the storage has not been unlocked, or after it was locked, every operation that reads or changes passwords, notes, aliases or recovery codes fails with the error that passwords are locked (removing an empty list of sites, which does nothing, may succeed; listing may stop the program; computing a recovery code may report instead that the storage was never initialized) and leaves the storage unchanged. Locking always takes effect, a successful unlock or reset always unlocks, and a failed unlock leaves the lock state and everything else as it was.",
["histories","inputs"],"all operations with all arguments in the locked state, all histories of lock/unlock",
"Tests cover some operations with fixed arguments on an empty storage.",
[L+"passwords.rs"],[("key presence checks","every method of Passwords in pfp/src/passwords.rs")],["Passwords methods, unlocked()"],None),
P("C12","Only the current primary password unlocks, and reset starts from nothing",
"Unlocking succeeds exactly when the key derived from the given primary password and the stored salt decrypts the stored secret; with a wrong primary password it fails, never returning data. Setting a new primary password removes every previous entry, alias and secret, picks a new random salt and a new random secret, and leaves a storage that unlocks with the new primary password. Before it is initialized, unlocking reports that the storage is not initialized.",
["inputs","histories"],"all primary passwords, all prior storage contents",
"Tests use one right and one wrong password; they run with a fixed random source, so freshness is out of their reach.",
[L+"passwords.rs",L+"storage.rs",L+"crypto.rs"],[("unlock and reset","Passwords::unlock/reset in pfp/src/passwords.rs; clear/get_hmac_secret in pfp/src/storage.rs")],["Passwords::unlock, reset"],None),
P("C13","Everything in the storage but the salt is encrypted and keyed by digests",
"Every value in the storage except the salt is AES-256-GCM ciphertext under the key derived from the primary password, each written with a fresh random 12-byte nonce, in the form base64 nonce, underscore, base64 ciphertext. The keys of the storage are \"salt\", \"hmac-secret\", \"site:\" plus the HMAC-SHA256 digest of the site, and this followed by \":\" plus the digest of site NUL name NUL revision; no site, user name, revision, password or notes appear in it in clear.",
["inputs","histories"],"all contents and all histories of operations",
"Tests compare a few complete ciphertexts produced with a fixed random source, which cannot show that nonces are fresh in production.",
[L+"storage.rs",L+"crypto.rs"],[("encryption on every write","Storage::set, set_hmac_secret; encrypt_data in pfp/src/crypto.rs"),("digest keys","get_site_key/get_password_key in pfp/src/storage.rs, get_digest in pfp/src/crypto.rs")],["raw storage content"],None),
P("C14","Success means saved; refusal means nothing saved",
"Whenever an operation that changes passwords, notes, aliases, sites or the primary password reports success, its result has been saved: the saved storage equals the storage in memory, and reopening it shows the change. If saving fails the operation reports an error. An operation that is refused (locked, missing entry, existing passwords, alias to itself) and an operation that only reads save nothing and change nothing in memory.",
["inputs","histories","fault_sequences"],"all operations and arguments, each save attempt succeeding or failing",
"Tests look at the saved data after a few successful operations and never let a save fail.",
[L+"passwords.rs",L+"storage.rs",L+"storage_io/file.rs"],[("flush at the end of each mutation","Passwords methods in pfp/src/passwords.rs"),("error propagation","FileIO::flush in pfp/src/storage_io/file.rs")],["StorageIO::flush; storage file"],None),
P("C15","Storage files are read and written in exactly one format",
"A storage file is a JSON object with exactly the members application equal to \"pfp\", format equal to 3, and data mapping strings to strings (an array of these three values in this order counts as the same format); anything else is rejected with an error when loading, never partially used. Saving writes the complete current data in this format, creating the parent directory if needed, so that loading a saved file gives back exactly the same data; loading changes nothing on disk.",
["inputs"],"all file contents, all data maps (any Unicode keys and values)",
"Tests try about a dozen malformed files.",
[L+"storage_io/file.rs",L+"json/macros.rs"],[("load and flush","FileIO in pfp/src/storage_io/file.rs"),("constant members","const_serializable in pfp/src/json/macros.rs")],["FileIO::load, flush"],None),
P("C16","Listings are exact",
"Listing the passwords of a site returns every password saved for the resolved site whose user name matches the wildcard pattern (* any text, ? one character), each exactly once with its saved parameters, and nothing else. Listing sites returns every site entry whose name or alias target matches the pattern exactly once, and nothing else.",
["inputs","histories"],"all storage contents and all patterns",
"Tests list a few entries with a few patterns; sites whose names or digests are related are not tried.",
[L+"passwords.rs",L+"storage.rs"],[("prefix scan and filters","list/list_sites in pfp/src/passwords.rs, list_passwords/list_sites in pfp/src/storage.rs")],["Passwords::list, list_sites"],None),
P("C17","Malformed data leads to an error, never to a crash or wrong data",
"Whatever the values in the storage contain (truncated, not base64, wrong nonce size, tampered, not JSON, other type), reading them ends in an error or, in listings, in skipping the entry; a value that was not produced by encryption under the current key is never returned as data. Likewise decoding any text as a recovery code ends in a password or an error. Neither stops the program.",
["inputs"],"all strings as storage values and as recovery codes",
"Tests feed a few malformed values; arithmetic and slicing on attacker- or typo-controlled lengths needs all inputs.",
[L+"crypto.rs",L+"recovery_codes.rs",L+"storage.rs"],[("validation before use","decrypt_data in pfp/src/crypto.rs; decode/validate in pfp/src/recovery_codes.rs; Storage::get in pfp/src/storage.rs")],["Passwords and recovery_codes results"],None),
P("C18","The command line never overwrites existing data without consent",
"Adding a generated or stored password for a site/name/revision that already has one, and setting a primary password over an existing loadable storage, happen only with the assume-yes option or after the user answered yes to the prompt. If the answer is no, or empty, nothing is changed and the command ends successfully. If no such entry exists there is no prompt.",
["inputs","configurations"],"all identities (including aliases, www. and revision spellings of an existing one), all option combinations and answers",
"Tests try one identity with identical spelling.",
["cli/src/processor/add.rs","cli/src/processor/add_stored.rs","cli/src/main.rs"],[("existence check and prompt","cli/src/processor/add.rs, add_stored.rs, main_inner in cli/src/main.rs")],["storage file after the command; prompts"],None),
P("C19","The command line rejects invalid parameters before changing anything",
"Adding a generated password requires a length from 4 to 24 and at least one character class, and saves exactly the requested length and classes (all classes not excluded by an option). A new primary password must have at least 6 bytes and be entered twice identically (surrounding whitespace ignored). Otherwise the command fails and the storage stays as it was.",
["inputs","configurations"],"all lengths, all 16 combinations of class options, all pairs of entered primary passwords",
"Tests try one too short and one mismatched primary password and a few lengths.",
["cli/src/args.rs","cli/src/processor/add.rs","cli/src/processor/set_primary.rs"],[("validation","validate_length in cli/src/args.rs; processor in cli/src/processor/add.rs and set_primary.rs")],["exit status; storage file"],None),
P("C20","The list command shows every password and discards only empty sites",
"Without filters the list command shows every password in the storage, under its site, exactly once, and with the show option its value. It ends by deleting from the storage only entries of regular sites that have no passwords, and only if no user name filter was given; passwords and aliases are never deleted. Sites that are merely targets of aliases do not make it fail.",
["inputs","histories"],"all storage contents produced by the other commands; all filters",
"Tests list one small storage.",
["cli/src/processor/list.rs",L+"passwords.rs"],[("alias grouping and cleanup","processor in cli/src/processor/list.rs")],["output of list; storage file"],None),
P("C21","Shown passwords and QR codes are exactly the password",
"The show command prints the retrieved password, unchanged, on a line of its own. With the QR code option it prints instead, on lines of their own, the QR code of exactly that password, two modules per character cell (blank, upper half, lower half, full block).",
["inputs"],"all passwords that fit a QR code",
"One QR code and a few passwords are compared, after trimming.",
["cli/src/processor/show.rs"],[("module rendering","processor in cli/src/processor/show.rs")],["standard output"],None),
P("C22","Entering a recovery code line by line gives the stored password",
"When a stored password is restored from a recovery code entered line by line, what is rejected is discarded while all complete rows accepted before are kept, so that re-entering the correct line continues the code. Once the code is complete the password stored is exactly the one the code stands for. An empty line aborts without changing the storage.",
["inputs","histories"],"all ways of splitting a valid code into lines, with wrong lines in between",
"Tests enter one code in one way.",
["cli/src/processor/utils.rs"],[("accepted rows","prompt_recovery_code in cli/src/processor/utils.rs")],["stored password after add-stored --recovery"],None),
P("C23","No copy of a secret remains in memory after locking",
"After the passwords are locked or the program ends, no copy of the primary password, of a password shown or of an encryption key remains in the process's memory.",
["histories"],"all operations",
"Tests scan memory after a few commands.",
[L+"passwords.rs","cli/src/processor/utils.rs"],[("secrecy wrappers zeroize on drop","SecretString/SecretVec use throughout")],["process memory"],None),
P("C24","An interrupted or failed save never loses the previous storage",
"If the program is killed or the disk fills up while the storage is being saved, the storage file afterwards holds either the previous or the new data completely.",
["crash_points","fault_sequences"],"all points at which writing may stop",
"No test interrupts a save.",
[L+"storage_io/file.rs"],[("single write call","FileIO::flush in pfp/src/storage_io/file.rs")],["storage file after a crash"],None),
P("C25","The interactive shell runs commands like separate invocations",
"A sequence of commands entered in the interactive shell has the same effect on the storage as the same commands run one by one; locking in the shell makes the next command ask for the primary password.",
["histories"],"all command sequences",
"One short session is tested.",
["cli/src/processor/shell.rs"],[("dispatch","processor in cli/src/processor/shell.rs")],["storage file; prompts"],None),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
