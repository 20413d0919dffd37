From aec64395d923d975c0b7a16c856e56b6336f6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 1/8] fix: report a stored nonce of the wrong size instead of
 panicking

---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From d06b37025359d2bd33b284749ce88e1afb4d06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 2/8] fix: do not underflow decoding the recovery code of an
 empty password

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From 704723c6bb17668849146517ae15afe4565bd01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 3/8] fix: do not underflow on recovery codes of more than 256
 rows

---
 pfp/src/recovery_codes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..be3c8c4 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,10 +103,10 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255 - block_index as u8
             } else {
-                block_index
-            } as u8;
+                block_index as u8
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +248,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From 76663d706c22044fb4bab3e7b63b61a698e224a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 4/8] fix: show the password or QR code on lines of its own

---
 cli/src/processor/show.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..91979f2 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -27,7 +27,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let password = passwords.get(domain, name, revision).convert_error()?;
         let mut stdout = StreamWriter::stdout().unwrap();
-        stdout.write_all(b"Password retrieved.").unwrap();
+        stdout.write_all(b"Password retrieved.\n").unwrap();
         if *qrcode {
             const BLOCKS: [&str; 4] = [" ", "\u{2580}", "\u{2584}", "\u{2588}"];
 
-- 
2.43.0


From 0bad10f76e15fc4987297bb237758abe8bcf9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 5/8] fix: do not fail listing when an empty alias target has
 no entry

---
 pfp/src/passwords.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..8c164ec 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -211,7 +211,11 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
         for site in sites {
-            self.storage.remove_site(site, hmac_secret)?;
+            match self.storage.remove_site(site, hmac_secret) {
+                // Alias targets without passwords don't necessarily have an entry
+                Ok(()) | Err(Error::KeyMissing) => {}
+                Err(error) => return Err(error),
+            }
         }
         self.storage.flush()
     }
-- 
2.43.0


From 3e844153d9978b9cf2dccacefff18389a19948ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 6/8] fix: keep aliases single-step when their target becomes
 an alias

---
 pfp/src/passwords.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 8c164ec..83effef 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -179,8 +179,20 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
             return Err(Error::SiteHasPasswords);
         }
 
+        // Aliases of this site have to follow it, resolving aliases is a single step
+        let aliases = self
+            .storage
+            .list_sites(key)
+            .filter(|other| other.alias() == Some(site_normalized.as_str()))
+            .map(|other| other.name().to_string())
+            .collect::<Vec<String>>();
+
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+        for other in aliases {
+            self.storage
+                .set_alias(&other, &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 83948dec93fd3f592bacb4dff5e2f281c8f8d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 7/8] fix: refuse an alias whose target is an alias of the site
 itself

---
 pfp/src/passwords.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 83effef..b5b6b61 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -186,6 +186,9 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
             .filter(|other| other.alias() == Some(site_normalized.as_str()))
             .map(|other| other.name().to_string())
             .collect::<Vec<String>>();
+        if aliases.contains(&alias_resolved) {
+            return Err(Error::AliasToSelf);
+        }
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
-- 
2.43.0


From 1afbe5e5e5d2fb1254c4b3b5b2208dcc84d7650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 8/8] fix: list sites whose name starts with another www.

---
 cli/src/processor/list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..e8fed2d 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -57,7 +57,9 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let mut found = false;
         for site in sites {
-            let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
+            // Site names are normalized already, don't lose another "www." prefix
+            let site_query = "www.".to_string() + site.name();
+            let mut list = passwords.list(&site_query, name).collect::<Vec<Password>>();
             if list.is_empty() {
                 if name == "*" {
                     empty_sites.push(site.name().to_string());
@@ -96,7 +98,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                         .unwrap()
                         .write_all(
                             passwords
-                                .get(site.name(), &name, &revision)
+                                .get(&site_query, &name, &revision)
                                 .convert_error()?
                                 .expose_secret()
                                 .as_bytes(),
-- 
2.43.0

