From df6fb4de90d3b9564f903bc38140df943f949b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:09 +0000
Subject: [PATCH 1/5] fix: refuse on-disk rebases when there are staged changes

The check for uncommitted changes only asked Git about unstaged ones, so a
rebase was started with staged changes and stopped half-way through.
---
 git-branchless-lib/src/git/repo.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 387f5a2..af0bc22 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -34,7 +34,7 @@ use crate::git::config::{Config, ConfigRead};
 use crate::git::object::Blob;
 use crate::git::oid::{make_non_zero_oid, MaybeZeroOid, NonZeroOid};
 use crate::git::reference::ReferenceNameError;
-use crate::git::run::GitRunInfo;
+use crate::git::run::{GitRunInfo, GitRunOpts};
 use crate::git::tree::{dehydrate_tree, get_changed_paths_between_trees, hydrate_tree, Tree};
 use crate::git::{Branch, BranchType, Commit, Reference, ReferenceName};
 
@@ -975,9 +975,22 @@ impl Repo {
             )
             .map_err(Error::ExecGit)?
         {
-            Ok(()) => Ok(false),
-            Err(_exit_code) => Ok(true),
+            Ok(()) => {}
+            Err(_exit_code) => return Ok(true),
         }
+
+        let staged_changes = git_run_info
+            .run_silent(
+                self,
+                None,
+                &["diff", "--quiet", "--cached"],
+                GitRunOpts {
+                    treat_git_failure_as_error: false,
+                    stdin: None,
+                },
+            )
+            .map_err(Error::ExecGit)?;
+        Ok(!staged_changes.exit_code.is_success())
     }
 
     /// Returns the current status of the repo index and working copy.
-- 
2.43.0


From fae90ef797ff16d668deb9c558b66ac9d37a5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:09 +0000
Subject: [PATCH 2/5] fix: store the target of a symbolic link instead of the
 file it points to

Amending or taking a snapshot with a changed symbolic link recorded the contents
of the linked file as the link's target, or a deletion if the link was dangling.
---
 git-branchless-lib/src/git/repo.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index af0bc22..799315f 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1245,7 +1245,16 @@ impl Repo {
                 path: path.to_path_buf(),
             })?
             .join(path);
-        let contents = match std::fs::read(&path) {
+        let is_symlink = std::fs::symlink_metadata(&path)
+            .map(|metadata| metadata.file_type().is_symlink())
+            .unwrap_or(false);
+        let contents = if is_symlink {
+            // The blob for a symbolic link consists of the path it points to.
+            std::fs::read_link(&path).map(|target| Vec::from_path_lossy(&target).into_owned())
+        } else {
+            std::fs::read(&path)
+        };
+        let contents = match contents {
             Ok(contents) => contents,
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
             Err(err) => {
-- 
2.43.0


From 6c8e2cd72e1706521b671827555722ca3795882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:09 +0000
Subject: [PATCH 3/5] fix: keep deletions when fixing up a commit

Files deleted by the commit which was folded into another one reappeared in the
result.
---
 git-branchless-lib/src/git/repo.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index 799315f..be0389a 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1623,13 +1623,15 @@ impl Repo {
                 )?;
                 self.get_paths_touched_by_commit(commit)?
                     .iter()
-                    .filter_map(|path| match amended_tree.get_path(path) {
+                    .map(|path| match amended_tree.get_path(path) {
                         Ok(Some(entry)) => {
-                            Some((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
+                            Ok((path.clone(), Some((entry.get_oid(), entry.get_filemode()))))
                         }
-                        Ok(None) | Err(_) => None,
+                        // The path was deleted by the commit.
+                        Ok(None) => Ok((path.clone(), None)),
+                        Err(err) => Err(Error::ReadTree(err)),
                     })
-                    .collect::<HashMap<_, _>>()
+                    .collect::<Result<HashMap<_, _>>>()?
             }
         };
 
-- 
2.43.0


From 0e958fc42867f033abb097fcb25cdfdb89dc6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:10 +0000
Subject: [PATCH 4/5] fix: treat a changed file type as a modification

A file replaced with a symbolic link, or the reverse, was neither amended nor
stored in snapshots, so restoring a snapshot lost it.
---
 git-branchless-lib/src/git/status.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/status.rs b/git-branchless-lib/src/git/status.rs
index 72ba336..ac4378c 100644
--- a/git-branchless-lib/src/git/status.rs
+++ b/git-branchless-lib/src/git/status.rs
@@ -45,7 +45,9 @@ impl From<u8> for FileStatus {
     fn from(status: u8) -> Self {
         match status {
             b'.' => FileStatus::Unmodified,
-            b'M' => FileStatus::Modified,
+            // A change of the file's type (such as a file replaced with a
+            // symbolic link) is a modification, too.
+            b'M' | b'T' => FileStatus::Modified,
             b'A' => FileStatus::Added,
             b'D' => FileStatus::Deleted,
             b'R' => FileStatus::Renamed,
-- 
2.43.0


From 16d293a40a7ce992a4d3ad7d99942fdb23291276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:10 +0000
Subject: [PATCH 5/5] fix: skip header lines of the status output

A header line, such as the one for `status.showStash`, was looked at forever.
---
 git-branchless-lib/src/git/repo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/git-branchless-lib/src/git/repo.rs b/git-branchless-lib/src/git/repo.rs
index be0389a..6b88053 100644
--- a/git-branchless-lib/src/git/repo.rs
+++ b/git-branchless-lib/src/git/repo.rs
@@ -1045,7 +1045,13 @@ impl Repo {
                     line
                 }
                 // Skip header lines
-                b'#' => continue,
+                b'#' => {
+                    let _header_line = status_bytes
+                        .by_ref()
+                        .take_while(not_null_terminator)
+                        .collect_vec();
+                    continue;
+                }
                 _ => {
                     return Err(Error::UnknownStatusLinePrefix {
                         prefix: *line_prefix,
-- 
2.43.0

