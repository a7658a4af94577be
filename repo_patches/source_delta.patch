From 642e26867e2c0179a45ed57d1554d4358dcf766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 01/13] fix: print 1,000 and 1,000,000 with separator and unit
 like their neighbours

---
 internal/format/format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 98c3a5d..1510932 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -91,12 +91,12 @@ func Number(num int) string {
 		return ">99m"
 	}
 
-	if num > 1_000_000 {
+	if num >= 1_000_000 {
 		mils := float32(num) / 1_000_000
 		return fmt.Sprintf("%.1fm", mils)
 	}
 
-	if num > 1_000 {
+	if num >= 1_000 {
 		ones := num % 1_000
 		thousands := num / 1_000
 		return fmt.Sprintf("%d,%03d", thousands, ones)
-- 
2.43.0


From cdd5c95b3016a548511b936d81333d37920c92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 02/13] fix: pass the separator to git ls-files when there are
 paths to separate

---
 internal/git/cmd/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/git/cmd/cmd.go b/internal/git/cmd/cmd.go
index a6d5e35..d8fc43d 100644
--- a/internal/git/cmd/cmd.go
+++ b/internal/git/cmd/cmd.go
@@ -208,9 +208,9 @@ func RunLsFiles(ctx context.Context, pathspecs []string) (*Subprocess, error) {
 
 	var args []string
 	if len(pathspecs) > 0 {
-		args = slices.Concat(baseArgs, pathspecs)
-	} else {
 		args = slices.Concat(baseArgs, []string{"--"}, pathspecs)
+	} else {
+		args = baseArgs
 	}
 
 	needStdin := false
-- 
2.43.0


From e27f3698b1781dbfe5e9f4b5c40757731408f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 03/13] fix: take only 40 hexadecimal digits for a full hash

---
 internal/git/revision/revision.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/git/revision/revision.go b/internal/git/revision/revision.go
index 11675d9..080eb7f 100644
--- a/internal/git/revision/revision.go
+++ b/internal/git/revision/revision.go
@@ -7,13 +7,12 @@ import (
 var commitHashRegexp *regexp.Regexp
 
 func init() {
-	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]+$`)
+	commitHashRegexp = regexp.MustCompile(`^\^?[a-f0-9]{40}$`)
 }
 
 // Returns true if this is a (full-length) Git revision hash, false otherwise.
 //
 // We also need to handle a hash with "^" in front.
 func IsFullHash(s string) bool {
-	matched := commitHashRegexp.MatchString(s)
-	return matched && (len(s) == 40 || len(s) == 41)
+	return commitHashRegexp.MatchString(s)
 }
-- 
2.43.0


From f3a2a270a79cfa1c8008f5d8ca4024118d599e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 04/13] fix: respect hashes followed by a comment in the ignore
 revs file

---
 internal/git/config/files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/git/config/files.go b/internal/git/config/files.go
index bd7789c..0107bff 100644
--- a/internal/git/config/files.go
+++ b/internal/git/config/files.go
@@ -84,9 +84,11 @@ func (sf SupplementalFiles) IgnoreRevs() (_ []string, err error) {
 
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
-		line := strings.TrimSpace(scanner.Text())
+		// Comments starting with "#" are allowed in the ignore revs file, on
+		// their own line or after a hash
+		line, _, _ := strings.Cut(scanner.Text(), "#")
+		line = strings.TrimSpace(line)
 
-		// Comments starting with "#" are allowed in the ignore revs file
 		if rev.IsFullHash(line) {
 			revs = append(revs, line)
 		}
-- 
2.43.0


From b4e02d552bf51d21f498589b9b8438a573e3eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:24 +0000
Subject: [PATCH 05/13] fix: count no files for an author whose counted commits
 change none

---
 internal/tally/tally.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tally/tally.go b/internal/tally/tally.go
index 6125247..1e7138f 100644
--- a/internal/tally/tally.go
+++ b/internal/tally/tally.go
@@ -139,7 +139,7 @@ func (t Tally) Final() FinalTally {
 	}
 
 	files := t.numTallied // Not using fileset? Fallback to numTallied
-	if len(t.fileset) > 0 {
+	if t.fileset != nil {
 		files = len(t.fileset)
 	}
 
-- 
2.43.0


From a83393a918cd861b42e835a813ea16cdbf6d0097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 06/13] fix: do not crash drawing the timeline of an empty
 history

---
 internal/concurrent/concurrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 02a55c1..6b99b8a 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -455,6 +455,10 @@ func TallyCommitsTimeline(
 		return nil, err
 	}
 
+	if len(buckets) == 0 {
+		return buckets, nil
+	}
+
 	if end.IsZero() {
 		end = buckets[len(buckets)-1].Time
 	}
-- 
2.43.0


From 41328cd627fcfd50b8bdb6823f02626daa24af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:28 +0000
Subject: [PATCH 07/13] fix: keep the error of a failed tally when git itself
 exits cleanly

---
 internal/subcommands/hist.go  | 6 +++++-
 internal/subcommands/table.go | 6 +++++-
 internal/subcommands/tree.go  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/subcommands/hist.go b/internal/subcommands/hist.go
index 3c34db9..a010dac 100644
--- a/internal/subcommands/hist.go
+++ b/internal/subcommands/hist.go
@@ -120,7 +120,11 @@ func Hist(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			buckets, err := tally.TallyCommitsTimeline(
 				commits,
diff --git a/internal/subcommands/table.go b/internal/subcommands/table.go
index 874a10f..3fbe81e 100644
--- a/internal/subcommands/table.go
+++ b/internal/subcommands/table.go
@@ -136,7 +136,11 @@ func Table(
 				populateDiffs,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			tallies, err = tally.TallyCommits(commits, tallyOpts)
 			return err
diff --git a/internal/subcommands/tree.go b/internal/subcommands/tree.go
index 8a6d476..9b45edc 100644
--- a/internal/subcommands/tree.go
+++ b/internal/subcommands/tree.go
@@ -151,7 +151,11 @@ func Tree(
 				true,
 				configFiles,
 			)
-			defer func() { err = finish() }()
+			defer func() {
+				if finishErr := finish(); finishErr != nil {
+					err = finishErr
+				}
+			}()
 
 			root, err := tally.TallyCommitsTree(
 				commits,
-- 
2.43.0


From ef1f5070a776fd7f0b91c6e3cb53d9901ed602bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:29 +0000
Subject: [PATCH 08/13] fix: do not lose a worker error that arrives as the
 results end

---
 internal/concurrent/concurrent.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/concurrent/concurrent.go b/internal/concurrent/concurrent.go
index 6b99b8a..07f8a62 100644
--- a/internal/concurrent/concurrent.go
+++ b/internal/concurrent/concurrent.go
@@ -315,6 +315,17 @@ loop:
 		fmt.Printf("%s\r", pretty.EraseLine)
 	}
 
+	// The errs channel is closed before the results channel, but it might still
+	// hold the error of a worker if we saw the results channel close first
+	for err := range errs {
+		if err != nil {
+			return accumulator, fmt.Errorf(
+				"concurrent tally failed: %w",
+				err,
+			)
+		}
+	}
+
 	// Check if there was a caching error (and wait for cacher to exit)
 	// We have to do this here in addition to above in case there is a caching
 	// error after the last chunk of work is handled.
-- 
2.43.0


From e49769e70f589db4e6e6621b69dd53aad0b8d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 09/13] fix: keep the cache directory usable after wiping a
 corrupt cache

---
 internal/cache/backends/gob.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 67b8fc9..2ad28ac 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -245,7 +245,8 @@ func (b *GobBackend) Clear() error {
 		return err
 	}
 
-	return nil
+	// Still needed if commits are added later
+	return os.MkdirAll(b.Dir, 0o700)
 }
 
 func GobCacheDir(prefix string, gitRootPath string) string {
-- 
2.43.0


From 9b7780014eb31c9c6c55db20dd6d23f464c28349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:33 +0000
Subject: [PATCH 10/13] fix: report a truncated cache frame however the file is
 read

---
 internal/cache/backends/gob.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cache/backends/gob.go b/internal/cache/backends/gob.go
index 2ad28ac..fa0389b 100644
--- a/internal/cache/backends/gob.go
+++ b/internal/cache/backends/gob.go
@@ -134,7 +134,7 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 		for {
 			// -- Find length of next gob in bytes --
 			prefix := make([]byte, 4)
-			_, err := f.Read(prefix)
+			_, err := io.ReadFull(f, prefix)
 			if err == io.EOF {
 				return
 			} else if err != nil {
@@ -157,7 +157,11 @@ func (b *GobBackend) Get(revs []string) (iter.Seq[git.Commit], func() error) {
 			var commits []git.Commit
 
 			data := make([]byte, size)
-			_, err = f.Read(data)
+			_, err = io.ReadFull(f, data)
+			if err != nil {
+				iterErr = err
+				return
+			}
 
 			dec := gob.NewDecoder(bytes.NewReader(data))
 			err = dec.Decode(&commits)
-- 
2.43.0


From 490709c14ffecde23a4e5ae25a8df8080c5ca3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:35 +0000
Subject: [PATCH 11/13] fix: do not take a renamed file named like a hash for
 the next commit

---
 internal/git/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/git/parse.go b/internal/git/parse.go
index 4efc7da..d45c9d8 100644
--- a/internal/git/parse.go
+++ b/internal/git/parse.go
@@ -65,7 +65,9 @@ func ParseCommits(lines iter.Seq[string]) (iter.Seq[Commit], func() error) {
 		linesThisCommit := 0
 
 		for line := range lines {
-			done := linesThisCommit >= 6 && (len(line) == 0 || rev.IsFullHash(line))
+			// The second and third lines of a rename are always paths
+			done := linesThisCommit >= 6 && diff == nil &&
+				(len(line) == 0 || rev.IsFullHash(line))
 			if done {
 				if allowCommit(commit, now) {
 					if !yield(commit) {
-- 
2.43.0


From b68cda8cadb9ef44150657bd31d552406bc2d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:25 +0000
Subject: [PATCH 12/13] fix: do not loop forever over a day that has no
 midnight

---
 internal/tally/bucket.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/tally/bucket.go b/internal/tally/bucket.go
index 72416e4..d5ee56c 100644
--- a/internal/tally/bucket.go
+++ b/internal/tally/bucket.go
@@ -126,9 +126,25 @@ type Resolution struct {
 	next  func(time.Time) time.Time
 }
 
+// The first moment of a day. This is not midnight on a day when clocks go
+// forward at midnight; time.Date() may then return a time on the day before.
+func startOfDay(year int, month time.Month, day int) time.Time {
+	t := time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	want := time.Date(year, month, day, 0, 0, 0, 0, time.UTC)
+
+	for {
+		y, m, d := t.Date()
+		if !time.Date(y, m, d, 0, 0, 0, 0, time.UTC).Before(want) {
+			return t
+		}
+
+		t = t.Add(time.Hour)
+	}
+}
+
 func applyDaily(t time.Time) time.Time {
 	year, month, day := t.Date()
-	return time.Date(year, month, day, 0, 0, 0, 0, time.Local)
+	return startOfDay(year, month, day)
 }
 
 var daily = Resolution{
@@ -136,7 +152,7 @@ var daily = Resolution{
 	next: func(t time.Time) time.Time {
 		t = applyDaily(t)
 		year, month, day := t.Date()
-		return time.Date(year, month, day+1, 0, 0, 0, 0, time.Local)
+		return startOfDay(year, month, day+1)
 	},
 	label: func(t time.Time) string {
 		return applyDaily(t).Format(time.DateOnly)
@@ -152,14 +168,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Yearly buckets
 		apply := func(t time.Time) time.Time {
 			year, _, _ := t.Date()
-			return time.Date(year, 1, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, 1, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, _, _ := t.Date()
-				return time.Date(year+1, 1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year+1, 1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("2006")
@@ -169,14 +185,14 @@ func CalcResolution(start time.Time, end time.Time) Resolution {
 		// Monthly buckets
 		apply := func(t time.Time) time.Time {
 			year, month, _ := t.Date()
-			return time.Date(year, month, 1, 0, 0, 0, 0, time.Local)
+			return startOfDay(year, month, 1)
 		}
 		return Resolution{
 			apply: apply,
 			next: func(t time.Time) time.Time {
 				t = apply(t)
 				year, month, _ := t.Date()
-				return time.Date(year, month+1, 1, 0, 0, 0, 0, time.Local)
+				return startOfDay(year, month+1, 1)
 			},
 			label: func(t time.Time) string {
 				return apply(t).Format("Jan 2006")
-- 
2.43.0


From 593927efe8220d6fbc333b1597936988a699f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:11 +0000
Subject: [PATCH 13/13] fix: report an error reading git's output in a worker

Both deferred calls used the variable of the second finish function, so a
scanner error (such as a token too long) was lost and partial totals printed.
---
 internal/concurrent/worker.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/concurrent/worker.go b/internal/concurrent/worker.go
index a51908c..3393657 100644
--- a/internal/concurrent/worker.go
+++ b/internal/concurrent/worker.go
@@ -215,11 +215,11 @@ loop:
 			result, err := func() (_ T, err error) {
 				var result T
 
-				lines, finish := subprocess.StdoutNullDelimitedLines()
-				defer func() { err = errors.Join(err, finish()) }()
+				lines, finishLines := subprocess.StdoutNullDelimitedLines()
+				defer func() { err = errors.Join(err, finishLines()) }()
 
-				commits, finish := git.ParseCommits(lines)
-				defer func() { err = errors.Join(err, finish()) }()
+				commits, finishCommits := git.ParseCommits(lines)
+				defer func() { err = errors.Join(err, finishCommits()) }()
 
 				commits = cacheTee(commits, toCache)
 
-- 
2.43.0

