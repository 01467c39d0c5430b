From 5e96ca3f53aba38b35e677390776bf90f9267fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:12 +0000
Subject: [PATCH 01/11] fix: accept ReaderAt that returns io.EOF with a full
 read

io.ReaderAt allows ReadAt to return either nil or io.EOF when the
requested range ends exactly at the end of the source. Applying a text
patch or a binary delta failed for sources that return io.EOF.
---
 gitdiff/apply_binary.go | 7 +++++--
 gitdiff/io.go           | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..cbea94e 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,8 +211,11 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
-		return 0, delta, err
+	if nr, err := src.ReadAt(b, offset); err != nil {
+		// ReadAt may return io.EOF with a full read at the end of the source
+		if err != io.EOF || int64(nr) != size {
+			return 0, delta, err
+		}
 	}
 
 	_, err = w.Write(b)
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..7ab30df 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,11 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	if nr, err := r.r.ReadAt(b, offset); err != nil {
+		// ReadAt may return io.EOF with a full read at the end of the source
+		if err == io.EOF && int64(nr) == size {
+			return b, offset, nil
+		}
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From ec9b85cfa3c7bf17479a37f746a6b22b604440df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 02/11] fix: return *ApplyError for copy failures in Apply

Apply documents that any error is an *ApplyError, but errors from
copying the trailing (or all) source content were returned unwrapped.
---
 gitdiff/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..2d21d52 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -117,7 +117,7 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
 			return err
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
 		frags := make([]*TextFragment, len(f.TextFragments))
@@ -137,11 +137,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 				return applyError(err, fragNum(i))
 			}
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	default:
 		// nothing to apply, just copy all the data
 		_, err := copyFrom(dst, src, 0)
-		return err
+		return applyError(err)
 	}
 }
-- 
2.43.0


From 87485429392e8240c5812b064c91100edf68b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 03/11] fix: place insertions without context after their
 position

A fragment with no old lines ("@@ -2,0 +3 @@", produced by -U0) adds
content after the line given by the old position, but it was inserted
before that line.
---
 gitdiff/apply_text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..d130571 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -65,7 +65,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 	}
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
+	// if a fragment has no old lines, the position is the line it follows
 	fragStart := f.OldPosition - 1
+	if f.OldLines == 0 {
+		fragStart = f.OldPosition
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 905d69af0ef9ab76ff1234c407020adc06435d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 04/11] fix: find the end of quoted names that end with a
 backslash

The closing quote of a name like "a\\" was taken for an escaped quote
because only the previous character was considered.
---
 gitdiff/file_header.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..761df3d 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -437,11 +437,18 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 
 func parseQuotedName(s string) (name string, n int, err error) {
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if s[n] == '\\' {
+			n++ // skip the escaped character
+			continue
+		}
+		if s[n] == '"' {
 			n++
 			break
 		}
 	}
+	if n > len(s) {
+		n = len(s) // name ends with an incomplete escape
+	}
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-- 
2.43.0


From 321bb9fcf3d25ac30c1a216583452f0e5ce486bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 05/11] fix: ignore negative similarity scores

Scores over 100 are ignored as invalid, but negative scores were stored
in the file.
---
 gitdiff/file_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 761df3d..829ec3c 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -375,7 +375,7 @@ func parseGitHeaderScore(f *File, line, defaultName string) error {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
 	}
-	if score <= 100 {
+	if 0 <= score && score <= 100 {
 		f.Score = int(score)
 	}
 	return nil
-- 
2.43.0


From a3d6afdfa60d08e2bb9426e509edb1500512845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:48 +0000
Subject: [PATCH 06/11] fix: report read errors after fragment header lines

ParseNextFileHeader ignores errors from ParseTextFragmentHeader because
the line may not be a header, but that includes errors from reading the
next line. If a later read succeeded, Parse silently skipped content.
Keep the first read error and return it from all later calls to Next.
---
 gitdiff/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..4782a32 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error
 	lineno int64
 	lines  [3]string
 }
@@ -96,11 +97,15 @@ func (p *parser) Next() error {
 	if p.eof {
 		return io.EOF
 	}
+	if p.err != nil {
+		return p.err
+	}
 
 	if p.lineno == 0 {
 		// on first call to next, need to shift in all lines
 		for i := 0; i < len(p.lines)-1; i++ {
 			if err := p.shiftLines(); err != nil && err != io.EOF {
+				p.err = err
 				return err
 			}
 		}
@@ -108,6 +113,7 @@ func (p *parser) Next() error {
 
 	err := p.shiftLines()
 	if err != nil && err != io.EOF {
+		p.err = err
 		return err
 	}
 
-- 
2.43.0


From 83e76c29bfb4cf1f06f64873ecd687a60ac7fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:49 +0000
Subject: [PATCH 07/11] fix: reject negative values in fragment ranges

Headers like "@@ --5,1 +1,-3 @@" parsed as fragments with negative
positions or line counts.
---
 gitdiff/text.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..fd1b6b0 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -171,12 +171,18 @@ func parseRange(s string) (start int64, end int64, err error) {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
 	}
+	if start < 0 {
+		return 0, 0, fmt.Errorf("bad start of range: %s: negative value", parts[0])
+	}
 
 	if len(parts) > 1 {
 		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
 			nerr := err.(*strconv.NumError)
 			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
 		}
+		if end < 0 {
+			return 0, 0, fmt.Errorf("bad end of range: %s: negative value", parts[1])
+		}
 	} else {
 		end = 1
 	}
-- 
2.43.0


From 4ce053fee9f5f7dfb3edbf226777f5bd622cceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 08/11] fix: reject negative file modes

A mode like "-644" parsed as a huge mode with arbitrary bits set.
---
 gitdiff/file_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 829ec3c..2a3aa5e 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -408,6 +408,9 @@ func parseMode(s string) (os.FileMode, error) {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
 	}
+	if mode < 0 {
+		return os.FileMode(0), fmt.Errorf("invalid mode line: negative value")
+	}
 	return os.FileMode(mode), nil
 }
 
-- 
2.43.0


From de1d5904a907a982d056f1abbebc8637557533dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 09/11] fix: reject deltas that declare a negative size

If the destination size of a delta overflowed to a negative value and
the delta had no operations, applying it succeeded without output.
---
 gitdiff/apply_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index cbea94e..3b60693 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -131,7 +131,7 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 		}
 	}
 
-	if dstLimit.limit > 0 {
+	if dstLimit.limit != 0 {
 		return errors.New("corrupt binary delta: insufficient data")
 	}
 	return nil
-- 
2.43.0


From d8f4d0fa43a3747e98b0f4503323d4acccd69207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 10/11] fix: do not panic when applying a file with nil text
 fragments

Apply sorts the fragments by position before applying them, which
dereferenced nil entries; applying a nil fragment is otherwise an error.
---
 gitdiff/apply.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index 2d21d52..93c4b4e 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -124,7 +124,12 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		copy(frags, f.TextFragments)
 
 		sort.Slice(frags, func(i, j int) bool {
-			return frags[i].OldPosition < frags[j].OldPosition
+			fi, fj := frags[i], frags[j]
+			if fi == nil || fj == nil {
+				// nil fragments sort first and are rejected when applied
+				return fi == nil && fj != nil
+			}
+			return fi.OldPosition < fj.OldPosition
 		})
 
 		// TODO(bkeyes): consider merging overlapping fragments
-- 
2.43.0


From bea7541078f66a1a0e49a84e517c6dfe617c41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 11/11] fix: report fragments with overflowing bounds as
 conflicts

---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index d130571..d16af23 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -74,7 +74,7 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 		fragStart = 0
 	}
 	if f.OldLines > math.MaxInt64-fragStart {
-		return applyError(errors.New("fragment bounds overflow"))
+		return applyError(&Conflict{"fragment bounds overflow"})
 	}
 	fragEnd := fragStart + f.OldLines
 
-- 
2.43.0

