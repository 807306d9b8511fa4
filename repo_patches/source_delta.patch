From ee69e139d689f91abd233177e1dbcfee5eb43bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 01/45] fix: WriteBoardArticleFile truncates the article before
 writing

A shorter rewrite used to leave the tail of the previous content behind.
---
 pttbbs/pttbbs_write_article_connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index f1ae447..ed81b21 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -50,7 +50,7 @@ func (c *Connector) NewArticleRecord(filename, owner, date, title string) (bbs.A
 
 func (c *Connector) WriteBoardArticleFile(path string, content []byte) error {
 
-	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return fmt.Errorf("openfile: %w", err)
 
-- 
2.43.0


From 957710676701725276910f16cceba995a25f3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 02/45] fix: keep filemode, money, anonymous uid and vote
 limits when writing an article record

Updating an article record used to reset them to zero in .DIR.
---
 pttbbs/file.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index 98c5931..b9bfe0d 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -238,7 +238,18 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	copy(ret[PosOfFileHeaderDate:PosOfFileHeaderDate+6], f.date)
 	copy(ret[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], utf8ToBig5UAOString(f.title))
 
-	// TODO: Check file mode for set Money or AnnoUID ... etc
+	switch {
+	case f.IsVotePost():
+		ret[PosOfFileHeaderUnionMulti+0] = f.VoteLimits.Posts
+		ret[PosOfFileHeaderUnionMulti+1] = f.VoteLimits.Logins
+		ret[PosOfFileHeaderUnionMulti+2] = f.VoteLimits.Regtime
+		ret[PosOfFileHeaderUnionMulti+3] = f.VoteLimits.Badpost
+	case f.Filemode&FileAnonymous != 0:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.AnnoUID))
+	default:
+		binary.LittleEndian.PutUint32(ret[PosOfFileHeaderUnionMulti:PosOfFileHeaderUnionMulti+4], uint32(f.money))
+	}
+	ret[PosOfFileHeaderFilemode] = f.Filemode
 
 	return ret, nil
 }
-- 
2.43.0


From 2eb680144374d80a9bbf5474a40ca993b6c6857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 03/45] fix: refuse to remove a board record which does not
 exist

An index past the end of .BRD used to grow the file with blank records.
---
 pttbbs/board.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 4c6b1ea..a7df5fb 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -245,6 +245,14 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 	}
 	defer fo.Close()
 
+	stat, err := fi.Stat()
+	if err != nil {
+		return fmt.Errorf("fi.Stat error: %v", err)
+	}
+	if index < 0 || int64(index) >= stat.Size()/BoardHeaderRecordLength {
+		return fmt.Errorf("board record index %d out of range", index)
+	}
+
 	_, err = fi.Seek(int64((index+1)*BoardHeaderRecordLength), os.SEEK_SET)
 	if err != nil {
 		return fmt.Errorf("fi.Seek error: %v", err)
-- 
2.43.0


From a0b8892d0d847b5a0c8516502815fe336294ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 04/45] fix: refuse to update an article record which does not
 exist

An index past the end of .DIR used to grow the file with blank records.
---
 pttbbs/file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index b9bfe0d..eefce31 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -29,6 +29,7 @@ package pttbbs
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -181,6 +182,14 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 		return err
 	}
 
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if uint64(index) >= uint64(stat.Size()/128) {
+		return fmt.Errorf("article record index %d out of range", index)
+	}
+
 	_, err = f.Seek(int64(index)*128, os.SEEK_SET)
 	if err != nil {
 		return err
-- 
2.43.0


From 9d7be9f486ad58bddf0dd9325cad1911438e3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 05/45] fix: text fields of records end at their first NUL

Trimming NULs at both ends kept whatever a previous, longer value had left
behind the terminator, eg. a deleted article was named
".deleted\\x001234.A.ABC".
---
 formosabbs/file.go | 7 +++----
 pttbbs/board.go    | 2 +-
 pttbbs/file.go     | 9 ++++-----
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 3933660..907083d 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -3,7 +3,6 @@ package bbs
 import (
 	"github.com/Ptt-official-app/go-bbs"
 
-	"bytes"
 	"encoding/binary"
 	"io"
 	"log"
@@ -73,16 +72,16 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.Filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+44], "\x00"))
+	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	// log.Println("modifiedInt:", modifiedInt, PosOfModified)
 	ret.Modified = time.Unix(int64(modifiedInt), 0)
 
 	// ret.Recommend = int8(data[PosOfRecommend])
-	ret.Owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+72], "\x00"))
+	ret.Owner = bbs.CstrToString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+72])
 	// ret.Date = string(bytes.Trim(data[PosOfDate:PosOfDate+6], "\x00"))
-	ret.Title = bbs.Big5ToUtf8(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+67], "\x00"))
+	ret.Title = bbs.Big5ToUtf8(bbs.CstrToBytes(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+67]))
 	// // log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	// ret.Money = int(binary.LittleEndian.Uint32(data[PosOfUnionMulti : PosOfUnionMulti+4]))
diff --git a/pttbbs/board.go b/pttbbs/board.go
index a7df5fb..2bedf4a 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -283,7 +283,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
 	ret.title = big5uaoToUTF8String(bytes.Split(data[PosOfBoardTitle:PosOfBoardTitle+BoardTitleLength+1], []byte("\x00"))[0]) // Be careful about C-string end char \0
-	ret.bm = string(bytes.Trim(data[PosOfBM:PosOfBM+IDLength*3+3], "\x00"))
+	ret.bm = newStringFormCString(data[PosOfBM : PosOfBM+IDLength*3+3])
 	ret.Brdattr = binary.LittleEndian.Uint32(data[PosOfBrdAttr : PosOfBrdAttr+4])
 	ret.VoteLimitPosts = uint8(data[PosOfVoteLimitPosts])
 	ret.VoteLimitLogins = uint8(data[PosOfVoteLimitLogins])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index eefce31..41551b6 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -27,7 +27,6 @@
 package pttbbs
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -208,15 +207,15 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
 	ret := FileHeader{}
-	ret.filename = string(bytes.Trim(data[PosOfFileHeaderFilename:+PosOfFileHeaderFilename+FileNameLength], "\x00"))
+	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
 	modifiedInt := binary.LittleEndian.Uint32(data[PosOfFileHeaderModified : PosOfFileHeaderModified+4])
 	ret.modified = time.Unix(int64(modifiedInt), 0)
 
 	ret.recommend = int8(data[PosOfFileHeaderRecommend])
-	ret.owner = string(bytes.Trim(data[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], "\x00"))
-	ret.date = string(bytes.Trim(data[PosOfFileHeaderDate:PosOfFileHeaderDate+6], "\x00"))
-	ret.title = big5uaoToUTF8String(bytes.Trim(data[PosOfFileHeaderTitle:PosOfFileHeaderTitle+TitleLength+1], "\x00"))
+	ret.owner = newStringFormCString(data[PosOfFileHeaderOwner : PosOfFileHeaderOwner+IDLength+2])
+	ret.date = newStringFormCString(data[PosOfFileHeaderDate : PosOfFileHeaderDate+6])
+	ret.title = newStringFormBig5UAOCString(data[PosOfFileHeaderTitle : PosOfFileHeaderTitle+TitleLength+1])
 	// log.Println("PosOfUnionMulti:", PosOfUnionMulti, data[PosOfUnionMulti])
 
 	ret.money = int(binary.LittleEndian.Uint32(data[PosOfFileHeaderUnionMulti : PosOfFileHeaderUnionMulti+4]))
-- 
2.43.0


From 42af7d8d9d60b5474a3918f1dcfe93e44f09ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 06/45] fix: keep all eight post type flags of a board

posttype_f is a bit mask, decoding it as Big5 lost its highest bit.
---
 pttbbs/board.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 2bedf4a..7c8e5bc 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -311,7 +311,7 @@ func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
 	endGamble := binary.LittleEndian.Uint32(data[PosOfEndGamble : PosOfEndGamble+4])
 	ret.EndGamble = time.Unix(int64(endGamble), 0)
 	ret.PostType = big5uaoToUTF8String(bytes.Trim(data[PosOfPostType:PosOfPostType+33], "\x00"))
-	ret.PostTypeF = big5uaoToUTF8String(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
+	ret.PostTypeF = string(bytes.Trim(data[PosOfPostTypeF:PosOfPostTypeF+1], "\x00"))
 
 	ret.FastRecommendPause = uint8(data[PosOfFastRecommendPause])
 	ret.VoteLimitBadPost = uint8(data[PosOfVoteLimitBadPost])
@@ -358,7 +358,7 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
 	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
-	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], utf8ToBig5UAOString(b.PostTypeF))
+	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
-- 
2.43.0


From 2961eb9e237e91fc3d3d71d40f4b0bb5df8352d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 07/45] fix: an unreadable logins.recent is an error, not the
 end of the process

A line over 64 KiB reached log.Fatal. Also close the file.
---
 pttbbs/login_recent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pttbbs/login_recent.go b/pttbbs/login_recent.go
index 6a6d677..815aaa7 100644
--- a/pttbbs/login_recent.go
+++ b/pttbbs/login_recent.go
@@ -35,6 +35,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*LoginRecentRecord{}
 
@@ -51,7 +52,7 @@ func OpenLoginRecentFile(filename string) ([]*LoginRecentRecord, error) {
 	}
 
 	if err := scanner.Err(); err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 
 	return ret, nil
-- 
2.43.0


From 4345ece09f075aecf0c15ed828696c5851b84a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 08/45] fix: malformed logins.bad lines are an error instead of
 a panic

Blank and cut-off lines indexed past the end of the text, and a line too long
for the scanner silently dropped itself and every later line. Also close the
file.
---
 pttbbs/bad_logins.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 9f3cf12..023fa2d 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -89,6 +89,7 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	var ret []*LoginAttempt
 
@@ -102,6 +103,9 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 		}
 		ret = append(ret, a)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
@@ -109,8 +113,15 @@ func OpenBadLoginFile(filename string) ([]*LoginAttempt, error) {
 func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	str := string(text)
 
+	if len(str) == 0 {
+		return ErrInvalidLoginsBadFormat
+	}
+
 	idx := 0 // current index of str
 	// Handle Success and UserID
+	if str[idx] != '[' && len(str) < 1+UserIDLength {
+		return ErrInvalidLoginsBadFormat
+	}
 	switch str[idx] {
 	case ' ':
 		idx++
@@ -132,6 +143,9 @@ func (l *LoginAttempt) UnmarshalText(text []byte) error {
 	}
 	l.UserID = strings.TrimSpace(l.UserID)
 	// Now idx points to the start of time
+	if len(str) < idx+len(loginStartTimeFormatString)+1 {
+		return ErrInvalidLoginsBadFormat
+	}
 	// TODO: do we need to consider timezone? This Parse returns UTC
 	t, err := time.Parse(loginStartTimeFormatString, str[idx:idx+len(loginStartTimeFormatString)])
 	if err != nil {
-- 
2.43.0


From 0d93884da23efe5cbb52948cfcdfa8f69d6f3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 09/45] fix: record files yield complete records only, and read
 errors are reported

A read error other than EOF (eg. the name is a directory) looped for ever, a
cut-off record at the end was returned as a zero-padded one, and most readers
leaked the file descriptor.
---
 formosabbs/file.go | 8 ++++++--
 pttbbs/board.go    | 8 ++++++--
 pttbbs/file.go     | 7 +++++--
 pttbbs/passwd.go   | 8 ++++++--
 pttbbs/userinfo.go | 5 +++--
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index 907083d..c0f1bb1 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -45,16 +45,20 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*FileHeader{}
 
 	for {
 		hdr := make([]byte, 248)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFomosaBBSFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/board.go b/pttbbs/board.go
index 7c8e5bc..db93c1b 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -174,16 +174,20 @@ func OpenBoardHeaderFile(filename string) ([]*BoardHeader, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*BoardHeader{}
 
 	for {
 		hdr := make([]byte, BoardHeaderRecordLength)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalBoardHeader(hdr)
 		if err != nil {
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 41551b6..97195c4 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -113,11 +113,14 @@ func OpenFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 	for {
 		hdr := make([]byte, 128)
-		_, err := file.Read(hdr)
+		_, err := io.ReadFull(file, hdr)
 		// log.Println(len, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := NewFileHeaderWithByte(hdr)
 		if err != nil {
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index e0a365e..6c8da0d 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -206,16 +206,20 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*Userec{}
 
 	for {
 		buf := make([]byte, 512)
-		_, err := file.Read(buf)
+		_, err := io.ReadFull(file, buf)
 		// log.Println(len, buf, err)
-		if err == io.EOF {
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		f, err := UnmarshalUserec(buf)
 		if err != nil {
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 156452a..ab8ed8f 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -143,14 +143,15 @@ func OpenUserInfoCache(filename string) ([]*UserInfoCache, error) {
 		log.Println(err)
 		return nil, err
 	}
+	defer file.Close()
 
 	ret := []*UserInfoCache{}
 
 	for {
 		buf := make([]byte, 3484)
 
-		_, err := file.Read(buf)
-		if err == io.EOF {
+		_, err := io.ReadFull(file, buf)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
 			break
 		} else if err != nil {
 			log.Println(err)
-- 
2.43.0


From 4da183529b4f9265cca2dd06ae331746865b5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/45] fix: a record appended after a torn one starts on a
 record boundary

After a crash in the middle of an append, every later record was misaligned.
---
 pttbbs/board.go | 18 ++++++++++++++++++
 pttbbs/file.go  |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index db93c1b..46559be 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -221,6 +221,10 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 		return err
 	}
 
+	if err := dropTornRecord(f, BoardHeaderRecordLength); err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
@@ -229,6 +233,20 @@ func AppendBoardHeaderFileRecord(filename string, newBoardHeader *BoardHeader) e
 	return nil
 }
 
+// dropTornRecord cuts off the incomplete record a crashed writer may have left at
+// the end of f, so the next record starts at a multiple of recordLength. This is
+// what append_record in pttbbs does too.
+func dropTornRecord(f *os.File, recordLength int64) error {
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if torn := stat.Size() % recordLength; torn != 0 {
+		return f.Truncate(stat.Size() - torn)
+	}
+	return nil
+}
+
 func RemoveBoardHeaderFileRecord(filename string, index int) error {
 
 	fi, err := os.OpenFile(filename, os.O_RDONLY, 0644)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 97195c4..59630e4 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -155,6 +155,10 @@ func AppendFileHeaderFileRecord(filename string, newFileHeader *FileHeader) erro
 		return err
 	}
 
+	if err := dropTornRecord(f, 128); err != nil {
+		return err
+	}
+
 	if _, err := f.Write(data); err != nil {
 		return err
 	}
-- 
2.43.0


From 1a1429e2a5d1f3356cc2f985a1509f7feedfe8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 11/45] fix: a favorite which refers to a missing board no
 longer panics

---
 pttbbs/pttbbs.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index c979d26..6fb9ab9 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -84,8 +84,12 @@ func appendBoardID(folder *FavFolder, brd []*BoardHeader) {
 
 		switch item.Item.(type) {
 		case *FavBoardItem:
-			bid := item.Item.(*FavBoardItem).BoardID - 1
-			item.Item.(*FavBoardItem).boardID = brd[bid].BrdName
+			bid := item.Item.(*FavBoardItem).BoardID
+			if bid < 1 || uint64(bid) > uint64(len(brd)) {
+				// The board is gone
+				continue
+			}
+			item.Item.(*FavBoardItem).boardID = brd[bid-1].BrdName
 		case *FavFolderItem:
 			appendBoardID(item.Item.(*FavFolderItem).ThisFolder, brd)
 		case *FavLineItem:
-- 
2.43.0


From b22ad04c75318d9d5e9f82592a6abb4fafd2facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 12/45] fix: an empty favorite file is an error instead of a
 panic

---
 pttbbs/fav.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index dbbe4d1..386ec64 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -204,6 +204,9 @@ func OpenFavFile(filename string) (*FavFile, error) {
 func UnmarshalFavFile(data []byte) (*FavFile, error) {
 	ret := &FavFile{}
 	size := 2
+	if len(data) < size {
+		return nil, ErrIndexOutOfBound
+	}
 	ret.Version = binary.LittleEndian.Uint16(data[0:size])
 
 	var err error
-- 
2.43.0


From becc86161d5c705503b1276d2473db96455ef023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 13/45] fix: the item count of a favorite folder does not wrap
 at 65536

---
 pttbbs/fav.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 386ec64..911ba1d 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -249,13 +249,13 @@ func UnmarshalFavFolder(data []byte, startIndex int) (*FavFolder, int, error) {
 	ret.LineID = 0
 	ret.FolderID = 0
 
-	itemCount := ret.DataTail
+	itemCount := int(ret.NBoards) + int(ret.NLines) + int(ret.NFolders)
 	ret.FavItems = make([]*FavItem, itemCount)
 	var err error
 
 	// There are itemCount items, parse and insert them one by one
 	for itemCount > 0 {
-		n := len(ret.FavItems) - int(itemCount) // calculate index
+		n := len(ret.FavItems) - itemCount // calculate index
 		ret.FavItems[n], c, err = UnmarshalFavItem(data, c)
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From 6a6c639b678cf64bb61d651a4a48e725df3ca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 14/45] fix: keep the role of a user when writing the account
 record

---
 pttbbs/passwd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 6c8da0d..feb4a2f 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -347,6 +347,7 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
-- 
2.43.0


From 3c1816e0ebfa11ab513e20015f9e30cd27bfaf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 15/45] fix: verifying against an invalid password hash is an
 error instead of a panic

Vacated accounts have an empty hash, and the salt of a damaged one may not be
ASCII.
---
 crypt/bbscrypt.go | 4 ++++
 pttbbs/passwd.go  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypt/bbscrypt.go b/crypt/bbscrypt.go
index a0a02f4..81c0ecf 100644
--- a/crypt/bbscrypt.go
+++ b/crypt/bbscrypt.go
@@ -17,6 +17,10 @@ var (
 //	[]byte: encrypted passwd, should be the same as salt if salt is the expected-passwd-hash.
 //  error: err
 func Fcrypt(key []byte, salt []byte) ([]byte, error) {
+	// crypt(3) defines the salt on ASCII only
+	if len(salt) < 2 || salt[0] >= 0x80 || salt[1] >= 0x80 {
+		return nil, ErrInvalidCrypt
+	}
 	passwdHash := [PASSLEN]byte{}
 	cFcrypt(key, salt, &passwdHash)
 	return passwdHash[:], nil
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index feb4a2f..a955a07 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -154,7 +154,7 @@ func (u *Userec) HashedPassword() string {
 // VerifyPassword will check user's password is OK. it will return null
 // when OK and error when there are something wrong
 func (u *Userec) VerifyPassword(password string) error {
-	res, err := crypt.Fcrypt([]byte(password), []byte(u.password[:2]))
+	res, err := crypt.Fcrypt([]byte(password), []byte(u.password))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 89c67b85e96eafc9e3661fb89ec2d95322450346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 16/45] fix: a time which was never set is stored as 0

The zero Time used to be stored as a date in 2042, eg. in every new board and
every new article.
---
 pttbbs/board.go    | 10 +++++-----
 pttbbs/encoding.go | 10 ++++++++++
 pttbbs/fav.go      |  2 +-
 pttbbs/file.go     |  2 +-
 pttbbs/passwd.go   | 16 ++++++++--------
 pttbbs/userinfo.go |  4 ++--
 6 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 46559be..86efef2 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -354,13 +354,13 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 	ret[PosOfVoteLimitPosts] = b.VoteLimitPosts
 	ret[PosOfVoteLimitLogins] = b.VoteLimitLogins
 	copy(ret[PosOfChessCountry:PosOfChessCountry+1], b.ChessCountry)
-	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], uint32(b.BUpdate.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfBUpdate:PosOfBUpdate+4], timeToTime4T(b.BUpdate))
 	ret[PosOfPostLimitPosts] = b.PostLimitPosts
 	ret[PosOfPostLimitLogins] = b.PostLimitLogins
 	ret[PosOfBVote] = b.BVote
-	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], uint32(b.VTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfVTime:PosOfVTime+4], timeToTime4T(b.VTime))
 	binary.LittleEndian.PutUint32(ret[PosOfLevel:PosOfLevel+4], b.Level)
-	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], uint32(b.PermReload.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPermReload:PosOfPermReload+4], timeToTime4T(b.PermReload))
 	binary.LittleEndian.PutUint32(ret[PosOfGid:PosOfGid+4], uint32(b.Gid))
 
 	if len(b.Next) == 2 {
@@ -378,14 +378,14 @@ func (b *BoardHeader) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint32(ret[PosOfNuser:PosOfNuser+4], uint32(b.Nuser))
 	binary.LittleEndian.PutUint32(ret[PosOfPostExpire:PosOfPostExpire+4], uint32(b.PostExpire))
-	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], uint32(b.EndGamble.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfEndGamble:PosOfEndGamble+4], timeToTime4T(b.EndGamble))
 	copy(ret[PosOfPostType:PosOfPostType+33], utf8ToBig5UAOString(b.PostType))
 	copy(ret[PosOfPostTypeF:PosOfPostTypeF+1], b.PostTypeF)
 
 	ret[PosOfFastRecommendPause] = b.FastRecommendPause
 	ret[PosOfVoteLimitBadPost] = b.VoteLimitBadPost
 	ret[PosOfPostLimitBadPost] = b.PostLimitBadPost
-	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], uint32(b.SRexpire.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfSRExpire:PosOfSRExpire+4], timeToTime4T(b.SRexpire))
 
 	return ret, nil
 
diff --git a/pttbbs/encoding.go b/pttbbs/encoding.go
index 80d9ca4..06073c2 100644
--- a/pttbbs/encoding.go
+++ b/pttbbs/encoding.go
@@ -1,9 +1,19 @@
 package pttbbs
 
 import (
+	"time"
+
 	"github.com/Ptt-official-app/go-bbs"
 )
 
+// timeToTime4T returns t as time4_t, the zero Time ("never") is 0 in it
+func timeToTime4T(t time.Time) uint32 {
+	if t.IsZero() {
+		return 0
+	}
+	return uint32(t.Unix())
+}
+
 func big5uaoToUTF8String(b []byte) string {
 	return bbs.Big5ToUtf8(b)
 }
diff --git a/pttbbs/fav.go b/pttbbs/fav.go
index 911ba1d..ab56490 100644
--- a/pttbbs/fav.go
+++ b/pttbbs/fav.go
@@ -454,7 +454,7 @@ func (favbi *FavBoardItem) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.BoardID)
 	c += size
 
-	binary.LittleEndian.PutUint32(ret[c:c+size], uint32(favbi.LastVisit.Unix()))
+	binary.LittleEndian.PutUint32(ret[c:c+size], timeToTime4T(favbi.LastVisit))
 	c += size
 
 	binary.LittleEndian.PutUint32(ret[c:c+size], favbi.Attr)
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 59630e4..cdacd53 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -246,7 +246,7 @@ func (f *FileHeader) MarshalToByte() ([]byte, error) {
 	ret := make([]byte, 128)
 
 	copy(ret[PosOfFileHeaderFilename:PosOfFileHeaderFilename+FileNameLength], f.filename)
-	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], uint32(f.modified.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfFileHeaderModified:PosOfFileHeaderModified+4], timeToTime4T(f.modified))
 
 	ret[PosOfFileHeaderRecommend] = byte(f.recommend)
 	copy(ret[PosOfFileHeaderOwner:PosOfFileHeaderOwner+IDLength+2], f.owner)
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index a955a07..14e1cce 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -319,8 +319,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdUserLevel:PosOfPasswdUserLevel+4], u.UserLevel)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumLoginDays:PosOfPasswdNumLoginDays+4], u.numLoginDays)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdNumPosts:PosOfPasswdNumPosts+4], u.numPosts)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], uint32(u.firstLogin.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], uint32(u.lastLogin.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdFirstLogin:PosOfPasswdFirstLogin+4], timeToTime4T(u.firstLogin))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastLogin:PosOfPasswdLastLogin+4], timeToTime4T(u.lastLogin))
 	copy(ret[PosOfPasswdLastHost:PosOfPasswdLastHost+IPV4Length+1], utf8ToBig5UAOString(u.lastHost))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdMoney:PosOfPasswdMoney+4], uint32(u.money))
 
@@ -348,11 +348,11 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 	copy(ret[PosOfPasswdCareer:PosOfPasswdCareer+CareerSize], utf8ToBig5UAOString(u.Career))
 
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdRole:PosOfPasswdRole+4], u.Role)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], uint32(u.LastSeen.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], uint32(u.TimeSetAngel.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], uint32(u.TimePlayAngel.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSeen:PosOfPasswdLastSeen+4], timeToTime4T(u.LastSeen))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeSetAngel:PosOfPasswdTimeSetAngel+4], timeToTime4T(u.TimeSetAngel))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimePlayAngel:PosOfPasswdTimePlayAngel+4], timeToTime4T(u.TimePlayAngel))
 
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], uint32(u.LastSong.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdLastSong:PosOfPasswdLastSong+4], timeToTime4T(u.LastSong))
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdLoginView:PosOfPasswdLoginView+4], u.LoginView)
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdLawCounter:PosOfPasswdLawCounter+2], u.ViolateLaw)
 
@@ -383,8 +383,8 @@ func (u *Userec) MarshalBinary() ([]byte, error) {
 
 	binary.LittleEndian.PutUint16(ret[PosOfPasswdChessEloRating:PosOfPasswdChessEloRating+2], u.ChessEloRating)
 	binary.LittleEndian.PutUint32(ret[PosOfPasswdWithMe:PosOfPasswdWithMe+4], u.WithMe)
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], uint32(u.TimeRemoveBadPost.Unix()))
-	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], uint32(u.TimeViolateLaw.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeRemoveBadPost:PosOfPasswdTimeRemoveBadPost+4], timeToTime4T(u.TimeRemoveBadPost))
+	binary.LittleEndian.PutUint32(ret[PosOfPasswdTimeViolateLaw:PosOfPasswdTimeViolateLaw+4], timeToTime4T(u.TimeViolateLaw))
 
 	return ret, nil
 }
diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index ab8ed8f..04248e1 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -323,7 +323,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Win:PosOfUserInfoConn6Win+2], u.Conn6.Win)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], uint32(u.LastAct.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoLastAct:PosOfUserInfoLastAct+4], timeToTime4T(u.LastAct))
 	ret[PosOfUserInfoAlerts] = u.Alerts
 	binary.LittleEndian.PutUint16(ret[PosOfUserInfoConn6Lose:PosOfUserInfoConn6Lose+2], u.Conn6.Lose)
 
@@ -366,7 +366,7 @@ func (u *UserInfoCache) MarshalBinary() []byte {
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWithMe:PosOfUserInfoWithMe+4], u.WithMe)
 	binary.LittleEndian.PutUint32(ret[PosOfUserInfoBrcID:PosOfUserInfoBrcID+4], u.brcID)
 
-	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], uint32(u.wbTime.Unix()))
+	binary.LittleEndian.PutUint32(ret[PosOfUserInfoWBTime:PosOfUserInfoWBTime+4], timeToTime4T(u.wbTime))
 
 	return ret
 
-- 
2.43.0


From 74772a26414db0840c576518f34c4c9d5978803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 17/45] fix: position of the chinese chess ties in userinfo_t

It pointed to the five-in-a-row ties, and everything behind it was shifted.
---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 04248e1..5b3390c 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -63,7 +63,7 @@ const (
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
 	PosOfUserInfoChcLose        = PosOfUserInfoChcWin + 2
-	PosOfUserInfoChcTie         = PosOfUserInfoFiveLose + 2
+	PosOfUserInfoChcTie         = PosOfUserInfoChcLose + 2
 	PosOfUserInfoChessEloRating = PosOfUserInfoChcTie + 2
 	PosOfUserInfoGoWin          = PosOfUserInfoChessEloRating + 2
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
-- 
2.43.0


From 853d5cdadfabaf70f7ebd94a9117e994c1b50e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 18/45] fix: align the game records and the tail of userinfo_t
 as the C structure

userinfo_t is not packed: with the two paddings it is 3484 bytes long, as the
record length says.
---
 pttbbs/userinfo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index 5b3390c..da9be26 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -58,7 +58,7 @@ const (
 	PosOfUserInfoMateID   = PosOfUserInfoTurn + 1
 	PosOfUserInfoColor    = PosOfUserInfoMateID + IDLength + 1
 
-	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1
+	PosOfUserInfoFiveWin        = PosOfUserInfoColor + 1 + 1 // align
 	PosOfUserInfoFiveLose       = PosOfUserInfoFiveWin + 2
 	PosOfUserInfoFiveTie        = PosOfUserInfoFiveLose + 2
 	PosOfUserInfoChcWin         = PosOfUserInfoFiveTie + 2
@@ -69,7 +69,7 @@ const (
 	PosOfUserInfoGoLose         = PosOfUserInfoGoWin + 2
 	PosOfUserInfoGoTie          = PosOfUserInfoGoLose + 2
 
-	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2
+	PosOfUserInfoWithMe = PosOfUserInfoGoTie + 2 + 2 // align
 	PosOfUserInfoBrcID  = PosOfUserInfoWithMe + 4
 
 	PosOfUserInfoWBTime = PosOfUserInfoBrcID + 4
-- 
2.43.0


From 2bd317521d2c44c688114d1dd7f41d150a5bfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 19/45] fix: messages of an online user are a copy, not a view
 of the shared memory

They changed, or crashed once it was closed, together with the shared memory.
---
 pttbbs/userinfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/userinfo.go b/pttbbs/userinfo.go
index da9be26..deea56e 100644
--- a/pttbbs/userinfo.go
+++ b/pttbbs/userinfo.go
@@ -202,7 +202,7 @@ func UnmarshalUserInfo(data []byte) *UserInfoCache {
 
 	for idx := range cache.Msgs {
 		// Todo: replace it with the Unmarshal for MessageQueueCache
-		cache.Msgs[idx] = data[PosOfUserInfoMsgs+100*idx : PosOfUserInfoMsgs+100*idx+100]
+		cache.Msgs[idx] = append(MessageQueueCache{}, data[PosOfUserInfoMsgs+100*idx:PosOfUserInfoMsgs+100*idx+100]...)
 	}
 
 	cache.Birth = (data[PosOfUserInfoBirth] != 0)
-- 
2.43.0


From e27491666c0c85360f2caddbaf2083fecde7431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 20/45] fix: Cache.UserInfo reads the whole record

The record length was never set, so every call panicked.
---
 pttbbs/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index 312581b..deb49af 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -124,6 +124,7 @@ func (c *Cache) caculatePos() {
 	c.posOfUserLoaded = c.posOfUserNumber + 4
 
 	c.posOfUserInfo = c.posOfUserLoaded + 4
+	c.lenOfUserInfo = 3484
 
 	// TODO: other pos value
 	// 	c.posOfCooldownTime int
-- 
2.43.0


From 84de0b0a0c32cc0a4d2c070385c1937fbb5f61a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 21/45] fix: a cache setting without alignment no longer
 divides by zero

pttbbs/cmd does not set it.
---
 pttbbs/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/cache.go b/pttbbs/cache.go
index deb49af..504a230 100644
--- a/pttbbs/cache.go
+++ b/pttbbs/cache.go
@@ -107,7 +107,7 @@ func (c *Cache) caculatePos() {
 
 	c.posOfNextInHash = (c.IDLen + 1) + c.posOfUserID + c.MaxUsers*(c.IDLen+1)
 	// Align
-	if c.posOfNextInHash%c.AlignmentBytes != 0 {
+	if c.AlignmentBytes > 1 && c.posOfNextInHash%c.AlignmentBytes != 0 {
 		padding := c.AlignmentBytes - c.posOfNextInHash%c.AlignmentBytes
 		c.posOfNextInHash += padding
 	}
-- 
2.43.0


From 6592847b34feefe21f2491d83b4b2051527bc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 22/45] fix: cache file names may contain a colon

"file:/a:b" used to open "/a".
---
 cache/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 4550242..27c5b70 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -14,7 +14,7 @@ type Cache interface {
 // NewCache returns Cache (SHM) by connectionString, connectionString indicate the shm location
 // with uri format  eg. shmkey:1228 or file:/tmp/ramdisk/bbs.shm
 func NewCache(connectionString string) (Cache, error) {
-	s := strings.Split(connectionString, ":")
+	s := strings.SplitN(connectionString, ":", 2)
 	if len(s) == 1 {
 		// default is mmap
 		return OpenMmap(s[0])
-- 
2.43.0


From f34dced73afb6aa40a63acecb9f3e400cd1c2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 23/45] fix: creating an article in a board without directory
 is an error, not an endless loop

---
 pttbbs/pttbbs_write_article_connector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index ed81b21..be868b6 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -28,6 +28,9 @@ func (c *Connector) CreateBoardArticleFilename(boardID string) (filename string,
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return "", err
+		}
 
 		// TODO: Should log if can not lock file in first time, is system loading too heavy?
 
@@ -113,6 +116,9 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 		if err == nil {
 			break
 		}
+		if !os.IsExist(err) {
+			return nil, err
+		}
 	}
 	defer f.Close()
 
-- 
2.43.0


From 08e8bcf95ad31768239f676add1a0068383ce788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 24/45] fix: the path of an empty user or board id is an error
 instead of a panic

---
 pttbbs/path.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index 276786b..b3e2176 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -20,10 +20,14 @@
 package pttbbs
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
 
+// ErrEmptyID means there is no path for an user or a board without ID
+var ErrEmptyID = errors.New("user id or board id is empty")
+
 // Get Passwd file path of system
 func GetPasswdsPath(workDirectory string) (string, error) {
 	return fmt.Sprintf("%s/.PASSWDS", workDirectory), nil
@@ -36,11 +40,17 @@ func GetBoardPath(workDirectory string) (string, error) {
 
 // Get Favorite file path of user
 func GetUserFavoritePath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/.fav", workDirectory, userID[0], userID), nil
 }
 
 // Get Draft file path of user
 func GetUserDraftPath(workDirectory string, userID string, draftID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/buf.%s", workDirectory, userID[0], userID, draftID), nil
 }
 
@@ -49,16 +59,25 @@ func GetUserDraftPath(workDirectory string, userID string, draftID string) (stri
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetUserMailPath(workDirectory string, userID string, filename string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/%s", workDirectory, userID[0], userID, filename), nil
 }
 
 // Get Login Recent file path of user
 func GetLoginRecentPath(workDirectory string, userID string) (string, error) {
+	if userID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/home/%c/%s/logins.recent", workDirectory, userID[0], userID), nil
 }
 
 // Get Directory normal file path of board
 func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.DIR", workDirectory, boardID[0], boardID), nil
 }
 
@@ -67,6 +86,9 @@ func GetBoardArticlesDirectoryPath(workDirectory string, boardID string) (string
 // user has permission for open this file. eg, .DIR file, so please check filename before call
 // this function.
 func GetBoardArticleFilePath(workDirectory string, boardID string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/%s", workDirectory, boardID[0], boardID, filename), nil
 }
 
@@ -75,12 +97,18 @@ func GetBoardArticleFilePath(workDirectory string, boardID string, filename stri
 // figure out each directory, eg: `["M.971228479.A", "M.1035338027.A"]` in formosa BBS or
 // `["D690", "D6C2", "D6D1"]` in pttbbs.
 func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path []string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
 func GetBoardTreasureFilePath(workDirectory string, boardID string, path []string, filename string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyID
+	}
 	path = append(path, "")
 	subPath := strings.Join(path, "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
@@ -88,5 +116,8 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 
 // Get Directory digest file path of board
 func GetBoardNameFilePath(workDirectory string, boardID string) (string, error) {
+	if boardID == "" {
+		return "", ErrEmptyID
+	}
 	return fmt.Sprintf("%s/boards/%c/%s/.Name", workDirectory, boardID[0], boardID), nil
 }
-- 
2.43.0


From 7dcc92dbaa6f6d53f56050a1df27dd59e9a76fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 25/45] fix: listing articles and comments of an user skips
 vacated board slots

---
 bbs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bbs.go b/bbs.go
index 6db7b31..f059885 100644
--- a/bbs.go
+++ b/bbs.go
@@ -547,7 +547,7 @@ func (db *DB) GetUserArticleRecordFile(userID string) ([]UserArticleRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
@@ -614,7 +614,7 @@ func (db *DB) GetUserCommentRecordFile(userID string) ([]UserCommentRecord, erro
 	}
 
 	shouldSkip := func(boardID string) bool {
-		if boardID == "ALLPOST" {
+		if boardID == "" || boardID == "ALLPOST" {
 			return true
 		}
 		return false
-- 
2.43.0


From 5188179fb3239d4c866e67b997e93cf8ad151a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 26/45] fix: treasure paths do not write into the slice of the
 caller

---
 pttbbs/path.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pttbbs/path.go b/pttbbs/path.go
index b3e2176..b21863e 100644
--- a/pttbbs/path.go
+++ b/pttbbs/path.go
@@ -100,8 +100,7 @@ func GetBoardTreasuresDirectoryPath(workDirectory string, boardID string, path [
 	if boardID == "" {
 		return "", ErrEmptyID
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := strings.Join(append(append([]string{}, path...), ""), "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s.DIR", workDirectory, boardID[0], boardID, subPath), nil
 }
 
@@ -109,8 +108,7 @@ func GetBoardTreasureFilePath(workDirectory string, boardID string, path []strin
 	if boardID == "" {
 		return "", ErrEmptyID
 	}
-	path = append(path, "")
-	subPath := strings.Join(path, "/")
+	subPath := strings.Join(append(append([]string{}, path...), ""), "/")
 	return fmt.Sprintf("%s/man/boards/%c/%s/%s%s", workDirectory, boardID[0], boardID, subPath, filename), nil
 }
 
-- 
2.43.0


From 9a4ab4c71b6727ccd6dc6d70a3ac61e73ca52421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 27/45] fix: opening a second BBS does not redirect the first
 one

Every DB shared the connector registered by the driver, so all of them used
the BBSHome opened last.
---
 bbs.go           | 10 ++++++++++
 pttbbs/pttbbs.go |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/bbs.go b/bbs.go
index f059885..3ceffe7 100644
--- a/bbs.go
+++ b/bbs.go
@@ -267,6 +267,12 @@ type UserDraftConnector interface {
 	WriteUserDraft(name string, draft []byte) error
 }
 
+// ConnectorFactory is a registered connector which makes a connector of its own
+// for each Open, so a DB does not follow the data source opened after it.
+type ConnectorFactory interface {
+	NewConnector() Connector
+}
+
 var drivers = make(map[string]Connector)
 
 func Register(drivername string, connector Connector) {
@@ -282,6 +288,10 @@ func Open(drivername string, dataSourceName string) (*DB, error) {
 		return nil, fmt.Errorf("bbs: drivername: %v not found", drivername)
 	}
 
+	if f, ok := c.(ConnectorFactory); ok {
+		c = f.NewConnector()
+	}
+
 	err := c.Open(dataSourceName)
 	if err != nil {
 		return nil, fmt.Errorf("bbs: drivername: %v open error: %v", drivername, err)
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 6fb9ab9..991cd59 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -17,6 +17,11 @@ func init() {
 	bbs.Register("pttbbs", &Connector{})
 }
 
+// NewConnector returns a connector which is not opened yet
+func (c *Connector) NewConnector() bbs.Connector {
+	return &Connector{}
+}
+
 // Open connect a file directory or SHMs, dataSourceName pointer to bbs home
 // And it can append argument for SHM
 // for example `file:///home/bbs/?UTMP=1993`
-- 
2.43.0


From b0a427cae40dc6ec4b2e37fb9b143dc9b6fba3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 28/45] fix: comments behind a line over 64 KiB are not lost

---
 bbs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bbs.go b/bbs.go
index 3ceffe7..087465b 100644
--- a/bbs.go
+++ b/bbs.go
@@ -685,6 +685,7 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 	floorCnt := uint32(1)
 	scanner := bufio.NewScanner(strings.NewReader(string(content)))
+	scanner.Buffer(nil, len(content)+1)
 	for scanner.Scan() {
 		l := FilterStringANSI(scanner.Text())
 		cr, err := NewUserCommentRecord(floorCnt, l, boardID, ar)
-- 
2.43.0


From 5951abb34cddd38449e277a48601ddac6210c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 29/45] fix: colons in a comment stay where they are

"a:b" was read as "ab:", and a comment which quotes its own time was cut off.
---
 user_comment_record.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/user_comment_record.go b/user_comment_record.go
index 23beb45..709be74 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -126,22 +126,8 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 		return
 	}
 
-	//TODO: improve get comment
-	ownStr := ":"
-	commentTimeRemoveArr := strings.Split(commentStr, ctimeStr)
-	commentArr := strings.Split(commentTimeRemoveArr[0], ownStr)
-
-	for key, value := range commentArr {
-		//key 0 為使用者名稱，跳過
-		if key == 0 {
-			continue
-		}
-		comment += strings.TrimSpace(value)
-		//key 2 開始才會有重複冒號的問題
-		if key >= 2 {
-			comment += ":"
-		}
-	}
+	// The comment is what stands between "owner:" and the time
+	comment = strings.TrimSpace(commentStr[len(owner)+1 : len(commentStr)-len(ctimeStr)])
 
 	return owner, ctime, comment, nil
 }
-- 
2.43.0


From ecd2b308e51760d9987b3f53dac29c8f3a0fe0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 30/45] fix: a character which is not in Big5 does not cut off
 the rest of the text

---
 big5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big5.go b/big5.go
index 1ce4235..3c76b33 100644
--- a/big5.go
+++ b/big5.go
@@ -20,12 +20,13 @@
 package bbs
 
 import (
+	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/traditionalchinese"
 	"golang.org/x/text/transform"
 )
 
 func Utf8ToBig5(input string) []byte {
-	utf8ToBig5 := traditionalchinese.Big5.NewEncoder()
+	utf8ToBig5 := encoding.ReplaceUnsupported(traditionalchinese.Big5.NewEncoder())
 	big5, _, _ := transform.Bytes(utf8ToBig5, []byte(input))
 	return big5
 }
-- 
2.43.0


From 0db71b0bbe5e154e26df73e3bf02e50900b09b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 31/45] fix: the recommend count stops at MaxRecommends instead
 of wrapping around

---
 pttbbs/file.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pttbbs/file.go b/pttbbs/file.go
index cdacd53..0ca0e05 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -81,8 +81,17 @@ func (f *FileHeader) SetFilename(newValue string) { f.filename = newValue }
 func (f *FileHeader) Modified() time.Time               { return f.modified }
 func (f *FileHeader) SetModified(newModified time.Time) { f.modified = newModified }
 
-func (f *FileHeader) Recommend() int           { return int(f.recommend) }
-func (f *FileHeader) AddRecommend(update int8) { f.recommend = f.recommend + update }
+func (f *FileHeader) Recommend() int { return int(f.recommend) }
+func (f *FileHeader) AddRecommend(update int8) {
+	recommend := int(f.recommend) + int(update)
+	if recommend > MaxRecommends {
+		recommend = MaxRecommends
+	}
+	if recommend < -MaxRecommends {
+		recommend = -MaxRecommends
+	}
+	f.recommend = int8(recommend)
+}
 
 func (f *FileHeader) Owner() string            { return f.owner }
 func (f *FileHeader) SetOwner(newValue string) { f.owner = newValue }
-- 
2.43.0


From fdb46689c1d6422139c45cad0176a45d35c6ee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 32/45] fix: an access token expires 30 minutes after login

It was issued with an expiration time in 1970.
---
 serverlet/route_token.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serverlet/route_token.go b/serverlet/route_token.go
index 67ef4ae..d21744f 100644
--- a/serverlet/route_token.go
+++ b/serverlet/route_token.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"net/http"
 	"strings"
+	"time"
 
 	"github.com/Ptt-official-app/go-bbs"
 	"github.com/golang-jwt/jwt"
@@ -92,7 +93,7 @@ func getTokenFromRequest(r *http.Request) string {
 
 func newAccessTokenWithUsername(username string) string {
 	claims := &jwt.StandardClaims{
-		ExpiresAt: 30 * 60, // TODO: Setting me in config
+		ExpiresAt: time.Now().Add(30 * time.Minute).Unix(), // TODO: Setting me in config
 		// Issuer:    "test",
 		Subject: username,
 	}
-- 
2.43.0


From 629e5f6f0173abc29a74858dd9726937cac90e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 33/45] fix: a deleted article does not hide the comments in
 all other articles

---
 bbs.go           | 8 ++++++++
 pttbbs/pttbbs.go | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index 087465b..e5d363e 100644
--- a/bbs.go
+++ b/bbs.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"os"
 	"strings"
 	"time"
 )
@@ -657,7 +658,14 @@ func (db *DB) GetBoardUserCommentRecord(boardID, userID string) (recs []UserComm
 	}
 
 	for _, ar := range ars {
+		if ar.Filename() == "" {
+			continue
+		}
 		crs, err := db.GetBoardArticleCommentRecords(boardID, ar)
+		if errors.Is(err, os.ErrNotExist) {
+			// The article was deleted, its record stays in the index
+			continue
+		}
 		if err != nil {
 			log.Println("bbs: GetBoardArticleCommentRecords error:", err)
 			return nil, err
diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 991cd59..0a1c10f 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -153,7 +153,7 @@ func (c *Connector) GetBoardTreasureFilePath(boardID string, treasureID []string
 func (c *Connector) ReadBoardArticleFile(filename string) ([]byte, error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		return nil, fmt.Errorf("pttbbs: open file error: %v", err)
+		return nil, fmt.Errorf("pttbbs: open file error: %w", err)
 	}
 	defer file.Close()
 	buf, err := ioutil.ReadAll(file)
-- 
2.43.0


From 10df97943288013e56999e11c38e3cb3afc2f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:52 +0000
Subject: [PATCH 34/45] fix: a body line with an impossible date does not hide
 the comments of the article

---
 user_comment_record.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/user_comment_record.go b/user_comment_record.go
index 709be74..60c65cb 100644
--- a/user_comment_record.go
+++ b/user_comment_record.go
@@ -117,6 +117,7 @@ func parseUserComment(data string) (owner string, ctime time.Time, comment strin
 	ctimeStr := matches[timeIdx]
 	ctime, err = time.Parse("01/02 15:04", ctimeStr)
 	if err != nil {
+		err = fmt.Errorf("%w: %v", ErrNotUserComment, err)
 		return
 	}
 
-- 
2.43.0


From 679fadc868bb1261a0a9dc58c828d5cf2b9b213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 35/45] fix: creating an article record goes on when every name
 of the second is taken

---
 pttbbs/pttbbs_write_article_connector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index be868b6..002211e 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -101,11 +101,11 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	}
 
 	filename := ""
-	dtime := time.Now().Unix()
-	rand.Seed(dtime)
+	rand.Seed(time.Now().Unix())
 
 	var f *os.File
 	for {
+		dtime := time.Now().Unix()
 		filename = fmt.Sprintf("M.%d.A.%3.3X", dtime, rand.Intn(0x1000))
 		path, err := c.GetBoardArticleFilePath(boardID, filename)
 		if err != nil {
-- 
2.43.0


From d025212f5354c2b0300222cd04e78290e9a0ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 36/45] fix: a draft which cannot be reached is not an empty
 one

---
 pttbbs/draft.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/draft.go b/pttbbs/draft.go
index 28b9c39..29d87eb 100644
--- a/pttbbs/draft.go
+++ b/pttbbs/draft.go
@@ -6,7 +6,7 @@ import (
 )
 
 func (c *Connector) ReadUserDraft(filename string) ([]byte, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []byte{}, nil
 	}
 	return ioutil.ReadFile(filename)
-- 
2.43.0


From 8ef746645eafeae1faa6f1df82aab0a62f5f5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 37/45] fix: favourites which cannot be reached are not empty
 ones

---
 pttbbs/pttbbs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs.go b/pttbbs/pttbbs.go
index 0a1c10f..061afb6 100644
--- a/pttbbs/pttbbs.go
+++ b/pttbbs/pttbbs.go
@@ -59,7 +59,7 @@ func (c *Connector) GetUserFavoriteRecordsPath(userID string) (string, error) {
 }
 
 func (c *Connector) ReadUserFavoriteRecordsFile(filename string) ([]bbs.FavoriteRecord, error) {
-	if _, err := os.Stat(filename); err != nil {
+	if _, err := os.Stat(filename); os.IsNotExist(err) {
 		return []bbs.FavoriteRecord{}, nil
 	}
 
-- 
2.43.0


From ec81bbb098f1f2a8eb96fde32d0c0bd92d609b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 38/45] fix: a mapping which fails closes its file

---
 cache/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/mmap.go b/cache/mmap.go
index e096595..edf06da 100644
--- a/cache/mmap.go
+++ b/cache/mmap.go
@@ -20,6 +20,7 @@ func CreateMmap(filePath string, size int64) (*Mmap, error) {
 	}
 	err = f.Truncate(size)
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("truncate error: %v", err)
 	}
 
@@ -45,6 +46,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	stat, err := f.Stat()
 	if err != nil {
 		// fmt.Println("stat error", err)
+		f.Close()
 		return nil, fmt.Errorf("stat error: %w", err)
 	}
 
@@ -54,6 +56,7 @@ func openFile(f *os.File) (*Mmap, error) {
 	b, err := openMmap(fd, size)
 	if err != nil {
 		fmt.Println("mmap error", err)
+		f.Close()
 		return nil, fmt.Errorf("mmap error: %v", err)
 	}
 
-- 
2.43.0


From 58233f24422c981ddce28cd9a47a221abb6561d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 39/45] fix: a driver without the part which an operation needs
 is an error, not a crash

---
 bbs.go | 55 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/bbs.go b/bbs.go
index e5d363e..82f3f2f 100644
--- a/bbs.go
+++ b/bbs.go
@@ -431,11 +431,20 @@ func (db *DB) ReadBoardTreasureFile(boardID string, treasuresID []string, filena
 }
 
 func (db *DB) NewBoardRecord(args map[string]interface{}) (BoardRecord, error) {
-	return db.connector.(WriteBoardConnector).NewBoardRecord(args)
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+	return c.NewBoardRecord(args)
 }
 
 func (db *DB) AddBoardRecord(brd BoardRecord) error {
 
+	c, ok := db.connector.(WriteBoardConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteBoardConnector")
+	}
+
 	path, err := db.connector.GetBoardRecordsPath()
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -443,7 +452,7 @@ func (db *DB) AddBoardRecord(brd BoardRecord) error {
 	}
 	log.Println("path:", path)
 
-	err = db.connector.(WriteBoardConnector).AddBoardRecordFileRecord(path, brd)
+	err = c.AddBoardRecordFileRecord(path, brd)
 	if err != nil {
 		log.Println("bbs: AddBoardRecordFileRecord error:", err)
 		return err
@@ -470,16 +479,25 @@ func (db *DB) RemoveBoardRecord(index uint) error {
 // CreateArticleRecord returns new ArticleRecord with new filename in boardID and owner, date and title.
 // This method will find a usable filename in board and occupy it.
 func (db *DB) CreateArticleRecord(boardID, owner, date, title string) (ArticleRecord, error) {
-	filename, err := db.connector.(WriteArticleConnector).CreateBoardArticleFilename(boardID)
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+	filename, err := c.CreateBoardArticleFilename(boardID)
 	if err != nil {
 		return nil, err
 	}
-	return db.connector.(WriteArticleConnector).NewArticleRecord(filename, owner, date, title)
+	return c.NewArticleRecord(filename, owner, date, title)
 }
 
 // AddArticleRecordFileRecord append article ArticleRecord to boardID
 func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord) error {
 
+	c, ok := db.connector.(WriteArticleConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support WriteArticleConnector")
+	}
+
 	path, err := db.connector.GetBoardArticleRecordsPath(boardID)
 	if err != nil {
 		log.Println("bbs: open file error:", err)
@@ -487,7 +505,7 @@ func (db *DB) AddArticleRecordFileRecord(boardID string, article ArticleRecord)
 	}
 	log.Println("path:", path)
 
-	return db.connector.(WriteArticleConnector).AddArticleRecordFileRecord(path, article)
+	return c.AddArticleRecordFileRecord(path, article)
 }
 
 // WriteBoardArticleFile writes content into filename in boardID
@@ -718,14 +736,19 @@ func (db *DB) GetBoardArticleCommentRecords(boardID string, ar ArticleRecord) (c
 
 func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return nil, fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return nil, err
 	}
 	log.Println("path:", path)
 
-	raw, err := db.connector.(UserDraftConnector).ReadUserDraft(path)
+	raw, err := c.ReadUserDraft(path)
 	if err != nil {
 		return nil, err
 	}
@@ -735,23 +758,33 @@ func (db *DB) GetUserDrafts(userID, draftID string) (UserDraft, error) {
 
 func (db *DB) DeleteUserDraft(userID, draftID string) error {
 
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 	log.Println("path:", path)
 
-	return db.connector.(UserDraftConnector).DeleteUserDraft(path)
+	return c.DeleteUserDraft(path)
 }
 
 func (db *DB) WriteUserDraft(userID, draftID string, draftContent UserDraft) error {
-	path, err := db.connector.(UserDraftConnector).GetUserDraftPath(userID, draftID)
+	c, ok := db.connector.(UserDraftConnector)
+	if !ok {
+		return fmt.Errorf("bbs: connector don't support UserDraftConnector")
+	}
+
+	path, err := c.GetUserDraftPath(userID, draftID)
 	if err != nil {
 		log.Println("bbs: GetUserDraftPath error:", err)
 		return err
 	}
 
 	log.Println("path:", path)
-	return db.connector.(UserDraftConnector).WriteUserDraft(path, draftContent.Raw())
+	return c.WriteUserDraft(path, draftContent.Raw())
 }
-- 
2.43.0


From 01501bafd39488a35544ff0fb4f3fb9b3213b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 40/45] fix: bbstool says what is missing instead of crashing
 or going on

---
 cmd/bbstool/articles.go |  8 ++++++++
 cmd/bbstool/main.go     | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/cmd/bbstool/articles.go b/cmd/bbstool/articles.go
index ba30bb7..ce254f0 100644
--- a/cmd/bbstool/articles.go
+++ b/cmd/bbstool/articles.go
@@ -12,6 +12,7 @@ func showBoardArticleList() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -24,6 +25,10 @@ func showBoardArticleList() {
 	}
 
 	records, err := db.ReadBoardArticleRecordsFile(boardID)
+	if err != nil {
+		fmt.Println("ReadBoardArticleRecordsFile error:", err)
+		return
+	}
 
 	for _, r := range records {
 		if r.Filename() == "" {
@@ -37,6 +42,7 @@ func addBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
@@ -68,6 +74,7 @@ func addBoardArticle() {
 	contentFile, inputFileOk := inputArgs["content_file"].(string)
 	if !contentOk && !inputFileOk {
 		fmt.Println("please provide content or content_file")
+		return
 	}
 
 	if !contentOk {
@@ -104,6 +111,7 @@ func showBoardArticle() {
 	db, err := openDB()
 	if err != nil {
 		fmt.Println("openDB:", err)
+		return
 	}
 	inputArgs := parseArgsToMap(flag.Args())
 
diff --git a/cmd/bbstool/main.go b/cmd/bbstool/main.go
index 06e2c70..44a0956 100644
--- a/cmd/bbstool/main.go
+++ b/cmd/bbstool/main.go
@@ -220,7 +220,13 @@ func showuserarticlelist() {
 
 	args := parseArgsToMap(flag.Args())
 
-	records, err := bbsDB.GetUserArticleRecordFile(args["user_id"].(string))
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
+
+	records, err := bbsDB.GetUserArticleRecordFile(userID)
 	if err != nil {
 		fmt.Printf("showuserarticlelist: GetUserArticleRecordFile: %v\n", err)
 		return
@@ -249,7 +255,11 @@ func showusercommentlist() {
 	}
 
 	args := parseArgsToMap(flag.Args())
-	userID := args["user_id"].(string)
+	userID, ok := args["user_id"].(string)
+	if !ok {
+		fmt.Println("please provide user_id argument")
+		return
+	}
 
 	records, err := bbsDB.GetUserCommentRecordFile(userID)
 	if err != nil {
-- 
2.43.0


From ab74ee1b3d89c9ab278177403ed202d81523e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 41/45] fix: report a failed truncation when a board is removed

---
 pttbbs/board.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pttbbs/board.go b/pttbbs/board.go
index 86efef2..a1204d2 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -294,7 +294,9 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 		return fmt.Errorf("fo.Seek for SEEK_CUR error: %v", err)
 	}
 
-	fo.Truncate(size)
+	if err := fo.Truncate(size); err != nil {
+		return fmt.Errorf("fo.Truncate error: %v", err)
+	}
 	filelock.Unlock(fi)
 	return nil
 
-- 
2.43.0


From 1e7fc69688a07a887f26b092437fb423d2c31046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 42/45] fix: write the head of a new article in Big5 like every
 other text

---
 pttbbs/pttbbs_write_article_connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/pttbbs_write_article_connector.go b/pttbbs/pttbbs_write_article_connector.go
index 002211e..47ad744 100644
--- a/pttbbs/pttbbs_write_article_connector.go
+++ b/pttbbs/pttbbs_write_article_connector.go
@@ -134,7 +134,7 @@ func (c *Connector) NewArticleRecordWithMap(args map[string]interface{}) (bbs.Ar
 	data := fmt.Sprintf("作者: %s 看板: %s\n標題: %s \n時間: %s\n",
 		owner, boardID, title, date)
 
-	if _, err := f.Write([]byte(data)); err != nil {
+	if _, err := f.Write(bbs.Utf8ToBig5(data)); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From ced89497737edca31bb4d39677e0d855101c4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 43/45] fix: refuse a part of a record instead of crashing

---
 formosabbs/file.go | 4 ++++
 pttbbs/board.go    | 3 +++
 pttbbs/file.go     | 3 +++
 pttbbs/passwd.go   | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/formosabbs/file.go b/formosabbs/file.go
index c0f1bb1..6d438f9 100644
--- a/formosabbs/file.go
+++ b/formosabbs/file.go
@@ -4,6 +4,7 @@ import (
 	"github.com/Ptt-official-app/go-bbs"
 
 	"encoding/binary"
+	"fmt"
 	"io"
 	"log"
 	"os"
@@ -75,6 +76,9 @@ func OpenFormosaBBSFileHeaderFile(filename string) ([]*FileHeader, error) {
 
 func NewFomosaBBSFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
+	if len(data) < 248 {
+		return nil, fmt.Errorf("formosabbs: article record of %d bytes is too short", len(data))
+	}
 	ret := FileHeader{}
 	ret.Filename = bbs.CstrToString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+44])
 
diff --git a/pttbbs/board.go b/pttbbs/board.go
index a1204d2..3954ae5 100644
--- a/pttbbs/board.go
+++ b/pttbbs/board.go
@@ -303,6 +303,9 @@ func RemoveBoardHeaderFileRecord(filename string, index int) error {
 }
 
 func UnmarshalBoardHeader(data []byte) (*BoardHeader, error) {
+	if len(data) < BoardHeaderRecordLength {
+		return nil, fmt.Errorf("pttbbs: board record of %d bytes is too short", len(data))
+	}
 	ret := BoardHeader{}
 
 	ret.BrdName = big5uaoToUTF8String(bytes.Split(data[PosOfBoardName:PosOfBoardName+IDLength+1], []byte("\x00"))[0])
diff --git a/pttbbs/file.go b/pttbbs/file.go
index 0ca0e05..0ab6c1b 100644
--- a/pttbbs/file.go
+++ b/pttbbs/file.go
@@ -222,6 +222,9 @@ func UpdateFileHeaderFileRecord(filename string, index uint, fileHeader *FileHea
 
 func NewFileHeaderWithByte(data []byte) (*FileHeader, error) {
 
+	if len(data) < 128 {
+		return nil, fmt.Errorf("pttbbs: article record of %d bytes is too short", len(data))
+	}
 	ret := FileHeader{}
 	ret.filename = newStringFormCString(data[PosOfFileHeaderFilename : +PosOfFileHeaderFilename+FileNameLength])
 
diff --git a/pttbbs/passwd.go b/pttbbs/passwd.go
index 14e1cce..398a0e8 100644
--- a/pttbbs/passwd.go
+++ b/pttbbs/passwd.go
@@ -235,6 +235,9 @@ func OpenUserecFile(filename string) ([]*Userec, error) {
 }
 
 func UnmarshalUserec(data []byte) (*Userec, error) {
+	if len(data) < 512 {
+		return nil, fmt.Errorf("pttbbs: user record of %d bytes is too short", len(data))
+	}
 	user := &Userec{}
 	user.Version = binary.LittleEndian.Uint32(data[PosOfPasswdVersion : PosOfPasswdVersion+4])
 	user.userID = newStringFormCString(data[PosOfPasswdUserID : PosOfPasswdUserID+IDLength+1])
-- 
2.43.0


From 53cb6028b7ca391affef64cb46f450e1c5cb6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 44/45] fix: a board index is missing only when it does not
 exist

Any failure counted as a missing index when the path happened to contain
"no such file or directory", which is in the message of the error too.
---
 bbs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bbs.go b/bbs.go
index 82f3f2f..3b01bc1 100644
--- a/bbs.go
+++ b/bbs.go
@@ -369,7 +369,7 @@ func (db *DB) ReadBoardArticleRecordsFile(boardID string) ([]ArticleRecord, erro
 
 	recs, err := db.connector.ReadArticleRecordsFile(path)
 	if err != nil {
-		if strings.Contains(err.Error(), "no such file or directory") {
+		if errors.Is(err, os.ErrNotExist) {
 			return []ArticleRecord{}, nil
 		}
 		log.Println("bbs: ReadArticleRecordsFile error:", err)
-- 
2.43.0


From 5c3513e57a968aeafe2e3f32ce2d697525f7f9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:58 +0000
Subject: [PATCH 45/45] fix: an attempt with an id of one character belongs to
 the global log

---
 pttbbs/bad_logins.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pttbbs/bad_logins.go b/pttbbs/bad_logins.go
index 023fa2d..6b3866c 100644
--- a/pttbbs/bad_logins.go
+++ b/pttbbs/bad_logins.go
@@ -189,5 +189,5 @@ func (l *LoginAttempt) MarshalText() ([]byte, error) {
 // The difference between logins.bad between under BBSHOME and under User Dir is whether it contains
 // UserID
 func (l *LoginAttempt) IsUnderBbsHome() bool {
-	return len(l.UserID) > 1
+	return len(l.UserID) > 0
 }
-- 
2.43.0

