From 4ed3b69993c5745dd2244721400a107b2f32f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 01/51] fix: decode JSON escapes in identifiers, creators,
 suppliers, originators and annotators

Their UnmarshalJSON only trimmed the quotes off the raw token, so any escape in
it (such as the \u003c that json.Write itself emits for '<') was kept verbatim.
---
 spdx/v2/common/annotation.go    |  6 ++++--
 spdx/v2/common/creation_info.go |  6 ++++--
 spdx/v2/common/identifier.go    | 27 +++++++++++++++++++++------
 spdx/v2/common/package.go       | 12 ++++++++----
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..21154c7 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -19,8 +19,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	annotatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..12522f3 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -20,8 +20,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	str, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..10c1b4f 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	idStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
@@ -217,3 +224,11 @@ func RenderDocElementID(deID DocElementID) string {
 	}
 	return prefix + spdxRefPrefix + string(deID.ElementRefID)
 }
+
+// unmarshalString decodes a JSON string token, including any escape sequences
+// it contains, as the values here are themselves only part of that string.
+func unmarshalString(data []byte) (string, error) {
+	var str string
+	err := json.Unmarshal(data, &str)
+	return str, err
+}
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..ca4b528 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -20,8 +20,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	supplierStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +65,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	originatorStr, err := unmarshalString(data)
+	if err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From 9f88c1d0749fc1f458c961d38b1208ee805d20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 02/51] fix: wrap tag-value text that starts or ends with white
 space or contains <text>

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 6 ++++++
 spdx/v2/v2_2/tagvalue/writer/util.go | 6 ++++++
 spdx/v2/v2_3/tagvalue/writer/util.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..f921271 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -11,6 +11,12 @@ func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
+	// surrounding white space and an opening text tag would be lost by
+	// readers unless the value is wrapped; a value with a closing text tag
+	// can't be wrapped
+	if !strings.Contains(s, "</text>") && (strings.Contains(s, "<text>") || strings.TrimSpace(s) != s) {
+		return fmt.Sprintf("<text>%s</text>", s)
+	}
 
 	return s
 }
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..f921271 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -11,6 +11,12 @@ func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
+	// surrounding white space and an opening text tag would be lost by
+	// readers unless the value is wrapped; a value with a closing text tag
+	// can't be wrapped
+	if !strings.Contains(s, "</text>") && (strings.Contains(s, "<text>") || strings.TrimSpace(s) != s) {
+		return fmt.Sprintf("<text>%s</text>", s)
+	}
 
 	return s
 }
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..f921271 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -11,6 +11,12 @@ func textify(s string) string {
 	if strings.Contains(s, "\n") {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
+	// surrounding white space and an opening text tag would be lost by
+	// readers unless the value is wrapped; a value with a closing text tag
+	// can't be wrapped
+	if !strings.Contains(s, "</text>") && (strings.Contains(s, "<text>") || strings.TrimSpace(s) != s) {
+		return fmt.Sprintf("<text>%s</text>", s)
+	}
 
 	return s
 }
-- 
2.43.0


From c96159092b791ac8e7c1a3b9ed21b6ec24c6783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 03/51] fix: read tag-value lines longer than 64 KiB

---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..83afe2a 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// a line has no length limit: license texts can be long
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From 11d9a87a2b0e0609efc0c222aaf530bcc87b85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 04/51] fix: read every excluded file of a tag-value package
 verification code

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 11 +++++++----
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 11 +++++++----
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..d983958 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -192,12 +192,15 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
 	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := strings.Split(parsedSp[0], ",")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..846c80b 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -206,12 +206,15 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 		return common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
 	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := strings.Split(parsedSp[0], ",")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..8e581b7 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -222,12 +222,15 @@ func extractCodeAndExcludes(value string) *common.PackageVerificationCode {
 		return &common.PackageVerificationCode{Value: value, ExcludedFiles: []string{}}
 	}
 
-	// if we're here, code is in first part and excludes filename is in
-	// second part, with trailing paren
+	// if we're here, code is in first part and excludes filenames are in
+	// second part, separated by commas, with trailing paren
 	code := strings.TrimSpace(sp[0])
 	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return &common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	fileNames := strings.Split(parsedSp[0], ",")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return &common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
-- 
2.43.0


From 734ded978d5150d3315bd1f2fba36cd10d58890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 05/51] fix: accept DocumentComment behind the creation info of
 an SPDX 2.1 tag-value file

---
 spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
index 7ea0c1f..cc812b2 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_creation_info.go
@@ -94,6 +94,9 @@ func (parser *tvParser) parsePairFromCreationInfo(tag string, value string) erro
 		return parser.parsePairForAnnotation(tag, value)
 	case "AnnotationComment":
 		return parser.parsePairForAnnotation(tag, value)
+	case "DocumentComment":
+		parser.st = psStart
+		return parser.parsePairFromStart(tag, value)
 	case "ExternalDocumentRef":
 		parser.st = psStart
 		return parser.parsePairFromStart(tag, value)
-- 
2.43.0


From ad493822eff5e11c5383f7480ff5dc3bfffdcc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 06/51] fix: interpret an unknown CreatorType as Person, as
 builder.Config documents

---
 builder/build_creation_info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..d20ed27 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,13 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	// anything but the known creator types is interpreted as a person
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0


From ac090ee73aa6669ec87e0dccf95bb42294550705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 07/51] fix: apply SearcherPathsIgnored patterns that name a
 path from the package root

---
 idsearcher/idsearcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..26e1de6 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -84,8 +84,9 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseInfoInFiles = []string{"NOASSERTION"}
 		f.LicenseConcluded = "NOASSERTION"
 
-		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// check whether the searcher should ignore this file; file names
+		// start with ./ but ignored paths with /
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From b3bc938a1696501e7bce1d956f2dddba1541adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 08/51] fix: search for short-form IDs in and behind lines
 longer than 64 KiB

---
 idsearcher/idsearcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 26e1de6..bd8e179 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -7,6 +7,7 @@ package idsearcher
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -153,6 +154,8 @@ func searchFileIDs(filePath string) ([]string, error) {
 	defer f.Close()
 
 	scanner := bufio.NewScanner(f)
+	// a long line must not hide the IDs in and after it
+	scanner.Buffer(nil, math.MaxInt)
 
 	for scanner.Scan() {
 		if strings.Contains(scanner.Text(), "SPDX-License-Identifier:") {
-- 
2.43.0


From b10d8305a81f149197a1626f748d066d4244a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 09/51] fix: do not take a short-form ID tag without an ID for
 a license

---
 idsearcher/idsearcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index bd8e179..b8c031a 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -174,6 +174,9 @@ func searchFileIDs(filePath string) ([]string, error) {
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
 			lid := strings.TrimSpace(lidToExtract)
 			lid = stripTrash(lid)
+			if lid == "" {
+				continue
+			}
 			idsMap[lid] = 1
 		}
 	}
-- 
2.43.0


From 30530b710e66cc30581d1ace5e217b72e3e072f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 10/51] fix: report licenses with equal counts in a
 deterministic order

---
 reporter/reporter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..e345702 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -43,7 +43,12 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From f85c82091bdc1e1be36fce993cf790ffb6d2e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 11/51] fix: return write errors from reporter.Generate

---
 reporter/reporter.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index e345702..643385b 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -55,8 +55,7 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	return wr.Flush()
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From 64f2b8c4694d90f6c4dce02b3565d81802c20211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 12/51] fix: trim the blanks that removed characters leave
 around a short-form ID

---
 idsearcher/idsearcher.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index b8c031a..6d3c04c 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -172,8 +172,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// stop before trailing */ if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			if lid == "" {
 				continue
 			}
-- 
2.43.0


From 344475353c3ed032caa68fb2c6fc3998886e57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 13/51] fix: return write errors from tagvalue.Write

---
 tagvalue/writer.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..c7578ae 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -22,13 +22,39 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	ew := &errWriter{w: w}
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, ew)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, ew)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, ew)
+	default:
+		return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return ew.err
+}
+
+// errWriter remembers the first error of the io.Writer it wraps, as the
+// version-specific writers don't check each single write.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errWriter) Write(p []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	n, err := ew.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	ew.err = err
+	return n, err
 }
-- 
2.43.0


From 7b011d8da8f2b1065df61b8102e272e5ce79d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 14/51] fix: return only packages of the document, and each
 once, from GetDescribedPackageIDs

---
 spdxlib/described_elements.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..f5f069a 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -5,6 +5,7 @@ package spdxlib
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -37,16 +38,29 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	isPackage := make(map[common.ElementID]bool, len(doc.Packages))
+	for _, pkg := range doc.Packages {
+		isPackage[pkg.PackageSPDXIdentifier] = true
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
+		var described common.DocElementID
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			described = relationship.RefB
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			described = relationship.RefA
+		} else {
+			return nil
+		}
+
+		// files, elements of other documents etc. can be described, too
+		if described.DocumentRefID != "" || !isPackage[described.ElementRefID] {
+			return nil
 		}
 
-		return nil
+		return &described.ElementRefID
 	})
 	if err != nil {
 		return nil, err
@@ -56,7 +70,8 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("no DESCRIBES or DESCRIBED_BY relationships found for this Document")
 	}
 
-	eIDs = SortElementIDs(eIDs)
+	// a package can be stated as described more than once
+	eIDs = slices.Compact(SortElementIDs(eIDs))
 
 	return eIDs, nil
 }
-- 
2.43.0


From 577b7b02d2149365d7f3712bbe9d78f0d03f228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 15/51] fix: accept relationships to packaged files, snippets,
 other documents, NONE and NOASSERTION in ValidateDocument

---
 spdxlib/documents.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..c81fac8 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -9,29 +9,46 @@ import (
 )
 
 // ValidateDocument returns an error if the Document is found to be invalid, or nil if the Document is valid.
-// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as either a
-// Package or an UnpackagedFile.
+// Currently, this only verifies that all Element IDs of the Document mentioned in Relationships exist in it as a
+// Package, a File or a Snippet.
 func ValidateDocument(doc *spdx.Document) error {
-	// cache a map of package IDs for quick lookups
+	// cache a map of element IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
+	addFiles := func(files []*spdx.File) {
+		for _, file := range files {
+			validElementIDs[file.FileSPDXIdentifier] = true
+			for snippetID := range file.Snippets {
+				validElementIDs[snippetID] = true
+			}
+		}
+	}
+
 	for _, docPackage := range doc.Packages {
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
+		addFiles(docPackage.Files)
 	}
 
-	for _, unpackagedFile := range doc.Files {
-		validElementIDs[unpackagedFile.FileSPDXIdentifier] = true
+	addFiles(doc.Files)
+
+	for _, snippet := range doc.Snippets {
+		validElementIDs[snippet.SnippetSPDXIdentifier] = true
 	}
 
 	// add the Document element ID
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
+	// NONE, NOASSERTION and elements of other documents can't be looked up
+	exists := func(ref common.DocElementID) bool {
+		return ref.SpecialID != "" || ref.DocumentRefID != "" || validElementIDs[ref.ElementRefID]
+	}
+
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
+		if !exists(relationship.RefA) {
+			return fmt.Errorf("%s used in relationship but no such element exists", string(relationship.RefA.ElementRefID))
 		}
 
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		if !exists(relationship.RefB) {
+			return fmt.Errorf("%s used in relationship but no such element exists", string(relationship.RefB.ElementRefID))
 		}
 	}
 
-- 
2.43.0


From 0d688d4fba33a4d445b63c2611173ea04ed65c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 16/51] fix: add a described package of an RDF document once

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 8 ++------
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..2bed0df 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document when it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..81144ee 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -61,12 +61,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// the package is added to the document when it is parsed
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From c118b424f02e513a4f6597faac3f7ff8f560fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 17/51] fix: keep every range of an RDF snippet, and its file,
 whatever order the statements come in

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 18 ++++++++++------
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 21 +++++++++++++------
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..bfb8b47 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -73,6 +73,11 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the triples come in any order: the file is known only when all of them are read
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -137,18 +142,19 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..583805c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -34,6 +34,9 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, err
 			}
 			docElemID, err := ExtractDocElementID(getLastPartOfURI(siTriple.Object.ID))
+			if err != nil {
+				return nil, err
+			}
 			si.SnippetFromFileSPDXIdentifier = docElemID.ElementRefID
 		case SPDX_RANGE:
 			// cardinality: min 1
@@ -70,6 +73,11 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the triples come in any order: the file is known only when all of them are read
+	for i := range si.Ranges {
+		si.Ranges[i].StartPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+		si.Ranges[i].EndPointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+	}
 	return si, nil
 }
 
@@ -134,18 +142,19 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
+	snippetRange := common.SnippetRange{
 		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
 		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
-- 
2.43.0


From 42f159d3b8ae2246aea3e8485397b1f013ade331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 18/51] fix: read RDF elements that rdf:resource refers to,
 each statement once, and snippets below other elements

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         |  3 +++
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  3 +++
 spdx/v2/v2_2/rdf/reader/parse_relationship.go |  5 ++---
 spdx/v2/v2_2/rdf/reader/parser.go             | 21 +++++++++++--------
 spdx/v2/v2_2/rdf/reader/types.go              | 14 +++++++++++++
 spdx/v2/v2_2/rdf/reader/utils.go              |  8 ++++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go         |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  3 +++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go |  5 ++---
 spdx/v2/v2_3/rdf/reader/parser.go             | 21 +++++++++++--------
 spdx/v2/v2_3/rdf/reader/types.go              | 14 +++++++++++++
 spdx/v2/v2_3/rdf/reader/utils.go              |  8 ++++++-
 12 files changed, 82 insertions(+), 26 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..16d4d81 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -44,6 +44,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if !parser.cache[fileNode.ID].visit(subTriple) {
+			continue // the file was seen before, and this triple is in it already
+		}
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..ab62792 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -53,6 +53,9 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if !parser.cache[packageNode.ID].visit(subTriple) {
+			continue // the package was seen before, and this triple is in it already
+		}
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..eccc384 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -111,9 +111,8 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
-	case SPDX_SPDX_ELEMENT:
-		// it shouldn't be associated with any other triple.
-		// it must be a uri reference.
+	case SPDX_SPDX_ELEMENT, SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// the element is a uri reference, or it is parsed on its own.
 		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
 		if err != nil {
 			return err
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..4887abe 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -62,15 +62,6 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		switch typeTriples[0].Object.ID {
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
-		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_2(typeTriples[0].Subject)
-			if err != nil {
-				return nil, fmt.Errorf("error parsing a snippet: %v", err)
-			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		// todo: check other root node attributes.
 		default:
 			continue
@@ -79,6 +70,18 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		}
 	}
 
+	// parsing the snippets, which may be root elements or be nested in a relationship
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
+		snippet, err := parser.getSnippetInformationFromNode2_2(typeTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..9b95fca 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -38,6 +38,20 @@ type nodeState struct {
 	object interface{}
 	// color of a state represents if the node is visited/unvisited/being-visited.
 	Color Color
+	// triples of the node which are already in the object
+	visited map[*gordfParser.Triple]bool
+}
+
+// visit tells whether the triple of the node is seen for the first time.
+func (state *nodeState) visit(triple *gordfParser.Triple) bool {
+	if state.visited[triple] {
+		return false
+	}
+	if state.visited == nil {
+		state.visited = map[*gordfParser.Triple]bool{}
+	}
+	state.visited[triple] = true
+	return true
 }
 
 type AnyLicenseInfo interface {
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..4209c76 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// the node is referred to by rdf:resource and described elsewhere
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns which boolean was given as an input
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..1112300 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -44,6 +44,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 	}
 
 	for _, subTriple := range parser.nodeToTriples(fileNode) {
+		if !parser.cache[fileNode.ID].visit(subTriple) {
+			continue // the file was seen before, and this triple is in it already
+		}
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..ee7eb3f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -53,6 +53,9 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 
 	// iterate over all the triples associated with the provided package packageNode.
 	for _, subTriple := range parser.nodeToTriples(packageNode) {
+		if !parser.cache[packageNode.ID].visit(subTriple) {
+			continue // the package was seen before, and this triple is in it already
+		}
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..935331f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -111,9 +111,8 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
-	case SPDX_SPDX_ELEMENT:
-		// it shouldn't be associated with any other triple.
-		// it must be a uri reference.
+	case SPDX_SPDX_ELEMENT, SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// the element is a uri reference, or it is parsed on its own.
 		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
 		if err != nil {
 			return err
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..43c8cf3 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -62,15 +62,6 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		switch typeTriples[0].Object.ID {
 		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
 			continue // it is already parsed.
-		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_3(typeTriples[0].Subject)
-			if err != nil {
-				return nil, fmt.Errorf("error parsing a snippet: %v", err)
-			}
-			err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
-			if err != nil {
-				return nil, err
-			}
 		// todo: check other root node attributes.
 		default:
 			continue
@@ -79,6 +70,18 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		}
 	}
 
+	// parsing the snippets, which may be root elements or be nested in a relationship
+	for _, typeTriple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, &SPDX_SNIPPET) {
+		snippet, err := parser.getSnippetInformationFromNode2_3(typeTriple.Subject)
+		if err != nil {
+			return nil, fmt.Errorf("error parsing a snippet: %v", err)
+		}
+		err = parser.setSnippetToFileWithID(snippet, snippet.SnippetFromFileSPDXIdentifier)
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// parsing packages and files sets the files to a files variable which is
 	// associated with the parser and not the document. following method is
 	// necessary to transfer the files which are not set in the packages to the
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..237b428 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -38,6 +38,20 @@ type nodeState struct {
 	object interface{}
 	// color of a state represents if the node is visited/unvisited/being-visited.
 	Color Color
+	// triples of the node which are already in the object
+	visited map[*gordfParser.Triple]bool
+}
+
+// visit tells whether the triple of the node is seen for the first time.
+func (state *nodeState) visit(triple *gordfParser.Triple) bool {
+	if state.visited[triple] {
+		return false
+	}
+	if state.visited == nil {
+		state.visited = map[*gordfParser.Triple]bool{}
+	}
+	state.visited[triple] = true
+	return true
 }
 
 type AnyLicenseInfo interface {
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..5ed98b1 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -48,7 +48,13 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
-	return parser.nodeStringToTriples[node.String()]
+	triples := parser.nodeStringToTriples[node.String()]
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		// the node is referred to by rdf:resource and described elsewhere
+		described := gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}
+		triples = parser.nodeStringToTriples[described.String()]
+	}
+	return triples
 }
 
 // returns which boolean was given as an input
-- 
2.43.0


From 8a28703cdc1d8ed5c05490012d3f66644c1be5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 19/51] fix: return an error for an RDF node that is both a
 file and a package instead of panicking

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 16d4d81..1496791 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		file, ok := currState.object.(*v2_2.File)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a file and as something else", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index ab62792..c881572 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		pkg, ok := currState.object.(*v2_2.Package)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a package and as something else", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 1112300..a69d343 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		file, ok := currState.object.(*spdx.File)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a file and as something else", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index ee7eb3f..06d8766 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		pkg, ok := currState.object.(*spdx.Package)
+		if !ok {
+			return nil, fmt.Errorf("%s is used as a package and as something else", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
-- 
2.43.0


From 7ad41a6d668595f741523e8a1aa091a554c8734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 20/51] fix: read NONE and NOASSERTION relationship targets of
 RDF documents as special values

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 5 +++++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index eccc384..8032918 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -59,6 +59,11 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			switch subTriple.Object.ID {
+			case SPDX_NONE_CAPS, SPDX_NONE_SMALL, SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+				// not an element but one of the special values
+				reln.RefB = common.MakeDocElementSpecial(string(reln.RefB.ElementRefID))
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 935331f..4f8241e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -59,6 +59,11 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 			if err != nil {
 				return err
 			}
+			switch subTriple.Object.ID {
+			case SPDX_NONE_CAPS, SPDX_NONE_SMALL, SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+				// not an element but one of the special values
+				reln.RefB = common.MakeDocElementSpecial(string(reln.RefB.ElementRefID))
+			}
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
-- 
2.43.0


From a7bc9a847715b7e22069a7a42a844d0e911ede0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 21/51] fix: read the checksum algorithms SPDX 2.3 adds from
 RDF documents

---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..3757154 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,22 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256":
+		checksumAlgorithm = string(common.SHA3_256)
+	case "sha3_384":
+		checksumAlgorithm = string(common.SHA3_384)
+	case "sha3_512":
+		checksumAlgorithm = string(common.SHA3_512)
+	case "blake2b256":
+		checksumAlgorithm = string(common.BLAKE2b_256)
+	case "blake2b384":
+		checksumAlgorithm = string(common.BLAKE2b_384)
+	case "blake2b512":
+		checksumAlgorithm = string(common.BLAKE2b_512)
+	case "blake3":
+		checksumAlgorithm = string(common.BLAKE3)
+	case "adler32":
+		checksumAlgorithm = string(common.ADLER32)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
-- 
2.43.0


From ab1c8b52c4691a19aff20965b27feadf66ba738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 22/51] fix: keep the structure of nested license sets and the
 exception of a license read from RDF

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 25 +++++++++++++++++++-----
 spdx/v2/v2_3/rdf/reader/license_utils.go | 25 +++++++++++++++++++-----
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..150af0e 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,14 +80,26 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// nested license sets get brackets: AND binds stronger than OR.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(DisjunctiveLicenseSet); ok && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// nested license sets get brackets.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(ConjunctiveLicenseSet); ok && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " OR ")
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
@@ -107,7 +119,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 3757154..5af6870 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -96,14 +96,26 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// nested license sets get brackets: AND binds stronger than OR.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(DisjunctiveLicenseSet); ok && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " AND ")
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
+// nested license sets get brackets.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
+	members := mapLicensesToStrings(lic.members)
+	for i, member := range lic.members {
+		if set, ok := member.(ConjunctiveLicenseSet); ok && len(set.members) > 1 {
+			members[i] = "(" + members[i] + ")"
+		}
+	}
+	return strings.Join(members, " OR ")
 }
 
 func (lic ExtractedLicensingInfo) ToLicenseString() string {
@@ -123,7 +135,10 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
-	return lic.member.ToLicenseString()
+	if lic.licenseException.licenseExceptionId == "" {
+		return lic.member.ToLicenseString()
+	}
+	return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
 }
 
 func (lic SpecialLicense) ToLicenseString() string {
-- 
2.43.0


From 1cfbae87f3216a62ababf5c1a3e95fa0e1faa987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 23/51] fix: keep the element an RDF annotation belongs to

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 15 +++++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..56d0771 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -10,6 +10,21 @@ import (
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
+// parses the annotation which is the object of the triple and sets the element
+// it annotates, which is the subject of the triple.
+func (parser *rdfParser2_2) parseAnnotation(triple *gordfParser.Triple) error {
+	subject, err := ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+	if err != nil {
+		return err
+	}
+	err = parser.parseAnnotationFromNode(triple.Object)
+	if err != nil {
+		return err
+	}
+	parser.doc.Annotations[len(parser.doc.Annotations)-1].AnnotationSPDXIdentifier = subject
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 1496791..d785af4 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -118,7 +118,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index c881572..c429aa4 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -155,7 +155,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 2bed0df..3f793b7 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..b7bf900 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -10,6 +10,21 @@ import (
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
+// parses the annotation which is the object of the triple and sets the element
+// it annotates, which is the subject of the triple.
+func (parser *rdfParser2_3) parseAnnotation(triple *gordfParser.Triple) error {
+	subject, err := ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+	if err != nil {
+		return err
+	}
+	err = parser.parseAnnotationFromNode(triple.Object)
+	if err != nil {
+		return err
+	}
+	parser.doc.Annotations[len(parser.doc.Annotations)-1].AnnotationSPDXIdentifier = subject
+	return nil
+}
+
 // creates a new instance of annotation and sets the annotation attributes
 // associated with the given node.
 // The newly created annotation is appended to the doc.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index a69d343..f67ca6e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -118,7 +118,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 06d8766..5f67bb5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -167,7 +167,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 81144ee..c20c2b3 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -76,7 +76,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotation(subTriple)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From 31750acc56f77bbd2027abcc449edaf3b7093cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 24/51] fix: take filesAnalyzed as true when an RDF package
 does not state it

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 3 ++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index c429aa4..0f3b98a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -12,7 +12,8 @@ import (
 )
 
 func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (pkg *v2_2.Package, err error) {
-	pkg = &v2_2.Package{} // new package which will be returned
+	// new package which will be returned. filesAnalyzed is true unless the package says otherwise
+	pkg = &v2_2.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 5f67bb5..8cdafa5 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -12,7 +12,8 @@ import (
 )
 
 func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (pkg *spdx.Package, err error) {
-	pkg = &spdx.Package{} // new package which will be returned
+	// new package which will be returned. filesAnalyzed is true unless the package says otherwise
+	pkg = &spdx.Package{FilesAnalyzed: true}
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
-- 
2.43.0


From 494fc79a27ae8138894d40e06e2a0f43b3162fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 25/51] fix: read NONE and NOASSERTION copyright texts of RDF
 documents

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_2/rdf/reader/utils.go              | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_3/rdf/reader/utils.go              | 12 ++++++++++++
 8 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index d785af4..2e0c296 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -85,10 +85,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getTextOrSpecialValue(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 0f3b98a..b2f0b9a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -124,7 +124,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 3.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getTextOrSpecialValue(subTriple.Object)
 		case SPDX_SUMMARY: // 3.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bfb8b47..b58d999 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getTextOrSpecialValue(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 4209c76..61adb1b 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -57,6 +57,18 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return triples
 }
 
+// a text property is a literal or one of the special values NONE and NOASSERTION given by their uri
+func getTextOrSpecialValue(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	default:
+		return node.ID
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index f67ca6e..c64aec0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -85,10 +85,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getTextOrSpecialValue(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 8cdafa5..3dc852e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -124,7 +124,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 7.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getTextOrSpecialValue(subTriple.Object)
 		case SPDX_SUMMARY: // 7.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 583805c..bd1b208 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getTextOrSpecialValue(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index 5ed98b1..e60e48a 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -57,6 +57,18 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return triples
 }
 
+// a text property is a literal or one of the special values NONE and NOASSERTION given by their uri
+func getTextOrSpecialValue(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	default:
+		return node.ID
+	}
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From a630ea8e8f50027bf589e943045511f7242c9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 26/51] fix: read the PERSISTENT-ID reference category from RDF
 documents

---
 spdx/v2/v2_3/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..737dfa6 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -87,6 +87,7 @@ var (
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 3dc852e..4e74f7d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -198,6 +198,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-- 
2.43.0


From af91f58a4217272f8af2c651fa0928f177ab2f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 27/51] fix: read the primary package purpose from RDF
 documents

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 4e74f7d..1d6fd2d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -229,7 +229,7 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	value := strings.TrimPrefix(getLastPartOfURI(purpose), "packagePurpose_")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
-- 
2.43.0


From 45d06babc950b7ec213ef1fe9ef180f52a375709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 28/51] fix: drop the identifier prefixes of RDF documents and
 external document references

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 7 ++++---
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 3f793b7..772e26f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -92,7 +93,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index c20c2b3..f55b231 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -92,7 +93,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From 3d75c0a0fa660eab8725fd0391f7d8a3d19dd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 29/51] fix: read attribution texts, annotations and
 relationships of RDF snippets

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index b58d999..329ba94 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -69,6 +69,21 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index bd1b208..0309bd1 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -69,6 +69,21 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotation(siTriple)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
-- 
2.43.0


From 947efa5a4d760468a4f6cab763a2da96de93a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 30/51] fix: accept the relationship types SPDX 2.3 adds in RDF
 documents

---
 spdx/v2/v2_3/rdf/reader/constants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 737dfa6..887a212 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -155,7 +155,7 @@ func AllRelationshipTypes() []string {
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
 		"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
-		"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
+		"requirementDescriptionFor", "runtimeDependencyOf", "specificationFor", "staticLink", "testDependencyOf", "testOf",
 		"testToolOf", "testcaseOf", "variantOf",
 	}
 }
-- 
2.43.0


From 53e6cd6e78d6c9b9d63420186b9a53ded96725aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 31/51] fix: say in the idsearcher documentation that long
 lines are searched

---
 docs/idsearcher-assumptions.md | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/docs/idsearcher-assumptions.md b/docs/idsearcher-assumptions.md
index 32b75e9..41491d6 100644
--- a/docs/idsearcher-assumptions.md
+++ b/docs/idsearcher-assumptions.md
@@ -3,9 +3,7 @@ SPDX-License-Identifier: CC-BY-4.0
 The short-form ID searcher in `package idsearcher` makes the following assumptions:
 
 - The searcher uses bufio.Scanner to scan the contents of each file, line by
-  line. If it encounters a line that is too large to fit within the buffer, it
-  will stop scanning that file. As a result, it will currently only pick up
-  short-form IDs that occur prior to such a line.
+  line, whatever the length of the lines.
 
 - For PackageLicenseInfoFromFiles (in Package) and LicenseInfoInFile (in File),
   an exception should be treated as a separate "license". For example, in the
-- 
2.43.0


From 4583fa18c1a677bbc82127dfd7d8bb98a889aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 32/51] fix: read the whole source of an RDF document, whatever
 chunks it comes in

---
 rdf/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 9bc3369..3044c53 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,6 +3,7 @@
 package rdf
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -32,7 +33,13 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	// the parser takes a read of no bytes for a byte and does not see errors behind the root element
+	text, err := io.ReadAll(content)
+	if err != nil {
+		return err
+	}
+
+	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(text))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 06013983ef563396b6c78b0d8f7ec4c38ca75d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 33/51] fix: decode entities, CDATA sections and UTF-8 text of
 RDF documents

---
 rdf/reader.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index 3044c53..cf549e9 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -6,7 +6,10 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"html"
 	"io"
+	"regexp"
+	"strings"
 
 	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -43,6 +46,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if err != nil {
 		return err
 	}
+	decodeNodes(rdfParserObj)
 
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
@@ -79,3 +83,34 @@ func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	}
 	return version, nil
 }
+
+// decodeNodes decodes the text of literals and references, which the parser leaves as it is spelled in the document
+func decodeNodes(parser *gordfParser.Parser) {
+	decoded := map[*gordfParser.Node]bool{}
+	for _, triple := range parser.Triples {
+		for _, node := range []*gordfParser.Node{triple.Subject, triple.Predicate, triple.Object} {
+			if node == nil || decoded[node] {
+				continue
+			}
+			decoded[node] = true
+			node.ID = decodeText(node.ID)
+		}
+	}
+}
+
+var xmlReference = regexp.MustCompile(`&(lt|gt|amp|quot|apos|#[0-9]+|#x[0-9A-Fa-f]+);`)
+
+// decodeText removes the CDATA markers or resolves the entity and character references of a text. Outside of CDATA
+// the parser has taken each byte of the text for a character of its own.
+func decodeText(text string) string {
+	if data, isCDATA := strings.CutPrefix(text, "<![CDATA["); isCDATA {
+		return strings.TrimSuffix(data, "]]>")
+	}
+
+	utf8Text := make([]byte, 0, len(text))
+	for _, char := range text {
+		utf8Text = append(utf8Text, byte(char))
+	}
+
+	return xmlReference.ReplaceAllStringFunc(string(utf8Text), html.UnescapeString)
+}
-- 
2.43.0


From fcf063084d074a06074cc1dca31c239dc336b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 34/51] fix: accept comments in RDF documents

---
 rdf/reader.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index cf549e9..7565431 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -42,7 +42,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 
-	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(text))
+	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(withoutComments(text)))
 	if err != nil {
 		return err
 	}
@@ -114,3 +114,15 @@ func decodeText(text string) string {
 
 	return xmlReference.ReplaceAllStringFunc(string(utf8Text), html.UnescapeString)
 }
+
+var xmlComment = regexp.MustCompile(`(?s)<!\[CDATA\[.*?\]\]>|<!--.*?-->`)
+
+// withoutComments removes the comments of an XML text, which the parser does not accept
+func withoutComments(text []byte) []byte {
+	return xmlComment.ReplaceAllFunc(text, func(match []byte) []byte {
+		if bytes.HasPrefix(match, []byte("<!--")) {
+			return nil
+		}
+		return match
+	})
+}
-- 
2.43.0


From 660ceb796a30108a3fb4f2b7ed6888ca1f98be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 35/51] fix: refer to elements of other documents that RDF
 documents name in their namespace

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 18 ++++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 8032918..c6961ca 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -67,6 +67,13 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
+				// not described here, it may be an element of another document
+				if reln.RefB.DocumentRefID == "" && reln.RefB.SpecialID == "" {
+					reln.RefB.DocumentRefID, err = parser.getDocumentRefOfURI(subTriple.Object.ID)
+					if err != nil {
+						return err
+					}
+				}
 				continue
 			}
 
@@ -128,6 +135,17 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 	return nil
 }
 
+// returns the ID of the external document reference whose namespace the uri is in, if any
+func (parser *rdfParser2_2) getDocumentRefOfURI(uri string) (common.DocumentID, error) {
+	for _, triple := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, nil, &SPDX_SPDX_DOCUMENT, nil) {
+		if strings.HasPrefix(uri, strings.TrimSuffix(triple.Object.ID, "#")+"#") {
+			edr, err := parser.getExternalDocumentRefFromNode(triple.Subject)
+			return edr.DocumentRefID, err
+		}
+	}
+	return "", nil
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 4f8241e..2324656 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -67,6 +67,13 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 
 			relatedSpdxElementTriples := parser.nodeToTriples(subTriple.Object)
 			if len(relatedSpdxElementTriples) == 0 {
+				// not described here, it may be an element of another document
+				if reln.RefB.DocumentRefID == "" && reln.RefB.SpecialID == "" {
+					reln.RefB.DocumentRefID, err = parser.getDocumentRefOfURI(subTriple.Object.ID)
+					if err != nil {
+						return err
+					}
+				}
 				continue
 			}
 
@@ -128,6 +135,17 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 	return nil
 }
 
+// returns the ID of the external document reference whose namespace the uri is in, if any
+func (parser *rdfParser2_3) getDocumentRefOfURI(uri string) (common.DocumentID, error) {
+	for _, triple := range rdfwriter.FilterTriples(parser.gordfParserObj.Triples, nil, &SPDX_SPDX_DOCUMENT, nil) {
+		if strings.HasPrefix(uri, strings.TrimSuffix(triple.Object.ID, "#")+"#") {
+			edr, err := parser.getExternalDocumentRefFromNode(triple.Subject)
+			return edr.DocumentRefID, err
+		}
+	}
+	return "", nil
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
-- 
2.43.0


From 795e6826ca695a688c977ec6eedd4f31b884344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 36/51] fix: read described licenses in the
 licenseInfoFromFiles of RDF packages

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 11 ++++++++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index b2f0b9a..82559cb 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -111,7 +111,16 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 3.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				// the license is described, not just a license uri
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 3.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 1d6fd2d..a35be9a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -111,7 +111,16 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 7.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			license := getLicenseStringFromURI(subTriple.Object.ID)
+			if len(parser.nodeToTriples(subTriple.Object)) > 0 {
+				// the license is described, not just a license uri
+				anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+				if err != nil {
+					return nil, err
+				}
+				license = anyLicenseInfo.ToLicenseString()
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, license)
 		case SPDX_LICENSE_DECLARED: // 7.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
-- 
2.43.0


From 010bfa6b736162c930a414a54fc0ea6f9ac970a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 37/51] fix: list the files of a directory that is given by a
 symbolic link

---
 utils/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..fb2ef45 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -28,7 +28,11 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	dirRoot = absRoot
+	// filepath.Walk does not follow symbolic links, not even for its root
+	dirRoot, err = filepath.EvalSymlinks(absRoot)
+	if err != nil {
+		return nil, err
+	}
 	prefix := strings.TrimSuffix(filepath.ToSlash(dirRoot), "/")
 
 	err = filepath.Walk(dirRoot, func(path string, fi os.FileInfo, err error) error {
-- 
2.43.0


From 3789751a9e4706b467dc28c6a065f095f9b823ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 38/51] fix: skip named pipes, sockets and devices when listing
 the files of a package

---
 utils/filesystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index fb2ef45..e31a225 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -43,8 +43,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if fi.IsDir() {
 			return nil
 		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's a symbolic link, or another special
+		// file (such as a named pipe or a socket) that has no contents
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From 6cf1ac13ab23ed668cce6acbd29a2f37df29aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 39/51] fix: stop a short-form ID before the end of an HTML or
 XML comment

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 6d3c04c..606a3d3 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -169,9 +169,10 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before trailing */ or --> if it is present
 			lidToExtract := strs[1]
 			lidToExtract = strings.Split(lidToExtract, "*/")[0]
+			lidToExtract = strings.Split(lidToExtract, "-->")[0]
 			lid := strings.TrimSpace(stripTrash(lidToExtract))
 			if lid == "" {
 				continue
-- 
2.43.0


From 119778318f008d2856710a2c50f0eed2b1fb89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 40/51] fix: keep the colon of a short-form ID that refers to a
 license of another document

---
 idsearcher/idsearcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 606a3d3..1e1ebcf 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -200,7 +200,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 }
 
 func stripTrash(lid string) string {
-	re := regexp.MustCompile(`[^\w\s\d.\-\+()]+`)
+	re := regexp.MustCompile(`[^\w\s\d.:\-\+()]+`)
 	return re.ReplaceAllString(lid, "")
 }
 
-- 
2.43.0


From 51325d46d1cbb12143b852d46332da41417d2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 41/51] fix: read long tag-value texts of many lines in linear
 time

---
 tagvalue/reader/reader.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 83afe2a..02fe9a8 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -63,6 +63,8 @@ type tvReader struct {
 	currentLine  int
 	currentTag   string
 	currentValue string
+	// earlierValue holds what comes before currentValue in a long text
+	earlierValue strings.Builder
 }
 
 func (reader *tvReader) finalize() ([]tagvalue, error) {
@@ -145,19 +147,25 @@ func (reader *tvReader) readNextLineFromMidtext(line string) error {
 	// look for whether the line closes here
 	substrings := strings.SplitN(line, "</text>", 2)
 	if len(substrings) == 1 {
-		// doesn't contain </text>, so keep building the current value
+		// doesn't contain </text>, so keep building the current value;
+		// appending to a long string would copy it for every line
 		reader.currentValue += line + "\n"
+		if len(reader.currentValue) > 4096 {
+			reader.earlierValue.WriteString(reader.currentValue)
+			reader.currentValue = ""
+		}
 		return nil
 	}
 
 	// contains </text>, so end and record this pair
 	reader.currentValue += substrings[0]
-	tv := tagvalue{reader.currentTag, reader.currentValue}
+	tv := tagvalue{reader.currentTag, reader.earlierValue.String() + reader.currentValue}
 	reader.tvList = append(reader.tvList, tv)
 
 	// and reset
 	reader.midtext = false
 	reader.currentTag = ""
+	reader.earlierValue.Reset()
 	reader.currentValue = ""
 
 	return nil
-- 
2.43.0


From 2fcf9020d9f6e2742a2edb23743669e74c63af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 42/51] fix: drop the null elements of JSON and YAML lists of
 packages, files, licenses, annotations and references

---
 spdx/v2/v2_1/document.go | 38 ++++++++++++++++++++++++++++++++++++++
 spdx/v2/v2_2/document.go | 30 ++++++++++++++++++++----------
 spdx/v2/v2_3/document.go | 36 ++++++++++++++++++++++++++----------
 3 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/spdx/v2/v2_1/document.go b/spdx/v2/v2_1/document.go
index cf824a4..5bcb1cd 100644
--- a/spdx/v2/v2_1/document.go
+++ b/spdx/v2/v2_1/document.go
@@ -4,6 +4,9 @@
 package v2_1
 
 import (
+	"encoding/json"
+	"slices"
+
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
 
@@ -68,3 +71,38 @@ type Document struct {
 	// DEPRECATED in version 2.0 of spec
 	Reviews []*Review `json:"-"`
 }
+
+func (d *Document) UnmarshalJSON(b []byte) error {
+	type doc Document
+
+	var d2 doc
+	if err := json.Unmarshal(b, &d2); err != nil {
+		return err
+	}
+
+	*d = Document(d2)
+
+	// remove null packages, files, relationships etc.
+	removeNulls(d)
+
+	return nil
+}
+
+// removeNulls drops the null elements JSON lists can have, which are not expected elsewhere
+func removeNulls(d *Document) {
+	d.Packages = notNull(d.Packages)
+	d.Files = notNull(d.Files)
+	d.OtherLicenses = notNull(d.OtherLicenses)
+	d.Relationships = notNull(d.Relationships)
+	d.Annotations = notNull(d.Annotations)
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = notNull(p.PackageExternalReferences)
+		p.Files = notNull(p.Files)
+	}
+}
+
+func notNull[T any](list []*T) []*T {
+	return slices.DeleteFunc(list, func(e *T) bool { return e == nil })
+}
+
+var _ json.Unmarshaler = (*Document)(nil)
diff --git a/spdx/v2/v2_2/document.go b/spdx/v2/v2_2/document.go
index 9d40f73..5e75e46 100644
--- a/spdx/v2/v2_2/document.go
+++ b/spdx/v2/v2_2/document.go
@@ -6,6 +6,7 @@ package v2_2
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_1"
@@ -120,13 +121,8 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 		return fmt.Sprintf("%v-%v->%v", common.RenderDocElementID(refA), rel, common.RenderDocElementID(refB))
 	}
 
-	// remove null relationships
-	for i := 0; i < len(d.Relationships); i++ {
-		if d.Relationships[i] == nil {
-			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
-			i--
-		}
-	}
+	// remove null packages, files, relationships etc.
+	removeNulls(d)
 
 	// index current list of relationships to ensure no duplication
 	for _, r := range d.Relationships {
@@ -151,9 +147,6 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 
 	// build relationships for package hasFiles field
 	for _, p := range d.Packages {
-		if p == nil {
-			continue
-		}
 		for _, f := range p.hasFiles {
 			r := &Relationship{
 				RefA: common.DocElementID{
@@ -174,4 +167,21 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+// removeNulls drops the null elements JSON lists can have, which are not expected elsewhere
+func removeNulls(d *Document) {
+	d.Packages = notNull(d.Packages)
+	d.Files = notNull(d.Files)
+	d.OtherLicenses = notNull(d.OtherLicenses)
+	d.Relationships = notNull(d.Relationships)
+	d.Annotations = notNull(d.Annotations)
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = notNull(p.PackageExternalReferences)
+		p.Files = notNull(p.Files)
+	}
+}
+
+func notNull[T any](list []*T) []*T {
+	return slices.DeleteFunc(list, func(e *T) bool { return e == nil })
+}
+
 var _ json.Unmarshaler = (*Document)(nil)
diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..117e153 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -6,6 +6,7 @@ package v2_3
 import (
 	"encoding/json"
 	"fmt"
+	"slices"
 
 	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
@@ -119,13 +120,8 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 		return fmt.Sprintf("%v-%v->%v", common.RenderDocElementID(refA), rel, common.RenderDocElementID(refB))
 	}
 
-	// remove null relationships
-	for i := 0; i < len(d.Relationships); i++ {
-		if d.Relationships[i] == nil {
-			d.Relationships = append(d.Relationships[0:i], d.Relationships[i+1:]...)
-			i--
-		}
-	}
+	// remove null packages, files, relationships etc.
+	removeNulls(d)
 
 	// index current list of relationships to ensure no duplication
 	for _, r := range d.Relationships {
@@ -151,9 +147,6 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 	// build relationships for package hasFiles field
 	// build relationships for package hasFiles field
 	for _, p := range d.Packages {
-		if p == nil {
-			continue
-		}
 		for _, f := range p.hasFiles {
 			r := &Relationship{
 				RefA: common.DocElementID{
@@ -174,4 +167,27 @@ func (d *Document) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+// removeNulls drops the null elements JSON lists can have, which are not expected elsewhere
+func removeNulls(d *Document) {
+	d.Packages = notNull(d.Packages)
+	d.Files = notNull(d.Files)
+	d.OtherLicenses = notNull(d.OtherLicenses)
+	d.Relationships = notNull(d.Relationships)
+	d.Annotations = notNull(d.Annotations)
+	for _, p := range d.Packages {
+		p.PackageExternalReferences = notNull(p.PackageExternalReferences)
+		p.Files = notNull(p.Files)
+		for _, f := range p.Files {
+			f.ArtifactOfProjects = notNull(f.ArtifactOfProjects)
+		}
+	}
+	for _, f := range d.Files {
+		f.ArtifactOfProjects = notNull(f.ArtifactOfProjects)
+	}
+}
+
+func notNull[T any](list []*T) []*T {
+	return slices.DeleteFunc(list, func(e *T) bool { return e == nil })
+}
+
 var _ json.Unmarshaler = (*Document)(nil)
-- 
2.43.0


From 09f314ffab9512e8f34d9fb370b887aa9f683fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 43/51] fix: keep the elements of lists that are empty when
 converting documents

---
 convert/chain.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..a1b6de3 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -36,5 +36,32 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
 		return nil
 	}
-	return DocumentChain().Convert(from, to)
+	if err := DocumentChain().Convert(from, to); err != nil {
+		return err
+	}
+	fillNilElements(reflect.ValueOf(to))
+	return nil
+}
+
+// fillNilElements sets the nil pointers in lists to empty values: the converter leaves an element
+// out when all of its fields are empty, and nothing expects lists with nil elements
+func fillNilElements(value reflect.Value) {
+	switch value.Kind() {
+	case reflect.Ptr:
+		if !value.IsNil() {
+			fillNilElements(value.Elem())
+		}
+	case reflect.Struct:
+		for i := 0; i < value.NumField(); i++ {
+			fillNilElements(value.Field(i))
+		}
+	case reflect.Slice:
+		for i := 0; i < value.Len(); i++ {
+			element := value.Index(i)
+			if element.Kind() == reflect.Ptr && element.IsNil() {
+				element.Set(reflect.New(element.Type().Elem()))
+			}
+			fillNilElements(element)
+		}
+	}
 }
-- 
2.43.0


From db7a3d793fe1c06ac9a59e56c46788dcbb222a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 44/51] fix: keep reading numbers and booleans of SPDX 2.1 YAML
 as text while dropping null list elements

---
 json/reader.go           |  1 +
 spdx/v2/v2_1/document.go | 24 +++---------------------
 yaml/reader.go           |  1 +
 3 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/json/reader.go b/json/reader.go
index f1a0b98..a1290dc 100644
--- a/json/reader.go
+++ b/json/reader.go
@@ -60,6 +60,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		doc.RemoveNulls()
 		data = doc
 	case v2_2.Version:
 		var doc v2_2.Document
diff --git a/spdx/v2/v2_1/document.go b/spdx/v2/v2_1/document.go
index 5bcb1cd..23f85dd 100644
--- a/spdx/v2/v2_1/document.go
+++ b/spdx/v2/v2_1/document.go
@@ -4,7 +4,6 @@
 package v2_1
 
 import (
-	"encoding/json"
 	"slices"
 
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -72,24 +71,9 @@ type Document struct {
 	Reviews []*Review `json:"-"`
 }
 
-func (d *Document) UnmarshalJSON(b []byte) error {
-	type doc Document
-
-	var d2 doc
-	if err := json.Unmarshal(b, &d2); err != nil {
-		return err
-	}
-
-	*d = Document(d2)
-
-	// remove null packages, files, relationships etc.
-	removeNulls(d)
-
-	return nil
-}
-
-// removeNulls drops the null elements JSON lists can have, which are not expected elsewhere
-func removeNulls(d *Document) {
+// RemoveNulls drops the null elements JSON and YAML lists can have, which are not expected elsewhere.
+// The readers call it; an UnmarshalJSON method would make YAML reject numbers and booleans as text.
+func (d *Document) RemoveNulls() {
 	d.Packages = notNull(d.Packages)
 	d.Files = notNull(d.Files)
 	d.OtherLicenses = notNull(d.OtherLicenses)
@@ -104,5 +88,3 @@ func removeNulls(d *Document) {
 func notNull[T any](list []*T) []*T {
 	return slices.DeleteFunc(list, func(e *T) bool { return e == nil })
 }
-
-var _ json.Unmarshaler = (*Document)(nil)
diff --git a/yaml/reader.go b/yaml/reader.go
index c4b39d4..6b39955 100644
--- a/yaml/reader.go
+++ b/yaml/reader.go
@@ -61,6 +61,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		doc.RemoveNulls()
 		data = doc
 	case v2_2.Version:
 		var doc v2_2.Document
-- 
2.43.0


From 7cebc58c3dc30653ecfddf572cbca8f4f9d9b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 45/51] fix: describe unsupported values holding non-ASCII text
 without panicking

---
 convert/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..47b5477 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -41,10 +41,10 @@ func Describe(o interface{}) string {
 }
 
 func limit(text string, length int) string {
-	if length <= 0 || len(text) <= length+3 {
+	r := []rune(text)
+	if length <= 0 || len(r) <= length+3 {
 		return text
 	}
-	r := []rune(text)
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From 9457d7a1867029882780d6753bc9227bdddfcaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:42 +0000
Subject: [PATCH 46/51] fix: keep next line and other non-printable characters
 of texts when writing YAML

---
 yaml/writer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/yaml/writer.go b/yaml/writer.go
index 4ec078f..a58ee1f 100644
--- a/yaml/writer.go
+++ b/yaml/writer.go
@@ -3,6 +3,9 @@
 package yaml
 
 import (
+	"bytes"
+	"encoding/json"
+	"fmt"
 	"io"
 
 	"sigs.k8s.io/yaml"
@@ -12,7 +15,12 @@ import (
 
 // Write takes an SPDX Document and an io.Writer, and writes the document to the writer in YAML format.
 func Write(doc common.AnyDocument, w io.Writer) error {
-	buf, err := yaml.Marshal(doc)
+	buf, err := json.Marshal(doc)
+	if err != nil {
+		return err
+	}
+
+	buf, err = yaml.JSONToYAML(escapeNonPrintable(buf))
 	if err != nil {
 		return err
 	}
@@ -24,3 +32,18 @@ func Write(doc common.AnyDocument, w io.Writer) error {
 
 	return nil
 }
+
+// escapeNonPrintable escapes the characters JSON text may hold as they are but YAML text may not:
+// YAML takes a next line character (U+0085) as a line break, and rejects the others
+func escapeNonPrintable(text []byte) []byte {
+	var buf bytes.Buffer
+	for _, r := range string(text) {
+		switch {
+		case r >= 0x7F && r <= 0x9F, r == 0xFEFF, r == 0xFFFE, r == 0xFFFF:
+			fmt.Fprintf(&buf, `\u%04x`, r)
+		default:
+			buf.WriteRune(r)
+		}
+	}
+	return buf.Bytes()
+}
-- 
2.43.0


From 70b498925d5632660d0b6395a3db6998214384d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 47/51] fix: read listed and extracted licenses as members of
 RDF license operators

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_license.go | 31 ++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..221254b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_2) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(node.ID)
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_2) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the member of an operator may also be a listed license, referred to or
+// described in place, or an extracted license.
+func (parser *rdfParser2_2) getOperatorMemberFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	}
+	return parser.getSimpleLicensingInfoFromNode(node)
+}
+
 func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..0f03ce1 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -72,6 +72,10 @@ func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLi
 
 func (parser *rdfParser2_3) getLicenseExceptionFromNode(node *gordfParser.Node) (exception LicenseException, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		// just the uri of a listed exception was found.
+		exception.licenseExceptionId = getLastPartOfURI(node.ID)
+	}
 	for _, triple := range associatedTriples {
 		value := triple.Object.ID
 		switch triple.Predicate.ID {
@@ -104,6 +108,29 @@ func (parser *rdfParser2_3) getSimpleLicensingInfoFromNode(node *gordfParser.Nod
 	return parser.getSimpleLicensingInfoFromTriples(simpleLicensingTriples)
 }
 
+// the member of an operator may also be a listed license, referred to or
+// described in place, or an extracted license.
+func (parser *rdfParser2_3) getOperatorMemberFromNode(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(associatedTriples) == 0 {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: string(lic.value)}, err
+	}
+	nodeType, err := getNodeTypeFromTriples(associatedTriples, node)
+	if err != nil {
+		return SimpleLicensingInfo{}, err
+	}
+	switch nodeType {
+	case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+		lic, err := parser.getLicenseFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	case SPDX_EXTRACTED_LICENSING_INFO:
+		lic, err := parser.getExtractedLicensingInfoFromNode(node)
+		return lic.SimpleLicensingInfo, err
+	}
+	return parser.getSimpleLicensingInfoFromNode(node)
+}
+
 func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.Node) (operator WithExceptionOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	var memberFound bool
@@ -117,7 +144,7 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -145,7 +172,7 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getOperatorMemberFromNode(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
-- 
2.43.0


From 1b1e7134791f80c81fa318d652302a8902210ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 48/51] fix: write no SnippetFromFileSPDXID tag for a snippet
 without a file

---
 spdx/v2/v2_1/tagvalue/writer/save_snippet.go | 5 ++---
 spdx/v2/v2_2/tagvalue/writer/save_snippet.go | 5 ++---
 spdx/v2/v2_3/tagvalue/writer/save_snippet.go | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
index afb5b80..d752d91 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
index 6845ec9..2be758e 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
index f7914af..8abeb64 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
@@ -14,9 +14,8 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 	if sn.SnippetSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
-	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
-		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
+	if sn.SnippetFromFileSPDXIdentifier != "" {
+		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", common.RenderElementID(sn.SnippetFromFileSPDXIdentifier))
 	}
 
 	for _, snippetRange := range sn.Ranges {
-- 
2.43.0


From bb7a630702722041f95c12f40148761663a46173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 49/51] fix: reject FilesAnalyzed values other than true and
 false in tag-value documents

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 7 +++++--
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 7 +++++--
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index d983958..7feea97 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -91,10 +91,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		parser.pkg.PackageDownloadLocation = value
 	case "FilesAnalyzed":
 		parser.pkg.IsFilesAnalyzedTagPresent = true
-		if value == "false" {
+		switch strings.ToLower(value) {
+		case "false":
 			parser.pkg.FilesAnalyzed = false
-		} else if value == "true" {
+		case "true":
 			parser.pkg.FilesAnalyzed = true
+		default:
+			return fmt.Errorf("FilesAnalyzed can be either true or false, got %q", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index 846c80b..6b2b209 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -95,10 +95,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		parser.pkg.PackageDownloadLocation = value
 	case "FilesAnalyzed":
 		parser.pkg.IsFilesAnalyzedTagPresent = true
-		if value == "false" {
+		switch strings.ToLower(value) {
+		case "false":
 			parser.pkg.FilesAnalyzed = false
-		} else if value == "true" {
+		case "true":
 			parser.pkg.FilesAnalyzed = true
+		default:
+			return fmt.Errorf("FilesAnalyzed can be either true or false, got %q", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index 8e581b7..15ba57e 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -95,10 +95,13 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		parser.pkg.PackageDownloadLocation = value
 	case "FilesAnalyzed":
 		parser.pkg.IsFilesAnalyzedTagPresent = true
-		if value == "false" {
+		switch strings.ToLower(value) {
+		case "false":
 			parser.pkg.FilesAnalyzed = false
-		} else if value == "true" {
+		case "true":
 			parser.pkg.FilesAnalyzed = true
+		default:
+			return fmt.Errorf("FilesAnalyzed can be either true or false, got %q", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
-- 
2.43.0


From 176e577164109d8b12f8f09865dc43bcecf3e2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:23 +0000
Subject: [PATCH 50/51] fix: references and agents read from JSON keep nothing
 of an earlier value

---
 spdx/v2/common/identifier.go | 3 +++
 spdx/v2/common/package.go    | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 10c1b4f..8108f6d 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -151,6 +151,9 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	// leave nothing of an earlier value
+	*d = DocElementID{}
+
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
 		d.SpecialID = idStr
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index ca4b528..45e55be 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -26,7 +26,7 @@ func (s *Supplier) UnmarshalJSON(data []byte) error {
 	}
 
 	if supplierStr == "NOASSERTION" {
-		s.Supplier = supplierStr
+		*s = Supplier{Supplier: supplierStr}
 		return nil
 	}
 
@@ -71,7 +71,7 @@ func (o *Originator) UnmarshalJSON(data []byte) error {
 	}
 
 	if originatorStr == "NOASSERTION" {
-		o.Originator = originatorStr
+		*o = Originator{Originator: originatorStr}
 		return nil
 	}
 
-- 
2.43.0


From a7769cd7abd3a2bc105dad124c1208325aaba482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:09 +0000
Subject: [PATCH 51/51] fix: a relationship node that several elements share
 states a relationship of each

The state of a relationship node being read was kept by the node alone. Where
reading the related element led back to the node from another element, that
element's relationship was dropped.
---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 10 ++++++----
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index c6961ca..0f35485 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -24,11 +24,13 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
+	// several elements can share one relationship node, with a relationship each
+	stateKey := triple.Subject.ID + " " + triple.Object.ID
+	currState := parser.cache[stateKey]
 	if currState == nil {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
+		parser.cache[stateKey] = &nodeState{
 			object: reln,
 			Color:  WHITE,
 		}
@@ -39,10 +41,10 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 
 	// setting color of the state to grey to indicate that we've started to
 	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
+	parser.cache[stateKey].Color = GREY
 
 	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
+	defer func() { parser.cache[stateKey].Color = BLACK }()
 
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 2324656..efb01fa 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -24,11 +24,13 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
+	// several elements can share one relationship node, with a relationship each
+	stateKey := triple.Subject.ID + " " + triple.Object.ID
+	currState := parser.cache[stateKey]
 	if currState == nil {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
+		parser.cache[stateKey] = &nodeState{
 			object: reln,
 			Color:  WHITE,
 		}
@@ -39,10 +41,10 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 
 	// setting color of the state to grey to indicate that we've started to
 	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
+	parser.cache[stateKey].Color = GREY
 
 	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
+	defer func() { parser.cache[stateKey].Color = BLACK }()
 
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
-- 
2.43.0

