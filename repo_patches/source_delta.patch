From 7cfb6912660d09a5f8ba8aca8fb9165d227f3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:52 +0000
Subject: [PATCH 01/50] fix: report data which is lost when a buffer's file is
 flushed or closed

Data::write() ignored the result of fclose(), so a buffer which was still in
stdio's buffer when the disk filled up was lost without an error, and
write_via_temp() then replaced a good file with the truncated one.
---
 src/data.cc |  4 ++++
 src/file.cc | 11 +++++++----
 src/file.h  |  4 +++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/data.cc b/src/data.cc
index a26d4d1..22a6826 100644
--- a/src/data.cc
+++ b/src/data.cc
@@ -57,6 +57,10 @@ Data::write (boost::filesystem::path file) const
 	if (f.write(data(), 1, size()) != size_t(size())) {
 		throw FileError ("could not write to file", file, errno);
 	}
+	/* Some of the data may not be written (and so may not fail to be written) until now */
+	if (f.close() != 0) {
+		throw FileError ("could not write to file", file, errno);
+	}
 }
 
 
diff --git a/src/file.cc b/src/file.cc
index cb7088b..143dc03 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -92,13 +92,16 @@ File::operator=(File&& other)
 }
 
 
-void
+int
 File::close()
 {
-	if (_file) {
-		fclose(_file);
-		_file = nullptr;
+	if (!_file) {
+		return 0;
 	}
+
+	auto const result = fclose(_file);
+	_file = nullptr;
+	return result;
 }
 
 
diff --git a/src/file.h b/src/file.h
index c530c26..7d56796 100644
--- a/src/file.h
+++ b/src/file.h
@@ -85,8 +85,10 @@ public:
 
 	/** Close the file; it is not necessary to call this as the
 	 *  destructor will do it if required.
+	 *  @return 0 on success (or if no file was open), otherwise the error from fclose(), in
+	 *  which case some of the data that was written may have been lost.
 	 */
-	void close();
+	int close();
 
 	boost::filesystem::path path() const {
 		return _path;
-- 
2.43.0


From 16b7e5d76f32e867b6b28f7a11e3419eaacd941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:55 +0000
Subject: [PATCH 02/50] fix: make move-assignment of an open File close the old
 one and take over the new

The check for self-assignment compared the two objects as booleans, so
assigning to a File which was open from another which was open did nothing.
The path of the source was not taken over either.
---
 src/file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index 143dc03..af51172 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -82,8 +82,9 @@ File::File(File&& other)
 File&
 File::operator=(File&& other)
 {
-	if (*this != other) {
+	if (this != &other) {
 		close();
+		_path = other._path;
 		_file = other._file;
 		_open_error = other._open_error;
 		other._file = nullptr;
-- 
2.43.0


From 7d5621fb9649175e81bb1901d26ed6e2bf86071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:55 +0000
Subject: [PATCH 03/50] fix: keep a ScopeGuard cancelled when it is moved

A guard made by moving from a cancelled one would run the action.
---
 src/scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope_guard.h b/src/scope_guard.h
index d422528..bb75812 100644
--- a/src/scope_guard.h
+++ b/src/scope_guard.h
@@ -52,6 +52,7 @@ public:
 
 	ScopeGuard(ScopeGuard&& other)
 		: _function(std::move(other._function))
+		, _cancelled(other._cancelled)
 	{
 		other._function = []{};
 	}
-- 
2.43.0


From 7036b64e1b8c3528680dc950b04afe6b6dd7f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:54 +0000
Subject: [PATCH 04/50] fix: compare the minutes of both times in UTC when
 ordering local times

---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index d22e07a..0fcc115 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -312,7 +312,7 @@ LocalTime::operator< (LocalTime const & other) const
 		return a.hour() < b.hour();
 	}
 	if (a.minute() != b.minute()) {
-		return a.minute() < other.minute();
+		return a.minute() < b.minute();
 	}
 	if (a.second() != b.second()) {
 		return a.second() < b.second();
-- 
2.43.0


From af906b7cccfd20e84b144c2f15d859137b650647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:54 +0000
Subject: [PATCH 05/50] fix: write the sign of UTC offsets between zero and
 minus one hour

---
 src/local_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 0fcc115..2308693 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -200,7 +200,7 @@ LocalTime::as_string(bool with_millisecond, bool with_timezone) const
 	if (with_timezone) {
 		snprintf(
 			buffer + written, sizeof(buffer) - written,
-			"%s%02d:%02d", (_offset.hour() >= 0 ? "+" : "-"), abs(_offset.hour()), abs(_offset.minute())
+			"%s%02d:%02d", ((_offset.hour() < 0 || _offset.minute() < 0) ? "-" : "+"), abs(_offset.hour()), abs(_offset.minute())
 			);
 	}
 	return buffer;
-- 
2.43.0


From b0c0a9edfc77d5a918403df13cf2b851eb158d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:54 +0000
Subject: [PATCH 06/50] fix: accept every UTC offset in use, from -12:00 to
 +14:00

---
 src/utc_offset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utc_offset.cc b/src/utc_offset.cc
index 8d4870d..a5a4cc2 100644
--- a/src/utc_offset.cc
+++ b/src/utc_offset.cc
@@ -42,7 +42,7 @@ using namespace dcp;
 void
 UTCOffset::set_hour(int hour)
 {
-	DCP_ASSERT(hour >= -11 && hour <= 12);
+	DCP_ASSERT(hour >= -12 && hour <= 14);
 	_hour = hour;
 }
 
-- 
2.43.0


From 3e5e9834791b37d345cc0f02cbeb2a6864b15382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:54 +0000
Subject: [PATCH 07/50] fix: take local time and its UTC offset from one
 reading of the clock

The default constructor of LocalTime read the clock twice, once for the time
and once for the offset.  When a daylight-saving change fell in between the
result was an hour out.  It also used localtime(), whose result is shared by
all threads.
---
 src/local_time.cc | 18 +++++++++++++-----
 src/local_time.h  |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 2308693..445a9a3 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -55,10 +55,13 @@ using namespace dcp;
 
 LocalTime::LocalTime ()
 {
-	auto now = time (0);
-	auto tm = localtime (&now);
-	set (tm);
-	set_local_time_zone ();
+	/* The time and the offset must come from the same reading of the clock, as there may be a
+	 * daylight saving change between two of them.
+	 */
+	auto const utc_now = boost::posix_time::second_clock::universal_time ();
+	auto const now = boost::date_time::c_local_adjustor<boost::posix_time::ptime>::utc_to_local (utc_now);
+	set (now);
+	set_offset (now - utc_now);
 }
 
 
@@ -116,8 +119,13 @@ LocalTime::set_local_time_zone ()
 {
 	auto const utc_now = boost::posix_time::second_clock::universal_time ();
 	auto const now = boost::date_time::c_local_adjustor<boost::posix_time::ptime>::utc_to_local (utc_now);
-	auto offset = now - utc_now;
+	set_offset (now - utc_now);
+}
+
 
+void
+LocalTime::set_offset (boost::posix_time::time_duration offset)
+{
 	_offset = { static_cast<int>(offset.hours()), static_cast<int>(offset.minutes()) };
 }
 
diff --git a/src/local_time.h b/src/local_time.h
index a213d0c..e1bf6c9 100644
--- a/src/local_time.h
+++ b/src/local_time.h
@@ -170,6 +170,7 @@ private:
 	void set (struct tm const * tm);
 	void set (boost::posix_time::ptime);
 	void set_local_time_zone ();
+	void set_offset (boost::posix_time::time_duration offset);
 	dcp::LocalTime as_utc() const;
 
 	/* Local time */
-- 
2.43.0


From 7907771f0262d0a0e75c7f57a8dd7898607a7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:04 +0000
Subject: [PATCH 08/50] fix: report read errors when reading a file into a
 string

---
 src/util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 61b9ba6..75bab6b 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -276,6 +276,9 @@ dcp::file_to_string (boost::filesystem::path p, uintmax_t max_length)
 	std::vector<char> buffer(len);
 	/* This may read less than `len' if we are on Windows and we have CRLF in the file */
 	int const N = f.read(buffer.data(), 1, len);
+	if (f.error()) {
+		throw FileError("could not read file", p, errno);
+	}
 	return string(buffer.data(), N);
 }
 
-- 
2.43.0


From 56d2d08d205d071c0ed0381b7122f6b94c2e9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:04 +0000
Subject: [PATCH 09/50] fix: report read errors when loading language tags

---
 src/language_tag.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/language_tag.cc b/src/language_tag.cc
index 227620b..f74cd27 100644
--- a/src/language_tag.cc
+++ b/src/language_tag.cc
@@ -435,6 +435,9 @@ load_language_tag_list (boost::filesystem::path tags_directory, string name, std
 	while (!f.eof()) {
 		char* r = f.gets(buffer, sizeof(buffer));
 		if (r == 0) {
+			if (f.error()) {
+				throw FileError ("Could not read tags file", tags_directory / name, errno);
+			}
 			break;
 		}
 		string a = buffer;
-- 
2.43.0


From 441838820ae57fa196a73fa9d41d6d59e98521e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:04 +0000
Subject: [PATCH 10/50] fix: report read errors when loading ratings

---
 src/rating.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rating.cc b/src/rating.cc
index 156d5ad..883c776 100644
--- a/src/rating.cc
+++ b/src/rating.cc
@@ -92,6 +92,9 @@ dcp::load_rating_list(boost::filesystem::path ratings_file)
 		char buffer[512];
 		char* r = f.gets(buffer, sizeof(buffer));
 		if (r == 0) {
+			if (f.error()) {
+				throw FileError("Could not read ratings file", ratings_file, errno);
+			}
 			return {};
 		}
 		string a = buffer;
-- 
2.43.0


From 1ed2e6176bc916fcaea1118d7400782567a7a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:56 +0000
Subject: [PATCH 11/50] fix: clean up and restore the working directory when
 making a certificate chain fails

---
 src/certificate_chain.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/certificate_chain.cc b/src/certificate_chain.cc
index d54d8fb..a2f207b 100644
--- a/src/certificate_chain.cc
+++ b/src/certificate_chain.cc
@@ -210,9 +210,18 @@ CertificateChain::CertificateChain (
 	)
 {
 	auto directory = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path ();
+	/* Whatever happens, don't leave our private keys lying around */
+	ScopeGuard remove_directory([directory]() {
+		boost::system::error_code ec;
+		boost::filesystem::remove_all(filesystem::fix_long_path(directory), ec);
+	});
 	filesystem::create_directories(directory);
 
 	auto const cwd = boost::filesystem::current_path();
+	ScopeGuard restore_cwd([cwd]() {
+		boost::system::error_code ec;
+		boost::filesystem::current_path(cwd, ec);
+	});
 	/* On Windows we will use cmd.exe here, and that doesn't work with UNC paths, so make sure
 	 * we don't use our own filesystem::current_path() as it will make the current working
 	 * directory a UNC path.
-- 
2.43.0


From 7642f3ee61b608b9c1b7b513cc62a77c7274a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:51 +0000
Subject: [PATCH 12/50] fix: give a new CPL a valid default issuer and creator

---
 src/cpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index cac3c2e..2c5bf60 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -94,8 +94,8 @@ auto constexpr profile_tag = "DCP Constraints Profile";
 
 CPL::CPL(string annotation_text, ContentKind content_kind, Standard standard, Profile profile)
 	/* default _content_title_text to annotation_text */
-	: _issuer("libdcp", dcp::version)
-	, _creator("libdcp", dcp::version)
+	: _issuer(string("libdcp ") + dcp::version)
+	, _creator(string("libdcp ") + dcp::version)
 	, _issue_date(LocalTime().as_string())
 	, _annotation_text(annotation_text)
 	, _content_title_text(annotation_text)
-- 
2.43.0


From 88f32ae7a18bc7144529cddd03f4b7985d98b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:51 +0000
Subject: [PATCH 13/50] fix: report failures when writing a string to a file

---
 src/util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 75bab6b..c93f384 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -291,7 +291,9 @@ dcp::write_string_to_file(string const& string, boost::filesystem::path const& p
 		throw FileError("could not open file", path, errno);
 	}
 
-	file.write(string.c_str(), string.length(), 1);
+	if (file.write(string.c_str(), 1, string.length()) != string.length() || file.close()) {
+		throw FileError("could not write to file", path, errno);
+	}
 }
 
 
-- 
2.43.0


From ce86ca266879791b8eab9c8e557ac2d7058607e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:51 +0000
Subject: [PATCH 14/50] fix: report data which is lost when a KDM file is
 flushed or closed

---
 src/encrypted_kdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypted_kdm.cc b/src/encrypted_kdm.cc
index 23cbb0b..49b1bac 100644
--- a/src/encrypted_kdm.cc
+++ b/src/encrypted_kdm.cc
@@ -745,7 +745,7 @@ EncryptedKDM::as_xml (boost::filesystem::path path) const
 		throw FileError ("Could not open KDM file for writing", path, errno);
 	}
 	auto const x = as_xml ();
-	if (f.write(x.c_str(), 1, x.length()) != x.length()) {
+	if (f.write(x.c_str(), 1, x.length()) != x.length() || f.close()) {
 		throw FileError ("Could not write to KDM file", path, errno);
 	}
 }
-- 
2.43.0


From 52ca740ff05394265208048026b5e5312060ddc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:51 +0000
Subject: [PATCH 15/50] fix: report failures when writing an Interop text asset

---
 src/interop_text_asset.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index d789194..c92726c 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -202,7 +202,9 @@ InteropTextAsset::write(boost::filesystem::path p) const
 
 	_raw_xml = xml_as_string ();
 	/* length() here gives bytes not characters */
-	f.write(_raw_xml->c_str(), 1, _raw_xml->length());
+	if (f.write(_raw_xml->c_str(), 1, _raw_xml->length()) != _raw_xml->length() || f.close()) {
+		throw FileError("Could not write to file", p, errno);
+	}
 
 	_file = p;
 
-- 
2.43.0


From bfd6f53e3da46a4d7a1aa4931bec1fdb0310394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:16 +0000
Subject: [PATCH 16/50] fix: list a composition only once when combined
 packages share it

---
 src/combine.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/combine.cc b/src/combine.cc
index e84b59a..b44243f 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -50,6 +50,7 @@
 #include <fmt/format.h>
 #include <boost/filesystem.hpp>
 #include <boost/system/windows_error.hpp>
+#include <algorithm>
 #include <set>
 #include <string>
 #include <vector>
@@ -140,7 +141,10 @@ dcp::combine(
 		dcp.read();
 
 		for (auto j: dcp.cpls()) {
-			output_dcp.add(j);
+			auto const existing = output_dcp.cpls();
+			if (std::none_of(existing.begin(), existing.end(), [j](shared_ptr<CPL> cpl) { return cpl->id() == j->id(); })) {
+				output_dcp.add(j);
+			}
 		}
 
 		for (auto j: dcp.assets(true)) {
-- 
2.43.0


From 0c6ab733b015eb5bd4983de418e6685fa34ae98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:16 +0000
Subject: [PATCH 17/50] fix: copy assets when combining packages on filesystems
 which refuse hard links with other errors

---
 src/combine.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combine.cc b/src/combine.cc
index b44243f..7c6cf8d 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -96,7 +96,9 @@ create_hard_link_or_copy(boost::filesystem::path from, boost::filesystem::path t
 #ifdef LIBDCP_WINDOWS
 			e.code() == boost::system::windows_error::invalid_function ||
 #endif
-			e.code() == boost::system::errc::operation_not_supported
+			e.code() == boost::system::errc::operation_not_supported ||
+			e.code() == boost::system::errc::operation_not_permitted ||
+			e.code() == boost::system::errc::too_many_links
 		   ) {
 			dcp::filesystem::copy_file(from, to);
 		} else {
-- 
2.43.0


From 421d08757d88e5378d8e71948b41927d211c2e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:13 +0000
Subject: [PATCH 18/50] fix: forget the old hash of a text asset when it is
 written anew

---
 src/asset.cc              | 2 +-
 src/asset.h               | 2 +-
 src/interop_text_asset.cc | 2 ++
 src/smpte_text_asset.cc   | 2 ++
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asset.cc b/src/asset.cc
index ef06ea8..50afed5 100644
--- a/src/asset.cc
+++ b/src/asset.cc
@@ -189,7 +189,7 @@ Asset::set_hash (string hash)
 
 
 void
-Asset::unset_hash()
+Asset::unset_hash() const
 {
 	_hash = optional<string>();
 }
diff --git a/src/asset.h b/src/asset.h
index 390b667..b6e4792 100644
--- a/src/asset.h
+++ b/src/asset.h
@@ -135,7 +135,7 @@ public:
 	std::string hash(boost::function<void (int64_t, int64_t)> progress = {}) const;
 
 	void set_hash (std::string hash);
-	void unset_hash();
+	void unset_hash() const;
 
 protected:
 
diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index c92726c..6ff90c4 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -207,6 +207,8 @@ InteropTextAsset::write(boost::filesystem::path p) const
 	}
 
 	_file = p;
+	/* Any hash that we had was for some other file */
+	unset_hash();
 
 	/* Image subtitles */
 	for (auto i: _texts) {
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 36fe544..83778f8 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -501,6 +501,8 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 	writer.Finalize ();
 
 	_file = p;
+	/* Any hash that we had was for some other file */
+	unset_hash();
 }
 
 bool
-- 
2.43.0


From 9b39cddbe6b807354053d2bfacb802ed764b8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:14 +0000
Subject: [PATCH 19/50] fix: list the font of an Interop text asset once even
 if it is loaded twice

---
 src/interop_text_asset.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index 6ff90c4..ce67744 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -265,7 +265,10 @@ InteropTextAsset::font_assets()
 	vector<shared_ptr<Asset>> assets;
 	for (auto const& i: _fonts) {
 		DCP_ASSERT (i.file);
-		assets.push_back(make_shared<FontAsset>(i.uuid, i.file.get()));
+		/* Several <LoadFont>s may use the same font */
+		if (std::none_of(assets.begin(), assets.end(), [&i](shared_ptr<const Asset> asset) { return asset->id() == i.uuid; })) {
+			assets.push_back(make_shared<FontAsset>(i.uuid, i.file.get()));
+		}
 	}
 	return assets;
 }
@@ -277,7 +280,10 @@ InteropTextAsset::font_assets() const
 	vector<shared_ptr<const Asset>> assets;
 	for (auto const& i: _fonts) {
 		DCP_ASSERT (i.file);
-		assets.push_back(make_shared<const FontAsset>(i.uuid, i.file.get()));
+		/* Several <LoadFont>s may use the same font */
+		if (std::none_of(assets.begin(), assets.end(), [&i](shared_ptr<const Asset> asset) { return asset->id() == i.uuid; })) {
+			assets.push_back(make_shared<const FontAsset>(i.uuid, i.file.get()));
+		}
 	}
 	return assets;
 }
-- 
2.43.0


From a8d52ca46279f80ef1b0592f5ea0d126e90ca7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:07:14 +0000
Subject: [PATCH 20/50] fix: give compositions the hashes of the text assets
 rewritten by combine

---
 src/combine.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/combine.cc b/src/combine.cc
index 7c6cf8d..84a6dc0 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -47,6 +47,7 @@
 #include "font_asset.h"
 #include "interop_text_asset.h"
 #include "raw_convert.h"
+#include "reel_file_asset.h"
 #include <fmt/format.h>
 #include <boost/filesystem.hpp>
 #include <boost/system/windows_error.hpp>
@@ -179,6 +180,15 @@ dcp::combine(
 
 	output_dcp.resolve_refs(assets);
 
+	/* The text assets that we re-wrote may have different hashes now */
+	for (auto i: output_dcp.cpls()) {
+		for (auto j: i->reel_file_assets()) {
+			if (j->hash() && j->asset_ref().resolved() && already_written.find(j->asset_ref().id()) != already_written.end()) {
+				j->set_hash(j->asset_ref()->hash());
+			}
+		}
+	}
+
 	for (auto i: output_dcp.assets()) {
 		if (!dynamic_pointer_cast<dcp::FontAsset>(i) && !dynamic_pointer_cast<dcp::CPL>(i)) {
 			if (already_written.find(i->id()) == already_written.end()) {
-- 
2.43.0


From 6ab722b12dcdbff4c74f2a5db8d85f9be1fd383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:10 +0000
Subject: [PATCH 21/50] fix: keep fonts with the same file name apart when
 combining packages

---
 src/combine.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/combine.cc b/src/combine.cc
index 84a6dc0..3b65daf 100644
--- a/src/combine.cc
+++ b/src/combine.cc
@@ -52,6 +52,7 @@
 #include <boost/filesystem.hpp>
 #include <boost/system/windows_error.hpp>
 #include <algorithm>
+#include <map>
 #include <set>
 #include <string>
 #include <vector>
@@ -66,16 +67,17 @@ using std::vector;
 using boost::optional;
 
 
+/** @param taken Paths which must not be used even if they do not exist yet */
 boost::filesystem::path
-make_unique(boost::filesystem::path path)
+make_unique(boost::filesystem::path path, set<boost::filesystem::path> const& taken = {})
 {
-	if (!dcp::filesystem::exists(path)) {
+	if (!dcp::filesystem::exists(path) && taken.find(path) == taken.end()) {
 		return path;
 	}
 
 	for (int i = 0; i < 10000; ++i) {
 		boost::filesystem::path p = path.parent_path() / (path.stem().string() + fmt::to_string(i) + path.extension().string());
-		if (!dcp::filesystem::exists(p)) {
+		if (!dcp::filesystem::exists(p) && taken.find(p) == taken.end()) {
 			return p;
 		}
 	}
@@ -163,8 +165,14 @@ dcp::combine(
 				 */
 				boost::filesystem::create_directories(output / sub->id());
 				auto fonts = sub->font_filenames();
+				map<boost::filesystem::path, boost::filesystem::path> new_fonts;
+				set<boost::filesystem::path> taken;
 				for (auto const& k: fonts) {
-					sub->set_font_file(k.first, make_unique(output / sub->id() / k.second.filename()));
+					if (new_fonts.find(k.second) == new_fonts.end()) {
+						new_fonts[k.second] = make_unique(output / sub->id() / k.second.filename(), taken);
+						taken.insert(new_fonts[k.second]);
+					}
+					sub->set_font_file(k.first, new_fonts[k.second]);
 				}
 				auto const file = sub->file();
 				DCP_ASSERT(file);
-- 
2.43.0


From f99699bcaab14bb3b97d4cdba91ecea19832534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:06 +0000
Subject: [PATCH 22/50] fix: do not crash when verifying reels with different
 numbers of closed captions

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index 1ead5c0..f31b8f4 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1300,7 +1300,7 @@ verify_text_details(Context& context, vector<shared_ptr<Reel>> reels)
 	for (auto i = 0U; i < reels[0]->closed_captions().size(); ++i) {
 		verify_text_details(context, reels, reels[0]->closed_captions()[i]->edit_rate().numerator,
 			[i](shared_ptr<Reel> reel) {
-				return reel->closed_captions()[i]->id();
+				return i < reel->closed_captions().size() ? reel->closed_captions()[i]->id() : string{};
 			},
 			[i](shared_ptr<Reel> reel) {
 				return i < reel->closed_captions().size();
-- 
2.43.0


From 6896bb6872ead9fabe60efe2300a51d24e6eac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:28:50 +0000
Subject: [PATCH 23/50] fix: do not crash when describing a CPL with an unknown
 namespace

---
 src/verify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.cc b/src/verify.cc
index f31b8f4..185ed08 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -2211,7 +2211,7 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	case VerificationNote::Code::VALID_CONTENT_VERSION_LABEL_TEXT:
 		return compose("CPL has valid <ContentVersion> %1", *note.content_version());
 	case VerificationNote::Code::INVALID_CPL_NAMESPACE:
-		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), note.cpl_id().get());
+		return compose("The namespace %1 in CPL %2 is invalid", *note.xml_namespace(), note.file()->filename());
 	case VerificationNote::Code::MISSING_CPL_CONTENT_VERSION:
 		return compose("The CPL %1 has no <ContentVersion> tag", note.cpl_id().get());
 	case VerificationNote::Code::INVALID_PKL_NAMESPACE:
-- 
2.43.0


From cc9dfa6e3877cbad6358d7e6f3d6115f601a890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:31:18 +0000
Subject: [PATCH 24/50] fix: report compositions and Interop texts which are
 not those in the asset map

---
 src/dcp.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dcp.cc b/src/dcp.cc
index 23b4ad4..69cf7b8 100644
--- a/src/dcp.cc
+++ b/src/dcp.cc
@@ -249,6 +249,9 @@ DCP::read (vector<dcp::VerificationNote>* notes, bool ignore_incorrect_picture_m
 
 			if (root == "CompositionPlaylist") {
 				auto cpl = make_shared<CPL>(path, notes);
+				if (cpl->id() != id && notes) {
+					notes->push_back(dcp::VerificationNote{VerificationNote::Code::MISMATCHED_ASSET_MAP_ID}.set_asset_id(id).set_other_asset_id(cpl->id()));
+				}
 				if (cpl->standard() != standard && notes) {
 					notes->push_back({VerificationNote::Code::MISMATCHED_STANDARD});
 				}
@@ -257,7 +260,11 @@ DCP::read (vector<dcp::VerificationNote>* notes, bool ignore_incorrect_picture_m
 				if (standard == Standard::SMPTE && notes) {
 					notes->push_back({VerificationNote::Code::MISMATCHED_STANDARD});
 				}
-				other_assets.push_back (make_shared<InteropTextAsset>(path));
+				auto text = make_shared<InteropTextAsset>(path);
+				if (text->id() != id && notes) {
+					notes->push_back(dcp::VerificationNote{VerificationNote::Code::MISMATCHED_ASSET_MAP_ID}.set_asset_id(id).set_other_asset_id(text->id()));
+				}
+				other_assets.push_back(text);
 			}
 		} else if (
 			*pkl_type == remove_parameters(J2KPictureAsset::static_pkl_type(standard)) ||
-- 
2.43.0


From 0ddb08b0aacdb124b94828b3537cd654c02c6c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:15 +0000
Subject: [PATCH 25/50] fix: do not crash when verifying a reel asset with a
 malformed edit rate

---
 src/verify.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 185ed08..0826d1f 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1418,10 +1418,13 @@ verify_reel(
 	)
 {
 	for (auto i: reel->file_assets()) {
-		if (i->duration() && (i->duration().get() * i->edit_rate().denominator / i->edit_rate().numerator) < 1) {
+		auto const too_short = [&i](int64_t duration) {
+			return i->edit_rate().numerator == 0 || (duration * i->edit_rate().denominator / i->edit_rate().numerator) < 1;
+		};
+		if (i->duration() && too_short(*i->duration())) {
 			context.add_note(VerificationNote(VerificationNote::Code::INVALID_DURATION).set_asset_id(i->id()));
 		}
-		if ((i->intrinsic_duration() * i->edit_rate().denominator / i->edit_rate().numerator) < 1) {
+		if (too_short(i->intrinsic_duration())) {
 			context.add_note(VerificationNote(VerificationNote::Code::INVALID_INTRINSIC_DURATION).set_asset_id(i->id()));
 		}
 		if (i->encryptable() && !i->hash()) {
-- 
2.43.0


From 462ac2c81700bf39409cefda1f768ec616fc876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:23 +0000
Subject: [PATCH 26/50] fix: tell when there is no space or no file handle for
 an MXF file

---
 src/atmos_asset_writer.cc                | 12 ++++++++----
 src/j2k_picture_asset_writer_common.cc   |  3 ++-
 src/mpeg2_picture_asset_writer_common.cc |  3 ++-
 src/smpte_text_asset.cc                  |  2 +-
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/atmos_asset_writer.cc b/src/atmos_asset_writer.cc
index 0c895b5..4d13f49 100644
--- a/src/atmos_asset_writer.cc
+++ b/src/atmos_asset_writer.cc
@@ -44,6 +44,7 @@
 #include "dcp_assert.h"
 #include "exceptions.h"
 #include "filesystem.h"
+#include "util.h"
 #include <asdcp/AS_DCP.h>
 
 
@@ -97,7 +98,7 @@ AtmosAssetWriter::write (uint8_t const * data, int size)
 	if (!_started) {
 		auto r = _state->mxf_writer.OpenWrite(dcp::filesystem::fix_long_path(_file).string().c_str(), _state->writer_info, _state->desc);
 		if (ASDCP_FAILURE(r)) {
-			boost::throw_exception (FileError ("could not open atmos MXF for writing", _file.string(), r));
+			throw_from_asdcplib(r, _file, FileError("could not open atmos MXF for writing", _file.string(), r));
 		}
 
 		_asset->set_file (_file);
@@ -110,7 +111,7 @@ AtmosAssetWriter::write (uint8_t const * data, int size)
 
 	auto const r = _state->mxf_writer.WriteFrame (_state->frame_buffer, _crypto_context->context(), _crypto_context->hmac());
 	if (ASDCP_FAILURE(r)) {
-		boost::throw_exception (MiscError(String::compose("could not write atmos MXF frame (%1)", static_cast<int>(r))));
+		throw_from_asdcplib(r, _file, MiscError(String::compose("could not write atmos MXF frame (%1)", static_cast<int>(r))));
 	}
 
 	++_frames_written;
@@ -120,8 +121,11 @@ AtmosAssetWriter::write (uint8_t const * data, int size)
 bool
 AtmosAssetWriter::finalize ()
 {
-	if (_started && ASDCP_FAILURE(_state->mxf_writer.Finalize())) {
-		boost::throw_exception (MiscError("could not finalise atmos MXF"));
+	if (_started) {
+		auto const r = _state->mxf_writer.Finalize();
+		if (ASDCP_FAILURE(r)) {
+			throw_from_asdcplib(r, _file, MiscError("could not finalise atmos MXF"));
+		}
 	}
 
 	_asset->_intrinsic_duration = _frames_written;
diff --git a/src/j2k_picture_asset_writer_common.cc b/src/j2k_picture_asset_writer_common.cc
index a86da19..677f51b 100644
--- a/src/j2k_picture_asset_writer_common.cc
+++ b/src/j2k_picture_asset_writer_common.cc
@@ -38,6 +38,7 @@
 
 
 #include "filesystem.h"
+#include "util.h"
 
 
 using std::shared_ptr;
@@ -88,7 +89,7 @@ void dcp::start (J2KPictureAssetWriter* writer, shared_ptr<P> state, Q* asset, u
 		);
 
 	if (ASDCP_FAILURE(r)) {
-		boost::throw_exception (MXFFileError("could not open MXF file for writing", asset->file()->string(), r));
+		throw_from_asdcplib(r, *asset->file(), MXFFileError("could not open MXF file for writing", asset->file()->string(), r));
 	}
 
 	writer->_started = true;
diff --git a/src/mpeg2_picture_asset_writer_common.cc b/src/mpeg2_picture_asset_writer_common.cc
index d46057f..f64a814 100644
--- a/src/mpeg2_picture_asset_writer_common.cc
+++ b/src/mpeg2_picture_asset_writer_common.cc
@@ -38,6 +38,7 @@
 
 
 #include "filesystem.h"
+#include "util.h"
 
 
 using std::shared_ptr;
@@ -86,7 +87,7 @@ void dcp::start(MPEG2PictureAssetWriter* writer, shared_ptr<P> state, Q* asset,
 		);
 
 	if (ASDCP_FAILURE(r)) {
-		boost::throw_exception(MXFFileError("could not open MXF file for writing", asset->file()->string(), r));
+		throw_from_asdcplib(r, *asset->file(), MXFFileError("could not open MXF file for writing", asset->file()->string(), r));
 	}
 
 	writer->_started = true;
diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 83778f8..2efe290 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -455,7 +455,7 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 	*/
 	ASDCP::Result_t r = writer.OpenWrite(dcp::filesystem::fix_long_path(p).string().c_str(), writer_info, descriptor, _texts.size() * 90 + 16384);
 	if (ASDCP_FAILURE (r)) {
-		boost::throw_exception (FileError ("could not open subtitle MXF for writing", p.string(), r));
+		throw_from_asdcplib(r, p, FileError("could not open subtitle MXF for writing", p.string(), r));
 	}
 
 	_raw_xml = xml_as_string ();
-- 
2.43.0


From d47184a2b164a580e4279444e25d7f4e02ecf1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:37:25 +0000
Subject: [PATCH 27/50] fix: report a failure to finish writing a SMPTE text
 asset

---
 src/smpte_text_asset.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 2efe290..24a8f9a 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -498,7 +498,10 @@ SMPTETextAsset::write(boost::filesystem::path p) const
 		}
 	}
 
-	writer.Finalize ();
+	r = writer.Finalize();
+	if (ASDCP_FAILURE(r)) {
+		throw_from_asdcplib(r, p, MXFFileError("could not finalize subtitle MXF", p.string(), r));
+	}
 
 	_file = p;
 	/* Any hash that we had was for some other file */
-- 
2.43.0


From 88b42be8dd193c0e8d554cd641f997cb841fbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:20 +0000
Subject: [PATCH 28/50] fix: send the whole identity in the synchronisation
 signal at 48 frames per second and above

With fewer than four packets per frame only the first part or parts of the
identity were ever sent, labelled as all four in turn.
---
 src/sound_asset_writer.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sound_asset_writer.cc b/src/sound_asset_writer.cc
index 0c04e77..4834d54 100644
--- a/src/sound_asset_writer.cc
+++ b/src/sound_asset_writer.cc
@@ -357,10 +357,10 @@ SoundAssetWriter::create_sync_packets ()
 		bs.write_from_byte (edit_rate_code, 4);
 		bs.write_from_byte (0, 2);
 		bs.write_from_byte (_sync_packet, 2);
-		bs.write_from_byte (id.Value()[i * 4 + 0]);
-		bs.write_from_byte (id.Value()[i * 4 + 1]);
-		bs.write_from_byte (id.Value()[i * 4 + 2]);
-		bs.write_from_byte (id.Value()[i * 4 + 3]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 0]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 1]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 2]);
+		bs.write_from_byte (id.Value()[_sync_packet * 4 + 3]);
 		bs.write_from_word (_frames_written, 24);
 		bs.write_crc ();
 		bs.write_from_byte (0, 4);
-- 
2.43.0


From b0c2956ba1c2090190e34f89f040947a52e561e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:33 +0000
Subject: [PATCH 29/50] fix: do not take an unreadable path component for a
 plain directory in weakly_canonical

---
 src/filesystem.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filesystem.cc b/src/filesystem.cc
index 4cbbc3d..b6aa831 100644
--- a/src/filesystem.cc
+++ b/src/filesystem.cc
@@ -157,8 +157,7 @@ dcp::filesystem::weakly_canonical(boost::filesystem::path const& path)
 	boost::filesystem::path result;
 	for (auto part: complete) {
 		if (part == "..") {
-			boost::system::error_code ec;
-			if (boost::filesystem::is_symlink(result, ec) || result.filename() == "..") {
+			if (boost::filesystem::is_symlink(result) || result.filename() == "..") {
 				result /= part;
 			} else {
 				result = result.parent_path();
-- 
2.43.0


From 0559d48f5bed50d12425814152d64e8c3ee60bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:42:30 +0000
Subject: [PATCH 30/50] fix: read fractions of a second with one or two digits,
 and those followed by Z, as what they are

---
 src/local_time.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/local_time.cc b/src/local_time.cc
index 445a9a3..8c45d57 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -158,15 +158,16 @@ LocalTime::LocalTime (string s)
 
 	/* Fractional seconds */
 	if (s.length() > pos && s[pos] == '.') {
-		auto end = s.find('+', pos);
-		if (end == std::string::npos) {
-			end = s.find('-', pos);
-		}
+		auto end = s.find_first_of("+-Z", pos);
 		if (end == std::string::npos) {
 			end = s.length();
 		}
 		auto const length = end - pos;
-		_millisecond = lexical_cast<int>(s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1)));
+		auto fraction = s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1));
+		_millisecond = lexical_cast<int>(fraction);
+		for (auto digits = fraction.length(); digits < 3; ++digits) {
+			_millisecond *= 10;
+		}
 		pos = end;
 	} else {
 		_millisecond = 0;
-- 
2.43.0


From 48744c5d637129b1cf8d0a007c14f2df1487a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:06 +0000
Subject: [PATCH 31/50] fix: refuse a timestamp whose fraction of a second has
 other things than digits in it

---
 src/local_time.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/local_time.cc b/src/local_time.cc
index 8c45d57..86c3fc9 100644
--- a/src/local_time.cc
+++ b/src/local_time.cc
@@ -162,6 +162,9 @@ LocalTime::LocalTime (string s)
 		if (end == std::string::npos) {
 			end = s.length();
 		}
+		if (s.find_first_not_of("0123456789", pos + 1) < end) {
+			throw TimeFormatError(s);
+		}
 		auto const length = end - pos;
 		auto fraction = s.substr(pos + 1, std::min(static_cast<size_t>(3), length - 1));
 		_millisecond = lexical_cast<int>(fraction);
-- 
2.43.0


From b16da1b32ca9bfca402a22f44060a2b72ef69254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:47 +0000
Subject: [PATCH 32/50] fix: make S-Gamut3 tables for the range which was asked
 for

---
 src/s_gamut3_transfer_function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/s_gamut3_transfer_function.cc b/src/s_gamut3_transfer_function.cc
index 831fcb5..5f5d0d0 100644
--- a/src/s_gamut3_transfer_function.cc
+++ b/src/s_gamut3_transfer_function.cc
@@ -68,7 +68,7 @@ SGamut3TransferFunction::make_double_lut(double from, double to, int bit_depth,
 			auto const p = static_cast<double>(i) / (bit_length - 1);
 			auto const q = (p * (to - from)) + from;
 			if (q >= (171.2102946929 / 1023)) {
-				lut[i] = pow(10, ((p * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
+				lut[i] = pow(10, ((q * 1023 - 420) / 261.5)) * (0.18 + 0.01) - 0.01;
 			} else {
 				lut[i] = (q * 1023 - 95) * 0.01125000 / (171.2102946929 - 95);
 			}
-- 
2.43.0


From 91a37e9c523c62f5be7afbcce40cb78ef2104fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:25:16 +0000
Subject: [PATCH 33/50] fix: report a verification report which could not be
 written in full

---
 src/stream_formatter.h |  9 +++++++++
 src/verify_report.cc   | 16 +++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/stream_formatter.h b/src/stream_formatter.h
index acdcbb4..4f89d34 100644
--- a/src/stream_formatter.h
+++ b/src/stream_formatter.h
@@ -23,6 +23,7 @@
 #define LIBDCP_STREAM_FORMATTER_H
 
 
+#include "exceptions.h"
 #include "file.h"
 #include "verify_report.h"
 
@@ -80,6 +81,14 @@ public:
 		return _file;
 	}
 
+	void finish() override
+	{
+		auto const failed = _file.error();
+		if (_file.close() || failed) {
+			throw FileError("Could not write report", _file.path(), errno);
+		}
+	}
+
 protected:
 	dcp::File _file;
 };
diff --git a/src/verify_report.cc b/src/verify_report.cc
index 87f7621..891490a 100644
--- a/src/verify_report.cc
+++ b/src/verify_report.cc
@@ -146,21 +146,23 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		formatter.subheading("Report");
 		write_notes(result, {});
 	}
-
-	formatter.finish();
 }
 
 
 void
 dcp::verify_report(vector<dcp::VerificationResult> const& results, Formatter& formatter)
 {
-	auto document = formatter.document();
-	auto body = formatter.body();
+	{
+		auto document = formatter.document();
+		auto body = formatter.body();
 
-	formatter.heading("DCP verification report");
+		formatter.heading("DCP verification report");
 
-	for (auto result: results) {
-		::verify_report(result, formatter);
+		for (auto result: results) {
+			::verify_report(result, formatter);
+		}
 	}
+
+	formatter.finish();
 }
 
-- 
2.43.0


From 03b8a3527168c6e599b11643810491010a26ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:19 +0000
Subject: [PATCH 34/50] fix: do not crash verifying a CPL which refers to an
 asset of another kind

---
 src/verify.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/verify.cc b/src/verify.cc
index 0826d1f..c3b702e 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1417,6 +1417,27 @@ verify_reel(
 	map<Marker, Time>* markers_seen
 	)
 {
+	/* The CPL may refer to an asset which exists but is of some other kind */
+	auto check_kind = [](shared_ptr<const ReelFileAsset> reel_asset, shared_ptr<const Asset> asset) {
+		if (!asset) {
+			throw ReadError(fmt::format("asset {} is not of the kind that its CPL says it is", reel_asset->id()));
+		}
+	};
+	if (reel->main_picture() && reel->main_picture()->asset_ref().resolved()) {
+		check_kind(reel->main_picture(), reel->main_picture()->asset());
+	}
+	if (reel->main_sound() && reel->main_sound()->asset_ref().resolved()) {
+		check_kind(reel->main_sound(), reel->main_sound()->asset());
+	}
+	if (reel->main_subtitle() && reel->main_subtitle()->asset_ref().resolved()) {
+		check_kind(reel->main_subtitle(), reel->main_subtitle()->asset());
+	}
+	for (auto i: reel->closed_captions()) {
+		if (i->asset_ref().resolved()) {
+			check_kind(i, i->asset());
+		}
+	}
+
 	for (auto i: reel->file_assets()) {
 		auto const too_short = [&i](int64_t duration) {
 			return i->edit_rate().numerator == 0 || (duration * i->edit_rate().denominator / i->edit_rate().numerator) < 1;
-- 
2.43.0


From 225c3553faa4aab53d1444df7e008ea2bff2f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:02:40 +0000
Subject: [PATCH 35/50] fix: do not fail to recover a DCP because it has other
 XML files than CPLs

---
 tools/dcprecover.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/dcprecover.cc b/tools/dcprecover.cc
index 779cab6..54c36da 100644
--- a/tools/dcprecover.cc
+++ b/tools/dcprecover.cc
@@ -127,6 +127,8 @@ main (int argc, char* argv[])
 				cout << "Error: " << e.what() << "\n";
 			} catch (xmlpp::parse_error& e) {
 				cout << "Error: " << e.what() << "\n";
+			} catch (cxml::Error&) {
+				/* Some other XML file, e.g. a PKL */
 			}
 		}
 	}
-- 
2.43.0


From 5883bd4f75d677e00afaf0a5e47751c377d499e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:02:58 +0000
Subject: [PATCH 36/50] fix: show each of the KDMs given to dcpkdm, not the
 first one again

---
 tools/dcpkdm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dcpkdm.cc b/tools/dcpkdm.cc
index c2a4859..facdaef 100644
--- a/tools/dcpkdm.cc
+++ b/tools/dcpkdm.cc
@@ -94,7 +94,7 @@ try
 
 	for (int kdm_index = optind; kdm_index < argc; ++kdm_index) {
 
-		boost::filesystem::path kdm_file = argv[optind];
+		boost::filesystem::path kdm_file = argv[kdm_index];
 
 		dcp::EncryptedKDM enc_kdm (dcp::file_to_string (kdm_file));
 
-- 
2.43.0


From 866d24faeca036a6a18629493a284ce64b102d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:03:33 +0000
Subject: [PATCH 37/50] fix: report fonts which dcpdumpsub could not write

---
 tools/dcpdumpsub.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/dcpdumpsub.cc b/tools/dcpdumpsub.cc
index 14d1ed5..300c30d 100644
--- a/tools/dcpdumpsub.cc
+++ b/tools/dcpdumpsub.cc
@@ -139,7 +139,11 @@ main (int argc, char* argv[])
 				cerr << "Could not open font file " << i.first << ".ttf for writing";
 				exit (EXIT_FAILURE);
 			}
-			f.write(i.second.data(), 1, i.second.size());
+			auto const written = f.write(i.second.data(), 1, i.second.size());
+			if (written != static_cast<size_t>(i.second.size()) || f.close()) {
+				cerr << "Could not write font file " << i.first << ".ttf";
+				exit (EXIT_FAILURE);
+			}
 		}
 	}
 }
-- 
2.43.0


From 7248c94ca5662bb7dd3494f73b9089b98a4c7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:20:01 +0000
Subject: [PATCH 38/50] fix: do not list the images of another DCP's Interop
 subtitles in the packing list

---
 src/interop_text_asset.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interop_text_asset.cc b/src/interop_text_asset.cc
index ce67744..f622a66 100644
--- a/src/interop_text_asset.cc
+++ b/src/interop_text_asset.cc
@@ -312,6 +312,10 @@ InteropTextAsset::add_to_pkl(shared_ptr<PKL> pkl, boost::filesystem::path root)
 	for (auto i: _texts) {
 		auto im = dynamic_pointer_cast<dcp::TextImage>(i);
 		if (im) {
+			if (im->file() && !relative_to_root(filesystem::canonical(root), filesystem::canonical(*im->file()))) {
+				/* Like its asset, this image is not within our DCP */
+				continue;
+			}
 			auto png_image = im->png_image ();
 			pkl->add_asset(im->id(), optional<string>(), make_digest(png_image), png_image.size(), "image/png", root.filename().string());
 		}
-- 
2.43.0


From 3cf7f5c2f766faddf39ddff2958128b788b9b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:15 +0000
Subject: [PATCH 39/50] fix: compare names without regard to the locale, in
 which I may not be the capital of i

---
 src/content_kind.cc             | 3 ++-
 src/h_align.cc                  | 3 ++-
 src/language_tag.cc             | 2 +-
 src/main_sound_configuration.cc | 3 ++-
 src/v_align.cc                  | 3 ++-
 src/verify.cc                   | 3 ++-
 6 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/content_kind.cc b/src/content_kind.cc
index 0d5ec8f..bed23e3 100644
--- a/src/content_kind.cc
+++ b/src/content_kind.cc
@@ -36,6 +36,7 @@
 #include "dcp_assert.h"
 #include <algorithm>
 #include <iostream>
+#include <locale>
 
 
 using std::string;
@@ -93,7 +94,7 @@ ContentKind
 ContentKind::from_name(string name)
 {
 	auto const all_kinds = all();
-	std::transform(name.begin(), name.end(), name.begin(), ::tolower);
+	std::transform(name.begin(), name.end(), name.begin(), [](char c) { return std::tolower(c, std::locale::classic()); });
 	auto iter = std::find_if(all_kinds.begin(), all_kinds.end(), [&name](ContentKind const& k) { return k.name() == name; });
 	if (iter == all_kinds.end()) {
 		throw BadContentKindError(name);
diff --git a/src/h_align.cc b/src/h_align.cc
index fa627ef..29cd916 100644
--- a/src/h_align.cc
+++ b/src/h_align.cc
@@ -36,6 +36,7 @@
 #include "exceptions.h"
 #include "h_align.h"
 #include <algorithm>
+#include <locale>
 
 
 using std::string;
@@ -61,7 +62,7 @@ dcp::halign_to_string(HAlign h)
 HAlign
 dcp::string_to_halign(string s)
 {
-	std::transform(s.begin(), s.end(), s.begin(), ::tolower);
+	std::transform(s.begin(), s.end(), s.begin(), [](char c) { return std::tolower(c, std::locale::classic()); });
 
 	if (s == "left") {
 		return HAlign::LEFT;
diff --git a/src/language_tag.cc b/src/language_tag.cc
index f74cd27..ced3151 100644
--- a/src/language_tag.cc
+++ b/src/language_tag.cc
@@ -70,7 +70,7 @@ optional<LanguageTag::SubtagData>
 find_in_list (vector<LanguageTag::SubtagData> const& list, string subtag)
 {
 	for (auto const& i: list) {
-		if (boost::iequals(i.subtag, subtag)) {
+		if (boost::iequals(i.subtag, subtag, std::locale::classic())) {
 			return i;
 		}
 	}
diff --git a/src/main_sound_configuration.cc b/src/main_sound_configuration.cc
index 0d93311..f79e4b6 100644
--- a/src/main_sound_configuration.cc
+++ b/src/main_sound_configuration.cc
@@ -36,6 +36,7 @@
 #include "exceptions.h"
 #include "main_sound_configuration.h"
 #include <boost/algorithm/string.hpp>
+#include <locale>
 #include <vector>
 
 
@@ -158,7 +159,7 @@ MainSoundConfiguration::set_mapping(int index, Channel c)
 optional<Channel>
 dcp::mca_id_to_channel(string id)
 {
-	transform(id.begin(), id.end(), id.begin(), ::tolower);
+	transform(id.begin(), id.end(), id.begin(), [](char c) { return std::tolower(c, std::locale::classic()); });
 
 	if (id == "l") {
 		return Channel::LEFT;
diff --git a/src/v_align.cc b/src/v_align.cc
index f9e01c2..fccbbf5 100644
--- a/src/v_align.cc
+++ b/src/v_align.cc
@@ -35,6 +35,7 @@
 #include "exceptions.h"
 #include "v_align.h"
 #include <algorithm>
+#include <locale>
 
 
 using std::string;
@@ -61,7 +62,7 @@ dcp::valign_to_string (VAlign v)
 VAlign
 dcp::string_to_valign (string s)
 {
-	std::transform(s.begin(), s.end(), s.begin(), ::tolower);
+	std::transform(s.begin(), s.end(), s.begin(), [](char c) { return std::tolower(c, std::locale::classic()); });
 
 	if (s == "top") {
 		return VAlign::TOP;
diff --git a/src/verify.cc b/src/verify.cc
index c3b702e..2bae48a 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -82,6 +82,7 @@
 #include <fmt/format.h>
 #include <boost/algorithm/string.hpp>
 #include <iostream>
+#include <locale>
 #include <map>
 #include <numeric>
 #include <regex>
@@ -1576,7 +1577,7 @@ verify_cpl(Context& context, shared_ptr<const CPL> cpl)
 		 */
 		auto all = ContentKind::all();
 		auto name = cpl->content_kind().name();
-		transform(name.begin(), name.end(), name.begin(), ::tolower);
+		transform(name.begin(), name.end(), name.begin(), [](char c) { return std::tolower(c, std::locale::classic()); });
 		auto iter = std::find_if(all.begin(), all.end(), [name](ContentKind const& k) { return !k.scope() && k.name() == name; });
 		if (iter == all.end()) {
 			context.add_note(VerificationNote(VerificationNote::Code::INVALID_CONTENT_KIND).set_content_kind(cpl->content_kind().name()));
-- 
2.43.0


From 429a307fbec0ff9087f2b839b6a8f7f5243d67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:20 +0000
Subject: [PATCH 40/50] fix: make dcpdumpimage write the frame which was asked
 for

It went on after it had found the frame, and wrote one of each later reel
over it. It also took no notice of the entry point.
---
 tools/dcpdumpimage.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/dcpdumpimage.cc b/tools/dcpdumpimage.cc
index 0ddf2d6..3ac5646 100644
--- a/tools/dcpdumpimage.cc
+++ b/tools/dcpdumpimage.cc
@@ -153,7 +153,7 @@ main(int argc, char* argv[])
 			frame_index -= duration;
 		} else {
 			auto reader = dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(reel->main_picture()->asset())->start_read();
-			auto frame = reader->get_frame(frame_index);
+			auto frame = reader->get_frame(reel->main_picture()->entry_point().get_value_or(0) + frame_index);
 			auto xyz = frame->xyz_image();
 			std::vector<uint8_t> rgba(xyz->size().width * xyz->size().height * 4);
 			dcp::xyz_to_rgba(xyz, dcp::ColourConversion::srgb_to_xyz(), rgba.data(), xyz->size().width * 4);
@@ -169,6 +169,7 @@ main(int argc, char* argv[])
 			image.write(output_filename->string());
 
 			found = true;
+			break;
 		}
 	}
 
-- 
2.43.0


From 557d590d293a7c07a8ea8cd92444b241b6aca21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:47:53 +0000
Subject: [PATCH 41/50] fix: do not let dcpdumpsub write fonts outside the
 current directory

The ID of a font comes from the asset, and was used as a path.
---
 tools/dcpdumpsub.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dcpdumpsub.cc b/tools/dcpdumpsub.cc
index 300c30d..be6b636 100644
--- a/tools/dcpdumpsub.cc
+++ b/tools/dcpdumpsub.cc
@@ -134,6 +134,10 @@ main (int argc, char* argv[])
 
 	if (extract_fonts) {
 		for (auto const& i: sub.font_data()) {
+			if (boost::filesystem::path(i.first + ".ttf").filename() != i.first + ".ttf") {
+				cerr << "Font ID " << i.first << " cannot be used as a filename.\n";
+				exit (EXIT_FAILURE);
+			}
 			dcp::File f(i.first + ".ttf", "wb");
 			if (!f) {
 				cerr << "Could not open font file " << i.first << ".ttf for writing";
-- 
2.43.0


From 121870469d84d5490988b11e548c2b532de35c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:19:05 +0000
Subject: [PATCH 42/50] fix: do not take the language of the subtitles for an
 additional one when reading a CPL

The list begins with the language of the first subtitle which has one, but
only the first reel was looked at when reading. The language was written
once more each time the CPL was read and written.
---
 src/cpl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index 2c5bf60..b3ce8ff 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -354,13 +354,13 @@ CPL::read_composition_metadata_asset(cxml::ConstNodePtr node, vector<dcp::Verifi
 
 		/* If the first language on SubtitleLanguageList is the same as the language of the first subtitle we'll ignore it */
 		size_t first = 0;
-		if (!_reels.empty()) {
-			auto sub = _reels.front()->main_subtitle();
-			if (sub) {
-				auto lang = sub->language();
-				if (lang && lang == sll_split[0]) {
+		for (auto reel: _reels) {
+			auto sub = reel->main_subtitle();
+			if (sub && sub->language()) {
+				if (sub->language() == sll_split[0]) {
 					first = 1;
 				}
+				break;
 			}
 		}
 
-- 
2.43.0


From 0ed61aad38b2ccb1928d26e2eedf6fb9b74e081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:33:26 +0000
Subject: [PATCH 43/50] fix: compare open captions and closed subtitles when
 comparing reels

---
 src/reel.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 95ed58f..63cb5c3 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -265,6 +265,25 @@ Reel::equals(std::shared_ptr<const Reel> other, EqualityOptions const& opt, Note
 		return false;
 	}
 
+	if ((_main_caption && !other->_main_caption) || (!_main_caption && other->_main_caption)) {
+		note(NoteType::ERROR, "Reel: caption assets differ");
+		return false;
+	}
+
+	if (_main_caption && !_main_caption->equals(other->_main_caption, opt, note)) {
+		return false;
+	}
+
+	if (_closed_subtitles.size() != other->_closed_subtitles.size()) {
+		return false;
+	}
+
+	for (size_t k = 0; k < _closed_subtitles.size(); ++k) {
+		if (!_closed_subtitles[k]->equals(other->_closed_subtitles[k], opt, note)) {
+			return false;
+		}
+	}
+
 	if (_closed_captions.size() != other->_closed_captions.size()) {
 		return false;
 	}
-- 
2.43.0


From 9c689fd80f8b9271a361691e60c7b0065b70456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:36:43 +0000
Subject: [PATCH 44/50] fix: give keys to open captions and closed subtitles,
 and count them as encrypted

---
 src/reel.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/reel.cc b/src/reel.cc
index 63cb5c3..a63db65 100644
--- a/src/reel.cc
+++ b/src/reel.cc
@@ -320,11 +320,17 @@ Reel::any_encrypted () const
 			ecc = true;
 		}
 	}
+	for (auto i: _closed_subtitles) {
+		if (i->encrypted()) {
+			ecc = true;
+		}
+	}
 
 	return (
 		(_main_picture && _main_picture->encrypted()) ||
 		(_main_sound && _main_sound->encrypted()) ||
 		(_main_subtitle && _main_subtitle->encrypted()) ||
+		(_main_caption && _main_caption->encrypted()) ||
 		ecc ||
 		(_atmos && _atmos->encrypted())
 		);
@@ -340,11 +346,17 @@ Reel::all_encrypted () const
 			ecc = false;
 		}
 	}
+	for (auto i: _closed_subtitles) {
+		if (!i->encrypted()) {
+			ecc = false;
+		}
+	}
 
 	return (
 		(!_main_picture || _main_picture->encrypted()) &&
 		(!_main_sound || _main_sound->encrypted()) &&
 		(!_main_subtitle || _main_subtitle->encrypted()) &&
+		(!_main_caption || _main_caption->encrypted()) &&
 		ecc &&
 		(!_atmos || _atmos->encrypted())
 	       );
@@ -379,6 +391,18 @@ Reel::give_kdm_to_assets (DecryptedKDM const & kdm)
 				smpte->smpte_asset()->set_key(i.key());
 			}
 		}
+		if (_main_caption) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(_main_caption);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
+		for (auto j: _closed_subtitles) {
+			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
+			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
+				smpte->smpte_asset()->set_key(i.key());
+			}
+		}
 		for (auto j: _closed_captions) {
 			auto smpte = dynamic_pointer_cast<ReelSMPTETextAsset>(j);
 			if (smpte && i.id() == smpte->key_id() && smpte->asset_ref().resolved()) {
-- 
2.43.0


From c7c4603b06865b767f19be0c33819de2d2d4690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:57 +0000
Subject: [PATCH 45/50] fix: make KDMs for compositions in which only some
 assets are encrypted

---
 src/decrypted_kdm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decrypted_kdm.cc b/src/decrypted_kdm.cc
index c8daeba..557244a 100644
--- a/src/decrypted_kdm.cc
+++ b/src/decrypted_kdm.cc
@@ -304,10 +304,10 @@ DecryptedKDM::DecryptedKDM (
 	, _content_title_text (content_title_text)
 	, _issue_date (issue_date)
 {
-	/* Create DecryptedKDMKey objects for each encryptable asset */
+	/* Create DecryptedKDMKey objects for each encrypted asset */
 	bool did_one = false;
 	for (auto i: cpl->reel_file_assets()) {
-		if (i->encryptable()) {
+		if (i->encryptable() && i->encrypted()) {
 			add_key (i->key_type().get(), i->key_id().get(), key, cpl->id(), Standard::SMPTE);
 			did_one = true;
 		}
-- 
2.43.0


From a58d73bfe22fc700ca9bd44970a0d0075c6ca44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:21 +0000
Subject: [PATCH 46/50] fix: read encrypted text again if the key is set again
 after a failure

---
 src/smpte_text_asset.cc | 46 ++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/smpte_text_asset.cc b/src/smpte_text_asset.cc
index 24a8f9a..813bd8c 100644
--- a/src/smpte_text_asset.cc
+++ b/src/smpte_text_asset.cc
@@ -318,26 +318,34 @@ SMPTETextAsset::set_key(Key key)
 
 	/* Our data was encrypted; now we can decrypt it */
 
-	Kumu::FileReaderFactory factory;
-	auto reader = make_shared<ASDCP::TimedText::MXFReader>(factory);
-	auto r = reader->OpenRead(dcp::filesystem::fix_long_path(*_file).string().c_str());
-	if (ASDCP_FAILURE (r)) {
-		boost::throw_exception (
-			ReadError (
-				String::compose ("Could not read encrypted subtitle MXF (%1)", static_cast<int> (r))
-				)
-			);
-	}
+	try {
+		Kumu::FileReaderFactory factory;
+		auto reader = make_shared<ASDCP::TimedText::MXFReader>(factory);
+		auto r = reader->OpenRead(dcp::filesystem::fix_long_path(*_file).string().c_str());
+		if (ASDCP_FAILURE (r)) {
+			boost::throw_exception (
+				ReadError (
+					String::compose ("Could not read encrypted subtitle MXF (%1)", static_cast<int> (r))
+					)
+				);
+		}
 
-	auto dec = make_shared<DecryptionContext>(key, Standard::SMPTE);
-	string xml_string;
-	reader->ReadTimedTextResource (xml_string, dec->context(), dec->hmac());
-	_raw_xml = xml_string;
-	auto xml = make_shared<cxml::Document>("SubtitleReel");
-	xml->read_string (xml_string);
-	parse_xml (xml);
-	read_mxf_descriptor(reader);
-	read_mxf_resources (reader, dec);
+		auto dec = make_shared<DecryptionContext>(key, Standard::SMPTE);
+		string xml_string;
+		reader->ReadTimedTextResource (xml_string, dec->context(), dec->hmac());
+		_raw_xml = xml_string;
+		auto xml = make_shared<cxml::Document>("SubtitleReel");
+		xml->read_string (xml_string);
+		parse_xml (xml);
+		read_mxf_descriptor(reader);
+		read_mxf_resources (reader, dec);
+	} catch (...) {
+		/* Leave things as they were, so that the key can be set again */
+		_key = boost::none;
+		_texts.clear();
+		_fonts.clear();
+		throw;
+	}
 }
 
 
-- 
2.43.0


From a460f13bd9e57cac95c6cb15d37dc298a237328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:55 +0000
Subject: [PATCH 47/50] fix: count empty values in composed messages, instead
 of putting the next one in their place

---
 src/compose.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/compose.hpp b/src/compose.hpp
index 41a4075..e354b93 100644
--- a/src/compose.hpp
+++ b/src/compose.hpp
@@ -122,18 +122,16 @@ namespace StringPrivate
   {
     os += dcp::locale_convert<std::string> (obj);
 
-    if (!os.empty()) {		// manipulators don't produce output
-      for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
-	output_list::iterator pos = i->second;
-	++pos;
+    for (specification_map::const_iterator i = specs.lower_bound(arg_no), end = specs.upper_bound(arg_no); i != end; ++i) {
+      output_list::iterator pos = i->second;
+      ++pos;
 
-	output.insert(pos, os);
-      }
-
-      os = "";
-      ++arg_no;
+      output.insert(pos, os);
     }
 
+    os = "";
+    ++arg_no;
+
     return *this;
   }
 
-- 
2.43.0


From 7cdc58a06867d978b3def9a353ec838a117e551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:55 +0000
Subject: [PATCH 48/50] fix: show annotations as they are in HTML reports,
 whatever characters they have

---
 src/html_formatter.cc | 1 +
 src/verify_report.cc  | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/html_formatter.cc b/src/html_formatter.cc
index 0e796cc..0a5bceb 100644
--- a/src/html_formatter.cc
+++ b/src/html_formatter.cc
@@ -109,6 +109,7 @@ std::function<std::string (std::string)>
 HTMLFormatter::process_string()
 {
 	return [](std::string s) {
+		boost::replace_all(s, "&", "&amp;");
 		boost::replace_all(s, "<", "&lt;");
 		boost::replace_all(s, ">", "&gt;");
 		return s;
diff --git a/src/verify_report.cc b/src/verify_report.cc
index 891490a..fe6e024 100644
--- a/src/verify_report.cc
+++ b/src/verify_report.cc
@@ -80,7 +80,7 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		formatter.list_item(String::compose("Entry point: %1", asset->entry_point().get_value_or(0)));
 		formatter.list_item(String::compose("Duration: %1", asset->duration().get_value_or(0)));
 		if (asset->annotation_text()) {
-			formatter.list_item(String::compose("Annotation text: %1", *asset->annotation_text()));
+			formatter.list_item(String::compose("Annotation text: %1", formatter.process_string()(*asset->annotation_text())));
 		}
 	};
 
@@ -110,7 +110,7 @@ verify_report(dcp::VerificationResult const& result, Formatter& formatter)
 		auto ul = formatter.unordered_list();
 		for (auto cpl: dcp->cpls()) {
 			if (cpl->annotation_text()) {
-				formatter.list_item(*cpl->annotation_text());
+				formatter.list_item(formatter.process_string()(*cpl->annotation_text()));
 			}
 			formatter.list_item(fmt::format("CPL ID: {}", formatter.fixed_width()(cpl->id())));
 			int reel_index = 1;
-- 
2.43.0


From eee5b27d309cb9a16612a1913557d6e1c48a7401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:04:42 +0000
Subject: [PATCH 49/50] fix: show values in notes as they are in HTML reports

---
 src/verify.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/verify.cc b/src/verify.cc
index 2bae48a..d157c9f 100644
--- a/src/verify.cc
+++ b/src/verify.cc
@@ -1977,15 +1977,35 @@ dcp::note_to_string(VerificationNote note, function<string (string)> process_str
 	 *  Messages should not mention whether or not their errors are a part of Bv2.1.
 	 */
 
-	auto filename = [note, process_filename]() {
-		return process_filename(note.file()->filename().string());
+	/* Values come from the DCP, so they can contain anything */
+#define process(name) if (note.name()) { note.set_##name(process_string(*note.name())); }
+	process(annotation_text);
+	process(asset_id);
+	process(asset_map_id);
+	process(calculated_hash);
+	process(content_kind);
+	process(content_version);
+	process(cpl_id);
+	process(error);
+	process(issue_date);
+	process(language);
+	process(load_font_id);
+	process(other_asset_id);
+	process(pkl_id);
+	process(reference_hash);
+	process(territory);
+	process(xml_namespace);
+#undef process
+
+	auto filename = [note, process_string, process_filename]() {
+		return process_filename(process_string(note.file()->filename().string()));
 	};
 
 #define compose(format, ...) String::compose(process_string(format), __VA_ARGS__)
 
 	switch (note.code()) {
 	case VerificationNote::Code::FAILED_READ:
-		return process_string(*note.error());
+		return *note.error();
 	case VerificationNote::Code::MATCHING_CPL_HASHES:
 		return process_string("The hash of the CPL in the PKL matches the CPL file.");
 	case VerificationNote::Code::MISMATCHED_CPL_HASHES:
-- 
2.43.0


From dcbf1b28ffce97a02c6bac00249765ce83ecf455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:52:19 +0000
Subject: [PATCH 50/50] fix: write the scope of a CPL's release territory

The scope attribute was read but left out when the CPL was written again.
Setting another territory now forgets the scope of the one before.
---
 src/cpl.cc | 6 +++++-
 src/cpl.h  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpl.cc b/src/cpl.cc
index b3ce8ff..948a130 100644
--- a/src/cpl.cc
+++ b/src/cpl.cc
@@ -507,7 +507,11 @@ CPL::maybe_write_composition_metadata_asset(xmlpp::Element* node) const
 	}
 
 	if (_release_territory) {
-		cxml::add_child(meta, "ReleaseTerritory", string("meta"))->add_child_text(*_release_territory);
+		auto territory = cxml::add_child(meta, "ReleaseTerritory", string("meta"));
+		territory->add_child_text(*_release_territory);
+		if (_release_territory_scope) {
+			territory->set_attribute("scope", *_release_territory_scope);
+		}
 	}
 
 	if (_version_number) {
diff --git a/src/cpl.h b/src/cpl.h
index 4f1bc83..1e23d93 100644
--- a/src/cpl.h
+++ b/src/cpl.h
@@ -234,6 +234,7 @@ public:
 
 	void set_release_territory(dcp::LanguageTag::RegionSubtag t) {
 		_release_territory = t.subtag();
+		_release_territory_scope = boost::none;
 	}
 
 	boost::optional<std::string> release_territory_scope() const {
-- 
2.43.0

