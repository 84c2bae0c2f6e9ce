From 3f9739b64d578f946b7fa2e7af24006fdc3babf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:39 +0000
Subject: [PATCH 001/116] fix: ignore seeks in front of the beginning of a
 growing memory stream

A relative or end-relative seek of Write::to(std::vector*) to a negative
position was accepted and the next write went outside the buffer.
---
 src/Stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..337c5d4 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -415,7 +415,11 @@ namespace zenkit {
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
-				_m_position = seek_internal(_m_position, _m_vector->size(), off, whence);
+				auto new_position = seek_internal(_m_position, _m_vector->size(), off, whence);
+
+				// Never seek in front of the beginning of the buffer.
+				if (static_cast<ssize_t>(new_position) < 0) return;
+				_m_position = new_position;
 			}
 
 			[[nodiscard]] size_t tell() const noexcept override {
-- 
2.43.0


From b37478de2ebac8cdaed6575aeb47a2d2bbc50de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:27 +0000
Subject: [PATCH 002/116] fix: report the end of FILE* and std::istream streams
 when it is reached

---
 src/Stream.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index 337c5d4..7daab0f 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,12 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				// The EOF indicator is only set after a failed read, so look one byte ahead instead.
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -252,7 +257,12 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				// The EOF indicator is only set after a failed read, so look one byte ahead instead.
+				if (_m_stream->peek() != std::istream::traits_type::eof()) return false;
+
+				// Looking at the end must not make the next `tell` or `seek` fail.
+				_m_stream->clear(_m_stream->rdstate() & ~std::ios::eofbit);
+				return true;
 			}
 
 		private:
-- 
2.43.0


From 873de7c501d639bbd1ae9a766408b7f3f75c6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:27 +0000
Subject: [PATCH 003/116] fix: don't skip into the first object when reading a
 binary archive header

---
 src/archive/ArchiveBinary.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..028571c 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,15 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// The header is followed by one empty line. Don't skip any more than that, since the size of the first
+		// object might start with a byte which looks like a line break.
+		if (!read->eof() && read->read_char() != '\n') {
+			read->seek(-1, Whence::CUR);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From 653c92704ecef338614e4ddc4f5bffbd3876c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 004/116] fix: write the sign of ten-digit negative integers in
 ASCII archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..da55daa 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From ae6495e6c68679cdb1109419dc135cd447afa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 005/116] fix: write bytes and words to ASCII archives as the
 integers the reader expects

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index da55daa..3388a67 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From 3cdddaceafea4de0c55a4a57db1fdabab6b4e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 006/116] fix: write matrices to ASCII archives as the raw
 entry the reader expects

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 3388a67..0f242b0 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From 1bb36909b206814e1d051e3ef1d8356fa6c94d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:28 +0000
Subject: [PATCH 007/116] fix: don't mix up hex digits of neighbouring bytes in
 ASCII archives

---
 src/archive/ArchiveAscii.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 0f242b0..6ed9d3c 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -372,9 +372,8 @@ namespace zenkit {
 		this->_m_write->write_string(name);
 		this->_m_write->write_string("=raw:");
 
-		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			std::array<char, 3> buf {};
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From caeb945d3aabfe8463f81214634c1c795bb4c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:37 +0000
Subject: [PATCH 008/116] fix: skip keys and values of BINSAFE archives
 together

---
 src/archive/ArchiveBinsafe.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..97b86e2 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -219,14 +219,21 @@ namespace zenkit {
 	}
 
 	void ReadArchiveBinsafe::skip_entry() {
-		switch (static_cast<ArchiveEntryType>(read->read_ubyte())) {
+		auto type = static_cast<ArchiveEntryType>(read->read_ubyte());
+
+		// Skip the key together with its value, since a string value might look like the start or end of an object.
+		while (type == ArchiveEntryType::HASH) {
+			(void) read->read_uint();
+			type = static_cast<ArchiveEntryType>(read->read_ubyte());
+		}
+
+		switch (type) {
 		case ArchiveEntryType::STRING:
 		case ArchiveEntryType::RAW:
 		case ArchiveEntryType::RAW_FLOAT:
 			read->seek(read->read_ushort(), Whence::CUR);
 			break;
 		case ArchiveEntryType::ENUM:
-		case ArchiveEntryType::HASH:
 		case ArchiveEntryType::INTEGER:
 		case ArchiveEntryType::FLOAT:
 		case ArchiveEntryType::BOOL:
@@ -244,6 +251,8 @@ namespace zenkit {
 			(void) read->read_float();
 			(void) read->read_float();
 			break;
+		default:
+			break;
 		}
 	}
 
-- 
2.43.0


From ae28c5cd77019188db8bc46e10997c52115d2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:37 +0000
Subject: [PATCH 009/116] fix: don't read past the end of object and class
 names when writing archives

---
 src/archive/ArchiveAscii.cc   |  2 +-
 src/archive/ArchiveBinsafe.cc | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 6ed9d3c..375d7a3 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -263,7 +263,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 97b86e2..23a4211 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -295,8 +295,10 @@ namespace zenkit {
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
 		                  object_name.data(),
+		                  static_cast<int>(class_name.empty() ? 1 : std::min<size_t>(class_name.length(), 127)),
 		                  class_name.empty() ? "%" : class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
@@ -317,7 +319,13 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s \xA7 %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.length(), 127)),
+		                  object_name.data(),
+		                  0,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From a2e9bd5ee1a46b30527ca0dd86242ef01dda9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 010/116] fix: pack and unpack the animation mode and depth
 bias of VObs correctly

---
 src/vobs/VirtualObject.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..a8ad4da 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 3) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From aa6ad095119c56ee9f8119c5d701c088c40cffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 011/116] fix: write unpacked VObs the way they are read

---
 src/vobs/VirtualObject.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index a8ad4da..4bd8c87 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -251,6 +251,18 @@ namespace zenkit {
 			}
 
 			w.write_raw("dataRaw", packed);
+
+			if (!this->preset_name.empty()) {
+				w.write_string("presetName", this->preset_name);
+			}
+
+			if (!this->vob_name.empty()) {
+				w.write_string("vobName", this->vob_name);
+			}
+
+			if (this->visual && !this->visual->name.empty()) {
+				w.write_string("visual", this->visual->name);
+			}
 		} else {
 			w.write_int("pack", 0);
 			w.write_string("presetName", this->preset_name);
@@ -258,7 +270,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", this->visual ? this->visual->name : this->visual_name);
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -280,23 +292,14 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
-			w.write_string("presetName", this->preset_name);
-		}
-
-		if (!this->vob_name.empty()) {
-			w.write_string("vobName", this->vob_name);
-		}
-
-		if (this->visual && !this->visual->name.empty()) {
-			w.write_string("visual", this->visual->name);
-		}
-
+		// Only the packed representation is able to leave out missing objects entirely.
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", nullptr, version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-- 
2.43.0


From 604c8bf0f4250246e51721392dd0dafd04aaa06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 012/116] fix: only write the event manager of VObs where it is
 read

---
 src/vobs/VirtualObject.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 4bd8c87..ead8a73 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -229,7 +229,7 @@ namespace zenkit {
 			bit1 |= (this->visual && !this->visual->name.empty()) << 2u;
 			bit1 |= (!!this->visual && this->visual->type != VisualType::UNKNOWN) << 3u;
 			bit1 |= (!!this->ai) << 4u;
-			bit1 |= (!!this->event_manager) << 5u;
+			bit1 |= (this->event_manager && w.is_save_game()) << 5u;
 
 			// Gothic 1 does not store rigid-body information.
 			if (version == GameVersion::GOTHIC_1) {
@@ -303,7 +303,8 @@ namespace zenkit {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		// The event manager is only present in packed save-game objects.
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From e22808a7458f7607c677065ba9727076d28377fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 013/116] fix: keep the visual name of VObs without a visual
 object and don't share their visual

---
 src/vobs/VirtualObject.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index ead8a73..22289be 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -8,7 +8,6 @@
 #include <unordered_map>
 
 namespace zenkit {
-	static std::shared_ptr<Visual> const DEFAULT_VISUAL = std::make_shared<Visual>();
 	static bool pack = true;
 
 	/// \brief A mapping of archive class names to visual_type values.
@@ -155,6 +154,7 @@ namespace zenkit {
 			}
 		}
 
+		this->visual = nullptr;
 		if (has_visual_object) {
 			this->visual = std::dynamic_pointer_cast<Visual>(r.read_object(version));
 
@@ -167,15 +167,16 @@ namespace zenkit {
 				}
 
 				this->visual->name = visual_name;
-				this->visual->type = it->second;
+				this->visual->type = this->associated_visual_type;
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-			} else {
-				this->visual = DEFAULT_VISUAL;
 			}
-		} else {
-			this->visual = DEFAULT_VISUAL;
+		}
+
+		if (this->visual == nullptr) {
+			this->visual = std::make_shared<Visual>();
+			this->visual->name = this->visual_name;
 		}
 
 		if (has_ai_object) {
-- 
2.43.0


From 0c5d57c09d2842d2f1564f8da442028d2a5eee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:32 +0000
Subject: [PATCH 014/116] fix: write the physics flag of VObs consistently with
 the rigid-body

---
 src/vobs/VirtualObject.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 22289be..e408a9c 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -232,11 +232,11 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (this->event_manager && w.is_save_game()) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
+			// In save-games, this bit also determines whether the rigid-body is stored.
+			if (w.is_save_game()) {
 				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
+			} else {
+				bit1 |= this->physics_enabled << 6u;
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
@@ -313,7 +313,6 @@ namespace zenkit {
 			w.write_byte("sleepMode", this->sleep_mode);
 			w.write_float("nextOnTimer", this->next_on_timer);
 
-			// Gothic 1 does not store rigid-body information.
 			if (this->physics_enabled && this->rigid_body) {
 				this->rigid_body->save(w, version);
 			}
-- 
2.43.0


From 3185b84e206772af8bff77ccadc4251b8814b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 015/116] fix: write the flags of triggers from the attributes
 which replaced them

---
 include/zenkit/vobs/Trigger.hh |  4 ++--
 src/vobs/Trigger.cc            | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/vobs/Trigger.hh b/include/zenkit/vobs/Trigger.hh
index 1648169..27b7622 100644
--- a/include/zenkit/vobs/Trigger.hh
+++ b/include/zenkit/vobs/Trigger.hh
@@ -99,7 +99,7 @@ namespace zenkit {
 		/// \see https://zk.gothickit.dev/engine/objects/zCTrigger/#triggerTarget
 		std::string target;
 
-		ZKREM("replaced by `start_enabled` and `send_untrigger`") std::uint8_t flags;
+		ZKREM("replaced by `start_enabled` and `send_untrigger`") std::uint8_t flags = 0;
 
 		/// \brief Determines whether the trigger is initially enabled.
 		///
@@ -119,7 +119,7 @@ namespace zenkit {
 		/// \see https://zk.gothickit.dev/engine/objects/zCTrigger/#sendUntrigger
 		bool send_untrigger;
 
-		ZKREM("replaced by `react_to_*` and `respond_to_*`") std::uint8_t filter_flags;
+		ZKREM("replaced by `react_to_*` and `respond_to_*`") std::uint8_t filter_flags = 0;
 
 		/// \brief Whether this trigger should react to `OnTrigger` events.
 		/// \see https://zk.gothickit.dev/engine/objects/zCTrigger/#reactToOnTrigger
diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..9627c58 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -46,8 +46,14 @@ namespace zenkit {
 	void VTrigger::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_string("triggerTarget", this->target);
-		w.write_raw("flags", reinterpret_cast<std::byte const*>(&this->flags), 1);
-		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&this->filter_flags), 1);
+
+		std::uint8_t trigger_flags = (this->flags & 0b11111010) | this->start_enabled << 0 | this->send_untrigger << 2;
+		std::uint8_t trigger_filter = (this->filter_flags & 0b11000000) | this->react_to_on_trigger << 0 |
+		    this->react_to_on_touch << 1 | this->react_to_on_damage << 2 | this->respond_to_object << 3 |
+		    this->respond_to_pc << 4 | this->respond_to_npc << 5;
+
+		w.write_raw("flags", reinterpret_cast<std::byte const*>(&trigger_flags), 1);
+		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&trigger_filter), 1);
 		w.write_string("respondToVobName", this->vob_target);
 		w.write_int("numCanBeActivated", this->max_activation_count);
 		w.write_float("retriggerWaitSec", this->retrigger_delay_sec);
-- 
2.43.0


From 9950cbd287d93e57df519ee525e989ea073fa932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 016/116] fix: don't transpose the original pose of camera
 key-frames when saving

---
 src/vobs/Camera.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..86a9627 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,10 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		std::vector<std::byte> pose;
+		Write::to(&pose)->write_mat4(this->original_pose);
+		w.write_raw("originalPose", pose);
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
-- 
2.43.0


From 14b35fad192738592751643adbb93e1325444132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 017/116] fix: don't write the range animation of lights into
 their color animation

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..9b34b2d 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -101,7 +101,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From 49d478c54854501da98cf27dc37694116e74d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 018/116] fix: read all packed item strings of Gothic 2 NPCs

---
 src/vobs/Misc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..ba75a5c 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -366,8 +366,11 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
-			} while (it != pack.end() && idx < 9);
+				if (next == pack.end()) {
+					break;
+				}
+				it = next + 1;
+			} while (idx < 9);
 		}
 
 		auto item_count = static_cast<size_t>(r.read_int()); // itemCount
-- 
2.43.0


From 6e668c84ad5d74153d45402231bae132788fe656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:15 +0000
Subject: [PATCH 019/116] fix: write the save-game state of code masters which
 the loader expects

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index ba75a5c..7f1e07b 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				// FIXME: The triggered slaves are not available after loading.
+				w.write_object("slaveTriggered" + std::to_string(i), nullptr, version);
+			}
 		}
 	}
 
-- 
2.43.0


From eabde9d4914895a092a307810afbd09839b782ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:57 +0000
Subject: [PATCH 020/116] fix: write the NPC spawn flags as an integer

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..0254bed 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 8ce31d63ee2160863096c1042fbdf5d3a3f502d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 021/116] fix: keep way-points which are only referenced by an
 edge to themselves

---
 src/world/WayNet.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..19965f4 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -38,9 +38,9 @@ namespace zenkit {
 
 		for (auto i = 0; i < count_edges; ++i) {
 			auto wayl = r.read_object<WayPoint>(version);
-			auto wayr = r.read_object<WayPoint>(version);
-
 			if (wayl.use_count() < 3) this->points.push_back(wayl);
+
+			auto wayr = r.read_object<WayPoint>(version);
 			if (wayr.use_count() < 3) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
-- 
2.43.0


From 43a97affcb35bd84044550817e679ed525dc91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 022/116] fix: write the alpha function of materials as an enum

---
 src/Material.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..7b86d5e 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 54b7466e4abb7e75078c3a92e61f03abac1c3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:28 +0000
Subject: [PATCH 023/116] fix: only return cutscene blocks with the requested
 name

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..1e3043d 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -109,7 +109,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From 69502057775bb8f16a79259c258c79122ab776fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 024/116] fix: write the content size of progressive meshes
 without the size field itself

---
 src/MultiResolutionMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..dbe34f1 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
-- 
2.43.0


From aa23be6b8fef06c3bd5c379dcfc833ea4c472012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 025/116] fix: write as much padding after progressive meshes
 as the loader skips

---
 src/MultiResolutionMesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index dbe34f1..2aff661 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -184,8 +184,8 @@ namespace zenkit {
 		this->bbox.save(w);
 		this->obbox.save(w);
 
-		char padding[10] {0};
-		w->write(padding, 10);
+		char padding[0x10] {0};
+		w->write(padding, 0x10);
 	}
 
 	void SubMesh::load(Read* r, SubMeshSection const& map) {
-- 
2.43.0


From f40a2226d0dbfed65cb5f10ca93b466a59765e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:06 +0000
Subject: [PATCH 026/116] fix: write the element counts of sub-mesh sections
 instead of their byte sizes

---
 src/MultiResolutionMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index 2aff661..768aed3 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = this->triangles.size();
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = this->wedges.size();
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = this->colors.size();
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = this->triangle_plane_indices.size();
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = this->triangle_planes.size();
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = this->triangle_edges.size();
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,21 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = this->edges.size();
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = this->edge_scores.size();
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = this->wedge_map.size();
 
 		return section;
 	}
-- 
2.43.0


From 53888f18dd48246e81299606cac7f5b7bb23894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 027/116] fix: write the weights of soft-skins into the chunk
 they are read from

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..382e470 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
-- 
2.43.0


From 5ef6aef9162ad009ab532b64c5923c15c8534210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 028/116] fix: write the size of soft-skin weights without the
 size field itself

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 382e470..80684ca 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - static_cast<ssize_t>(sizeof(uint32_t)));
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From e899ad552e9d368f87549cfd5826bb4d639d7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 029/116] fix: write each attachment of model meshes into its
 own chunk

---
 src/ModelMesh.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..8cf83fd 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,11 +90,9 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) { v.save_to_section(wr, version); });
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-- 
2.43.0


From cd4fd8e12c6fab03ec845facd8fb356ee3de8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:01 +0000
Subject: [PATCH 030/116] fix: write the number of soft-skins of model meshes

---
 src/ModelMesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 8cf83fd..20ae236 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -96,6 +96,7 @@ namespace zenkit {
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(static_cast<uint16_t>(this->meshes.size()));
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0


From 1c7f5a23578867c8ede42c746ddba51b2413d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:29 +0000
Subject: [PATCH 031/116] fix: keep both bits of the normal axis of Gothic 1
 polygons

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..6ada476 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From 8f48928290b823c8f21704e141bf7c545cfd22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:29 +0000
Subject: [PATCH 032/116] fix: write the polygon indices of Gothic 2 meshes
 instead of the triangulated ones

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 6ada476..c162883 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From 3d10827d500a8009c32d7c6c4ed49ede34176b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:46 +0000
Subject: [PATCH 033/116] fix: don't use a dangling node reference if a BSP
 tree has more nodes than announced

---
 src/world/BspTree.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..e7dcc80 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -60,7 +60,8 @@ namespace zenkit {
 			}
 
 			if ((flags & 0x02) != 0) {
-				node.back_index = static_cast<std::int32_t>(nodes.size());
+				// `node` might have been invalidated by parsing the front node.
+				nodes[self_index].back_index = static_cast<std::int32_t>(nodes.size());
 				_parse_bsp_nodes(in,
 				                 nodes,
 				                 indices,
-- 
2.43.0


From caf01440d169dbb9804c7cbaf0eb061a8f730353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:09 +0000
Subject: [PATCH 034/116] fix: don't skip empty lines and data after the text
 of animation events

---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From d1ba316ee516b426bf2bdf91158cfefd5fb02040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:02 +0000
Subject: [PATCH 035/116] fix: don't skip data after the file names of morph
 mesh sources

---
 src/MorphMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..e0b9e62 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,7 +21,7 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
-- 
2.43.0


From d85eefe425a280dc0511868f2e80aebb482eb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 036/116] fix: don't skip empty font names and leading white
 space of font names

---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From b47a617851bd9331f4511668eb5fe849a5022359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:12 +0000
Subject: [PATCH 037/116] fix: enclose oriented bounding boxes with only
 negative coordinates

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From 9b8a79cfa91a116021ed2268bfc3b22a70ac72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:18 +0000
Subject: [PATCH 038/116] fix: replace the missions and script variables of a
 save-game state when loading another one

---
 src/SaveGame.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..49c616d 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -97,6 +97,7 @@ namespace zenkit {
 
 		// oCMissionManager {
 		auto mission_count = r.read_int(); // NumOfEntries
+		this->missions.clear();
 		for (auto i = 0; i < mission_count; ++i) {
 			// oCMission {
 			auto& mission = this->missions.emplace_back();
@@ -142,6 +143,7 @@ namespace zenkit {
 
 		// zCParser {
 		auto symbol_count = r.read_int(); // numSymbols
+		this->symbols.clear();
 		this->symbols.resize(symbol_count);
 
 		for (SaveSymbolState& sym : this->symbols) {
-- 
2.43.0


From b5ec8bbd4d28222ffe252522ead422a3dfb2becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:06 +0000
Subject: [PATCH 039/116] fix: don't write an empty thumbnail which prevents a
 save-game from being loaded

---
 src/SaveGame.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 49c616d..eda58bf 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -350,12 +350,12 @@ namespace zenkit {
 			ar->write_header();
 		}
 
-		{
+		if (this->thumbnail) {
 			auto w = Write::to(path / "THUMB.SAV");
-
-			if (this->thumbnail) {
-				this->thumbnail->save(w.get());
-			}
+			this->thumbnail->save(w.get());
+		} else {
+			// An empty thumbnail could not be loaded again.
+			std::filesystem::remove(path / "THUMB.SAV");
 		}
 
 		{
-- 
2.43.0


From 346f893e5dd898d2c9235633017338869266b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:16 +0000
Subject: [PATCH 040/116] fix: mipmap levels of a texture are at least one
 pixel wide and high

---
 include/zenkit/Texture.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..4e0acfa 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Library.hh"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <vector>
@@ -82,13 +83,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return std::max(1u, _m_width >> level);
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return std::max(1u, _m_height >> level);
 		}
 
 		/// \return The width of the texture in-engine.
-- 
2.43.0


From 1ddc83b39fe2c7064a27de08a2350293d68e22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:16 +0000
Subject: [PATCH 041/116] fix: count partial blocks in the size of
 block-compressed textures

---
 src/Texture.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..17fed8e 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -59,12 +59,12 @@ namespace zenkit {
 		case TextureFormat::P8:
 			return x * y;
 		case TextureFormat::DXT1:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 8;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 8;
 		case TextureFormat::DXT2:
 		case TextureFormat::DXT3:
 		case TextureFormat::DXT4:
 		case TextureFormat::DXT5:
-			return std::max(1u, x / 4) * std::max(1u, y / 4) * 16;
+			return ((x + 3) / 4) * ((y + 3) / 4) * 16;
 		default:
 			return 0;
 		}
-- 
2.43.0


From 04e1483f8d182947e6d3ca6fb1b3de2b12903e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:16 +0000
Subject: [PATCH 042/116] fix: replace the mipmaps of a texture when loading
 another one

---
 src/Texture.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 17fed8e..744602a 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -303,6 +303,8 @@ namespace zenkit {
 			}
 		}
 
+		this->_m_textures.clear();
+
 		// Lowest mipmap-level first
 		for (std::int64_t level = this->_m_mipmap_count - 1; level >= 0; --level) {
 			auto size =
-- 
2.43.0


From a117cef56bb439a9151d19b13eaaa833353909b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 043/116] fix: allocate the result when converting paletted
 textures to RGBA

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 744602a..2ac4dff 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -326,6 +326,7 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From de5acb9216d8deb25a3fe148cce2203371d7f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 044/116] fix: convert from RGBA to B8G8R8A8 and A8R8G8B8 pixel
 by pixel and in the right order

---
 src/Texture.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 2ac4dff..dfa9545 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
-- 
2.43.0


From afe340f82888d37e9503d7b5d3b82ce3e9a85334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 045/116] fix: scale channels to five and six bits and keep
 their order when converting to R5G6B5

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index dfa9545..4adcbc9 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -236,9 +236,9 @@ namespace zenkit {
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
 				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
+				    static_cast<uint16_t>((bytes[i * 4 + 2] * 31 + 127) / 255),
+				    static_cast<uint16_t>((bytes[i * 4 + 1] * 63 + 127) / 255),
+				    static_cast<uint16_t>((bytes[i * 4 + 0] * 31 + 127) / 255),
 				};
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
-- 
2.43.0


From 419dc90734c880fff3143f57f877d0304423ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 046/116] fix: allocate the result when compressing textures

---
 src/Texture.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 4adcbc9..2e199f0 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -246,12 +246,15 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt1));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt3));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(squish::GetStorageRequirements(static_cast<int>(width), static_cast<int>(height), squish::kDxt5));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From f9b5917734538b00c2dddab98a877669deacc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:17 +0000
Subject: [PATCH 047/116] fix: store the mipmaps of a built texture in the
 order in which they are read

---
 src/Texture.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 2e199f0..474f06f 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -396,7 +396,12 @@ namespace zenkit {
 
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			auto width = std::max(1u, _m_width >> i);
+			auto height = std::max(1u, _m_height >> i);
+
+			// Lowest mipmap-level first
+			tex._m_textures.insert(tex._m_textures.begin(),
+			                       _ztex_convert_format(data.data(), width, height, fmt, format));
 		}
 
 		return tex;
-- 
2.43.0


From d945c132b7c72f00dee8a00ae2a166a366ac8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 048/116] fix: resolve and remove nothing below files of the
 Vfs

---
 src/Vfs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..d5c0edb 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -183,6 +183,9 @@ namespace zenkit {
 				continue;
 			}
 
+			// There is nothing below a file.
+			if (context->type() != VfsNodeType::DIRECTORY) return nullptr;
+
 			auto name = path.substr(0, next);
 			context = context->child(name);
 
@@ -533,7 +536,7 @@ namespace zenkit {
 		auto childName = path.substr(lastSlash + 1);
 
 		VfsNode* pNode = this->resolve(parentPath);
-		if (pNode == nullptr) return false;
+		if (pNode == nullptr || pNode->type() != VfsNodeType::DIRECTORY) return false;
 		return pNode->remove(childName);
 	}
 
-- 
2.43.0


From b3730c8aa2f282e7a57d286da9f349e018ea0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 049/116] fix: keep the data of Vfs files alive when nodes are
 assigned

---
 include/zenkit/Vfs.hh |  1 +
 src/Vfs.cc            | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/zenkit/Vfs.hh b/include/zenkit/Vfs.hh
index 2d326eb..8e5d133 100644
--- a/include/zenkit/Vfs.hh
+++ b/include/zenkit/Vfs.hh
@@ -44,6 +44,7 @@ namespace zenkit {
 
 		VfsFileDescriptor(std::byte const* mem, size_t len, bool del, bool zipped = false, size_t raw_size = 0);
 		VfsFileDescriptor(VfsFileDescriptor const& cpy);
+		VfsFileDescriptor& operator=(VfsFileDescriptor const& cpy);
 		~VfsFileDescriptor() noexcept;
 
 	private:
diff --git a/src/Vfs.cc b/src/Vfs.cc
index d5c0edb..c145914 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -47,6 +47,16 @@ namespace zenkit {
 		*this->refcnt += 1;
 	}
 
+	VfsFileDescriptor& VfsFileDescriptor::operator=(VfsFileDescriptor const& cpy) {
+		VfsFileDescriptor tmp {cpy};
+		std::swap(this->memory, tmp.memory);
+		std::swap(this->size, tmp.size);
+		std::swap(this->raw_size, tmp.raw_size);
+		std::swap(this->zipped, tmp.zipped);
+		std::swap(this->refcnt, tmp.refcnt);
+		return *this;
+	}
+
 	VfsFileDescriptor::~VfsFileDescriptor() noexcept {
 		if (this->refcnt == nullptr) return;
 		*this->refcnt -= 1;
-- 
2.43.0


From 798a513ac83dbce396605dd954c14cebf11daba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 050/116] fix: make Vfs nodes with trailing white space in
 their name accessible

---
 src/Vfs.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index c145914..ace266b 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -79,15 +79,6 @@ namespace zenkit {
 		return icompare(a, b.name());
 	}
 
-	VfsNode::VfsNode(std::string_view name, time_t ts) : _m_name(name), _m_time(ts), _m_data(ChildContainer {}) {}
-
-	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
-	    : _m_name(name), _m_time(ts), _m_data(dev) {}
-
-	VfsNode::ChildContainer const& VfsNode::children() const {
-		return std::get<ChildContainer>(_m_data);
-	}
-
 	std::string_view trim_trailing_whitespace(std::string_view s) {
 		while (!s.empty() && std::isspace(s.back())) {
 			s = s.substr(0, s.size() - 1);
@@ -96,6 +87,16 @@ namespace zenkit {
 		return s;
 	}
 
+	VfsNode::VfsNode(std::string_view name, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(ChildContainer {}) {}
+
+	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(dev) {}
+
+	VfsNode::ChildContainer const& VfsNode::children() const {
+		return std::get<ChildContainer>(_m_data);
+	}
+
 	VfsNode const* VfsNode::child(std::string_view name) const {
 		auto& children = std::get<ChildContainer>(_m_data);
 
-- 
2.43.0


From f6fc98762247778165af668055bdeb7551b20956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 051/116] fix: save and mount disk time-stamps in the same time
 zone

---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index ace266b..59637af 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -249,7 +249,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		tm t = *localtime(&unix_);
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
@@ -441,6 +441,7 @@ namespace zenkit {
 		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
 		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
 		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
+		t.tm_isdst = -1;
 
 		return mktime(&t);
 	}
-- 
2.43.0


From d63f3c6cd7f46df8dd3c4decfa8732398c556ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 052/116] fix: don't save empty directories to disks, they
 would show the contents of other directories

---
 src/Vfs.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 59637af..83d3162 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -236,12 +236,26 @@ namespace zenkit {
 		return const_cast<VfsNode*>(const_cast<Vfs const*>(this)->find(name));
 	}
 
+	/// Collects the children of a directory which can be saved to a disk. Directories without any file
+	/// can't be represented since every directory of a disk has at least one entry.
+	static std::vector<VfsNode const*> saved_children(VfsNode const* node) {
+		std::vector<VfsNode const*> children;
+
+		for (auto& child : node->children()) {
+			if (child.type() == VfsNodeType::FILE || !saved_children(&child).empty()) {
+				children.push_back(&child);
+			}
+		}
+
+		return children;
+	}
+
 	static uint32_t count_nodes(VfsNode const* node) {
 		uint32_t count = 1; /* self */
 
 		if (node->type() == VfsNodeType::DIRECTORY) {
-			for (auto& child : node->children()) {
-				count += count_nodes(&child);
+			for (auto* child : saved_children(node)) {
+				count += count_nodes(child);
 			}
 		}
 
@@ -340,7 +354,9 @@ namespace zenkit {
 			unsigned i = 0;
 			std::vector<std::pair<uint32_t, VfsNode const*>> dirs;
 
-			for (auto& child : node->children()) {
+			auto children = saved_children(node);
+			for (auto* pChild : children) {
+				auto& child = *pChild;
 				name = child.name();
 				name.resize(64, '\x20');
 
@@ -357,7 +373,7 @@ namespace zenkit {
 
 					write_catalog->write_uint(w->tell()); // Offset
 					write_catalog->write_uint(sz);        // Size (always uncompressed)
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0x40000000 : 0); // Type
+					write_catalog->write_uint(i + 1 == children.size() ? 0x40000000 : 0); // Type
 
 #ifdef _ZK_WITH_ZIPPED_VDF
 					if (compressed && !vfs_is_wave_file(child.name())) {
@@ -374,7 +390,7 @@ namespace zenkit {
 					dirs.emplace_back(write_catalog->tell(), &child);
 					write_catalog->write_uint(0);                                                          // Offset
 					write_catalog->write_uint(0);                                                          // Size
-					write_catalog->write_uint(i + 1 == node->children().size() ? 0xC0000000 : 0x80000000); // Type
+					write_catalog->write_uint(i + 1 == children.size() ? 0xC0000000 : 0x80000000); // Type
 				}
 
 				write_catalog->write_uint(0); // Attributes
-- 
2.43.0


From 94250d855b3983c06be17f2fb0d6de50a0b47ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 053/116] fix: don't mount disk entries whose end overflows 32
 bits

---
 src/Vfs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 83d3162..450ead6 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -720,7 +720,7 @@ namespace zenkit {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (static_cast<std::uint64_t>(e_offset) + e_size > size)) {
 					    return last;
 				    }
 
-- 
2.43.0


From 9210beb4c9b97cc3b6c196aa1221b50d9d5829a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 054/116] fix: keep the data of disks which fail to mount
 half-way

---
 src/Vfs.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 450ead6..5122d35 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -470,8 +470,9 @@ namespace zenkit {
 		auto mem = std::make_unique<std::byte[]>(size);
 		buf->read(mem.get(), size);
 
-		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
+		// Mounted nodes refer to the data even if mounting the rest of the disk fails.
+		auto& data = _m_data.emplace_back(std::move(mem));
+		this->mount_disk(data.get(), size, overwrite);
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
-- 
2.43.0


From a9b0ce2a011a91196e613675ef69326b7290eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:42 +0000
Subject: [PATCH 055/116] fix: stop at the end of damaged disk catalogs and
 reject directories which contain themselves

---
 src/Vfs.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 5122d35..0f255d0 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -656,8 +656,9 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
+		std::vector<std::uint64_t> parents {catalog_offset};
 		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		    [&load_entry, &parents, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -713,10 +714,21 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
-				    while (!load_entry(existing))
+				    auto dir_offset = catalog_offset + static_cast<std::uint64_t>(e_offset) * 80;
+				    if (dir_offset >= size) {
+					    return last;
+				    }
+
+				    if (std::find(parents.begin(), parents.end(), dir_offset) != parents.end()) {
+					    throw VfsBrokenDiskError {"Directory \"" + e_name + "\" contains itself"};
+				    }
+
+				    parents.push_back(dir_offset);
+				    r->seek(static_cast<ssize_t>(dir_offset), Whence::BEG);
+				    while (!r->eof() && !load_entry(existing))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
+				    parents.pop_back();
 			    } else {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
@@ -760,7 +772,7 @@ namespace zenkit {
 		    };
 
 		r->seek(catalog_offset, Whence::BEG);
-		while (!load_entry(&_m_root))
+		while (!r->eof() && !load_entry(&_m_root))
 			;
 	}
 } // namespace zenkit
-- 
2.43.0


From 09423ed359a23fbda961860ee3b72859e28a5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 056/116] fix: keep the parent of a string constant when the
 line break heuristic finds nothing

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..313d3fc 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -402,7 +402,7 @@ namespace zenkit {
 
 			if (byte == 0) {
 				// We didn't find any match.
-				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
+				r->seek(static_cast<ssize_t>(savepoint - sizeof(std::int32_t)), Whence::BEG);
 				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
-- 
2.43.0


From 82edeb0373f0b47174853a52d61422dd015419d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 057/116] fix: reject instruction addresses outside of the
 script's code

---
 src/DaedalusScript.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 313d3fc..1175df2 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -120,6 +120,10 @@ namespace zenkit {
 
 	DaedalusInstruction DaedalusScript::instruction_at(std::uint32_t address) const {
 		_m_text->seek(address, Whence::BEG);
+		if (_m_text->tell() != address || _m_text->eof()) {
+			throw DaedalusScriptError {"illegal instruction address: " + std::to_string(address)};
+		}
+
 		return DaedalusInstruction::decode(_m_text.get());
 	}
 
-- 
2.43.0


From 650ff29938e7bfe477f50ced6e60629d0e200867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:52 +0000
Subject: [PATCH 058/116] fix: find the local variables of the last function of
 a script

---
 src/DaedalusScript.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 1175df2..0690399 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -211,7 +211,9 @@ namespace zenkit {
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+
+		if (first >= _m_symbols.size()) return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From fa16b9f13b6ad1a48ae37283a7bb2af8b0524474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:26 +0000
Subject: [PATCH 059/116] fix: do not trap when a script divides the smallest
 integer by -1

---
 src/DaedalusVm.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..c9c4482 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -126,6 +126,11 @@ namespace zenkit {
 		_m_instance = std::move(i);
 	}
 
+	/// \brief Divides two integers. Dividing the smallest integer by `-1` wraps around instead of trapping.
+	static std::int32_t divide(std::int32_t a, std::int32_t b) {
+		return b == -1 ? static_cast<std::int32_t>(0U - static_cast<std::uint32_t>(a)) : a / b;
+	}
+
 	bool DaedalusVm::exec() {
 		auto instr = instruction_at(_m_pc);
 
@@ -151,7 +156,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(divide(a, b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +164,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(b == -1 ? 0 : a % b);
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -384,7 +389,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
+					auto result = divide(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
-- 
2.43.0


From 6525cca77ce2759355f0167c0066d156f539fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 060/116] fix: do not mix up the arguments of a recursive call
 while saving local variables

---
 src/DaedalusVm.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c9c4482..a6f22f5 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -553,8 +553,11 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
-			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
+		if (locals_size != 0) {
+			// The two ranges may overlap, so begin with the last argument.
+			for (size_t i = params.size(); i-- > 0;) {
+				_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
+			}
 		}
 
 		for (auto& l : locals) {
-- 
2.43.0


From 20ee27c8333c74ba0b37f6e84bf17a4dce7d5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 061/116] fix: keep the full index of references on the script
 stack

---
 include/zenkit/DaedalusVm.hh | 4 ++--
 src/DaedalusVm.cc            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..3d52749 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index a6f22f5..b13479a 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -659,7 +659,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -737,7 +737,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From 69eea35ab4ab6b800b976e8549e09553ce4cc6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 062/116] fix: restore the machine's state when a script call
 fails

---
 include/zenkit/DaedalusVm.hh | 12 ++++++++-
 src/DaedalusVm.cc            | 50 ++++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3d52749..09cfb64 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -718,6 +718,14 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Removes call stack frames of failed calls until \p depth frames are left.
+		///
+		/// This method restores the interpreter's state to before those functions were called. No return values
+		/// are pushed.
+		///
+		/// \param depth The number of call stack frames to keep.
+		ZKINT void unwind_calls(std::size_t depth);
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
@@ -727,7 +735,9 @@ namespace zenkit {
 		/// \brief Pops a function-local variables from the call stack.
 		///
 		/// Part of #pop_call implementation
-		ZKINT void pop_local_variables(DaedalusSymbol const* sym);
+		/// \param sym The symbol referring to the function called.
+		/// \param has_result Whether the return value of the function is on top of the stack.
+		ZKINT void pop_local_variables(DaedalusSymbol const* sym, bool has_result);
 
 		/// \brief Checks that the type of each symbol in the given set of defined symbols matches the given type
 		/// parameters.
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b13479a..f4255b9 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -104,12 +104,19 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
+		auto depth = _m_call_stack.size();
 		push_call(sym);
-		jump(sym->address());
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+		} catch (...) {
+			unwind_calls(depth);
+			throw;
+		}
 
 		pop_call();
 	}
@@ -132,6 +139,16 @@ namespace zenkit {
 	}
 
 	bool DaedalusVm::exec() {
+		// Removes the call stack frame of an external or override which is left by an exception.
+		struct CallGuard {
+			DaedalusVm* machine;
+			std::size_t depth;
+
+			~CallGuard() {
+				machine->unwind_calls(depth);
+			}
+		};
+
 		auto instr = instruction_at(_m_pc);
 
 		try {
@@ -241,6 +258,7 @@ namespace zenkit {
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
 					// Guard against exceptions during external invocation.
 					StackGuard guard {this, sym->rtype()};
+					CallGuard call_guard {this, _m_call_stack.size()};
 					// Call maybe naked.
 					cb->second(*this);
 					// The stack is left intact.
@@ -275,6 +293,7 @@ namespace zenkit {
 					throw DaedalusVmException {"be: no external registered for " + sym->name()};
 				}
 
+				CallGuard call_guard {this, _m_call_stack.size()};
 				push_call(sym);
 				cb->second(*this);
 				pop_call();
@@ -496,7 +515,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function);
+			pop_local_variables(call.function, call.function->has_return());
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
@@ -505,6 +524,21 @@ namespace zenkit {
 		_m_call_stack.pop_back();
 	}
 
+	void DaedalusVm::unwind_calls(std::size_t depth) {
+		while (_m_call_stack.size() > depth) {
+			auto const& call = _m_call_stack.back();
+			_m_stack_ptr = call.stack_ptr;
+
+			if (call.function->has_local_variables_enabled()) {
+				pop_local_variables(call.function, false);
+			}
+
+			_m_pc = call.program_counter;
+			_m_instance = call.context;
+			_m_call_stack.pop_back();
+		}
+	}
+
 	void DaedalusVm::push_local_variables(DaedalusSymbol const* sym) {
 		bool has_recursion = false;
 		for (auto& i : _m_call_stack) {
@@ -593,7 +627,7 @@ namespace zenkit {
 		_m_stack_ptr += params.size();
 	}
 
-	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym) {
+	void DaedalusVm::pop_local_variables(DaedalusSymbol const* sym, bool has_result) {
 		int has_recursion = 0;
 		for (auto& i : _m_call_stack) {
 			if (i.function == sym) {
@@ -606,7 +640,7 @@ namespace zenkit {
 		}
 
 		DaedalusStackFrame ret;
-		if (sym->has_return()) {
+		if (has_result) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
 		}
 
@@ -646,7 +680,7 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (has_result) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From 21b765d85ea50c3f29ebe43ee9ab162f570584b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:58 +0000
Subject: [PATCH 063/116] fix: restore self and the current instance when
 initializing an instance fails

---
 include/zenkit/DaedalusVm.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 09cfb64..7fb8491 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -221,7 +221,13 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
-- 
2.43.0


From c649b9a0bee12c0091befaed78953de04cb68057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 064/116] fix: do not crash or mask the error while printing
 the script stack trace

---
 src/DaedalusVm.cc | 56 +++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f4255b9..8bb0a64 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -918,32 +918,36 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, _m_instance.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, _m_instance.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, _m_instance.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "<invalid function>";
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst != nullptr) {
+							value = "<instance of '" + std::string(typeid(*inst).name()) + "'>";
+						} else {
+							value = "NULL";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const&) {
+					value = "<inaccessible>";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -964,7 +968,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       typeid(*inst).name());
 					}
 				}
 			}
-- 
2.43.0


From e723a8cf5e035057245f57e731448ae05680943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 065/116] fix: do not corrupt the script stack if a function is
 called with too few arguments

---
 src/DaedalusVm.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 8bb0a64..be5e64e 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -483,7 +483,9 @@ namespace zenkit {
 			push_local_variables(sym);
 		}
 		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		// There might be fewer arguments on the stack than there are parameters.
+		auto base = _m_stack_ptr > var_count ? _m_stack_ptr - static_cast<uint32_t>(var_count) : 0U;
+		_m_call_stack.push_back({sym, _m_pc, base, _m_instance});
 	}
 
 	void DaedalusVm::pop_call() {
@@ -495,7 +497,8 @@ namespace zenkit {
 			// this function, so just reset the stack for the caller.
 			_m_stack_ptr = call.stack_ptr;
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
+			// The function might have removed values of its caller from the stack.
+			auto remaining_locals = _m_stack_ptr > call.stack_ptr ? _m_stack_ptr - call.stack_ptr : 0U;
 			if (remaining_locals == 0) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
-- 
2.43.0


From da5a8777dd638abe821f75f3a6752b2187b5ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 066/116] fix: do not access values function symbols do not
 have

---
 src/DaedalusScript.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 0690399..2f63fa4 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -375,7 +375,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::make_unique<std::int32_t[]>(this->_m_count);
 				}
 				this->_m_address = r->read_int();
 				break;
@@ -484,7 +484,13 @@ namespace zenkit {
 			return *get_member_ptr<std::int32_t>(index, context);
 		}
 
-		return std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index];
+		auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+		if (values == nullptr) {
+			// Functions which are not variables do not have a value.
+			throw DaedalusIllegalIndexAccess(this, index);
+		}
+
+		return values[index];
 	}
 
 	void DaedalusSymbol::set_string(std::string_view value, std::uint16_t index, DaedalusInstance* context) {
@@ -558,7 +564,13 @@ namespace zenkit {
 
 			*get_member_ptr<std::int32_t>(index, context) = value;
 		} else {
-			std::get<std::unique_ptr<std::int32_t[]>>(_m_value)[index] = value;
+			auto& values = std::get<std::unique_ptr<std::int32_t[]>>(_m_value);
+			if (values == nullptr) {
+				// Functions which are not variables do not have a value.
+				throw DaedalusIllegalIndexAccess(this, index);
+			}
+
+			values[index] = value;
 		}
 	}
 
-- 
2.43.0


From 8315727122809b6f8c43b335344354b30a1643cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 067/116] fix: read float members at the requested index

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 2f63fa4..aab7b86 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -457,7 +457,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From 3ef4894c1d745b8173d468f1a63fa5f447f07507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 068/116] fix: report accesses to uninitialized instances and
 unregistered classes instead of crashing

---
 include/zenkit/DaedalusScript.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..48f9ac2 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -677,7 +677,7 @@ namespace zenkit {
 		}
 
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
-			return *_m_registered_to;
+			return _m_registered_to != nullptr ? *_m_registered_to : typeid(void);
 		}
 
 		ZKAPI void grow(uint32_t n);
@@ -686,6 +686,7 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(*context)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
@@ -696,6 +697,7 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
+			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(*context)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
 
 			auto data_ptr = context->data();
-- 
2.43.0


From c91adb2670849580bba3558fd525d1f45f788cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:12 +0000
Subject: [PATCH 069/116] fix: report instances whose prototype does not have a
 class

---
 include/zenkit/DaedalusVm.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 7fb8491..abdc58f 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -308,11 +308,11 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
-- 
2.43.0


From 4d617f93b1723d9d66cd4465f6a3a5bcfd8148c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 070/116] fix: report host arguments and results of
 unregistered classes instead of crashing

---
 include/zenkit/DaedalusVm.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index abdc58f..c02557a 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -806,8 +806,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -824,8 +824,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -986,8 +986,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From d6618104edd65b1d1eb67e73e617e6bbf6970866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 071/116] fix: allow host functions to return script functions
 as documented

---
 include/zenkit/DaedalusVm.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index c02557a..fbb64ae 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -432,7 +432,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int/func");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
@@ -519,7 +520,8 @@ namespace zenkit {
 				} else if constexpr (std::floating_point<R>) {
 					if (sym->rtype() != DaedalusDataType::FLOAT) throw DaedalusIllegalExternalReturnType(sym, "float");
 				} else if constexpr (std::convertible_to<int32_t, R>) {
-					if (sym->rtype() != DaedalusDataType::INT) throw DaedalusIllegalExternalReturnType(sym, "int");
+					if (sym->rtype() != DaedalusDataType::INT && sym->rtype() != DaedalusDataType::FUNCTION)
+						throw DaedalusIllegalExternalReturnType(sym, "int/func");
 				} else if constexpr (std::convertible_to<std::string, R>) {
 					if (sym->rtype() != DaedalusDataType::STRING)
 						throw DaedalusIllegalExternalReturnType(sym, "string");
-- 
2.43.0


From 2f904fb43682801b2b3da682e3b351588f43f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 072/116] fix: return functions and objects of any class from
 script functions

---
 include/zenkit/DaedalusVm.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index fbb64ae..f4dc90c 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -984,7 +984,7 @@ namespace zenkit {
 			if constexpr (DaedalusInstancePointer<R>) {
 				auto r = pop_instance();
 
-				if (r != nullptr) {
+				if (r != nullptr && !std::same_as<R, std::shared_ptr<DaedalusInstance>>) {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
@@ -1005,6 +1005,8 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_value_for_external<DaedalusFunction>();
 			}
 		}
 
-- 
2.43.0


From 1a4e6051b7c360d6c08092e6b5f15ee0e06a537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 073/116] fix: do not leave arguments behind if a script
 function is called with wrong ones

---
 include/zenkit/DaedalusVm.hh | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index f4dc90c..188f083 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -146,7 +146,15 @@ namespace zenkit {
 			}
 
 			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
+				auto const stack_ptr = _m_stack_ptr;
+
+				try {
+					push_call_parameters<0, P...>(params, args...);
+				} catch (...) {
+					// Don't leave the arguments which have already been pushed behind.
+					_m_stack_ptr = stack_ptr;
+					throw;
+				}
 			}
 
 			unsafe_call(sym);
-- 
2.43.0


From ab57131e2eb17567a9fcf9b7d92c137b1114ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 074/116] fix: remove all arguments of unregistered externals
 from the stack

---
 src/DaedalusVm.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index be5e64e..20300be 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -857,10 +857,12 @@ namespace zenkit {
 			auto params = find_parameters_for_function(&sym);
 			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
 				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
+				if (par.type() == DaedalusDataType::INT || par.type() == DaedalusDataType::FUNCTION)
 					(void) v.pop_int();
 				else if (par.type() == DaedalusDataType::FLOAT)
 					(void) v.pop_float();
+				else if (par.type() == DaedalusDataType::INSTANCE && !v.top_is_reference())
+					(void) v.pop_instance();
 				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
 					(void) v.pop_reference();
 			}
@@ -868,7 +870,7 @@ namespace zenkit {
 			if (sym.has_return()) {
 				if (sym.rtype() == DaedalusDataType::FLOAT)
 					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
+				else if (sym.rtype() == DaedalusDataType::INT || sym.rtype() == DaedalusDataType::FUNCTION)
 					v.push_int(0);
 				else if (sym.rtype() == DaedalusDataType::STRING)
 					v.push_string("");
-- 
2.43.0


From 5bc83c29f456370ae3a2c0e68959a30723f64886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 075/116] fix: keep the stack balanced if the default external
 fails

---
 src/DaedalusVm.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 20300be..05e8869 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -285,7 +285,17 @@ namespace zenkit {
 				auto cb = _m_externals.find(sym);
 				if (cb == _m_externals.end()) {
 					if (_m_default_external.has_value()) {
-						(*_m_default_external)(*this, *sym);
+						auto arg_count = find_parameters_for_function(sym).size();
+						auto base = _m_stack_ptr > arg_count ? _m_stack_ptr - arg_count : 0;
+
+						try {
+							(*_m_default_external)(*this, *sym);
+						} catch (...) {
+							// The guard provides the result.
+							_m_stack_ptr = static_cast<std::uint16_t>(base);
+							throw;
+						}
+
 						guard.inhibit();
 						break;
 					}
-- 
2.43.0


From 1423a6ad105df7bee8dea221a0b621560af6e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 076/116] fix: stop at the end of model script sources and keep
 parentheses at the end of strings

---
 src/ModelScriptDsl.cc | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..9e72f5c 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -30,6 +30,7 @@ namespace zenkit {
 
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
+		_m_mark = _m_buffer->tell();
 		while (!_m_buffer->eof()) {
 			_m_mark = _m_buffer->tell();
 			auto chr = static_cast<unsigned char>(_m_buffer->read_char());
@@ -54,7 +55,7 @@ namespace zenkit {
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (!_m_buffer->eof() && _m_buffer->read_char() != '\n')
 					_m_column += 1;
 
 				_m_line += 1;
@@ -66,6 +67,8 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return MdsToken::KEYWORD;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
@@ -79,9 +82,6 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
-				_m_column += 1;
-
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
 				// all of these cases:
 				//			registerMesh ("Some_File Name(WithBrackets).ASC")
@@ -89,21 +89,25 @@ namespace zenkit {
 				//			registerMesh ("Some_File Name.ASC"
 				//			registerMesh ("Some_File Name.ASC)
 				//			registerMesh ("Some_File Name.ASC
-				unsigned char prev = '\0';
-				while (chr != '"' && chr != '\n') {
-					if (!std::isspace(chr)) prev = chr;
-					_m_value.push_back(static_cast<char>(chr));
+				while (!_m_buffer->eof()) {
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
-				}
 
-				if (chr != '"') {
-					WARN_SYNTAX("String not terminated");
-					_m_buffer->seek(-1, Whence::CUR);
-					_m_column -= 1;
+					if (chr == '"') return MdsToken::STRING;
+					if (chr == '\n') {
+						// (backtrack one)
+						_m_buffer->seek(-1, Whence::CUR);
+						_m_column -= 1;
+						break;
+					}
+
+					_m_value.push_back(static_cast<char>(chr));
 				}
 
-				if (prev == ')') _m_value.pop_back();
+				WARN_SYNTAX("String not terminated");
+				while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back())))
+					_m_value.pop_back();
+				if (!_m_value.empty() && _m_value.back() == ')') _m_value.pop_back();
 				return MdsToken::STRING;
 			}
 
@@ -113,6 +117,8 @@ namespace zenkit {
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
+					if (_m_buffer->eof()) return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
+
 					chr = static_cast<unsigned char>(_m_buffer->read_char());
 					_m_column += 1;
 
@@ -121,6 +127,8 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
+						if (_m_buffer->eof()) return MdsToken::FLOAT;
+
 						chr = static_cast<unsigned char>(_m_buffer->read_char());
 						_m_column += 1;
 					}
@@ -156,7 +164,7 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (!_m_buffer->eof() && _m_buffer->read_char() != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +418,10 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		MdsToken token;
+		do {
+			token = this->_m_stream.next();
+		} while (token != MdsToken::RBRACE && token != MdsToken::END_OF_FILE);
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
-- 
2.43.0


From 039a47a4586bb3fbc18226a86292e58be0f533af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 077/116] fix: find the statement after an aniBlend regardless
 of its letter case

---
 src/ModelScriptDsl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 9e72f5c..1baa62b 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,9 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <algorithm>
+#include <cctype>
+
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
 
 namespace zenkit {
@@ -242,7 +245,11 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		// Keywords are not case-sensitive.
+		auto lower = *kw;
+		std::transform(lower.begin(), lower.end(), lower.begin(), [](unsigned char c) { return std::tolower(c); });
+
+		if (lower.find("ani") != std::string::npos || lower.find("model") != std::string::npos) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From 002b7f9d890520c0ed5d015fb242ee1ecf0fa973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 078/116] fix: do not end the animation block after an
 animation without events

---
 src/ModelScriptDsl.cc | 17 +++++++++++++----
 src/ModelScriptDsl.hh |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 1baa62b..2861975 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -394,9 +394,15 @@ namespace zenkit {
 		}
 	}
 
-	void MdsParser::parse_events(MdsAnimation& ani) {
+	void MdsParser::parse_events(MdsAnimation& ani, bool braces) {
 		while (!this->eof()) {
-			if (this->maybe<MdsToken::RBRACE>() || this->maybe<MdsToken::END_OF_FILE>()) {
+			if (this->maybe<MdsToken::RBRACE>()) {
+				// Without a block of events, this is the end of the surrounding block.
+				if (!braces) _m_stream.backtrack();
+				break;
+			}
+
+			if (this->maybe<MdsToken::END_OF_FILE>()) {
 				break;
 			}
 
@@ -421,6 +427,9 @@ namespace zenkit {
 				_m_stream.backtrack();
 				break;
 			}
+
+			// The opening brace might just have been forgotten.
+			braces = true;
 		}
 	}
 
@@ -526,8 +535,8 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		auto braces = this->maybe<MdsToken::LBRACE>();
+		this->parse_events(ani, braces);
 
 		return ani;
 	}
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..e403c25 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -52,7 +52,7 @@ namespace zenkit {
 		MdsSkeleton parse_meshAndTree();
 		std::string parse_registerMesh();
 		void parse_aniEnum(ModelScript& into);
-		void parse_events(MdsAnimation& ani);
+		void parse_events(MdsAnimation& ani, bool braces);
 		void ignore_block();
 		MdsEventTag parse_eventTag();
 		MdsSoundEffect parse_eventSFX();
-- 
2.43.0


From 645bf4db416c50ce878169e1427045d89a2a2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 079/116] fix: read the frames of events with blanks or other
 text around them

---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From f27cbb18ee21a1b2bab8aa110c44b06f49198bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 080/116] fix: keep empty texts and leading white space in
 compiled model scripts

---
 src/ModelScript.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..14de47f 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -193,7 +193,7 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::REGISTER_MESH:
-				    script.meshes.push_back(c->read_line(true));
+				    script.meshes.push_back(c->read_line(false));
 				    break;
 			    case ModelScriptBinaryChunkType::ANIMATION: {
 				    MdsAnimation anim {};
@@ -291,7 +291,7 @@ namespace zenkit {
 					    ZKLOGW("ModelScript", "Unexpected type for modelTag: \"%s\"", event_type.c_str());
 				    }
 
-				    tag.bone = c->read_line(true);
+				    tag.bone = c->read_line(false);
 				    script.model_tags.push_back(std::move(tag));
 				    break;
 			    }
@@ -310,15 +310,15 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
-					    event.slot = c->read_line(true);
+					    event.slot = c->read_line(false);
 					    break;
 				    case MdsEventType::SET_FIGHT_MODE: {
-					    if (auto mode = c->read_line(true); mode == "FIST") {
+					    if (auto mode = c->read_line(false); mode == "FIST") {
 						    event.fight_mode = MdsFightMode::FIST;
 					    } else if (mode == "1H" || mode == "1h") {
 						    event.fight_mode = MdsFightMode::SINGLE_HANDED;
@@ -336,14 +336,14 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::HIT_DIRECTION:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::SOUND_DRAW:
 				    case MdsEventType::SOUND_UNDRAW:
@@ -351,14 +351,14 @@ namespace zenkit {
 				    case MdsEventType::ITEM_DESTROY:
 				    case MdsEventType::TORCH_INVENTORY:
 				    case MdsEventType::ITEM_REMOVE:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::DAMAGE_MULTIPLIER:
 				    case MdsEventType::PARRY_FRAME:
 				    case MdsEventType::OPTIMAL_FRAME:
 				    case MdsEventType::HIT_END:
 				    case MdsEventType::COMBO_WINDOW: {
-					    auto frames = c->read_line(true);
+					    auto frames = c->read_line(false);
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-- 
2.43.0


From e2f785d4e356f623a762acd55c7a854bbdf76951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:19 +0000
Subject: [PATCH 081/116] fix: keep the argument of events in model script
 sources as in compiled ones

---
 src/ModelScript.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 14de47f..15aeaed 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -122,6 +122,13 @@ namespace zenkit {
 				evt.slot2 = b.value_or("");
 				break;
 			case MdsEventType::HIT_LIMB:
+			case MdsEventType::HIT_DIRECTION:
+			case MdsEventType::SOUND_DRAW:
+			case MdsEventType::SOUND_UNDRAW:
+			case MdsEventType::MUNITION_REMOVE:
+			case MdsEventType::ITEM_DESTROY:
+			case MdsEventType::ITEM_REMOVE:
+			case MdsEventType::TORCH_INVENTORY:
 				evt.slot = a.value_or("");
 				break;
 			case MdsEventType::DAMAGE_MULTIPLIER:
-- 
2.43.0


From 2ae44a0b5014fb3e0a5581f7d45c8bf380a6130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 082/116] fix: reject textures which claim to have more mipmap
 levels than possible

---
 src/Texture.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index 474f06f..af4c81d 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -293,6 +293,12 @@ namespace zenkit {
 		this->_m_width = r->read_uint();
 		this->_m_height = r->read_uint();
 		this->_m_mipmap_count = std::max(1u, r->read_uint());
+
+		// Every level halves the 32-bit extents of the one before until it has a single pixel.
+		if (this->_m_mipmap_count > 32) {
+			throw ParserError {"texture", "too many mipmap levels: " + std::to_string(this->_m_mipmap_count)};
+		}
+
 		this->_m_reference_width = r->read_uint();
 		this->_m_reference_height = r->read_uint();
 		this->_m_average_color = r->read_uint();
-- 
2.43.0


From 68283c9a4ed6608f9d0a4becd101655dd428b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 083/116] fix: reject model meshes with more attachments than
 names

---
 src/ModelMesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 20ae236..0d4c4f0 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelMesh.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 namespace zenkit {
@@ -44,6 +45,10 @@ namespace zenkit {
 				    break;
 			    }
 			    case ModelMeshChunkType::PROTO:
+				    if (this->attachments.size() >= attachment_names.size()) {
+					    throw ParserError {"ModelMesh", "attachment without a name"};
+				    }
+
 				    this->attachments[attachment_names[this->attachments.size()]].load_from_section(c);
 				    break;
 			    case ModelMeshChunkType::SOFTSKINS: {
-- 
2.43.0


From 89acc135bda4efe124c5bf672f2ee8bea390099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 084/116] fix: reject lightmaps which refer to a missing
 texture

---
 src/Mesh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index c162883..3d84024 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/Mesh.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include <algorithm>
@@ -155,6 +156,10 @@ namespace zenkit {
 					    auto normal_b = c->read_vec3();
 					    std::uint32_t texture_index = c->read_uint();
 
+					    if (texture_index >= lightmap_textures.size()) {
+						    throw ParserError {"Mesh", "lightmap refers to a texture which does not exist"};
+					    }
+
 					    this->lightmaps.emplace_back(
 					        LightMap {lightmap_textures[texture_index], {normal_a, normal_b}, origin});
 				    }
-- 
2.43.0


From a0d869816947098010996e931cb1734a577508dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 085/116] fix: reject trees whose leaves refer to missing
 polygons

---
 src/world/BspTree.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index e7dcc80..edea597 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -1,6 +1,7 @@
 // Copyright © 2021-2024 GothicKit Contributors.
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/BspTree.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "../Internal.hh"
@@ -101,6 +102,11 @@ namespace zenkit {
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
 
+					if (node.polygon_index > this->polygon_indices.size() ||
+					    node.polygon_count > this->polygon_indices.size() - node.polygon_index) {
+						throw ParserError {"BspTree", "leaf refers to polygons which do not exist"};
+					}
+
 					for (uint32_t i = 0; i < node.polygon_count; ++i) {
 						this->leaf_polygons.push_back(this->polygon_indices[node.polygon_index + i]);
 					}
-- 
2.43.0


From aed89d8b93d53809600c42334fde69bbd815702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 086/116] fix: reject key tables of binsafe archives with
 invalid insertion indices

---
 src/archive/ArchiveBinsafe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 23a4211..f650537 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -28,6 +28,10 @@ namespace zenkit {
 				auto hash_value = read->read_uint();
 				auto key = read->read_string(key_length);
 
+				if (insertion_index >= _m_hash_table_entries.size()) {
+					throw ParserError {"ReadArchive.Binsafe", "invalid insertion index in hash table"};
+				}
+
 				_m_hash_table_entries[insertion_index] = hash_table_entry {key, hash_value};
 			}
 
-- 
2.43.0


From 5a902260085baa95c7261c790076a65f354c7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 087/116] fix: reject unknown keys in binsafe archives

---
 src/archive/ArchiveBinsafe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index f650537..2dd9d2b 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -107,6 +107,10 @@ namespace zenkit {
 		}
 
 		auto hash = read->read_uint();
+		if (hash >= _m_hash_table_entries.size()) {
+			throw ParserError {"ReadArchive.Binsafe", "invalid entry key"};
+		}
+
 		return _m_hash_table_entries[hash].key;
 	}
 
-- 
2.43.0


From 67132fa767395f371f02a7ce7b6eea26209bc5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 088/116] fix: do not leave objects in binary archives which
 were never entered

---
 src/archive/ArchiveBinary.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 028571c..6d10b21 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -47,7 +47,7 @@ namespace zenkit {
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && read->tell() == _m_object_end.top()) {
 			_m_object_end.pop();
 			return true;
 		}
@@ -122,6 +122,10 @@ namespace zenkit {
 
 	void ReadArchiveBinary::skip_object(bool skip_current) {
 		if (skip_current) {
+			if (_m_object_end.empty()) {
+				throw ParserError {"ReadArchiveBinary", "cannot skip object: not inside of an object"};
+			}
+
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-- 
2.43.0


From d3fcb334a5ed391d887544a146ea6cc7bac16844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 089/116] fix: do not read on forever when skipping objects at
 the end of an archive

---
 src/Archive.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..7b9e279 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -535,6 +535,8 @@ namespace zenkit {
 				++level;
 			} else if (read_object_end()) {
 				--level;
+			} else if (this->read->eof()) {
+				throw ParserError {"ReadArchive", "unexpected end of archive while skipping an object"};
 			} else {
 				skip_entry();
 			}
-- 
2.43.0


From 85ef2a1bd62830227085cf2cd7d48abc5a14ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 090/116] fix: do not load waypoints which are missing from the
 archive

---
 src/world/WayNet.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 19965f4..7a04cac 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -29,7 +29,12 @@ namespace zenkit {
 		this->points.reserve(count_points);
 
 		for (auto i = 0; i < count_points; ++i) {
-			this->points.push_back(r.read_object<WayPoint>(version));
+			auto point = r.read_object<WayPoint>(version);
+			if (point == nullptr) {
+				throw ParserError {"WayNet", "expected waypoint"};
+			}
+
+			this->points.push_back(std::move(point));
 			this->points.back()->free_point = true;
 		}
 
-- 
2.43.0


From 51970e5f26c53505a827082300cf8e34222f1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 091/116] fix: reject cutscene blocks without a content

---
 src/CutsceneLibrary.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 1e3043d..319a5c1 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -80,6 +80,10 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
+		if (blk == nullptr) {
+			throw ParserError {"CutsceneLibrary", "expected a block for " + this->name};
+		}
+
 		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
-- 
2.43.0


From fc3ec0d590eb18c221ace05715678437ba72708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 092/116] fix: reject cutscene libraries with missing blocks

---
 src/CutsceneLibrary.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 319a5c1..43a5b66 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -125,7 +125,12 @@ namespace zenkit {
 		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
 
 		for (auto i = 0; i < item_count; ++i) {
-			this->blocks.push_back(r.read_object<CutsceneBlock>(version));
+			auto block = r.read_object<CutsceneBlock>(version);
+			if (block == nullptr) {
+				throw ParserError {"CutsceneLibrary", "expected a block"};
+			}
+
+			this->blocks.push_back(std::move(block));
 		}
 
 		// Prepare blocks for binary search in block_by_name
-- 
2.43.0


From e594ab9f84d601aae2068bc7fd46d82553dfff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 093/116] fix: do not crash on missing inventory items of NPCs

---
 src/vobs/Misc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 7f1e07b..161c7c2 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -384,7 +384,7 @@ namespace zenkit {
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (this->items[i] != nullptr && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
-- 
2.43.0


From 1faa8540b166f9e91513605ebeef90d562fed604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:09 +0000
Subject: [PATCH 094/116] fix: do not read on forever when the mesh of a world
 is cut off

---
 src/World.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/World.cc b/src/World.cc
index 0254bed..ff201dc 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -98,6 +98,10 @@ namespace zenkit {
 				do {
 					chunk_type = raw->read_ushort();
 					raw->seek(raw->read_uint(), Whence::CUR);
+
+					if (raw->eof()) {
+						throw ParserError {"World", "unexpected end of MeshAndBsp"};
+					}
 				} while (chunk_type != 0xB060);
 
 				auto is_xzen = r.get_header().user == "XZEN";
-- 
2.43.0


From e21cf090d9bc62faf4602d02433091df3adc272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:36 +0000
Subject: [PATCH 095/116] fix: reject binsafe archives whose key table is cut
 off

---
 src/archive/ArchiveBinsafe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 2dd9d2b..6163571 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -19,6 +19,10 @@ namespace zenkit {
 			auto mark = read->tell();
 			read->seek(hash_table_offset, Whence::BEG);
 
+			if (read->eof() || read->tell() != hash_table_offset) {
+				throw ParserError {"ReadArchive.Binsafe", "hash table missing"};
+			}
+
 			auto hash_table_size = read->read_uint();
 			_m_hash_table_entries.resize(hash_table_size);
 
-- 
2.43.0


From e71c3000964e035660d34f1851cdecf0a6285a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:36 +0000
Subject: [PATCH 096/116] fix: do not skip children of unknown objects forever
 when an archive ends early

---
 src/world/VobTree.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/world/VobTree.cc b/src/world/VobTree.cc
index 37134c9..eab47bc 100644
--- a/src/world/VobTree.cc
+++ b/src/world/VobTree.cc
@@ -2,6 +2,8 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/world/VobTree.hh"
 #include "zenkit/Archive.hh"
+#include "zenkit/Error.hh"
+#include "zenkit/Stream.hh"
 #include "zenkit/vobs/VirtualObject.hh"
 
 namespace zenkit {
@@ -18,7 +20,11 @@ namespace zenkit {
 		if (object == nullptr) {
 			std::function<void(size_t)> skip;
 			skip = [&skip, &in](size_t count) {
-				for (auto i = 0u; i < count; ++i) {
+				for (size_t i = 0; i < count; ++i) {
+					if (in.get_stream()->eof()) {
+						throw ParserError {"VobTree", "unexpected end of archive"};
+					}
+
 					in.skip_object(false);
 
 					auto num_children = static_cast<size_t>(in.read_int());
-- 
2.43.0


From 3b4d62674d46893dbfa1ff9e448b1bec5e6c432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:27 +0000
Subject: [PATCH 097/116] fix: do not move backwards when skipping objects of
 binary archives

---
 src/archive/ArchiveBinary.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6d10b21..15f9b98 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -126,10 +126,19 @@ namespace zenkit {
 				throw ParserError {"ReadArchiveBinary", "cannot skip object: not inside of an object"};
 			}
 
+			if (_m_object_end.top() < read->tell()) {
+				throw ParserError {"ReadArchiveBinary", "invalid object size"};
+			}
+
 			read->seek(static_cast<ssize_t>(_m_object_end.top()), Whence::BEG);
 			_m_object_end.pop();
 		} else {
-			read->seek(read->read_uint() - 4, Whence::CUR);
+			auto size = read->read_uint();
+			if (size < sizeof(uint32_t)) {
+				throw ParserError {"ReadArchiveBinary", "invalid object size"};
+			}
+
+			read->seek(size - sizeof(uint32_t), Whence::CUR);
 		}
 	}
 
-- 
2.43.0


From fb913c967073d9c68ed27eea9550cf7dec1dd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:57 +0000
Subject: [PATCH 098/116] fix: reject accesses to members of other classes on
 opaque instances

---
 include/zenkit/DaedalusScript.hh |  8 +++++++-
 src/DaedalusScript.cc            | 11 ++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 48f9ac2..90e4cad 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -314,7 +314,7 @@ namespace zenkit {
 		ZKAPI ~DaedalusOpaqueInstance() override;
 
 	protected:
-		friend class symbol;
+		friend class DaedalusSymbol;
 
 		ZKAPI std::uint8_t* data() override {
 			return _m_storage.get();
@@ -330,6 +330,7 @@ namespace zenkit {
 
 		std::unique_ptr<std::uint8_t[]> _m_storage;
 		std::vector<std::string*> _m_strings;
+		std::uint32_t _m_class_index;
 	};
 
 	/// \brief Represents object instance in the script with no defined backing to memory.
@@ -688,6 +689,7 @@ namespace zenkit {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
 			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(*context)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_opaque_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -699,12 +701,16 @@ namespace zenkit {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
 			if (!context->_m_type) throw DaedalusIllegalContextType {this, typeid(*context)};
 			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_opaque_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
 			return reinterpret_cast<T*>(data_ptr + target_offset);
 		}
 
+		/// \brief Makes sure that an opaque context instance is of the class this member belongs to.
+		ZKAPI void check_opaque_context(DaedalusInstance const* context) const;
+
 	private:
 		friend class DaedalusScript;
 		std::string _m_name;
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index aab7b86..9ae2ed1 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -590,6 +590,14 @@ namespace zenkit {
 		std::get<std::shared_ptr<DaedalusInstance>>(_m_value) = inst;
 	}
 
+	void DaedalusSymbol::check_opaque_context(DaedalusInstance const* context) const {
+		// All opaque instances share the same C++ type, regardless of their class.
+		if (*_m_registered_to != typeid(DaedalusOpaqueInstance)) return;
+
+		auto cls = static_cast<DaedalusOpaqueInstance const*>(context)->_m_class_index;
+		if (parent() != cls) throw DaedalusIllegalInstanceAccess {this, cls};
+	}
+
 	void DaedalusSymbol::grow(uint32_t n) {
 		auto& value = this->_m_value;
 
@@ -638,7 +646,8 @@ namespace zenkit {
 	}
 
 	DaedalusOpaqueInstance::DaedalusOpaqueInstance(DaedalusSymbol const& sym,
-	                                               std::vector<DaedalusSymbol*> const& members) {
+	                                               std::vector<DaedalusSymbol*> const& members)
+	    : _m_class_index(sym.index()) {
 		size_t str_count = 0;
 		for (auto* member : members) {
 			if (member->type() != DaedalusDataType::STRING) continue;
-- 
2.43.0


From c74aacece475aa809599ab8d323bbb9e05d1cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:57 +0000
Subject: [PATCH 099/116] fix: do not terminate when an external fails while
 the stack is full

---
 src/DaedalusVm.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 05e8869..f0322a2 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -36,7 +36,11 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			try {
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (DaedalusVmException const&) {
+				// There is no space left on the stack. Throwing from here would terminate the program.
+			}
 		}
 
 		/// \brief Inhibits this guard.
-- 
2.43.0


From 071f453fd881953069fa4b04d780c8338354eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:25 +0000
Subject: [PATCH 100/116] fix: do not look for function parameters past the end
 of the symbol table

---
 src/DaedalusScript.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 9ae2ed1..efcdeed 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -197,8 +197,9 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) {
-		return std::span<DaedalusSymbol>(_m_symbols.begin() + parent->index() + 1,
-		                                 _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<std::size_t>(parent->index() + 1, _m_symbols.size());
+		auto const count = std::min<std::size_t>(parent->count(), _m_symbols.size() - first);
+		return std::span<DaedalusSymbol>(_m_symbols.data() + first, count);
 	}
 
 	std::span<DaedalusSymbol> DaedalusScript::find_locals_for_function(DaedalusSymbol const* parent) {
@@ -217,8 +218,9 @@ namespace zenkit {
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-		return std::span<DaedalusSymbol const>(_m_symbols.begin() + parent->index() + 1,
-		                                       _m_symbols.begin() + parent->index() + parent->count() + 1);
+		auto const first = std::min<std::size_t>(parent->index() + 1, _m_symbols.size());
+		auto const count = std::min<std::size_t>(parent->count(), _m_symbols.size() - first);
+		return std::span<DaedalusSymbol const>(_m_symbols.data() + first, count);
 	}
 
 	std::vector<DaedalusSymbol*> DaedalusScript::find_class_members(DaedalusSymbol const& cls) {
-- 
2.43.0


From deec69287852094fb8bce9d309aab35bb63d6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 101/116] fix: do not create opaque instances of classes which
 are not registered as opaque

---
 src/DaedalusVm.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f0322a2..8be46eb 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -91,6 +91,10 @@ namespace zenkit {
 	}
 
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
+		if (sym == nullptr) {
+			throw DaedalusVmException {"Cannot init instance: not found"};
+		}
+
 		auto cls = sym;
 		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
 			cls = find_symbol_by_index(cls->parent());
@@ -101,6 +105,11 @@ namespace zenkit {
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			// The members of the class are only laid out when it is registered.
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From 3bc32741fa90eb9a19d0ad6b5a06572404aaf4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 102/116] fix: reject registering missing classes as opaque

---
 src/DaedalusScript.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index efcdeed..e8e330f 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -235,6 +235,8 @@ namespace zenkit {
 	}
 
 	void DaedalusScript::register_as_opaque(DaedalusSymbol* sym) {
+		if (sym == nullptr) throw DaedalusScriptError {"cannot register class as opaque: not found"};
+
 		auto members = find_class_members(*sym);
 
 		auto registered_to = &typeid(DaedalusOpaqueInstance);
-- 
2.43.0


From 70d650b687a95f356d81a78bf420352876cf7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:25 +0000
Subject: [PATCH 103/116] fix: do not look for the class of an instance forever
 if it is its own parent

---
 include/zenkit/DaedalusVm.hh |  8 +++++---
 src/DaedalusVm.cc            | 15 +++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 188f083..1f48e36 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -316,9 +316,7 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
-				parent = find_symbol_by_index(parent->parent());
-			}
+			parent = find_class_of(parent);
 
 			if (parent == nullptr || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
@@ -712,6 +710,10 @@ namespace zenkit {
 		                      std::string_view value);
 
 	protected:
+		/// \brief Finds the class a symbol is derived from.
+		/// \return The class or <tt>nullptr</tt> if there is none.
+		ZKAPI DaedalusSymbol* find_class_of(DaedalusSymbol* sym);
+
 		/// \brief Runs the instruction at the current program counter and advances it properly.
 		/// \return false, the instruction executed was a op_return instruction, otherwise true.
 		ZKINT bool exec();
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 8be46eb..459efea 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -90,15 +90,22 @@ namespace zenkit {
 		_m_item_sym = find_symbol_by_name("ITEM");
 	}
 
+	DaedalusSymbol* DaedalusVm::find_class_of(DaedalusSymbol* sym) {
+		// In broken scripts, a symbol may be its own ancestor.
+		for (auto depth = symbols().size(); depth > 0 && sym != nullptr; --depth) {
+			if (sym->type() == DaedalusDataType::CLASS) return sym;
+			sym = find_symbol_by_index(sym->parent());
+		}
+
+		return nullptr;
+	}
+
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
 		if (sym == nullptr) {
 			throw DaedalusVmException {"Cannot init instance: not found"};
 		}
 
-		auto cls = sym;
-		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
-			cls = find_symbol_by_index(cls->parent());
-		}
+		auto cls = find_class_of(sym);
 		if (cls == nullptr) {
 			// We're probably trying to initialize $INSTANCE_HELP which is not permitted
 			throw DaedalusVmException {"Cannot init " + sym->name() +
-- 
2.43.0


From bd204c051286634999a33596e67a5e2d2848235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:15 +0000
Subject: [PATCH 104/116] fix: do not look up the names of unknown datatypes of
 script symbols

---
 include/zenkit/DaedalusScript.hh | 6 ++++++
 src/DaedalusScript.cc            | 2 +-
 src/DaedalusVm.cc                | 4 ++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 90e4cad..ab97a74 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -51,6 +51,12 @@ namespace zenkit {
 	    "instance",
 	};
 
+	/// \brief Get the name of a datatype. Broken scripts may contain datatypes which don't exist.
+	constexpr char const* daedalus_data_type_name(DaedalusDataType type) {
+		auto index = static_cast<std::uint32_t>(type);
+		return index < std::size(DAEDALUS_DATA_TYPE_NAMES) ? DAEDALUS_DATA_TYPE_NAMES[index] : "<unknown>";
+	}
+
 	/// \brief Flags of symbols.
 	namespace DaedalusSymbolFlag {
 		static constexpr auto CONST = 1U << 0U;       ///< The symbol is not mutable.
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index e8e330f..ad6fb63 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -18,7 +18,7 @@ namespace zenkit {
 	                                                                         std::string&& provided)
 	    : DaedalusMemberRegistrationError(s,
 	                                      "wrong datatype: provided '" + provided + "' expected " +
-	                                          DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())]) {}
+	                                          daedalus_data_type_name(s->type())) {}
 
 	DaedalusIllegalTypeAccess::DaedalusIllegalTypeAccess(DaedalusSymbol const* s, DaedalusDataType expected_dt)
 	    : DaedalusIllegalAccess("illegal access of type " + std::to_string(static_cast<int32_t>(expected_dt)) +
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 459efea..979028e 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -1055,7 +1055,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(
 	          s,
 	          "external " + s->name() + " has illegal return type '" + provided + "', expected '" +
-	              DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->rtype())] + "'") {}
+	              daedalus_data_type_name(s->rtype()) + "'") {}
 
 	DaedalusIllegalExternalParameter::DaedalusIllegalExternalParameter(DaedalusSymbol const* s,
 	                                                                   std::string&& provided,
@@ -1063,7 +1063,7 @@ namespace zenkit {
 	    : DaedalusIllegalExternalDefinition(s,
 	                                        "external " + s->name() + " has illegal parameter type '" + provided +
 	                                            "' (no. " + std::to_string(i) + "), expected '" +
-	                                            DAEDALUS_DATA_TYPE_NAMES[static_cast<std::uint32_t>(s->type())] + "'") {
+	                                            daedalus_data_type_name(s->type()) + "'") {
 	}
 
 	DaedalusVmExceptionStrategy
-- 
2.43.0


From 7a393d0c7f40071957ba8a46174291f4194b7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:15 +0000
Subject: [PATCH 105/116] fix: do not look for missing cutscenes in an archive
 over and over again

---
 src/SaveGame.cc | 5 +++++
 src/World.cc    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index eda58bf..8617955 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -68,7 +68,12 @@ namespace zenkit {
 	void CutsceneManager::load(ReadArchive& r, GameVersion version) {
 		auto pool_count = r.read_int(); // poolCount
 		for (auto i = 0; i < pool_count; ++i) {
+			auto mark = r.get_stream()->tell();
 			this->pool_items.push_back(r.read_object<CutscenePoolItem>(version));
+
+			if (r.get_stream()->tell() == mark) {
+				throw ParserError {"CutsceneManager", "missing pool item"};
+			}
 		}
 	}
 
diff --git a/src/World.cc b/src/World.cc
index ff201dc..abeb591 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -260,7 +260,12 @@ namespace zenkit {
 
 		auto play_list_count = r.read_int(); // playListCount
 		for (auto i = 0; i < play_list_count; ++i) {
+			auto mark = r.get_stream()->tell();
 			playlists.push_back(r.read_object<CutsceneContext>(version));
+
+			if (r.get_stream()->tell() == mark) {
+				throw ParserError {"CutscenePlayer", "missing play context"};
+			}
 		}
 	}
 
-- 
2.43.0


From a2277a9d6e19f46829301ac4688aafe3b5bfdcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:57 +0000
Subject: [PATCH 106/116] fix: do not pop missing return values of called
 functions off of the stack

---
 include/zenkit/DaedalusVm.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 1f48e36..5832f2c 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -145,9 +145,9 @@ namespace zenkit {
 				check_call_return_type<R>(sym);
 			}
 
-			if constexpr (sizeof...(P) > 0) {
-				auto const stack_ptr = _m_stack_ptr;
+			auto const stack_ptr = _m_stack_ptr;
 
+			if constexpr (sizeof...(P) > 0) {
 				try {
 					push_call_parameters<0, P...>(params, args...);
 				} catch (...) {
@@ -160,7 +160,7 @@ namespace zenkit {
 			unsafe_call(sym);
 
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
-				if (sym->has_return()) {
+				if (sym->has_return() && _m_stack_ptr > stack_ptr) {
 					// Make sure to still pop the return value off of the stack.
 					_m_stack_ptr--;
 				}
-- 
2.43.0


From d57f080af4017a3997a930802018f462d25016a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:15 +0000
Subject: [PATCH 107/116] fix: do not keep missing return values when restoring
 local variables

---
 src/DaedalusVm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 979028e..134f97d 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -548,7 +548,7 @@ namespace zenkit {
 		}
 
 		if (call.function->has_local_variables_enabled()) {
-			pop_local_variables(call.function, call.function->has_return());
+			pop_local_variables(call.function, call.function->has_return() && _m_stack_ptr > call.stack_ptr);
 		}
 
 		// Second, reset PC and context, then remove the call stack frame
-- 
2.43.0


From ca387825962721e16a8ed822e650531ba7a587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 108/116] fix: reject events of model scripts which do not
 belong to an animation

---
 src/ModelScript.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 15aeaed..75f102a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -2,6 +2,7 @@
 // SPDX-License-Identifier: MIT
 #include "zenkit/ModelScript.hh"
 #include "zenkit/Date.hh"
+#include "zenkit/Error.hh"
 #include "zenkit/Stream.hh"
 
 #include "Internal.hh"
@@ -187,10 +188,18 @@ namespace zenkit {
 
 	void parse_binary_script(ModelScript& script, Read* r) {
 		auto ani_index = static_cast<uint32_t>(-1);
+		auto current_animation = [&script, &ani_index]() -> MdsAnimation& {
+			if (ani_index >= script.animations.size()) {
+				throw ParserError {"ModelScript.Binary", "event without an animation"};
+			}
+
+			return script.animations[ani_index];
+		};
+
 		proto::read_chunked<ModelScriptBinaryChunkType>(
 		    r,
 		    "ModelScript.Binary",
-		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+		    [&script, &ani_index, &current_animation](Read* c, ModelScriptBinaryChunkType type) {
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
@@ -268,7 +277,7 @@ namespace zenkit {
 				    trem.field2 = c->read_int();
 				    trem.field3 = c->read_int();
 				    trem.field4 = c->read_int();
-				    script.animations[ani_index].tremors.push_back(trem);
+				    current_animation().tremors.push_back(trem);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX: {
@@ -277,7 +286,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx.push_back(std::move(effect));
+				    current_animation().sfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_SFX_GROUND: {
@@ -286,7 +295,7 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.range = c->read_float();
 				    effect.empty_slot = c->read_uint() != 0;
-				    script.animations[ani_index].sfx_ground.push_back(std::move(effect));
+				    current_animation().sfx_ground.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::MODEL_TAG: {
@@ -378,7 +387,7 @@ namespace zenkit {
 					    break;
 				    }
 
-				    script.animations[ani_index].events.push_back(std::move(event));
+				    current_animation().events.push_back(std::move(event));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX: {
@@ -388,14 +397,14 @@ namespace zenkit {
 				    effect.name = c->read_line(false);
 				    effect.position = c->read_line(false);
 				    effect.attached = c->read_uint() != 0;
-				    script.animations[ani_index].pfx.push_back(std::move(effect));
+				    current_animation().pfx.push_back(std::move(effect));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_PFX_STOP: {
 				    MdsParticleEffectStop effect {};
 				    effect.frame = c->read_int();
 				    effect.index = c->read_int();
-				    script.animations[ani_index].pfx_stop.push_back(effect);
+				    current_animation().pfx_stop.push_back(effect);
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::EVENT_MM_ANI: {
@@ -405,7 +414,7 @@ namespace zenkit {
 				    anim.node = c->read_line(false);
 				    (void) c->read_float();
 				    (void) c->read_float();
-				    script.animations[ani_index].morph.push_back(std::move(anim));
+				    current_animation().morph.push_back(std::move(anim));
 				    break;
 			    }
 			    case ModelScriptBinaryChunkType::ROOT:
-- 
2.43.0


From 9a06157a41a789fbcf94c0f308899124b0dcd114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:21 +0000
Subject: [PATCH 109/116] fix: keep the archive header's length when midnight
 passes while writing

---
 src/archive/ArchiveAscii.cc   | 4 +---
 src/archive/ArchiveAscii.hh   | 3 +++
 src/archive/ArchiveBinary.cc  | 4 +---
 src/archive/ArchiveBinary.hh  | 2 ++
 src/archive/ArchiveBinsafe.cc | 4 +---
 src/archive/ArchiveBinsafe.hh | 2 ++
 6 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 375d7a3..1ab2147 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -424,9 +424,7 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..d6906df 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -4,6 +4,8 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
+
 namespace zenkit {
 	class ReadArchiveAscii final : public ReadArchive {
 	public:
@@ -77,5 +79,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 15f9b98..aa0272e 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -260,9 +260,7 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..2373e27 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
 #include <stack>
 
 namespace zenkit {
@@ -77,5 +78,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 6163571..f95d931 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -435,9 +435,7 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
+		auto* time = std::localtime(&_m_time);
 		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
 
 		this->_m_write->write_line("ZenGin Archive");
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..9c9ddf1 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Archive.hh"
 #include "zenkit/Stream.hh"
 
+#include <ctime>
 #include <map>
 #include <vector>
 
@@ -124,5 +125,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::time_t _m_time {std::time(nullptr)};
 	};
 } // namespace zenkit
-- 
2.43.0


From 05fd773e9ad5db055c00c8c00a164c49b78ba6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:38 +0000
Subject: [PATCH 110/116] fix: SaveGame reports a SAVEINFO.SAV without metadata
 instead of dereferencing a null pointer

---
 src/SaveGame.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 8617955..a3aec32 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -304,7 +304,12 @@ namespace zenkit {
 
 			auto r = Read::from(*file_save_info);
 			auto ar = ReadArchive::from(r.get());
-			this->metadata = *ar->read_object<SaveMetadata>(_m_version);
+			auto info = ar->read_object<SaveMetadata>(_m_version);
+			if (info == nullptr) {
+				throw ParserError {"SaveGame", "SAVEINFO.SAV does not contain any metadata"};
+			}
+
+			this->metadata = *info;
 		}
 
 		// Load THUMB.SAV
-- 
2.43.0


From 620992595108194c78aff29f52e4b60aa14d818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:38 +0000
Subject: [PATCH 111/116] fix: SaveGame no longer keeps the thumbnail of the
 previous slot when loading one without

---
 src/SaveGame.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index a3aec32..ad2dc0c 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -315,6 +315,7 @@ namespace zenkit {
 		// Load THUMB.SAV
 		{
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
+			this->thumbnail.reset();
 			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
 				auto r = Read::from(*file_thumb);
 
-- 
2.43.0


From d03d0497f78ff962b286f8f31e6700d732a80ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:06 +0000
Subject: [PATCH 112/116] fix: Mmap reports a mapping which failed, for example
 that of a directory, instead of using MAP_FAILED as data

---
 src/MmapPosix.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..dc38845 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -17,15 +17,20 @@ namespace zenkit {
 
 		struct stat st {};
 		if (fstat(handle, &st) != 0) {
+			close(handle);
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
-		_m_data =
-		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		// An empty file can't be mapped.
+		auto data = st.st_size == 0
+		    ? nullptr
+		    : mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0);
+		if (data == MAP_FAILED) {
+			close(handle);
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
+		_m_data = static_cast<std::byte*>(data);
 		_m_size = static_cast<std::size_t>(st.st_size);
 		_m_platform_handle = (void*) _m_data;
 
-- 
2.43.0


From d15c3e0c1da756c848de9047bd1ec9e449484e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:06 +0000
Subject: [PATCH 113/116] fix: Vfs::mount_host keeps the Unix time of files so
 that they compare to those of disks

---
 src/Vfs.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 0f255d0..3a40004 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -569,6 +569,15 @@ namespace zenkit {
 		return pNode->remove(childName);
 	}
 
+	/// Converts the time of a host file. The epoch of the file clock is not that of the Unix time.
+	static std::time_t vfs_host_to_unix_time(std::filesystem::file_time_type host) {
+		auto host_now = std::filesystem::file_time_type::clock::now();
+		auto unix_now = std::chrono::system_clock::now();
+		auto time = std::chrono::time_point_cast<std::chrono::system_clock::duration>(unix_now + (host - host_now));
+		return static_cast<std::time_t>(
+		    std::chrono::floor<std::chrono::seconds>(time.time_since_epoch()).count());
+	}
+
 	void Vfs::mount_host(std::filesystem::path const& sourcePath,
 	                     std::string_view mountPoint,
 	                     VfsOverwriteBehavior overwrite) {
@@ -578,18 +587,17 @@ namespace zenkit {
 		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
-				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				    auto time = vfs_host_to_unix_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
+					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time.count()));
+					                                 time));
 #else
 					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
 					    auto size = stream.tellg();
@@ -600,7 +608,7 @@ namespace zenkit {
 
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time.count()));
+					                                 time));
 #endif
 				    }
 			    }
-- 
2.43.0


From f77e7c40bc6955ef62f181268ad9efe6878ac9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:20 +0000
Subject: [PATCH 114/116] fix: Vfs::mount_host mounts single files as
 documented

---
 src/Vfs.cc | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 3a40004..e1a2b96 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -583,38 +583,44 @@ namespace zenkit {
 	                     VfsOverwriteBehavior overwrite) {
 		auto root = VfsNode::directory(sourcePath.filename().string());
 
-		std::function<void(VfsNode*, std::filesystem::path const&)> load_directory =
-		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
-			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
-				    auto const& path = ref.path();
-				    auto time = vfs_host_to_unix_time(ref.last_write_time());
-
-				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
-					    load_directory(newP, path);
-				    } else if (ref.file_size() > 0) {
+		std::function<void(VfsNode*, std::filesystem::directory_entry const&)> load_entry =
+		    [this, &load_entry](VfsNode* parent, std::filesystem::directory_entry const& ref) {
+			    auto const& path = ref.path();
+			    auto time = vfs_host_to_unix_time(ref.last_write_time());
+
+			    if (ref.is_directory()) {
+				    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
+				    for (auto const& child : std::filesystem::directory_iterator(path)) {
+					    load_entry(newP, child);
+				    }
+			    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
-					    auto& mem = this->_m_data_mapped.emplace_back(path);
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time));
+				    auto& mem = this->_m_data_mapped.emplace_back(path);
+				    parent->create(VfsNode::file(path.filename().string(),
+				                                 VfsFileDescriptor {mem.data(), mem.size(), false},
+				                                 time));
 #else
-					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
-					    auto size = stream.tellg();
-					    stream.seekg(0);
+				    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
+				    auto size = stream.tellg();
+				    stream.seekg(0);
 
-					    auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
-					    stream.read((char*) data.get(), size);
+				    auto& data = _m_data.emplace_back(new std::byte[(size_t) size]);
+				    stream.read((char*) data.get(), size);
 
-					    parent->create(VfsNode::file(path.filename().string(),
-					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time));
+				    parent->create(VfsNode::file(path.filename().string(),
+				                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
+				                                 time));
 #endif
-				    }
 			    }
 		    };
 
-		load_directory(&root, sourcePath);
+		if (std::filesystem::is_regular_file(sourcePath)) {
+			load_entry(&root, std::filesystem::directory_entry {sourcePath});
+		} else {
+			for (auto const& child : std::filesystem::directory_iterator(sourcePath)) {
+				load_entry(&root, child);
+			}
+		}
 
 		for (auto& child : root.children()) {
 			this->mount(child, mountPoint, overwrite);
-- 
2.43.0


From d71d357a795fd82fc8c0c7b0211b931730c9c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:57 +0000
Subject: [PATCH 115/116] fix: SaveGame no longer deletes the current slot when
 saving to it under another spelling of its path

---
 src/SaveGame.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index ad2dc0c..a96801d 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -340,8 +340,12 @@ namespace zenkit {
 	}
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
+		// The same slot can be spelled in different ways.
+		auto is_current_slot = std::filesystem::exists(_m_path) && std::filesystem::exists(path) &&
+		    std::filesystem::equivalent(_m_path, path);
+
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
+		if (!is_current_slot) {
 			if (std::filesystem::exists(path)) {
 				std::filesystem::remove_all(path);
 			}
-- 
2.43.0


From 0ef0feeaae747d651c5e31c47260480c8f3907bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:38 +0000
Subject: [PATCH 116/116] fix: SaveGame creates missing parent folders of a
 slot also if another slot was loaded before

---
 src/SaveGame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index a96801d..e798e4b 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -350,10 +350,10 @@ namespace zenkit {
 				std::filesystem::remove_all(path);
 			}
 
+			std::filesystem::create_directories(path);
+
 			if (!_m_path.empty() && std::filesystem::exists(_m_path)) {
 				std::filesystem::copy(_m_path, path, std::filesystem::copy_options::recursive);
-			} else {
-				std::filesystem::create_directories(path);
 			}
 		}
 
-- 
2.43.0

