From cd39e82142f7d848d2350f02332878c18c362471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 01/14] fix: take the second level of a cruise climb from its
 own first character

---
 F15_Parser/F15Parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 1e7c25d..44899f5 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -548,21 +548,21 @@ class ParseF15:
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMF | TokenSubType.F15_SB_SPEED_ALTITUDE_NMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_NMA | TokenSubType.F15_SB_SPEED_ALTITUDE_NMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[5:10], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[11:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
                 self.assign_speed(ex_route_rec, token_string[0:5])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MFF | TokenSubType.F15_SB_SPEED_ALTITUDE_MFS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MFA | TokenSubType.F15_SB_SPEED_ALTITUDE_MFM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAF | TokenSubType.F15_SB_SPEED_ALTITUDE_MAS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MAA | TokenSubType.F15_SB_SPEED_ALTITUDE_MAM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:8], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[8:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case TokenSubType.F15_SB_SPEED_ALTITUDE_MSF | TokenSubType.F15_SB_SPEED_ALTITUDE_MSS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MSA | TokenSubType.F15_SB_SPEED_ALTITUDE_MSM | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMF | TokenSubType.F15_SB_SPEED_ALTITUDE_MMS | \
                     TokenSubType.F15_SB_SPEED_ALTITUDE_MMA | TokenSubType.F15_SB_SPEED_ALTITUDE_MMM:
                 self.assign_altitude(ers, token, ex_route_rec, token_string[4:9], False)
-                self.assign_altitude(ers, token, ex_route_rec, token_string[10:], True)
+                self.assign_altitude(ers, token, ex_route_rec, token_string[9:], True)
                 self.assign_speed(ex_route_rec, token_string[0:4])
             case _:
                 self.assign_altitude(ers, token, ex_route_rec, "X000", False)
-- 
2.43.0


From 8a79081b5f1f9dce32413d7598882a4871b1cf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/14] fix: correct the knots/altitude and km/flight level
 cruise climb syntax definitions

---
 F15_Parser/F15TokenSyntaxDescriptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/F15_Parser/F15TokenSyntaxDescriptions.py b/F15_Parser/F15TokenSyntaxDescriptions.py
index ebb3cfb..c3e634d 100644
--- a/F15_Parser/F15TokenSyntaxDescriptions.py
+++ b/F15_Parser/F15TokenSyntaxDescriptions.py
@@ -319,11 +319,11 @@ class F15TokenSyntaxDefinition:
          TokenSubType.F15_SB_SPEED_ALTITUDE_NSM],
         ["N[0-9]{4}A[0-9]{3}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAF],
-        ["N[0-9]{4}A[0-9]{4}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAS],
         ["N[0-9]{4}A[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAA],
-        ["N[0-9]{4}A[0-9]{4}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
+        ["N[0-9]{4}A[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NAM],
         ["N[0-9]{4}M[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_NMF],
@@ -338,7 +338,7 @@ class F15TokenSyntaxDefinition:
         ["K[0-9]{4}F[0-9]{3}S[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
         ["K[0-9]{4}F[0-9]{3}A[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-         TokenSubType.F15_SB_SPEED_ALTITUDE_KFS],
+         TokenSubType.F15_SB_SPEED_ALTITUDE_KFA],
         ["K[0-9]{4}F[0-9]{3}M[0-9]{4}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
          TokenSubType.F15_SB_SPEED_ALTITUDE_KFM],
         ["K[0-9]{4}S[0-9]{4}F[0-9]{3}", TokenBaseType.F15_SPEED_ALTITUDE_ALTITUDE,
-- 
2.43.0


From 69413bb47d52c38a233cb517d1202926f2758fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 03/14] fix: keep a lat/long following an ATS route in its
 place in the extracted route

---
 F15_Parser/F15Parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 44899f5..3f9babf 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1380,7 +1380,7 @@ class ParseF15:
                 if sub_type == TokenSubType.F15_SB_PRP_BD or sub_type == TokenSubType.F15_SB_LL_DEG or \
                     sub_type == TokenSubType.F15_SB_LL_MIN or sub_type == TokenSubType.F15_SB_LLBD_DEG or \
                         sub_type == TokenSubType.F15_SB_LLBD_MIN:
-                    self.add_error_and_re_sync(ers, tokens, next_token, 48)
+                    self.add_error_no_re_sync(ers, next_token, 48)
                 self.point(ers, tokens, next_token)
             case TokenBaseType.F15_ROUTE:
                 self.add_error_and_re_sync(ers, tokens, next_token, 53)
-- 
2.43.0


From d3a169f6989022c01ca1ac07e2611caa0c09fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 04/14] fix: do not end a break section on an element that is
 too long

---
 F15_Parser/F15Parse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 3f9babf..d867b3c 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -812,11 +812,7 @@ class ParseF15:
         next_token = tokens.get_next_token()
         if next_token is None:
             return
-        base_type = next_token.get_token_base_type()
-        if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, next_token, 4)
-        else:
-            self.break_text_save(ers, tokens, next_token)
+        self.break_text_save(ers, tokens, next_token)
 
     def break_text_save(self, ers, tokens, token):
         # type: (ExtractedRouteSequence, Tokens, Token) -> None
@@ -836,7 +832,7 @@ class ParseF15:
         """
         base_type = token.get_token_base_type()
         if base_type is TokenBaseType.F15_TOO_LONG:
-            self.add_error_and_re_sync(ers, tokens, token, 4)
+            self.add_error_no_re_sync(ers, token, 4)
 
         # Save the token as break text
         last_ers = ers.get_last_element()
-- 
2.43.0


From dfebda1789d2793d26e373a0a5a34ae1f1702474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 05/14] fix: keep parsing after a break end indicator found
 while re-synchronising

---
 F15_Parser/F15Parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index d867b3c..9df1bb4 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1300,6 +1300,8 @@ class ParseF15:
                 self.assign_speed_vfr(ers, tokens, token)
             case TokenBaseType.F15_BREAK_END:
                 self.break_end(ers, tokens, token)
+                # If no rule change took place the remaining tokens still have to be parsed
+                self.re_sync_parser_after_error(ers, tokens)
             case TokenBaseType.F15_DCT:
                 self.dct(ers, tokens, token)
             case TokenBaseType.F15_STAY:
-- 
2.43.0


From f911d58c0fa112214ec3f5adfeabb89b50a72a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 06/14] fix: return None for the record index just past the end
 of the sequence

---
 F15_Parser/ExtractedRouteSequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/F15_Parser/ExtractedRouteSequence.py b/F15_Parser/ExtractedRouteSequence.py
index e6a8ad2..a81e737 100644
--- a/F15_Parser/ExtractedRouteSequence.py
+++ b/F15_Parser/ExtractedRouteSequence.py
@@ -147,7 +147,7 @@ class ExtractedRouteSequence:
 
         :param index: The index of the extracted route record to be retrieved;
         :return: An instance of ExtractedRouteRecord located at index provided or None if index is out of range;"""
-        if index < 0 or index > self.get_number_of_elements():
+        if index < 0 or index >= self.get_number_of_elements():
             return None
         return self.extracted_route_records[index]
 
-- 
2.43.0


From 3283e0c74958cb880548f93fd08d6bac87865bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 07/14] fix: escape element, break and error text in the XML
 output

---
 F15_Parser/ExtractedRouteRecord.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fb9f8a..1fe6729 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -1,3 +1,5 @@
+from xml.sax.saxutils import escape
+
 from F15_Parser.F15TokenSyntaxDescriptions import TokenBaseType, TokenSubType
 
 
@@ -566,5 +568,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + error_or_break + "\"" + \
-               ">" + self.get_name() + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
+               ">" + escape(self.get_name()) + "</" + rec_type + ">"
-- 
2.43.0


From cb4ce3dee986d67ac6e47c692a689e91c52285d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 08/14] fix: assign the coordinates of a point that changes VFR
 to IFR and back to VFR

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 9df1bb4..b949a95 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1673,6 +1673,9 @@ class ParseF15:
         token = tokens.get_next_token()
         ex_route_rec = self.add_record(ers, token)
 
+        # Check lat/long and bearing distance semantics
+        self.assign_lat_long_bearing_distance(ers, token)
+
         # As this rule change is VFR to IFR and this is a speed altitude element,
         # the rules must be IFR
         ex_route_rec.set_flight_rules(self.RULES["I"])
-- 
2.43.0


From fb9ec667492ba9da6867c48df2aaa354cea8a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 09/14] fix: no bearing and distance across an intermediate
 point without coordinates

---
 F15_Parser/F15Parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index b949a95..5f46deb 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -254,6 +254,9 @@ class ParseF15:
                 last_minus_two_ers = ers.get_element_at(ers.get_number_of_elements()-3)
                 if last_minus_two_ers is None:
                     return
+                if last_but_one_ers.get_base_type() in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
+                    # The points are separated by another point whose position is not known
+                    return
                 if last_minus_two_ers.is_lat_long_valid():
                     # We have two points separated by a 'connector' element and
                     # both points have a valid Latitude / Longitude
-- 
2.43.0


From 59362e72f120450010f00baaf29df26569ad05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 10/14] fix: import the parser package by its name in the
 example program

---
 main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.py b/main.py
index 8c65f08..5a130e3 100644
--- a/main.py
+++ b/main.py
@@ -1,5 +1,5 @@
-from Parser.ExtractedRouteSequence import ExtractedRouteSequence
-from Parser.F15Parse import ParseF15
+from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
+from F15_Parser.F15Parse import ParseF15
 from Tokenizer.Tokenize import Tokenize
 
 # Example usage of the ICAO field 15 parser.
-- 
2.43.0


From 0ec525ad300e97ed73b7d7dc548c00acf0169037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 11/14] fix: report a cruise climb element without a point or
 without its second slash

---
 F15_Parser/F15Parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 5f46deb..131b8ce 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -918,6 +918,9 @@ class ParseF15:
                     # Report error, only have C/, should be more
                     self.add_error_and_re_sync(ers, tokens, slash_token, 52)
                     return
+                if next_token.get_token_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
+                    self.add_error_and_re_sync(ers, tokens, next_token, 17)
+                    return
                 # Process the cruise climb point
                 self.cruise_climb_point(ers, tokens, next_token)
             case TokenBaseType.F15_BREAK_START:
@@ -987,6 +990,7 @@ class ParseF15:
         base_type = next_token.get_token_base_type()
         if base_type is not TokenBaseType.F15_SLASH:
             self.add_error_and_re_sync(ers, tokens, next_token, 26)
+            return
 
         # Skip the forward slash and get the SPEED/ALTITUDE/ALTITUDE or
         # SPEED / ALTITUDE / PLUS token
-- 
2.43.0


From c5b14c32ee7dcac59c5ad9c8ce84f069b0bf5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 12/14] fix: Tokens.remove_tokens_from_end_of_list kept tokens
 for indices below -1

Every token above the index has to go; a negative slice end counted from
the end of the list, so index -2 removed only the last token.
---
 Tokenizer/Tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tokenizer/Tokens.py b/Tokenizer/Tokens.py
index 6a25980..a519808 100644
--- a/Tokenizer/Tokens.py
+++ b/Tokenizer/Tokens.py
@@ -147,7 +147,7 @@ class Tokens:
         :param split_index: Index above which all tokens will be removed
         :return: None
         """
-        self.tokens = self.tokens[:split_index + 1]
+        self.tokens = self.tokens[:max(split_index, -1) + 1]
 
     def print_tokens(self):
         # type: () -> None
-- 
2.43.0


From 6ccf4cfc078a1537a7d9d6fea3d6fad50db1a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 13/14] fix: a STAY met while re-synchronising gave its time to
 a record that is no point

After an error the last record can be the ADEP, an ATS route or a SID; the
stay time was stored there. Report the STAY instead, as elsewhere.
---
 F15_Parser/F15Parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/F15_Parser/F15Parse.py b/F15_Parser/F15Parse.py
index 131b8ce..64e0c55 100644
--- a/F15_Parser/F15Parse.py
+++ b/F15_Parser/F15Parse.py
@@ -1550,6 +1550,12 @@ class ParseF15:
             self.add_error_and_re_sync(ers, tokens, current_token, 38)
             return
 
+        # Re-synchronizing after an error can lead here without a preceding point
+        if ers.get_number_of_elements() < 2 or \
+                ers.get_last_element().get_base_type() not in (TokenBaseType.F15_POINT, TokenBaseType.F15_C):
+            self.add_error_and_re_sync(ers, tokens, token, 15)
+            return
+
         # Process the HHMM token
         self.stay_time(ers, tokens, next_token)
 
-- 
2.43.0


From 33f173dcc2a9412052f52b906091afbfa26dde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:32 +0000
Subject: [PATCH 14/14] fix: keep tabs and line ends of names and texts in the
 XML output

---
 F15_Parser/ExtractedRouteRecord.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/F15_Parser/ExtractedRouteRecord.py b/F15_Parser/ExtractedRouteRecord.py
index 1fe6729..c54fb69 100644
--- a/F15_Parser/ExtractedRouteRecord.py
+++ b/F15_Parser/ExtractedRouteRecord.py
@@ -543,6 +543,8 @@ class ExtractedRouteRecord:
                if False, a record is output with break text instead of error text. In all other
                respects the output is identical.
         :return: An XML string representing a single ERS record."""
+        # White space other than a blank is not kept by XML readers unless it is written as a character reference
+        blanks = {"\t": "&#9;", "\n": "&#10;", "\r": "&#13;"}
         if error:
             error_or_break = self.get_error_text()
             rec_type = "error_record"
@@ -568,5 +570,5 @@ class ExtractedRouteRecord:
                " altitude_cruise_to_si=\"" + "{0:.2f}".format(self.get_altitude_cruise_to_si()) + "\"" + \
                " latitude=\"" + "{0:>.2f}".format(self.get_latitude()) + "\"" + \
                " longitude=\"" + "{0:>.2f}".format(self.get_longitude()) + "\"" + \
-               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;"}) + "\"" + \
-               ">" + escape(self.get_name()) + "</" + rec_type + ">"
+               " " + attr_name + "=\"" + escape(error_or_break, {"\"": "&quot;", **blanks}) + "\"" + \
+               ">" + escape(self.get_name(), blanks) + "</" + rec_type + ">"
-- 
2.43.0

